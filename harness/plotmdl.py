"""Replay of plots.qnt: figures of models and bicycles over parameters."""
import copy
import re

import numpy as np

import mdl
import vlib
from vlib import fx, fxm, need, need_close
from c07 import GAINS

INV = ['boundary', 'quartic', 'bandsOK', 'rates']


def new_model(kind, base):
    if kind == 'lean':
        import lean
        return lean.new_model(base)
    return mdl.new_model(kind, base)


def samples(l):
    out = []
    for e in l:
        out.append({'par': mdl.par_floats(e['par']), 'A': np.array(fxm(e['A'])),
                    'chi': np.array(fxm(e['chi'])), 'top': fx(e['top']),
                    'resp': [{'idx': r['idx'], 'w': fx(r['w']), 'G': complex(fx(r['re']), fx(r['im']))}
                             for r in e['resp']]})
    return out


def keywords(call):
    kw = {}
    ks = sorted(call['arrs'])
    if call['first'] in ks:
        ks.remove(call['first'])
        ks.insert(0, call['first'])
    for k in ks:
        kw[k] = mdl.container([fx(x) for x in call['arrs'][k]], call['seq'], True)
    for k in sorted(call['scal']):
        kw[k] = fx(call['scal'][k])
    return kw


def draw(fn, kw, **extra):
    given = copy.deepcopy(kw)
    with vlib.quiet():
        out = fn(**dict(kw, **extra))
    for k in kw:
        need(mdl.same_value(kw[k], given[k]), 'the override %s of the caller was modified: '
             '%r -> %r', k, given[k], kw[k])
    return out


def floats(seq):
    return np.asarray(seq, dtype=float)


def from_parts(re_, im_, what):
    """Eigenvalues of a real matrix from (real part, |imaginary part|)."""
    need(np.all(im_ >= 0), '%s: negative imaginary magnitudes %s', what, im_)
    out = [complex(r) for r, i in zip(re_, im_) if i == 0]
    pairs = sorted((i, r) for r, i in zip(re_, im_) if i > 0)
    need(len(pairs) % 2 == 0, '%s: complex eigenvalues do not pair up: %s', what, pairs)
    for a, b in zip(pairs[::2], pairs[1::2]):
        need(abs(a[0] - b[0]) <= 1e-6 * (1 + a[0]) and abs(a[1] - b[1]) <= 1e-6 * (1 + abs(a[1])),
             '%s: no conjugate pair: %s %s', what, a, b)
        out += [complex(a[1], a[0]), complex(b[1], -b[0])]
    return np.array(out)


def check_spectrum(evals, e, what):
    """The plotted eigenvalues are those of the specified matrix."""
    n = len(e['A'])
    need(len(evals) == n, '%s: %d eigenvalues plotted, specification %d', what, len(evals), n)
    need(np.all(np.isfinite(evals)), '%s: %s not finite', what, evals)
    poly = np.poly(evals)
    scale = max(1.0, np.linalg.norm(e['A']))
    r = max(1.0, np.max(np.abs(evals)), scale ** 0.5)
    for k in range(1, n + 1):
        tol = max(1e-9 * (1 + abs(e['chi'][k])) + 1e-10 * r * scale ** (k - 1),
                  1e-9 * mdl.comb_scale(evals, k))
        need(abs(poly[k] - e['chi'][k]) <= tol, '%s: plotted eigenvalues %s have characteristic '
             'coefficient %d = %r, specification %r', what, evals, k, poly[k], e['chi'][k])


def shaded(ax):
    """x intervals shaded over the whole height of the axes."""
    out = []
    arts = [(c.get_transform(), p) for c in ax.collections for p in c.get_paths()]
    arts += [(p.get_transform(), p.get_path()) for p in ax.patches]
    inv_d, inv_a = ax.transData.inverted(), ax.transAxes.inverted()
    for tr, path in arts:
        if not len(path.vertices):
            continue
        v = tr.transform(path.vertices)
        x = inv_d.transform(v)[:, 0]
        y = inv_a.transform(v)[:, 1]
        if x.max() - x.min() < 1e-12:
            continue
        need(y.min() <= 1e-9 and y.max() >= 1 - 1e-9, 'the stable region from %g to %g is shaded '
             'between %g and %g of the height of the axes', x.min(), x.max(), y.min(), y.max())
        out.append((x.min(), x.max()))
    return sorted(out)


def merged(iv):
    out = []
    for a, b in sorted(iv):
        if out and a <= out[-1][1] + 1e-9:
            out[-1] = (out[-1][0], max(b, out[-1][1]))
        else:
            out.append((a, b))
    return out


def check_bands(got, st, es, xs, strict=False):
    """The shading against the stable runs, unless a sample is marginal."""
    size = [max(1.0, np.linalg.norm(e['A'])) for e in es]
    lean = st['kind'] == 'lean'
    for e, s in zip(es, size):
        if abs(e['top']) < 1e-7 * s and not (lean and e['top'] == 0):
            return
    want = sorted(tuple(sorted((xs[a], xs[b]))) for a, b in st['bands'])
    got = merged(got)
    ok = len(got) == len(want) and all(
        abs(p - q) <= 1e-6 * (1 + abs(q)) for g, w in zip(got, want) for p, q in zip(g, w))
    need(ok, 'shaded intervals %s, specification %s\n(largest real parts %s at %s)', got, want,
         [e['top'] for e in es], list(xs))


# ------------------------------------------------------- eigenvalue parts ----
def curves(ax, kind, n, sorted_, skip=0):
    """(imaginary, real) line arrays of the modes M1..Mn."""
    out = []
    for i in range(n):
        ls = [l for l in ax.lines[skip:] if l.get_label() == 'M%d' % (i + 1)]
        need(len(ls) == 2, '%d lines are labelled M%d', len(ls), i + 1)
        if sorted_:
            im = [l for l in ls if l.get_linestyle() == '--']
            need(len(im) == 1, 'mode M%d: line styles %s', i + 1, [l.get_linestyle() for l in ls])
            rl = [l for l in ls if l is not im[0]]
            need(rl[0].get_linestyle() == '-', 'mode M%d: line styles %s', i + 1,
                 [l.get_linestyle() for l in ls])
            need(mcolor(im[0].get_color()) == mcolor(rl[0].get_color()),
                 'the two parts of mode M%d have different colours', i + 1)
        else:
            im, rl = ls[:1], ls[1:]
            if rl[0].get_color() == 'C1':
                im, rl = rl, im
        out.append((im[0], rl[0]))
    return out


def mcolor(c):
    import matplotlib.colors as mc
    return mc.to_hex(c)


def check_parts(model, st, es):
    import matplotlib.pyplot as plt
    from bicycleparameters.bicycle import sort_eigenmodes
    call = st['call']
    opt = call['opt']
    kw = keywords(call)
    n = len(es[0]['A'])
    srt = opt['sort'] > 0
    shade = opt['shade'] > 0
    xs = [e['par'][call['first']] for e in es]
    extra = {'sort_modes': srt, 'show_stable_regions': shade}
    if opt['colors'] == 1:
        extra['colors'] = ['C%d' % (j % 10) for j in range(n)][::-1]
    mine, skip = None, 0
    if opt['axes']:
        fig, axs = plt.subplots(2)
        mine = axs[1]
        mine.plot([xs[0], xs[-1]], [-0.5, 0.5], label='mine')
        skip = 1
        extra['ax'] = mine
    ax = draw(model.plot_eigenvalue_parts, kw, **extra)
    if mine is not None:
        need(ax is mine, 'the given axes were not used')
        need(mine.lines[0].get_label() == 'mine', 'what was on the axes is gone')
        need(not axs[0].lines, 'other axes of the figure were drawn on')
    cs = curves(ax, st['kind'], n, srt, skip)
    need(len(ax.lines) == 2 * n + skip, '%d lines for %d modes', len(ax.lines) - skip, n)
    im, rl = [], []
    for a, b in cs:
        for l in (a, b):
            need_close(floats(l.get_xdata()), xs, 'abscissae of %s' % l.get_label(), 1e-12)
        im.append(floats(a.get_ydata()))
        rl.append(floats(b.get_ydata()))
    im, rl = np.array(im).T, np.array(rl).T
    if not srt and np.any(im < 0):
        im, rl = rl, im
    for k, e in enumerate(es):
        check_spectrum(from_parts(rl[k], im[k], 'sample %d' % k), e, 'sample %d' % k)
    # curves continue the tracked modes
    with vlib.quiet():
        ev, vec = model.calc_eigen(**kw)
        if srt:
            ev, vec = sort_eigenmodes(ev, vec)
    need_close(rl, np.real(ev), 'real parts of the modes', 1e-7, 1e-9)
    need_close(im, np.abs(np.imag(ev)), 'imaginary parts of the modes', 1e-7, 1e-9)
    if shade:
        check_bands(shaded(ax), st, es, xs)
    else:
        need(not shaded(ax), 'regions are shaded although that is switched off')
    need(call['first'] in xlabel_key(model, ax), 'the axis of %s is labelled %r', call['first'],
         ax.get_xlabel())
    if mine is None:
        need_close(ax.get_xlim(), (xs[0], xs[-1]), 'limits of the abscissa', 1e-12)
    if srt:
        leg = ax.get_legend()
        need(leg is not None, 'no legend')
        labs = [t.get_text() for t in leg.get_texts()]
        need(set(labs) >= {'M%d' % (i + 1) for i in range(n)}, 'legend entries %s', labs)
    # hiding zeros hides exactly the parts that vanish
    if opt['hide']:
        hide, lo, hi = (True, 1e-15, 1e-12) if opt['hide'] == 1 else (0.3, 0.3 - 1e-7, 0.3 + 1e-7)
        extra.pop('ax', None)
        ax2 = draw(model.plot_eigenvalue_parts, kw, hide_zeros=hide, **extra)
        for (a, b), (a2, b2) in zip(cs, curves(ax2, st['kind'], n, srt)):
            for l, l2 in ((a, a2), (b, b2)):
                y, y2 = floats(l.get_ydata()), floats(l2.get_ydata())
                need(y.shape == y2.shape, 'hidden line of %s has %d points', l.get_label(), len(y2))
                for u, w in zip(y, y2):
                    need(not np.isnan(w) or abs(u) <= hi, 'part %r is hidden', u)
                    need(np.isnan(w) or abs(u) >= lo, 'part %r is shown with zeros below %r hidden',
                         u, hide)
                    need(np.isnan(w) or abs(u - w) <= 1e-9 * (1 + abs(u)), 'hiding zeros changes '
                         'the value %r to %r', u, w)
        if shade:
            check_bands(shaded(ax2), st, es, xs)


def check_control(model, st, es):
    """The angles of the modal controllability, one axes per mode and input."""
    import matplotlib.pyplot as plt
    call = st['call']
    if not hasattr(model, '_plot_modal_controllability'):
        return
    kw = keywords(call)
    extra, mine = {'acute': call['opt']['sort'] > 0}, None
    beta = np.rad2deg(draw(model._calc_modal_controllability, kw, **extra))
    if call['opt']['axes']:
        fig, mine = plt.subplots(4, 2)
        extra['axes'] = mine
    axes = np.asarray(draw(model._plot_modal_controllability, kw, **extra))
    need(axes.shape == (4, 2), 'controllability axes have shape %s', axes.shape)
    if mine is not None:
        need(all(a is b for a, b in zip(axes.flatten(), mine.flatten())), 'given axes not used')
    xs = [e['par'][call['first']] for e in es]
    for i in range(4):
        for j in range(2):
            ls = axes[i, j].lines
            need(len(ls) == 1, '%d lines of mode %d and input %d', len(ls), i + 1, j + 1)
            need_close(floats(ls[0].get_xdata()), xs, 'abscissae of the controllability', 1e-12)
            need_close(floats(ls[0].get_ydata()), beta[:, i, j], 'angles of mode %d and input %d'
                       % (i + 1, j + 1), 1e-7, 1e-4)
    for ax in axes[3]:
        need(call['first'] in ax.get_xlabel() or call['first'] in xlabel_key(model, ax),
             'the axis of %s is labelled %r', call['first'], ax.get_xlabel())


def xlabel_key(model, ax):
    """Parameters whose symbol is the label of the abscissa."""
    lab = ax.get_xlabel().strip('$')
    return [k for k, s in model.parameter_set.par_strings.items() if s == lab]


# ------------------------------------------------------------- vectors -------
NUM = r'([-+]?(?:\d+\.?\d*|nan|inf)(?:e[-+]?\d+)?)(?:([-+]\d+\.?\d*(?:e[-+]?\d+)?)j)?'


def title_value(t):
    m = re.search(NUM, t)
    need(m, 'no eigenvalue in the title %r', t)
    return complex(float(m.group(1)), float(m.group(2) or 0))


def check_vectors(model, st, es):
    call = st['call']
    opt = call['opt']
    kw = keywords(call)
    n = len(es[0]['A'])
    hide = {0: False, 1: True, 2: 0.3}[opt['hide']]
    if len(es) > 10:
        try:
            draw(model.plot_eigenvectors, kw)
        except ValueError:
            return
        raise vlib.Mismatch('%d samples were drawn, more than 10 are documented to be '
                            'rejected' % len(es))
    with vlib.quiet():
        evs = np.atleast_2d(model.calc_eigen(**kw)[0])
    if hide and len(es) > 1:
        # which columns are hidden is decided by one sample
        tol = hide if hide is not True else 1e-14
        pat = {tuple(np.abs(ev) < tol) for ev in evs}
        if len(pat) > 1:
            hide = False
    if hide and np.all(np.abs(evs[-1]) < (1e-12 if hide is True else hide)):
        hide = False
    if hide and np.any(np.abs(np.abs(evs) - (hide if hide is not True else 1e-13)) < 1e-7 * (hide is not True) + 1e-13 * (hide is True)):
        hide = False
    axes = np.asarray(draw(model.plot_eigenvectors, kw, hide_zeros=hide))
    need(axes.ndim == 2 and axes.shape[0] == len(es), 'axes of shape %s for %d samples', axes.shape,
         len(es))
    if not hide:
        need(axes.shape[1] == n, '%d eigenvectors of %d drawn', axes.shape[1], n)
    else:
        want = int(np.count_nonzero(np.abs(evs[-1]) >= (1e-14 if hide is True else hide)))
        need(axes.shape[1] == want, '%d eigenvectors drawn, %d eigenvalues exceed %r', axes.shape[1],
             want, hide)
    for k, e in enumerate(es):
        sa = max(1.0, np.linalg.norm(e['A']))
        lams = []
        for j in range(axes.shape[1]):
            ax = axes[k, j]
            what = 'sample %d, mode %d' % (k, j)
            need(len(ax.lines) == n, '%s: %d components drawn', what, len(ax.lines))
            v = []
            for l in ax.lines:
                th, ra = floats(l.get_xdata()), floats(l.get_ydata())
                need(len(th) == 2 and ra[0] == 0, '%s: component line %s %s', what, th, ra)
                need(ra[1] >= 0, '%s: negative radius %r', what, ra[1])
                v.append(ra[1] * np.exp(1j * th[1]))
            v = np.array(v)
            need(np.all(np.isfinite(v)), '%s: components %s', what, v)
            need(abs(np.abs(v).max() - 1) <= 1e-9, '%s: the largest component is %r long', what,
                 np.abs(v).max())
            need(abs(ax.get_rmax() - 1) < 1e-9, '%s: the radial axis ends at %r', what, ax.get_rmax())
            lam = title_value(ax.get_title())
            vv = np.vdot(v, v).real
            rho = np.vdot(v, e['A'] @ v) / vv
            res = np.linalg.norm(e['A'] @ v - rho * v) / vv ** 0.5
            need(res <= 1e-7 * sa, '%s: the drawn components %s are no eigenvector of the state '
                 'matrix (residual %.3g)', what, v, res)
            need(abs(lam - rho) <= 2e-3 * (1 + 1e-3 * abs(rho)), '%s: titled %s, the drawn '
                 'vector belongs to %s', what, lam, rho)
            if abs(rho.real) > 1e-6 * sa:
                need((mcolor(ax.title.get_color()) == mcolor('red')) == (rho.real > 0),
                     '%s: eigenvalue %s has a title in %s', what, rho, ax.title.get_color())
            lams.append(rho)
        if not hide:
            check_titles(lams, evs[k], 'sample %d' % k)
        if call['arrs']:
            lab = axes[k, 0].get_ylabel()
            val = '%1.2f' % e['par'][call['first']]
            need(call['first'] in lab and abs(float(re.findall(r'-?\d+\.\d+', lab)[-1]) -
                 e['par'][call['first']]) <= 0.00501, 'row %d is labelled %r, %s is %s', k, lab,
                 call['first'], val)
    leg = axes[0, 0].get_legend()
    need(leg is not None, 'no legend')
    labs = [t.get_text().strip('$') for t in leg.get_texts()]
    need(labs == names(model)[0], 'legend %s', labs)
    for h, l in zip(leg.get_lines(), axes[0, 0].lines):
        need(mcolor(h.get_color()) == mcolor(l.get_color()), 'the legend colours do not match')


def names(model):
    """The documented symbols of states and inputs, in their order."""
    if len(model.state_vars) == 12:
        return (['q_1', 'q_2', 'q_3', 'q_4', 'q_6', 'q_7', 'q_8', 'q_9',
                 'u_4', 'u_6', 'u_7', 'u_9'], ['T_4', 'T_7', 'T_9'])
    return ([r'\phi', r'\delta', r'\dot{\phi}', r'\dot{\delta}'], [r'T_\phi', r'T_\delta'])


def check_titles(got, want, what):
    """The columns show every eigenvalue once."""
    rest = list(want)
    s = max(1.0, np.max(np.abs(want)))
    for g in got:
        d = [abs(g - w) for w in rest]
        k = int(np.argmin(d))
        need(d[k] <= 1e-4 * s, '%s: drawn eigenvalues %s, computed ones %s', what, got, list(want))
        rest.pop(k)


# ---------------------------------------------------------------- gains ------
def check_gains(model, st, es):
    import matplotlib.pyplot as plt
    call = st['call']
    kw = keywords(call)
    others = [k for k in call['arrs'] if k not in GAINS]
    extra = {}
    mine = None
    if call['opt']['axes']:
        fig, mine = plt.subplots(2, 4)
        extra['axes'] = mine
    axes = np.asarray(draw(model.plot_gains, kw, **extra))
    need(axes.shape == (2, 4), 'gain axes have shape %s', axes.shape)
    if mine is not None:
        need(all(a is b for a, b in zip(axes.flatten(), mine.flatten())), 'given axes not used')
    x = call['first'] if call['first'] in others else others[0]
    for j, g in enumerate(GAINS):
        ax = axes.flatten()[j]
        need(len(ax.lines) == 1, '%d lines for gain %s', len(ax.lines), g)
        need_close(floats(ax.lines[0].get_xdata()), [e['par'][x] for e in es], 'x of gain ' + g)
        need_close(floats(ax.lines[0].get_ydata()), [e['par'][g] for e in es], 'gain ' + g)
        need(ax.get_title().strip('$') == model.parameter_set.par_strings[g], 'gain %s is titled %r',
             g, ax.get_title())
    for ax in axes[1]:
        need(x in ax.get_xlabel(), 'abscissa %s labelled %r', x, ax.get_xlabel())


def replay_model(chk, tr):
    import matplotlib.pyplot as plt
    box, hist = {}, []
    for st in tr:
        call = st['call']
        hist.append({'op': call['op'], 'kw': {k: fx(v) for k, v in call['scal'].items()},
                     'arrs': {k: fxm(v) for k, v in call['arrs'].items()}, 'opt': dict(call['opt']),
                     'first': call['first'], 'seq': call['seq']})
        data = {'kind': st['kind'], 'base': mdl.par_floats(st['base']), 'calls': hist[:]}

        def one():
            if call['op'] == 'new':
                with vlib.quiet():
                    box['m'], box['given'] = new_model(st['kind'], st['base'])
                box['d'] = dict(box['given'])
                return
            es = samples(st['want'])
            try:
                {'parts': check_parts, 'vectors': check_vectors, 'gains': check_gains}[call['op']](
                    box['m'], st, es)
                if call['op'] == 'parts':
                    check_control(box['m'], st, es)
            finally:
                plt.close('all')
            mdl.check_params_unchanged(box['m'], box['d'], box['given'])
        chk.guard('%s/%s' % (st['kind'], call['op']), data, one)
        chk.case((st['kind'], hist[-1], sorted(st['base'].items())), data)
        if 'm' not in box or chk.too_many():
            return


# ------------------------------------------------------------- bicycles ------
def curve_sets(real, imag, es, what):
    """real, imag: arrays (samples, modes) in the same mode order."""
    for k, e in enumerate(es):
        check_spectrum(from_parts(real[k], imag[k], '%s sample %d' % (what, k)), e,
                       '%s sample %d' % (what, k))


def tracked(b, speeds):
    from bicycleparameters.bicycle import sort_modes
    with vlib.quiet():
        wea, cap, cas = sort_modes(*b.eig(np.array(speeds)))
    return {'Weave': wea['evals'], 'Capsize': cap['evals'], 'Caster': cas['evals']}


def check_top(y, es, what):
    y = floats(y)
    need(y.shape == (len(es),), '%s: %s', what, y.shape)
    for g, e in zip(y, es):
        need(abs(g - e['top']) <= 1e-5 * max(1.0, np.linalg.norm(e['A']) ** 0.5), '%s is %r, '
             'specification %r', what, g, e['top'])


def data_lines(ax, xs, skip):
    """Lines drawn after the first skip ones, without the zero line."""
    out = []
    for l in ax.lines[skip:]:
        need_close(floats(l.get_xdata()), xs, 'speeds of line %r' % l.get_label(), 1e-12)
        if np.all(floats(l.get_ydata()) == 0) and mcolor(l.get_color()) == mcolor('k') and \
                l.get_linestyle() == '-' and l.get_label().startswith('_'):
            continue
        out.append(l)
    return out


def check_generic(lines, b, xs, es, what, style=None):
    """Curves that do not say which mode they belong to."""
    need(len(lines) == 8, '%s: %d curves, specification 8', what, len(lines))
    ev = tracked(b, xs)
    allm = np.column_stack([np.asarray(ev[k]).reshape(len(xs), -1) for k in ('Weave', 'Capsize', 'Caster')])
    want = [np.real(allm[:, j]) for j in range(4)] + [np.abs(np.imag(allm[:, j])) for j in range(4)]
    got = [floats(l.get_ydata()) for l in lines]
    left = list(range(8))
    for w in want:
        k = next((k for k in left if vlib.close(got[k], w, 1e-7, 1e-9)), None)
        need(k is not None, '%s: no curve shows %s; curves %s', what, w, got)
        left.remove(k)


def check_modes_labelled(pick, xs, es, b, what):
    """pick(part, mode) -> list of curves."""
    real, imag = [], []
    ev = tracked(b, xs)
    for mode, cnt in (('Weave', 2), ('Capsize', 1), ('Caster', 1)):
        r, i = pick('Re', mode), pick('Im', mode)
        need(len(r) == cnt and len(i) == cnt, '%s: %d real and %d imaginary curves of %s', what,
             len(r), len(i), mode)
        own = np.asarray(ev[mode]).reshape(len(xs), -1)
        need_close(np.array(r).T, np.real(own), '%s: real part of %s' % (what, mode), 1e-7, 1e-9)
        need_close(np.array(i).T, np.abs(np.imag(own)), '%s: imaginary part of %s' % (what, mode),
                   1e-7, 1e-9)
        real += r
        imag += i
    curve_sets(np.array(real).T, np.array(imag).T, es, what)


def check_speed(b, st, es, speeds, xs):
    import matplotlib.pyplot as plt
    opt = st['call']['opt']
    extra, skip, mine = {}, 0, None
    if opt['axes']:
        mine = plt.figure()
        mine.add_subplot(1, 1, 1).plot([0, 1], [0, 1], label='mine')
        extra['fig'] = mine
        skip = 1
    largest = opt['largest'] == 0
    generic = bool(opt['generic'])
    leg = bool(opt['legend'])
    given = copy.deepcopy(speeds)
    with vlib.quiet():
        fig = b.plot_eigenvalues_vs_speed(speeds, generic=generic, largest=largest, show_legend=leg,
                                          color='purple', **extra)
    need(mdl.same_value(speeds, given), 'the speeds of the caller changed')
    if mine is not None:
        need(fig is mine and fig.axes[0].lines[0].get_label() == 'mine', 'given figure not used')
    ax = fig.axes[0]
    lines = data_lines(ax, xs, skip)
    if largest:
        need(len(lines) == 1, '%d curves of the largest eigenvalue', len(lines))
        check_top(lines[0].get_ydata(), es, 'largest real part')
    elif generic:
        check_generic(lines, b, xs, es, 'generic plot')
        need(all(mcolor(l.get_color()) == mcolor('purple') for l in lines), 'colours')
    else:
        names = {'Re': 'Real', 'Im': 'Imaginary'}
        check_modes_labelled(lambda part, mode: [
            floats(l.get_ydata()) for l in lines if l.get_label() == '%s %s' % (names[part], mode)],
            xs, es, b, 'eigenvalues over speed')
        need(len(lines) == 8, '%d curves', len(lines))
        need((ax.get_legend() is not None) == leg, 'legend')
        need(b.bicycleName in ax.get_title(), 'title %r', ax.get_title())
    need_close(ax.get_xlim(), (xs[0], xs[-1]), 'limits of the speed axis', 1e-12)


def check_plotly(b, st, es, speeds, xs):
    import plotly.graph_objects as go
    opt = st['call']['opt']
    extra, skip, mine = {}, 0, None
    if opt['axes']:
        mine = go.Figure()
        mine.add_trace(go.Scatter(x=[0, 1], y=[0, 1], name='mine'))
        extra['fig'] = mine
        skip = 1
    largest = opt['largest'] == 0
    shade = opt['shade'] > 0
    given = copy.deepcopy(speeds)
    with vlib.quiet():
        fig = b._plot_eigenvalues_vs_speed_plotly(speeds, show=False, largest=largest,
                                                  stability_region=shade, **extra)
    need(mdl.same_value(speeds, given), 'the speeds of the caller changed')
    if mine is not None:
        need(fig is mine and fig.data[0].name == 'mine', 'the given figure was not used')
    data = fig.data[skip:]
    for t in data:
        need_close(floats(t.x), xs, 'speeds of %s' % t.name, 1e-12)
    if largest:
        need(len(data) == 1, '%d curves of the largest eigenvalue', len(data))
        check_top(data[0].y, es, 'largest real part')
    else:
        def pick(part, mode):
            return [floats(t.y) for t in data if t.name and t.name.startswith(part + ' ' + mode)]
        check_modes_labelled(pick, xs, es, b, 'plotly eigenvalues')
        need(len(data) == 8, '%d curves', len(data))
    iv = []
    for s in fig.layout.shapes:
        need(s.yref in ('y domain', 'paper') and s.y0 == 0 and s.y1 == 1, 'region spans %s..%s of %s',
             s.y0, s.y1, s.yref)
        iv.append((float(s.x0), float(s.x1)))
    texts = [a.text for a in fig.layout.annotations]
    if not shade:
        need(not iv and 'No stability region' not in texts, 'regions shown although switched off')
        return
    check_bands(iv, st, es, xs)
    none = any('No stability' in (t or '') for t in texts)
    need(none == (not iv), 'texts %s with shaded regions %s', texts, iv)


def check_bikes(bs, st, es2, speeds, xs):
    from bicycleparameters import plot
    opt = st['call']['opt']
    largest = opt['largest'] == 0
    cols = ['red', 'green'] if opt['generic'] else None
    with vlib.quiet():
        fig = plot.plot_eigenvalues(bs, speeds, colors=cols, largest=largest,
                                    linestyles=['-', ':'] if opt['legend'] else None)
    ax = fig.axes[0]
    lines = data_lines(ax, xs, 0)
    per = 1 if largest else 8
    need(len(lines) == per * len(bs), '%d curves for %d bicycles', len(lines), len(bs))
    for j, (b, es) in enumerate(zip(bs, es2)):
        mine = lines[per * j:per * (j + 1)]
        if cols:
            need(all(mcolor(l.get_color()) == mcolor(cols[j]) for l in mine), 'colours')
        if largest:
            check_top(mine[0].get_ydata(), es, 'largest real part of ' + b.bicycleName)
        else:
            check_generic(mine, b, xs, es, b.bicycleName)
        need(any(l.get_label() == b.bicycleName for l in mine), 'no curve is labelled %s: %s',
             b.bicycleName, [l.get_label() for l in mine])
    labs = [t.get_text() for t in ax.get_legend().get_texts()]
    need(sorted(labs) == sorted(b.bicycleName for b in bs), 'legend %s', labs)


def same_angle(a, b, tol):
    d = (a - b + 180.0) % 360.0 - 180.0
    return abs(d) <= tol


def check_response(w, mag, ph, e, what):
    w, mag, ph = floats(w), floats(mag), floats(ph)
    need(w.shape == (1000,) and mag.shape == (1000,) and ph.shape == (1000,), '%s: %d points', what,
         len(w))
    for r in e['resp']:
        k = r['idx']
        need(abs(w[k] - r['w']) <= 1e-9 * r['w'], '%s: frequency %d is %r, specification %r', what, k,
             w[k], r['w'])
        if abs(r['G']) < 1e-14:
            continue
        db = 20 * np.log10(abs(r['G']))
        cond = 1e-6 * max(1.0, 1e-12 * np.linalg.norm(e['A']) ** 2 / abs(r['G']))
        need(abs(mag[k] - db) <= 10 * cond, '%s: magnitude at %.4g rad/s is %r dB, specification %r',
             what, w[k], mag[k], db)
        need(same_angle(ph[k], np.degrees(np.angle(r['G'])), 60 * cond), '%s: phase at %.4g rad/s is '
             '%r deg, specification %r', what, w[k], ph[k], np.degrees(np.angle(r['G'])))
    need(np.max(np.abs(np.diff(ph))) <= 180.0 + 1e-6, '%s: the phase jumps by more than half a turn', what)


def check_bode(b, st, e):
    opt = st['call']['opt']
    extra = {'title': 'mine'} if opt['generic'] else {}
    with vlib.quiet():
        out = b.plot_bode(e['par']['v'], opt['u'], opt['y'], **extra)
    need(len(out) == 3, 'plot_bode returned %d values', len(out))
    mag, ph, fig = out
    a = fig.axes
    need(len(a) == 2, '%d axes', len(a))
    check_response(a[0].lines[0].get_xdata(), mag, ph, e, 'bode')
    for ax, y in zip(a, (mag, ph)):
        need_close(floats(ax.lines[0].get_ydata()), floats(y), 'the drawn response', 1e-12)
        need_close(floats(ax.lines[0].get_xdata()), floats(a[0].lines[0].get_xdata()), 'frequencies')
    t = a[0].get_title()
    if opt['generic']:
        need(t == 'mine', 'title %r', t)
    else:
        names = (['Roll Torque', 'Steer Torque'][opt['u']],
                 ['Roll Angle', 'Steer Angle', 'Roll Rate', 'Steer Rate'][opt['y']])
        need(all(s in t for s in names), 'title %r for %s', t, names)


def check_compare(fig, es, labels):
    a = fig.axes
    need(len(a) == 2, '%d axes', len(a))
    need(len(a[0].lines) == len(es) and len(a[1].lines) == len(es), '%d magnitude and %d phase curves '
         'for %d systems', len(a[0].lines), len(a[1].lines), len(es))
    for j, e in enumerate(es):
        m, p = a[0].lines[j], a[1].lines[j]
        need_close(floats(m.get_xdata()), floats(p.get_xdata()), 'frequencies')
        check_response(m.get_xdata(), m.get_ydata(), p.get_ydata(), e, labels[j])
        p0 = floats(p.get_ydata())[0]
        need(abs(p0) <= 180.0 + 1e-6, 'the phase of %s starts at %r deg', labels[j], p0)
        need(m.get_label() == labels[j], 'curve %d is labelled %r, specification %r', j, m.get_label(),
             labels[j])


def snapshot(b):
    return {k: {n: (getattr(v, 'nominal_value', v), getattr(v, 'std_dev', 0.0))
                for n, v in d.items()} for k, d in b.parameters.items()}


def replay_bike(chk, tr):
    import matplotlib.pyplot as plt
    from bicycleparameters import main as bpm, plot
    box, hist = {}, []
    with mdl.Scratch() as s:
        for st in tr:
            call = st['call']
            hist.append({'op': call['op'], 'speeds': fxm(call['arrs'].get('v', [])),
                         'opt': dict(call['opt'])})
            data = {'base': mdl.par_floats(st['base']), 'other': mdl.par_floats(st['other']),
                    'calls': hist[:]}

            def one():
                if call['op'] == 'new':
                    with vlib.quiet():
                        bs = []
                        for name, par in (('Fisher', st['base']), ('Trek', st['other'])):
                            s.par_file(name, 'Benchmark', mdl.bench_lines(mdl.par_floats(par), {
                                'mB': 0.1, 'c': 0.01}))
                            bs.append(bpm.Bicycle(name, pathToData=s.path))
                    box['b'] = bs
                    box['snap'] = [snapshot(b) for b in bs]
                    return
                bs = box['b']
                b = bs[0]
                es, es2 = samples(st['want']), samples(st['want2'])
                raw = [fx(v) for v in call['arrs']['v']]
                speeds = mdl.container(raw, call['seq'], True)
                xs = [e['par']['v'] for e in es]
                op = call['op']
                try:
                    if op == 'speed':
                        check_speed(b, st, es, speeds, xs)
                    elif op == 'plotly':
                        check_plotly(b, st, es, speeds, xs)
                    elif op == 'bikes':
                        check_bikes(bs, st, [es, es2], speeds, xs)
                    elif op == 'bode':
                        check_bode(b, st, es[0])
                    else:
                        o = call['opt']
                        extra = {}
                        if o['axes']:
                            extra['fig'] = plt.subplots(2, 1, sharex=True)[0]
                        with vlib.quiet():
                            if op == 'bodespeeds':
                                fig = b.compare_bode_speeds(raw, o['u'], o['y'], **extra)
                                want, labs = es, [str(v) + ' m/s' for v in raw]
                            else:
                                fig = plot.compare_bode_bicycles(bs, raw[0], o['u'], o['y'], **extra)
                                want, labs = es + es2, [x.bicycleName for x in bs]
                        need(not extra or fig is extra['fig'], 'given figure not used')
                        check_compare(fig, want, labs)
                finally:
                    plt.close('all')
                for x, before in zip(bs, box['snap']):
                    need(snapshot(x) == before, 'the parameters of the bicycle changed')
            chk.guard('bicycle/%s' % call['op'], data, one)
            chk.case((hist[-1], sorted(st['base'].items())), data)
            if 'b' not in box or chk.too_many():
                return


def run(chk):
    jobs = []
    for init, step, steps, q, t, chunk in (('init', 'step', 6, 36, 500, 6),
                                           ('initLean', 'stepLean', 3, 12, 150, 3),
                                           ('initBike', 'stepBike', 7, 36, 500, 6)):
        jobs += vlib.split_jobs(dict(spec='plots.qnt', init=init, step=step, steps=steps,
                                     invariants=INV), chk.scale(q, t), chunk, chk.seed + 31 * steps)
    traces = [tr for l in vlib.quint_many(jobs) for tr in l]

    def one(c, tr):
        c.count_trace(tr)
        (replay_bike if tr[0]['kind'] == 'bicycle' else replay_model)(c, tr)
    chk.parallel(one, traces)
