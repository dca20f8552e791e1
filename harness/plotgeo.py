"""Replay of plotgeo.qnt: drawings of parameter sets and measured bicycles."""
import copy
import itertools

import numpy as np

import mdl
import psets
import vlib
from plotmdl import floats, mcolor, snapshot
from vlib import fx, need

INV = ['feet', 'ellipsoid', 'positive']
EPS = 1e-9


def pt(p):
    return np.array([fx(p[0]), fx(p[1])])


def sym(m):
    return np.array([[fx(m['xx']), fx(m['xz'])], [fx(m['xz']), fx(m['zz'])]])


def near(a, b, tol=EPS):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.all(np.abs(a - b) <= tol * (1 + np.abs(b)))


class Drawn:
    """Artists added to an axes, in (x, z) coordinates."""
    def __init__(self, ax, before, sign):
        import matplotlib.patches as mp
        self.circles, self.wedges, self.ellipses, self.lines, self.texts = [], [], [], [], []
        self.ground = 0
        s = np.array([1.0, sign])
        for a in ax.patches:
            if id(a) in before:
                continue
            if isinstance(a, mp.Circle):
                self.circles.append((np.array(a.center) * s, a.radius, mcolor(a.get_edgecolor()), a))
            elif isinstance(a, mp.Ellipse):
                t = np.radians(a.angle) * sign
                R = np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])
                P = R @ np.diag([(a.width / 2) ** 2, (a.height / 2) ** 2]) @ R.T
                self.ellipses.append((np.array(a.center) * s, P, mcolor(a.get_edgecolor()), a))
            elif isinstance(a, mp.Wedge):
                self.wedges.append((np.array(a.center) * s, a.r, (a.theta1 % 360, a.theta2 % 360),
                                    mcolor(a.get_facecolor())))
            else:
                raise vlib.Mismatch('an unexpected %s is drawn' % type(a).__name__)
        for l in ax.lines:
            if id(l) in before:
                continue
            x, y = floats(l.get_xdata()), floats(l.get_ydata())
            need(np.all(np.isfinite(x)) and np.all(np.isfinite(y)), 'a line has the coordinates %s %s', x, y)
            if len(y) == 2 and np.all(y == 0) and (l.get_transform() != ax.transData or sign < 0):
                self.ground += 1
                self.span = x
            else:
                self.lines.append((np.column_stack([x, y * sign]), mcolor(l.get_color()), l))
        for t in ax.texts:
            if id(t) not in before:
                self.texts.append((t.get_text(), np.array(t.get_position()) * s))


def path_like(got, want):
    return near(got, want) or near(got[::-1], want)


def take(items, ok, what):
    for k, it in enumerate(items):
        if ok(it):
            return items.pop(k)
    raise vlib.Mismatch('%s is not drawn; drawn: %s' % (what, [tuple(i[:3]) for i in items][:12]))


def check_drawn(d, want, colors, scaled=False):
    circ, lines, ells, wed = list(d.circles), list(d.lines), list(d.ellipses), list(d.wedges)
    seen = {}

    def paint(b, c):
        if colors is not None:
            seen.setdefault(b, set()).add(c)
    for name, w in zip(('rear', 'front'), want['wheels']):
        take(circ, lambda c: near(c[0], pt(w['at'])) and near(c[1], fx(w['rad'])), 'the %s wheel at %s '
             'with radius %r' % (name, pt(w['at']), fx(w['rad'])))
    for path in want['paths']:
        p = np.array([pt(v) for v in path])
        take(lines, lambda l: path_like(l[0], p), 'the path %s' % p.tolist())
    need(d.ground == (1 if want['ground'] else 0), '%d ground lines are drawn', d.ground)
    for b in sorted(want['gyr']):
        g = want['gyr'][b]
        at, L = pt(g['at']), sym(g['rays'])
        c = take(circ, lambda c: near(c[0], at) and near(c[1], fx(g['kyy'])), 'the circle of %s at %s '
                 'with radius %r' % (b, at, fx(g['kyy'])))
        paint(b, c[2])
        cand = [l for l in lines if l[0].shape == (2, 2) and near(l[0].mean(axis=0), at)]

        def good(a, e):
            ha, he = (a[0][1] - a[0][0]) / 2, (e[0][1] - e[0][0]) / 2
            return abs(ha @ he) <= 1e-9 * (np.linalg.norm(ha) * np.linalg.norm(he) + 1e-12) and \
                near(np.outer(ha, ha) + np.outer(he, he), L, 1e-8)
        pair = next((p for p in itertools.combinations(cand, 2) if good(*p)), None)
        need(pair is not None, 'no pair of perpendicular lines at %s shows the radii of gyration of %s '
             '(sum of squares %s); lines there: %s', at, b, L.tolist(), [c[0].tolist() for c in cand])
        for p in pair:
            lines[:] = [l for l in lines if l is not p]
            paint(b, p[1])
    size = None
    for b in sorted(want['ells']):
        at, P = pt(want['mids'][b]), sym(want['ells'][b])
        if scaled:
            # the size of all ellipses of a figure is in one free unit
            def ok(e):
                k = np.trace(e[1]) / np.trace(P)
                return near(e[0], at) and near(e[1] / k, P, 1e-7 * np.abs(P).max()) and \
                    (size is None or near(k, size, 1e-7))
        else:
            def ok(e):
                return near(e[0], at) and near(e[1], P, 1e-8)
        e = take(ells, ok, 'the inertia ellipse of %s at %s with the squared half axes %s' % (
            b, at, P.tolist()))
        if scaled:
            size = np.trace(e[1]) / np.trace(P)
        paint(b, e[2])
    need(len(d.texts) == len(want['dots']), '%d labels %s for %d mass centres', len(d.texts), d.texts,
         len(want['dots']))
    for b in sorted(want['dots']):
        at = pt(want['dots'][b])
        w = [take(wed, lambda w: near(w[0], at), 'the mass centre of %s at %s' % (b, at)) for _ in (0, 1)]
        need(w[0][1] > 0 and near(w[0][1], w[1][1]), 'mass centre symbol of %s has radii %r and %r', b,
             w[0][1], w[1][1])
        need(near((np.array(w[0][2]) + 180.0) % 360.0, w[1][2]), 'sectors %s', w)
        take(circ, lambda c: near(c[0], at) and near(c[1], w[0][1]), 'the rim of the mass centre of ' + b)
        need(any(t == b and np.linalg.norm(x - at) <= 3 * w[0][1] for t, x in d.texts),
             'mass centre of %s is not labelled at %s: %s', b, at, d.texts)
        paint(b, w[0][3])
    for what, rest in (('circles', circ), ('lines', lines), ('ellipses', ells), ('sectors', wed)):
        need(not rest, '%d unexpected %s: %s', len(rest), what, [tuple(i[:3]) for i in rest][:4])
    for b, cs in seen.items():
        need(len(cs) == 1, 'body %s is drawn in the colours %s', b, sorted(cs))
        c = next(iter(cs))
        need(colors.setdefault(b, c) == c, 'body %s is drawn in %s and before in %s', b, c, colors[b])
    if colors:
        need(len(set(colors.values())) == len(colors), 'bodies share a colour: %s', colors)


# ------------------------------------------------------------ parameter sets ----
def replay_set(chk, tr):
    import matplotlib.pyplot as plt
    box, hist = {'colors': {}}, []
    for st in tr:
        call = st['call']
        hist.append({k: call[k] for k in ('op', 'group', 'flag', 'fresh')})
        par = {k: fx(v) for k, v in st['par'].items()}
        data = {'kind': st['kind'], 'par': par, 'calls': hist[:]}

        def one():
            if call['op'] == 'new':
                box['given'] = dict(par)
                box['o'] = psets.build(st['kind'], box['given'], True)
                box['ax'] = plt.subplots()[1]
                return
            o = box['o']
            labels = list(o.body_labels)
            ax = None if call['fresh'] else box['ax']
            before = set() if ax is None else {id(a) for a in
                                               itertools.chain(ax.patches, ax.lines, ax.texts)}
            group = list(call['group'])
            op, kw = call['op'], {}
            if ax is not None:
                kw['ax'] = ax
            with vlib.quiet():
                if op == 'geometry':
                    got = o.plot_geometry(**dict(kw, show_steer_axis=call['flag']))
                elif op == 'all':
                    got = o.plot_all(**kw)
                elif op == 'diamond':
                    got = o.plot_person_diamond(**dict(kw, show_cross=call['flag']))
                else:
                    one_, many = {'centres': (o.plot_body_mass_center, o.plot_mass_centers),
                                  'radii': (o.plot_body_principal_radii_of_gyration,
                                            o.plot_principal_radii_of_gyration),
                                  'ellipsoids': (o.plot_body_principal_inertia_ellipsoid,
                                                 o.plot_principal_inertia_ellipsoids)}[op]
                    if len(group) == 1 and call['flag']:
                        got = one_(group[0], **kw)
                    elif sorted(group) == sorted(labels) and call['flag']:
                        got = many(**kw)
                    else:
                        got = many(bodies=tuple(group) if call['flag'] else group, **kw)
            need(ax is None or got is ax, 'the given axes were not used')
            need(got.yaxis_inverted(), 'the z axis of the drawing does not point down')
            need(not got.xaxis_inverted(), 'the x axis of the drawing points to the left')
            need(got.get_aspect() in (1, 1.0, 'equal'), 'the aspect of the drawing is %r', got.get_aspect())
            check_drawn(Drawn(got, before, 1.0), st['want'], box['colors'])
            if ax is None:
                plt.close(got.figure)
            need(list(o.body_labels) == labels, 'the body labels changed')
            need(o.parameters == par and box['given'] == par, 'the parameters of the object changed: %s',
                 {k: (o.parameters.get(k), v) for k, v in par.items() if o.parameters.get(k) != v})
            need(set(o.parameters) == set(par), 'entries %s were added to the object',
                 sorted(set(o.parameters) - set(par)))
        chk.guard('%s/%s' % (st['kind'], call['op']), data, one)
        chk.case((st['kind'], hist[-1], sorted(par.items())), data)
        if 'o' not in box or chk.too_many():
            break
    plt.close('all')


# --------------------------------------------------------------- measured -------
def check_plotly(fig, want, p, call):
    data = list(fig.data)

    def named(name):
        hit = [t for t in data if t.name == name]
        need(len(hit) == 1, '%d traces are named %r: %s', len(hit), name, [t.name for t in data])
        data.remove(hit[0])
        x, y = floats(hit[0].x), floats(hit[0].y)
        need(len(x) == len(y) and np.all(np.isfinite(x)) and np.all(np.isfinite(y)),
             'trace %r has the coordinates %s %s', name, x, y)
        return np.column_stack([x, -y])
    for name, w in zip(('Rear wheel', 'Front wheel'), want['wheels']):
        c = named(name)
        r = np.linalg.norm(c - pt(w['at']), axis=1)
        need(len(c) >= 20 and near(r, np.full(len(c), fx(w['rad']))), '%s is at %s', name, c[:4])
        need(near(c[0], c[-1]), '%s is not closed', name)
    for name, path in zip(('Bicycle', 'Steer axis'), want['paths']):
        c, q = named(name), np.array([pt(v) for v in path])
        need(path_like(c, q), '%s runs through %s, specification %s', name, c.tolist(), q.tolist())
    g = named('Ground')
    need(np.all(g[:, 1] == 0), 'ground %s', g)
    size = None
    for b in sorted(want['ells']):
        at, P = pt(want['mids'][b]), sym(want['ells'][b])
        c = named('Inertia of ' + b) - at
        f = np.einsum('ni,ij,nj->n', c, np.linalg.inv(P), c)
        need(len(c) >= 20 and near(f / f.mean(), np.ones(len(f)), 1e-6), 'the inertia ellipse of %s has '
             'not the squared half axes %s: deviations %s', b, P.tolist(), (f / f.mean()).tolist()[:6])
        t = np.unwrap(np.arctan2(c[:, 1], c[:, 0]))
        need(abs(abs(t[-1] - t[0]) - 2 * np.pi) < 1e-6, 'the ellipse of %s is not closed', b)
        need(size is None or near(f.mean(), size, 1e-6), 'ellipses of different scale: %r %r', f.mean(), size)
        size = f.mean()
    coms = [t for t in data if t.name == 'COM']
    need(len(coms) == len(want['dots']), '%d mass centres drawn, specification %d', len(coms),
         len(want['dots']))
    notes = [(a.text, np.array([a.x, -a.y])) for a in fig.layout.annotations]
    need(len(notes) == len(want['dots']), 'labels %s', notes)
    left = [np.column_stack([floats(t.x), -floats(t.y)]).mean(axis=0) for t in coms]
    for b in sorted(want['dots']):
        at = pt(want['dots'][b])
        k = next((k for k, c in enumerate(left) if near(c, at)), None)
        need(k is not None, 'mass centre of %s is not at %s: %s', b, at, left)
        left.pop(k)
        need(any(t == b and np.linalg.norm(x - at) < 0.1 for t, x in notes), 'mass centre of %s is not '
             'labelled: %s', b, notes)
    # the rest are pieces of mass centre symbols
    for t in data:
        if t.name == 'COM':
            continue
        c = np.column_stack([floats(t.x), -floats(t.y)])
        need(any(np.all(np.linalg.norm(c - pt(v), axis=1) < 0.05) for v in want['dots'].values()),
             'unexpected trace %r: %s', t.name, c[:3])


def replay_bike(chk, tr):
    import matplotlib.pyplot as plt
    from bicycleparameters import main as bpm
    box, hist = {}, []
    with mdl.Scratch() as s:
        for st in tr:
            call = st['call']
            hist.append({k: call[k] for k in ('op', 'com', 'ell', 'flag')})
            par = {k: fx(v) for k, v in st['par'].items()}
            data = {'kind': 'bicycle', 'par': par, 'calls': hist[:]}

            def one():
                if call['op'] == 'new':
                    s.par_file('Fisher', 'Benchmark', mdl.bench_lines(par, {'mB': 0.2, 'lam': 0.001,
                                                                            'IBxx': 0.01}))
                    with vlib.quiet():
                        box['b'] = bpm.Bicycle('Fisher', pathToData=s.path)
                    box['snap'] = snapshot(box['b'])
                    return
                b = box['b']
                with vlib.quiet():
                    fn = b.plot_bicycle_geometry if call['op'] == 'matplotlib' else \
                        b._plot_bicycle_geometry_plotly
                    fig = fn(show=False, pendulum=call['flag'], centerOfMass=call['com'],
                             inertiaEllipse=call['ell'])
                if call['op'] == 'plotly':
                    check_plotly(fig, st['want'], par, call)
                else:
                    ax, = fig.axes
                    need(not ax.yaxis_inverted() and not ax.xaxis_inverted(), 'an axis is inverted')
                    need(ax.get_aspect() in (1, 1.0, 'equal'), 'aspect %r', ax.get_aspect())
                    d = Drawn(ax, set(), -1.0)
                    check_drawn(d, st['want'], None, scaled=True)
                    need(d.span.min() <= -par['rR'] + EPS and d.span.max() >= par['w'] + par['rF'] - EPS,
                         'the ground line spans %s', d.span)
                    need('Fisher' in ax.get_title(), 'title %r', ax.get_title())
                    plt.close(fig)
                need(snapshot(b) == box['snap'], 'the parameters of the bicycle changed')
            chk.guard('bicycle/%s' % call['op'], data, one)
            chk.case((hist[-1], sorted(par.items())), data)
            if 'b' not in box or chk.too_many():
                break
    plt.close('all')


def run(chk):
    jobs = vlib.split_jobs(dict(spec='plotgeo.qnt', steps=7, invariants=INV), chk.scale(120, 2500), 20,
                           chk.seed + 9)
    traces = [tr for l in vlib.quint_many(jobs) for tr in l]

    def one(c, tr):
        c.count_trace(tr)
        (replay_bike if tr[0]['kind'] == 'bicycle' else replay_set)(c, tr)
    chk.parallel(one, traces)
