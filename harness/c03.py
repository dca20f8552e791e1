"""C03 eigenvalues/eigenvectors against the exact state matrices."""
import numpy as np
import vlib
import mdl
from vlib import fx, fxm, need


def visit(model, st, es):
    if st['call']['op'] == 'badlen':
        return
    kw = mdl.overrides(st['call'])
    for left in (False, True):
        (evals, evecs), _ = mdl.call_model(model.calc_eigen, kw, left=left)
        evals, evecs = np.asarray(evals), np.asarray(evecs)
        if not st['stacked']:
            evals, evecs = evals[None], evecs[None]
        need(evals.shape == (len(es), 4) and evecs.shape == (len(es), 4, 4),
             'shapes %s %s for %d values', evals.shape, evecs.shape, len(es))
        for i, e in enumerate(es):
            mdl.check_eig(evals[i], evecs[i], e, left, 'left' if left else 'right')
    if hasattr(model, '_calc_modal_controllability'):
        controllability(model, st, es, kw, evals, evecs)


def controllability(model, st, es, kw, evals, evecs):
    """The angles between the left eigenvectors and the exact input columns."""
    from bicycleparameters.bicycle import sort_eigenmodes
    if st['stacked']:
        evals, evecs = sort_eigenmodes(evals, evecs)
    for acute in (True, False):
        beta, _ = mdl.call_model(model._calc_modal_controllability, kw, acute=acute)
        beta = np.asarray(beta)
        need(beta.shape == ((len(es), 4, 2) if st['stacked'] else (4, 2)),
             'controllability of shape %s', beta.shape)
        beta = beta.reshape(-1, 4, 2)
        for k, e in enumerate(es):
            B = e['B']
            for i in range(4):
                q = evecs[k][:, i]
                for j in range(2):
                    c = (q.conj() @ B[:, j]).real / np.linalg.norm(q) / np.linalg.norm(B[:, j])
                    c = abs(c) if acute else c
                    need(-1e-12 <= beta[k, i, j] <= (np.pi / 2 if acute else np.pi) + 1e-12,
                         'angle %r outside the range', beta[k, i, j])
                    need(abs(np.cos(beta[k, i, j]) - c) <= 1e-7,
                         'controllability of mode %d by input %d at sample %d: cosine %r, from the '
                         'left eigenvector and the specified input matrix %r (acute=%s)',
                         i, j, k, np.cos(beta[k, i, j]), c, acute)


def bike(chk, tr):
    """Bicycle.eig for one bicycle at several speeds (array override v)."""
    from bicycleparameters import main as bpm
    for st in tr:
        if list(st['call']['arrs']) != ['v'] or st['call']['scal']:
            continue
        es = mdl.elems(st)
        par = mdl.par_floats(st['base'])
        sp = [fx(x) for x in st['call']['arrs']['v']]
        data = {'par': par, 'speeds': sp}

        def one():
            with mdl.Scratch() as s, vlib.quiet():
                # uncertainties must not matter
                s.par_file('Fisher', 'Benchmark', mdl.bench_lines(
                    par, {'mB': 0.1, 'c': 0.01, 'rF': 0.002}))
                b = bpm.Bicycle('Fisher', pathToData=s.path)
                for arg in (list(sp), np.array(sp), tuple(sp), mdl.container(sp, 'array', True)):
                    evals, evecs = mdl.take(b.eig(arg))
                    need(evals.shape == (len(sp), 4) and evecs.shape == (len(sp), 4, 4),
                         'shapes %s %s', evals.shape, evecs.shape)
                    for i, e in enumerate(es):
                        mdl.check_eig(evals[i], evecs[i], e, False, 'Bicycle.eig')
                evals, evecs = mdl.take(b.eig(sp[0]))
                need(evals.shape == (1, 4) and evecs.shape == (1, 4, 4),
                     'shapes %s %s for one speed', evals.shape, evecs.shape)
                mdl.check_eig(evals[0], evecs[0], es[0], False, 'Bicycle.eig scalar')
        chk.guard('bicycle', data, one)
        chk.case(('bike', sorted(par.items()), tuple(sp)), data)


def bikeint(chk, tr):
    from bicycleparameters import main as bpm
    alive = []
    for st in tr:
        par = mdl.par_floats(st['par'])
        v = fx(st['speed'])
        A = np.array(fxm(st['ss']['A']))
        e = {'A': A, 'chi': np.poly(np.linalg.eigvals(A))}
        arg = int(v) if st['asInt'] else np.float64(v)

        def one():
            with mdl.Scratch() as s, vlib.quiet():
                s.par_file('Fisher', 'Benchmark', mdl.bench_lines(par))
                b = bpm.Bicycle('Fisher', pathToData=s.path)
                examine(b)
                if not alive:
                    alive.append(b)

        def edited():
            # a bicycle used before, whose parameters are edited
            with vlib.quiet():
                mdl.live(alive[0], par, {})
                examine(alive[0])

        def examine(b):
            evals, evecs = mdl.take(b.eig(arg))
            need(evals.shape == (1, 4) and evecs.shape == (1, 4, 4),
                 'shapes %s %s for one speed', evals.shape, evecs.shape)
            mdl.check_eig(evals[0], evecs[0], e, False, 'Bicycle.eig %r' % (arg,))
        chk.guard('bicycle/scalar', {'par': par, 'speed': repr(arg)}, one)
        if alive:
            chk.guard('bicycle/edited', {'par': par, 'speed': repr(arg)}, edited)
        chk.case(('bikeint', sorted(par.items()), repr(arg)))


def run(chk):
    chk.rule = 'a case is one specification state (model, parameters, overrides)'
    mdl.run_session(chk, chk.scale(60, 500), 6, 'init', 'step', visit)
    jobs = vlib.split_jobs(dict(spec='session.qnt', init='initW', step='speedStep',
                                steps=4), chk.scale(12, 120), 4, chk.seed + 7)
    for traces in vlib.quint_many(jobs):
        for tr in traces:
            chk.count_trace(tr)
            bike(chk, tr)
            mdl.replay_session(chk, tr, visit)
            if chk.too_many():
                return
    jobs = vlib.split_jobs(dict(spec='uncert.qnt', steps=8), chk.scale(4, 40), 2, chk.seed + 9)
    for traces in vlib.quint_many(jobs):
        for tr in traces:
            chk.count_trace(tr)
            bikeint(chk, tr)
            if chk.too_many():
                return
    import lean
    lean.run_sessions(chk, chk.scale(18, 180), 4, 'step', lean.visit_eig)
