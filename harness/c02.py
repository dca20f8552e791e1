"""C02 state space matrices: session.qnt and uncert.qnt against every route."""
import numpy as np
import vlib
import mdl
from vlib import fx, fxm, need, need_close


def visit(model, st, es):
    from bicycleparameters.bicycle import ab_matrix
    if st['call']['op'] == 'badlen':
        return
    kw = mdl.overrides(st['call'])
    got, _ = mdl.call_model(model.form_state_space_matrices, kw)
    need(len(got) == 2, 'expected A and B')
    mdl.check_ss(got, st, es)
    mdl.check_names(model, *got)
    for e in es:   # the plain function, on the exact canonical matrices
        mats = [m.copy() for m in e['canon']]
        A, B = ab_matrix(*mats, e['par']['v'], e['par']['g'])
        rt = mdl.rtol_for(e)
        need_close(np.asarray(A, dtype=float), e['A'], 'ab_matrix A', rt, 1e-11)
        need_close(np.asarray(B, dtype=float), e['B'], 'ab_matrix B', rt, 1e-11)
        for m, c in zip(mats, e['canon']):
            need(np.all(m == c), 'ab_matrix changed its arguments')


def uncertain(chk, tr):
    from bicycleparameters import main as bpm, models, parameter_sets
    from bicycleparameters import io as bio
    alive = []
    for st in tr:
        par = mdl.par_floats(st['par'])
        sig = {k: fx(v) for k, v in st['sig'].items() if v}
        shared = st['shared']
        A, B = np.array(fxm(st['ss']['A'])), np.array(fxm(st['ss']['B']))
        rt = 1e-10 * max(1, np.linalg.cond(np.array(fxm(st['canon']['M']))) / 1e3)
        std = np.sqrt(np.array([fx(x) for x in st['stdA']]))
        sA, sB = std[:16].reshape(4, 4), std[16:].reshape(4, 2)
        v = fx(st['speed'])
        v = int(v) if st['asInt'] else v
        data = {'par': par, 'sig': sig, 'shared': shared, 'speed': v}

        def examine(b):
            for rep in range(2):
                gA, gB = mdl.take(b.state_space(v))
                need_close(mdl.nominal(gA), A, 'bicycle A', rt, 1e-11)
                need_close(mdl.nominal(gB), B, 'bicycle B', rt, 1e-11)
                need_close(mdl.stds(gA), sA, 'std of A', 1e-5, 1e-7)
                need_close(mdl.stds(gB), sB, 'std of B', 1e-5, 1e-7)
                nA, nB = mdl.take(b.state_space(v, nominal=True))
                need(np.asarray(nA).dtype == float and np.asarray(nB).dtype == float,
                     'nominal matrices are not plain floats')
                need_close(nA, A, 'nominal A', rt, 1e-11)
                need_close(nB, B, 'nominal B', rt, 1e-11)
            # the model object built from the same bicycle agrees
            d = bio.remove_uncertainties(b.parameters['Benchmark'])
            d['v'] = float(v)
            m = models.Meijaard2007Model(
                parameter_sets.Meijaard2007ParameterSet(d, False))
            mA, mB = mdl.take(m.form_state_space_matrices())
            need_close(mA, A, 'model of bicycle A', rt, 1e-11)
            need_close(mB, B, 'model of bicycle B', rt, 1e-11)

        def onbike():
            with mdl.Scratch() as s, vlib.quiet():
                s.par_file('Fisher', 'Benchmark', mdl.bench_lines(par, sig))
                b = bpm.Bicycle('Fisher', pathToData=s.path)
                if shared:
                    mdl.live(b, par, sig, True)
                examine(b)
                if not alive:
                    alive.append(b)

        def edited():
            # a bicycle used before, whose parameters are edited
            with vlib.quiet():
                mdl.live(alive[0], par, sig, shared)
                examine(alive[0])
        chk.guard('bicycle', data, onbike)
        if alive:
            chk.guard('bicycle/edited', dict(data, edited=True), edited)
        chk.case(('unc', sorted(st['par'].items()), sorted(st['sig'].items()), st['speed']), data)
        if chk.too_many():
            return


def run(chk):
    chk.rule = 'a case is one specification state (parameters, speed, gravity, overrides)'
    mdl.run_session(chk, chk.scale(60, 600), 6, 'initW', 'step', visit)
    jobs = vlib.split_jobs(dict(spec='uncert.qnt', steps=12, invariants=['nonneg']),
                           chk.scale(12, 150), 3, chk.seed)
    for traces in vlib.quint_many(jobs):
        for tr in traces:
            chk.count_trace(tr)
            uncertain(chk, tr)
            if chk.too_many():
                return
