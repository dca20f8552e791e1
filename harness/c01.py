"""C01 canonical matrices: session.qnt and uncert.qnt against every route."""
import numpy as np
import vlib
import mdl
from vlib import fx, fxm, need, need_close


def visit(model, st, es):
    from bicycleparameters.bicycle import benchmark_par_to_canonical
    if st['call']['op'] == 'badlen':
        return
    kw = mdl.overrides(st['call'])
    got, _ = mdl.call_model(model.form_reduced_canonical_matrices, kw)
    mdl.check_canonical(got, st, es)
    # the plain function
    for e in es:
        p = dict(e['par'])
        before = dict(p)
        got = mdl.take(benchmark_par_to_canonical(p))
        for name, G, W in zip(('M', 'C1', 'K0', 'K2'), got, e['canon']):
            need_close(np.asarray(G, dtype=float), W, name, 1e-11, 1e-12)
        need(p == before, 'computing the canonical matrices changed the '
             'parameters passed in: %s', sorted(set(p) ^ set(before)) or
             [k for k in p if p[k] != before[k]])


def uncertain(chk, tr):
    from bicycleparameters.bicycle import benchmark_par_to_canonical
    from bicycleparameters import main as bpm
    alive = []
    for st in tr:
        par = mdl.par_floats(st['par'])
        sig = {k: fx(v) for k, v in st['sig'].items() if v}
        shared = st['shared']
        want = [np.array(fxm(st['canon'][m])) for m in ('M', 'C1', 'K0', 'K2')]
        wstd = np.sqrt(np.array([fx(x) for x in st['stdM']])).reshape(4, 2, 2)
        data = {'par': par, 'sig': sig, 'shared': shared}

        def check(got, what, std=True):
            for j, name in enumerate(('M', 'C1', 'K0', 'K2')):
                need_close(mdl.nominal(got[j]), want[j], what + name, 1e-11, 1e-12)
                if std:
                    need_close(mdl.stds(got[j]), wstd[j], what + 'std of ' + name, 1e-6, 1e-9)

        def plain():
            p = mdl.with_sig(par, sig, shared)
            before = {k: (v, id(v)) for k, v in p.items()}
            check(mdl.take(benchmark_par_to_canonical(p)), 'plain ')
            need({k: (v, id(v)) for k, v in p.items()} == before,
                 'parameters passed in were changed: %s', sorted(set(p) ^ set(before)))

        def examine(b):
            stored = {k: (mdl.nominal(v).tolist(), mdl.stds(v).tolist())
                      for k, v in b.parameters['Benchmark'].items()}
            for rep in range(2):
                check(mdl.take(b.canonical()), 'bicycle ')
                got = mdl.take(b.canonical(nominal=True))
                check(got, 'bicycle nominal ', std=False)
                for G in got:
                    need(np.asarray(G).dtype == float, 'nominal matrices are not floats')
            now = {k: (mdl.nominal(v).tolist(), mdl.stds(v).tolist())
                   for k, v in b.parameters['Benchmark'].items()}
            need(now == stored, 'the parameters of the bicycle changed: %s',
                 sorted(set(now) ^ set(stored)) or [k for k in now if now[k] != stored[k]])

        def onbike():
            with mdl.Scratch() as s, vlib.quiet():
                s.par_file('Fisher', 'Benchmark', mdl.bench_lines(par, sig))
                b = bpm.Bicycle('Fisher', pathToData=s.path)
                if shared:
                    mdl.live(b, par, sig, True)
                examine(b)
                if not alive:
                    alive.append(b)

        def edited():
            # a bicycle used before, whose parameters are edited
            with vlib.quiet():
                mdl.live(alive[0], par, sig, shared)
                examine(alive[0])
        chk.guard('uncertain/function', data, plain)
        chk.guard('uncertain/bicycle', data, onbike)
        if alive:
            chk.guard('uncertain/bicycle/edited', dict(data, edited=True), edited)
        chk.case(('unc', sorted(st['par'].items()), sorted(st['sig'].items())), data)
        if chk.too_many():
            return


def run(chk):
    chk.rule = ('a case is one specification state (parameters + call); distinct by '
                'parameters, call and overrides')
    mdl.run_session(chk, chk.scale(60, 600), 6, 'initW', 'step', visit)
    jobs = vlib.split_jobs(dict(spec='uncert.qnt', steps=12, invariants=['nonneg']),
                           chk.scale(12, 150), 3, chk.seed)
    for traces in vlib.quint_many(jobs):
        for tr in traces:
            chk.count_trace(tr)
            uncertain(chk, tr)
            if chk.too_many():
                return
