"""C22 steering assembly inertia: every selection of parts of steer.qnt."""
import os
import shutil
import tempfile

import numpy as np

import bikestore
import vlib
from bikestore import nominal
from vlib import fx, need

FIELD = {'m': 'm', 'x': 'x', 'z': 'z', 'xx': 'I_xx', 'yy': 'I_yy', 'zz': 'I_zz', 'xz': 'I_xz'}


# which entries are uncertain
SIGMA = [('mH', 'IHxx', 'IHzz', 'xH', 'zH', 'lam', 'w'), ('IHzz', 'IHxz', 'IFyy'), ('mH',),
         ('IHyy', 'IFyy', 'IHxx', 'IFxx'), ('IHzz',)]


def stored(st):
    par = {k: fx(v) for k, v in st['par'].items() if k != 'v'}
    for part, body, kinds in (('S', 'forkB', ('split', 'forkonly', 'nomass')),
                              ('G', 'barB', ('split', 'baronly', 'nomass'))):
        if st['kind'] in kinds:
            for k, n in FIELD.items():
                name = 'I' + part + k if len(k) == 2 else k + part
                if not (st['kind'] == 'nomass' and k == 'm'):
                    par[name] = fx(st[body][k])
    return par


def tensor(t):
    return np.array([[fx(t['t11']), 0, fx(t['t13'])], [0, fx(t['t22']), 0],
                     [fx(t['t13']), 0, fx(t['t33'])]])


def case(chk, st, par, sig, flywheel, used):
    import bicycleparameters
    tmp = tempfile.mkdtemp()
    try:
        lines = ''.join('%s = %r\n' % (k, v) if k not in sig else '%s = %r+/-%r\n' % (k, v, sig[k])
                        for k, v in sorted(par.items()))
        bikestore.write(os.path.join(tmp, 'bicycles', 'Bike', 'Parameters', 'BikeBenchmark.txt'),
                        lines)
        with vlib.quiet():
            bike = bicycleparameters.Bicycle('Bike', pathToData=tmp)
        before = {k: (nominal(v), getattr(v, 'std_dev', 0)) for k, v in bike.parameters['Benchmark'].items()}
        for rep in range(2):
            for res in (st['res'] if rep == 0 else st['res'][::-1]):
                for about in (False, True):
                    for nom in (False, True):
                        sel = res['sel']
                        kw = dict(sel, aboutSteerAxis=about, nominal=nom)
                        if rep and all(sel.values()):
                            kw = {k: v for k, v in kw.items() if k not in sel}  # the defaults
                        one(bike, kw, res, about, nom, bool(sig))
                        chk.case((sorted(par.items()), sorted(kw.items())), {'call': kw, 'kind': st['kind']})
        if used is not None:
            # a bicycle used before, whose parameters are edited
            if used:
                p = used[0].parameters['Benchmark']
                p.clear()
                p.update(bike.parameters['Benchmark'])
                for res in st['res']:
                    for nom in (False, True):
                        kw = dict(res['sel'], aboutSteerAxis=nom, nominal=nom)
                        one(used[0], kw, res, nom, nom, bool(sig))
            else:
                used.append(bike)
        after = {k: (nominal(v), getattr(v, 'std_dev', 0)) for k, v in bike.parameters['Benchmark'].items()}
        need(before == after, 'the parameters of the bicycle changed')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def one(bike, kw, res, about, nom, uncertain):
    err = out = None
    with vlib.quiet():
        try:
            out = bike.steer_assembly_moment_of_inertia(**kw)
        except Exception as e:
            err = e
    if not res['ok']:
        need(err is not None, '%s gives %s although the part was not measured separately', kw, out)
        need(isinstance(err, ValueError), '%s raised %r', kw, err)
        return
    if err is not None:
        raise err
    want = tensor(res['axis'] if about else res['centre'])
    got = np.array([[nominal(x) for x in row] for row in np.asarray(out)])
    need(got.shape == (3, 3), '%s: shape %s', kw, got.shape)
    if nom:
        need(not any(hasattr(x, 'std_dev') for x in np.asarray(out).flatten()),
             '%s: nominal values asked for', kw)
    scale = max(np.max(np.abs(want)), fx(res['mass']) * 1e-3, 1e-6)
    need(np.max(np.abs(got - want)) <= 1e-9 * scale + 1e-12,
         '%s: inertia %s, specification %s', kw, got.tolist(), want.tolist())
    if uncertain and not nom and about and kw.get('handlebar', True) and kw.get('fork', True):
        need(any(getattr(x, 'std_dev', 0) > 0 for x in np.asarray(out).flatten()),
             '%s: the uncertainties were lost', kw)


def run(chk):
    chk.rule = 'a case is one call (selection of parts, reference point, nominal) on one bicycle'
    jobs = vlib.split_jobs(dict(spec='steer.qnt', steps=3, invariants=[
        'empty', 'more', 'additive', 'splitSum']), chk.scale(40, 500), 10, chk.seed)
    n = 0
    for traces in vlib.quint_many(jobs):
        for tr in traces:
            chk.count_trace(tr)
            used = []
            for st in tr:
                n += 1
                par = stored(st)
                sig = {} if n % 2 else {k: 0.004 * abs(par[k]) + 1e-4 for k in SIGMA[n // 2 % len(SIGMA)]}
                fly = n % 7 == 0
                if fly:
                    par.update(mD=1.5, IDxx=0.02, IDyy=0.04)
                chk.guard('steering assembly (%s)' % st['kind'],
                          {'kind': st['kind'], 'parameters': par, 'uncertainties': sig},
                          case, chk, st, par, sig, fly, used)
                if chk.too_many():
                    return
