"""C19 ideal measurements: ideal.qnt gives measured data and the bicycle behind it."""
import os
import random
import shutil
import tempfile

import numpy as np

import bikestore
import vlib
from bikestore import nominal
from vlib import fx, need


def measured(st, rng):
    m = {k: fx(v) for k, v in st['meas'].items()}
    for p in st['parts']:
        n = p['name']
        m['Tc%s1' % n] = fx(p['Tc'])
        for j, o in enumerate(p['orients']):
            m['alpha%s%d' % (n, j + 1)] = fx(o['alpha'])
            m['a%s%d' % (n, j + 1)] = fx(o['a'])
            m['Tt%s%d' % (n, j + 1)] = fx(o['T'])
    keys = sorted(m)
    rng.shuffle(keys)
    return {k: m[k] for k in keys}


def with_unc(m, how, rng):
    from uncertainties import ufloat
    out = {}
    for k, v in m.items():
        if how == 1 or how == 2 and (k[0] in 'adh' or k in ('mB', 'TtP1')):
            out[k] = ufloat(v, abs(v) * rng.choice([1e-4, 1e-3]) + 1e-6)
        else:
            out[k] = v
    return out


def compare(got, extras, st, what):
    want = {k: fx(v) for k, v in st['bench'].items()}
    missing = set(want) - set(got)
    need(not missing, '%s: %s missing', what, sorted(missing))
    need(not set(got) - set(want), '%s: unexpected %s', what, sorted(set(got) - set(want)))
    for k, v in want.items():
        scale = abs(v)
        if k[0] == 'I':
            part = k[1]
            scale = max(abs(want.get('I' + part + a, 0)) for a in ('xx', 'yy', 'zz'))
            m = want.get('m' + part, 1)
            scale = max(scale, 0.05 * m)
        need(abs(nominal(got[k]) - v) <= 2e-8 * scale + 1e-9, '%s: %s is %r, the bicycle has %r',
             what, k, got[k], v)
    parts = {p['name']: p for p in st['parts']}
    need(set(extras) == {'slopes', 'intercepts', 'betas', 'pendulumInertias'}, 'extras %s', set(extras))
    for k in extras:
        need(set(extras[k]) == set(parts), '%s of parts %s', k, set(extras[k]))
        for n, p in parts.items():
            need(len(extras[k][n]) == len(p['orients']), '%s of %s: %d values for %d orientations',
                 k, n, len(extras[k][n]), len(p['orients']))
    for n, p in parts.items():
        if not p['exact']:
            continue
        for m, b, be, J in zip(*[[nominal(x) for x in extras[k][n]] for k in
                                 ('slopes', 'intercepts', 'betas', 'pendulumInertias')]):
            line = m * want['x' + n] + b
            need(abs(line - want['z' + n]) <= 1e-8 * (1 + abs(m)), '%s: the line %r x + %r misses '
                 'the mass centre of %s', what, m, b, n)
            c, s = np.cos(be), np.sin(be)
            ref = c * c * want['I%sxx' % n] - 2 * s * c * want['I%sxz' % n] + s * s * want['I%szz' % n]
            need(abs(J - ref) <= 1e-8 * (1 + abs(ref)), '%s: pendulum inertia %r of %s at beta %r, '
                 'the bicycle has %r', what, J, n, be, ref)


def direct(st, m, how, rng):
    from bicycleparameters import main
    mp = with_unc(m, how, rng)
    copy = dict(mp)
    with vlib.quiet():
        par, extras = main.calculate_benchmark_from_measured(mp)
    need(list(mp) == list(copy) and all(mp[k] is copy[k] for k in mp), 'the measured data changed')
    compare(par, extras, st, 'calculate_benchmark_from_measured')
    if how == 1:
        for k in par:
            if k not in ():
                need(getattr(par[k], 'std_dev', -1) >= 0, '%s is %r', k, par[k])
    need(main.is_fork_split(mp) is st['form']['split'], 'is_fork_split')


def from_file(st, m, how, rng):
    import bicycleparameters
    tmp = tempfile.mkdtemp()
    try:
        mp = with_unc(m, how, rng)
        text = ''.join('%s = %s\n' % (k, repr(v) if not hasattr(v, 'std_dev') else
                                      '%r+/-%r' % (v.nominal_value, v.std_dev)) for k, v in mp.items())
        p = os.path.join(tmp, 'bicycles', 'Bike', 'RawData', 'BikeMeasured.txt')
        bikestore.write(p, text)
        kw = {}
        if st['form']['force']:
            bikestore.write(os.path.join(tmp, 'bicycles', 'Bike', 'Parameters', 'BikeBenchmark.txt'),
                            bikestore.par_text(bikestore.BENCH))
            kw['forceRawCalc'] = True
        with vlib.quiet():
            bike = bicycleparameters.Bicycle('Bike', pathToData=tmp, **kw)
        compare(bike.parameters['Benchmark'], bike.extras, st, 'Bicycle from a measured file')
        with open(p) as f:
            need(f.read() == text, 'the measured file changed')
        M = np.asarray(bike.canonical(nominal=True)[0], dtype=float)
        need(np.all(np.isfinite(M)), 'mass matrix %s', M)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(chk):
    import bicycleparameters.main  # noqa
    chk.rule = 'a case is one bicycle with its ideal measurement (method, split, orientations)'
    jobs = vlib.split_jobs(dict(spec='ideal.qnt', steps=3, invariants=['consistent', 'positive', 'recovers']),
                           chk.scale(100, 1200), 10, chk.seed)
    rng = random.Random(chk.seed)
    work = []
    for traces in vlib.quint_many(jobs):
        for tr in traces:
            chk.count_trace(tr)
            work += [(st, rng.random()) for st in tr]

    def one(chk, item):
        st, seed = item
        rng = random.Random(seed)
        m = measured(st, rng)
        how = st['form']['unc']
        data = {'measured': m, 'bicycle': {k: fx(v) for k, v in st['bench'].items()}, 'form': st['form']}
        name = 'ideal measurement (%s, %s)' % (
            'wheelbase' if st['form']['wheelbase'] else 'offsets',
            'split' if st['form']['split'] else 'whole')
        chk.guard(name, data, direct, st, m, how, rng)
        chk.guard(name + ' from file', data, from_file, st, m, how, rng)
        chk.case(sorted(m.items()), {'form': dict(st['form']),
                                     'orientations': {p['name']: len(p['orients']) for p in st['parts']}})
    chk.parallel(one, work)
