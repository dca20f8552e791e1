"""C13 seating a rider: replay of rider.qnt, and the full yeadon route."""
import glob
import os
import shutil
import tempfile

import numpy as np

import bikestore
import mdl
import vlib
from bikestore import nominal
from vlib import fx, need

FIELDS = {'m': 'mB', 'x': 'xB', 'z': 'zB', 'xx': 'IBxx', 'yy': 'IByy', 'zz': 'IBzz', 'xz': 'IBxz'}
BIKES = ['Bike', 'Balanceassistv1', 'Riderbike']
SIG = [{}, {'mB': 0.01}, {'mB': 0.02, 'xB': 0.003, 'zB': 0.002},
       {'IBxx': 0.001}, {k: 0.004 for k in ('mB', 'xB', 'zB', 'IBxx', 'IByy', 'IBzz', 'IBxz', 'mF')}]
RSIG = [{}, {}, {'mB': 0.4}, {'IBzz': 0.02}, {'mB': 0.5, 'xB': 0.004, 'zB': 0.003, 'IBxz': 0.01}]
MEAS = 'hbb = 0.295\nlcs = 0.46\nlsp = 0.195\nlst = 0.53\nlamst = 1.29\nwhb = 0.58\n' \
       'LhbR = 1.11\nLhbF = 0.65\n'


def ufl(v, s):
    return repr(v) if not s else '%r+/-%r' % (v, s)


class World:
    def __init__(self, tmp, st, name):
        self.tmp, self.name, self.unc = tmp, name, st['unc']
        self.par = {k: fx(v) for k, v in st['par'].items() if k != 'v'}
        self.sig = SIG[st['unc']]
        d = os.path.join(tmp, 'bicycles', name)
        bikestore.write(os.path.join(d, 'Parameters', name + 'Benchmark.txt'), ''.join(
            '%s = %s\n' % (k, ufl(v, self.sig.get(k))) for k, v in sorted(self.par.items())))
        self.measured = st['measured']
        if self.measured:
            bikestore.write(os.path.join(d, 'RawData', name + 'Measured.txt'), MEAS)
        self.rid, self.text = {}, {}
        for r, kind in st['kind'].items():
            b = st['body'][r]
            body = {FIELDS[k]: fx(b[k]) for k in FIELDS}
            body['yB'] = fx(b['y'])
            self.rid[r] = body
            pdir = os.path.join(tmp, 'riders', r, 'Parameters')
            if kind != 'nodir':
                os.makedirs(pdir)
                # parameters of this rider on another bicycle
                bikestore.write(os.path.join(pdir, r + 'Other' + 'Benchmark.txt'),
                                ''.join('%s = %r\n' % (k, v * 1.5) for k, v in body.items()))
            lines = ['%s = %s\n' % (k, ufl(v, RSIG[self.unc].get(k)))
                     for k, v in sorted(body.items())]
            if kind == 'broken':
                drop = ['IBzz', 'mB', 'xB', 'yB', 'IBxz'][len(r) % 5]
                lines = [x for x in lines if not x.startswith(drop)]
            if kind in ('file', 'broken'):
                self.text[r] = ''.join(lines)
                bikestore.write(os.path.join(pdir, r + name + 'Benchmark.txt'), self.text[r])


def same_par(got, want, what):
    need(set(got) == set(want), '%s: entries %s, before %s', what, sorted(got), sorted(want))
    for k in want:
        need(nominal(got[k]) == nominal(want[k]) and
             abs(std(got[k]) - std(want[k])) <= 1e-12 * (1 + std(want[k])),
             '%s: %s changed from %r to %r', what, k, want[k], got[k])


def std(x):
    if isinstance(x, np.ndarray) and x.size == 1:
        x = x.item()
    return float(getattr(x, 'std_dev', 0.0))


def check_frame(w, bike, st):
    got = bike.parameters['Benchmark']
    want = {k: v for k, v in w.par.items()}
    for f, k in FIELDS.items():
        want[k] = fx(st['frame'][f])
    need(set(got) - {'yB'} == set(want), 'Benchmark entries %s', sorted(set(got) ^ set(want)))
    for k, v in want.items():
        scale = abs(v)
        if k.startswith('IB'):
            scale = abs(want['IBxx']) + abs(want['IBzz'])
        need(abs(nominal(got[k]) - v) <= 1e-10 * scale + 1e-12,
             '%s is %r, specification %r', k, got[k], v)
    seat = st['seat']
    for k in w.par:
        if k not in FIELDS.values():
            need(std(got[k]) == w.sig.get(k, 0.0) or abs(std(got[k]) / w.sig[k] - 1) < 1e-9,
                 'uncertainty of %s is %r', k, got[k])
    rs = RSIG[w.unc] if seat else {}
    bs = w.sig
    r = w.rid.get(seat) if seat else None
    if r is None:
        for k in FIELDS.values():
            need(abs(std(got[k]) - bs.get(k, 0)) < 1e-9, 'uncertainty of %s is %r', k, got[k])
        return
    m = want['mB']
    sm = np.hypot(bs.get('mB', 0), rs.get('mB', 0))
    need(abs(std(got['mB']) - sm) <= 1e-6 * sm, 'uncertainty of mB is %r, specification %r',
         got['mB'], sm)
    for k in ('xB', 'zB'):
        v = want[k]
        s2 = ((w.par[k] - v) / m * bs.get('mB', 0)) ** 2 + ((r[k] - v) / m * rs.get('mB', 0)) ** 2 + \
            (w.par['mB'] / m * bs.get(k, 0)) ** 2 + (r['mB'] / m * rs.get(k, 0)) ** 2
        need(abs(std(got[k]) - np.sqrt(s2)) <= 1e-6 * np.sqrt(s2) + 1e-12,
             'uncertainty of %s is %r, specification %r', k, got[k], np.sqrt(s2))
    # planar inertia: variance by first order differences of the rigid body sum
    if any(rs.values()) or any(bs.values()):
        base = combine(w.par, r)
        for k in ('IBxx', 'IBxz', 'IByy', 'IBzz'):
            s2 = 0.0
            for src, sig, other in ((w.par, bs, 0), (r, rs, 1)):
                for q in FIELDS.values():
                    if sig.get(q):
                        h = 1e-6
                        mod = dict(src)
                        mod[q] = src[q] + h
                        new = combine(mod, r) if other == 0 else combine(w.par, mod)
                        mod[q] = src[q] - h
                        old = combine(mod, r) if other == 0 else combine(w.par, mod)
                        s2 += ((new[k] - old[k]) / (2 * h) * sig[q]) ** 2
            need(abs(std(got[k]) - np.sqrt(s2)) <= 1e-4 * np.sqrt(s2) + 1e-9,
                 'uncertainty of %s is %r, specification %r', k, got[k], np.sqrt(s2))
        del base


def combine(a, b):
    """Rigid body sum through moments about the origin (as in rider.qnt)."""
    m = a['mB'] + b['mB']
    y2 = b.get('yB', 0.0)
    x = (a['mB'] * a['xB'] + b['mB'] * b['xB']) / m
    z = (a['mB'] * a['zB'] + b['mB'] * b['zB']) / m
    y = b['mB'] * y2 / m

    def second(f, c):
        return (a['mB'] * f(a['xB'], 0.0, a['zB']) + b['mB'] * f(b['xB'], y2, b['zB'])
                - m * f(*c))
    c = (x, y, z)
    return {'mB': m, 'xB': x, 'yB': y, 'zB': z,
            'IBxx': a['IBxx'] + b['IBxx'] + second(lambda x, y, z: y * y + z * z, c),
            'IByy': a['IByy'] + b['IByy'] + second(lambda x, y, z: x * x + z * z, c),
            'IBzz': a['IBzz'] + b['IBzz'] + second(lambda x, y, z: x * x + y * y, c),
            'IBxz': a['IBxz'] + b['IBxz'] - second(lambda x, y, z: x * z, c)}


def copy_par(p):
    return {k: dict(v) for k, v in p.items()}


def one(w, pre, st, bike, others):
    import bicycleparameters
    from bicycleparameters import inertia
    act = st['act']
    before = bikestore.snapshot(w.tmp)
    if act['op'] == 'load':
        if bike is not None:
            others.append((bike, copy_par(bike.parameters), copy_par(bike.riderPar),
                           str(bike)))
        with vlib.quiet():
            bike = bicycleparameters.Bicycle(w.name, pathToData=w.tmp)
    else:
        old = copy_par(bike.parameters), copy_par(bike.riderPar), str(bike), bike.human, \
            bike.hasRider, getattr(bike, 'riderName', None)
        err = None
        with vlib.quiet():
            try:
                if act['recalc']:
                    bike.add_rider(act['rider'], reCalc=True)
                else:
                    bike.add_rider(act['rider'])
            except Exception as e:
                err = e
        if act['out'] == 'fail':
            need(err is not None, 'adding %s succeeded without usable data: %s', act['rider'],
                 bike.parameters['Benchmark'])
        elif err is not None:
            raise err
        if act['out'] != 'ok':
            for s in old[0]:
                same_par(bike.parameters[s], old[0][s], 'refused rider, parameters ' + s)
            need(set(bike.parameters) == set(old[0]), 'parameter sets %s', set(bike.parameters))
            need(set(bike.riderPar) == set(old[1]), 'rider parameters %s', bike.riderPar)
            for s in old[1]:
                same_par(bike.riderPar[s], old[1][s], 'refused rider, rider parameters ' + s)
            need((str(bike), bike.human, bike.hasRider, getattr(bike, 'riderName', None)) == old[2:],
                 'the refused rider left %s, %s, %s', str(bike), bike.human, bike.hasRider)
    need(bikestore.snapshot(w.tmp) == before, 'files were changed')
    seat = st['seat']
    need(bike.hasRider is bool(seat), 'hasRider is %r, specification %r', bike.hasRider, seat)
    desc = '%s with %s on board.' % (w.name, seat or 'no one')
    need(str(bike) == desc, 'the bicycle is described as %r, specification %r', str(bike), desc)
    if seat:
        need(bike.riderName == seat, 'the rider is called %r', bike.riderName)
        want = bikestore.parse(w.text[seat])
        same_par(bike.riderPar['Benchmark'], want, 'kept rider parameters')
        need(bike.human is None, 'a human appeared although stored data was used')
    else:
        need(bike.riderPar == {} and bike.human is None, 'rider parameters %s', bike.riderPar)
    check_frame(w, bike, st)
    need(('Measured' in bike.parameters) == w.measured, 'parameter sets %s', set(bike.parameters))
    # other bicycle objects are left alone
    for o, p, rp, s in others:
        for k in p:
            same_par(o.parameters[k], p[k], 'parameters of an older bicycle object')
        for k in rp:
            same_par(o.riderPar[k], rp[k], 'rider parameters of an older bicycle object')
        need(str(o) == s and set(o.riderPar) == set(rp), 'an older bicycle object is now %s', o)
    # the combination itself
    if seat and act['op'] == 'add' and act['out'] == 'ok':
        p = {k: v for k, v in w.par.items()}
        r = dict(w.rid[seat])
        given = dict(r)
        out = inertia.combine_bike_rider(p, r)
        need(r == given, 'combine_bike_rider changed the rider parameters')
        for f, k in FIELDS.items():
            v = fx(st['frame'][f])
            scale = abs(v) + (1.0 if k.startswith('IB') else 0.0)
            need(abs(out[k] - v) <= 1e-10 * scale, 'combine_bike_rider: %s is %r, '
                 'specification %r', k, out[k], v)
        for k, v in w.par.items():
            need(k in FIELDS.values() or out[k] == v, 'combine_bike_rider changed %s', k)
        # the canonical matrices are those of the combined bicycle
        from bicycleparameters import bicycle
        got = bike.canonical(nominal=True)
        q = {k: (fx(st['frame'][{b: a for a, b in FIELDS.items()}[k]])
                 if k in FIELDS.values() else v) for k, v in w.par.items()}
        ref = bicycle.benchmark_par_to_canonical(q)
        for G, R, n in zip(got, ref, ('M', 'C1', 'K0', 'K2')):
            vlib.need_close(np.asarray(G, dtype=float), np.asarray(R, dtype=float),
                            'canonical matrix %s with rider' % n, 1e-9, 1e-12)
    return bike


def replay(chk, tr):
    tmp = tempfile.mkdtemp()
    try:
        w = World(tmp, tr[0], BIKES[(tr[0]['unc'] + len(tr[0]['par']) + chk.traces) % 3])
        bike, hist, others = None, [], []
        for i, st in enumerate(tr):
            hist.append(dict(st['act']))
            data = {'bike': w.par, 'riders': {r: (tr[0]['kind'][r], w.rid[r]) for r in w.rid},
                    'unc': w.unc, 'history': hist[:]}
            bike = chk.guard('rider history', data, one, w, tr[i - 1] if i else None, st, bike, others)
            chk.case((sorted(tr[0]['par'].items()), repr(hist)), {'history': hist[:]})
            if bike is None:
                return
        chk.count_trace(tr)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ------------------------------------------------------------ yeadon route --
PAIRS = [('Browser', 'Jason'), ('Rigid', 'Jason'), ('Stratos', 'Jason'), ('Balanceassistv1', 'Jason'),
         ('Browserins', 'Jason'), ('Rigidcl', 'Luke'), ('Rigidcl', 'Charlie'), ('Gyro', 'Child')]
ROT = np.array([[0.0, -1.0, 0.0], [-1.0, 0.0, 0.0], [0.0, 0.0, -1.0]])


def yeadon_case(chk, bname, rname, rng):
    """Recomputed riders: the stored and combined parameters are those of the
    configured human, and the stored route gives the same combination."""
    import bicycleparameters
    tmp = tempfile.mkdtemp()
    try:
        for f in glob.glob('/repo/data/bicycles/%s/*/*.txt' % bname) + \
                glob.glob('/repo/data/riders/%s/RawData/*.txt' % rname):
            dst = os.path.join(tmp, os.path.relpath(f, '/repo/data'))
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copy(f, dst)
        os.makedirs(os.path.join(tmp, 'riders', 'Ghost'))
        # a synthetic benchmark file next to the real measurements
        bpath = os.path.join(tmp, 'bicycles', bname, 'Parameters', bname + 'Benchmark.txt')
        if not os.path.exists(bpath):
            bikestore.write(bpath, bikestore.par_text(bikestore.BENCH))
        with vlib.quiet():
            bike = bicycleparameters.Bicycle(bname, pathToData=tmp)
            ref = copy_par(bike.parameters)
            try:
                bike.add_rider('Ghost')
            except Exception:
                pass
        need(not bike.hasRider, 'a rider without data was seated')
        same_par(bike.parameters['Benchmark'], ref['Benchmark'], 'failed attempt')
        with vlib.quiet():
            if rng % 2:
                bike.add_rider(rname, reCalc=True)
            else:
                bike.add_rider(rname)
        need(bike.hasRider and bike.riderName == rname, 'no rider seated')
        same_par(bike.parameters['Measured'], ref['Measured'], 'measured data')
        h = bike.human
        need(h is not None, 'no human kept with the bicycle')
        rp = {k: nominal(v) for k, v in bike.riderPar['Benchmark'].items()}
        need(set(rp) == {'IBxx', 'IByy', 'IBzz', 'IBxz', 'mB', 'xB', 'yB', 'zB'},
             'rider parameters %s', sorted(rp))
        me = {k: nominal(v) for k, v in ref['Measured'].items()}
        be = {k: nominal(v) for k, v in ref['Benchmark'].items()}
        org = np.array([np.sqrt(me['lcs'] ** 2 - (be['rR'] - me['hbb']) ** 2)
                        - (me['lsp'] + me['lst']) * np.cos(me['lamst']), 0.0,
                        -me['hbb'] - (me['lsp'] + me['lst']) * np.sin(me['lamst'])])
        com = org + ROT @ np.asarray(h.center_of_mass, dtype=float).flatten()
        J = ROT @ np.asarray(h.inertia, dtype=float) @ ROT.T
        want = {'mB': float(h.mass), 'xB': com[0], 'yB': com[1], 'zB': com[2], 'IBxx': J[0, 0],
                'IByy': J[1, 1], 'IBzz': J[2, 2], 'IBxz': J[0, 2]}
        for k, v in want.items():
            need(abs(rp[k] - v) <= 1e-8 * (1 + abs(v)), 'rider %s is %r, the human has %r', k, rp[k], v)
        # left and right limbs are posed symmetrically
        c = h.CFG
        for a, b, s in (('PJ1extension', 'PK1extension', 1), ('J1J2flexion', 'K1K2flexion', 1),
                        ('CA1extension', 'CB1extension', 1), ('CA1adduction', 'CB1abduction', -1),
                        ('CA1rotation', 'CB1rotation', -1), ('A1A2extension', 'B1B2extension', 1)):
            need(abs(c[a] - s * c[b]) < 1e-12, 'the limbs are not symmetric: %s %r, %s %r', a, c[a],
                 b, c[b])
        tot = combine(be, rp)
        got = {k: nominal(v) for k, v in bike.parameters['Benchmark'].items()}
        for k in be:
            v = tot.get(k, be[k])
            need(abs(got[k] - v) <= 1e-9 * (1 + abs(v)), 'with %s: %s is %r, rigid body sum %r',
                 rname, k, got[k], v)
        # the stored route
        bikestore.write(os.path.join(tmp, 'riders', rname, 'Parameters',
                                     rname + bname + 'Benchmark.txt'),
                        ''.join('%s = %r\n' % kv for kv in sorted(rp.items())))
        with vlib.quiet():
            again = bicycleparameters.Bicycle(bname, pathToData=tmp)
            need(not again.hasRider, 'a fresh bicycle has a rider')
            again.add_rider(rname)
        for k, v in got.items():
            need(abs(nominal(again.parameters['Benchmark'][k]) - v) <= 1e-9 * (1 + abs(v)),
                 'stored rider data gives %s = %r, recomputed %r', k,
                 again.parameters['Benchmark'][k], v)
        # a second attempt
        with vlib.quiet():
            bike.add_rider(rname, reCalc=bool(rng % 3))
        for k, v in got.items():
            need(nominal(bike.parameters['Benchmark'][k]) == v, 'a repeated attempt changed %s', k)
        need(bike.human is h, 'a repeated attempt changed the human')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return True


def run(chk):
    import bicycleparameters.main  # noqa
    chk.rule = 'a case is a history of load and add-rider attempts on one stored bicycle'
    jobs = vlib.split_jobs(dict(spec='rider.qnt', steps=6, invariants=[
        'oneRider', 'grows', 'symmetric', 'realistic']), chk.scale(150, 1500), 25, chk.seed)
    for traces in vlib.quint_many(jobs):
        for tr in traces:
            replay(chk, tr)
            if chk.too_many():
                return
    for i, (b, r) in enumerate(PAIRS):
        for k in (range(2) if chk.thorough else [i]):
            chk.guard('yeadon rider', {'bicycle': b, 'rider': r}, yeadon_case, chk, b, r, k)
            chk.case(('yeadon', b, r, k))
    chk.assumptions = ['the yeadon package and the human it returns are trusted']
