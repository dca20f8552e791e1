"""C27 the pose of a rider on a bicycle: replay of posture.qnt."""
import os
import random
import shutil
import tempfile

import numpy as np

import bikestore
import vlib
from bikestore import nominal
from c13 import ROT, combine
from vlib import fx, need

BODY = ('Lj3L', 'Lj5L', 'Lj6L', 'Ls4L', 'Ls4w', 'La2L', 'La4L', 'La5L')
BENT = ('w', 'rR', 'rF')
MEASD = ('hbb', 'lcs', 'lst', 'lsp', 'lamst', 'whb', 'LhbR', 'LhbF')
CFGS = ['somersault', 'tilt', 'twist', 'PTsagittalFlexion', 'PTbending', 'TCspinalTorsion',
        'TCsagittalSpinalFlexion', 'CA1extension', 'CA1adduction', 'CA1rotation', 'CB1extension',
        'CB1abduction', 'CB1rotation', 'A1A2extension', 'B1B2extension', 'PJ1extension',
        'PJ1adduction', 'PK1extension', 'PK1abduction', 'J1J2flexion', 'K1K2flexion']
POSED = [k for k in CFGS if k[:2] in ('CA', 'CB', 'A1', 'B1') or k in (
    'PJ1extension', 'PK1extension', 'J1J2flexion', 'K1K2flexion')]
with open('/repo/data/riders/Jason/RawData/JasonYeadonMeas.txt') as _f:
    JASON = _f.read().splitlines()


def body_files(raw, rider, bicycle, d):
    """Writes the files of a rider with these lengths; returns the scale of the body."""
    ratio = d['Lj5L'] / 0.878      # the whole body has this scale
    lines = []
    for ln in JASON:
        key, sep, val = ln.partition(':')
        if not sep or ln.startswith('#'):
            lines.append(ln)
            continue
        key = key.strip()
        if key == 'measurementconversionfactor':
            val = repr(1.0)
        elif key == 'totalmass':
            val = repr(80.0 * ratio ** 3)
        else:
            val = val.split('#')[0]
            # both sides of the body are alike
            src = key.replace('Lb', 'La').replace('Lk', 'Lj')
            val = repr(d[src] if src in BODY else float(val) * 0.01 * ratio)
        lines.append('%s: %s' % (key, val))
    bikestore.write(os.path.join(raw, rider + 'YeadonMeas.txt'), '\n'.join(lines) + '\n')
    # the angles that the pose decides count for nothing in the file
    rnd = random.Random(repr(sorted(d.items())))
    given = dict.fromkeys(CFGS, 0.0)
    if rnd.random() < 0.7:
        given.update({k: round(rnd.uniform(-0.5, 0.5), 3) for k in POSED})
    given['somersault'] = d['hunch']
    bikestore.write(os.path.join(raw, '%s%sYeadonCFG.txt' % (rider, bicycle)), ''.join(
        '%s: %r\n' % (k, given[k]) for k in CFGS))
    return ratio


def posture_case(st, unc):
    """The human that configure_rider returns holds the pose of the model."""
    from uncertainties import ufloat
    from bicycleparameters import rider
    d = {k: fx(v) for k, v in st['dim'].items()}
    tmp = tempfile.mkdtemp()
    try:
        ratio = body_files(os.path.join(tmp, 'Pat', 'RawData'), 'Pat', 'Frame', d)
        be = dict(mB=12.0, xB=0.3, zB=-0.6, IBxx=0.5, IByy=1.0, IBzz=0.7, IBxz=0.1, mR=2.0,
                  lam=0.3, c=0.06, **{k: d[k] for k in BENT})
        me = {k: d[k] for k in MEASD}
        if unc:
            be = {k: ufloat(v, 1e-3) for k, v in be.items()}
            me = {k: ufloat(v, 1e-3) for k, v in me.items()}
        be0 = dict(be)
        with vlib.quiet():
            rp, h, both = rider.configure_rider(os.path.join(tmp, 'Pat'), 'Frame', be, me, False)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    pt = {n: np.array([fx(p['x']), fx(p['y']), fx(p['z'])]) for n, p in st['pts'].items()}

    def world(v):
        return pt['hip'] + ROT @ np.asarray(v, dtype=float).flatten()

    def along(seg, length):
        a, b = np.asarray(seg.pos, float).flatten(), np.asarray(seg.end_pos, float).flatten()
        return world(a + (b - a) / np.linalg.norm(b - a) * length)

    def near(got, want, what, planar=False):
        if planar:
            got, want = got[[0, 2]], want[[0, 2]]
        need(np.max(np.abs(got - want)) < 2e-6, '%s is at %s, specification %s', what, got, want)
    need(h.CFG['somersault'] == d['hunch'], 'the rider leans by %r, configuration file %r',
         h.CFG['somersault'], d['hunch'])
    shank = d['Lj5L'] + d['Lj6L'] - d['Lj3L']
    fore = d['La4L'] + d['La5L'] - d['La2L']
    flip = np.array([1.0, -1.0, 1.0])
    for side, upper, lower in ((1, h.J1, h.J2), (2, h.K1, h.K2)):
        near(world(upper.end_pos), pt['knee'], 'knee %d' % side, True)
        near(along(lower, shank), pt['foot'], 'foot %d' % side, True)
        hip = world(upper.pos)
        need(abs(world(upper.end_pos)[1] - hip[1]) < 1e-9 and
             abs(along(lower, shank)[1] - hip[1]) < 1e-9, 'leg %d leaves its plane', side)
    # A is the left arm
    for side, upper, lower, s in ((1, h.A1, h.A2, flip), (2, h.B1, h.B2, np.ones(3))):
        near(world(upper.pos), s * pt['shoulder'], 'shoulder %d' % side)
        near(world(upper.end_pos), s * pt['elbow'], 'elbow %d' % side)
        near(along(lower, fore), s * pt['hand'], 'hand %d' % side)
    for v in (h.A2.end_pos, h.J2.end_pos, h.C.end_pos, h.B1.pos):
        got = rider.yeadon_vec_to_bicycle_vec(np.array(v, dtype=float).reshape(3, 1), me, be0)
        need(np.shape(got) == (3, 1), 'a point of the body has shape %s', np.shape(got))
        near(np.asarray(got, dtype=float).flatten(), world(v), 'a point of the body on the bicycle')
    com = world(h.center_of_mass)
    J = ROT @ np.asarray(h.inertia, dtype=float) @ ROT.T
    want = {'mB': float(h.mass), 'xB': com[0], 'yB': com[1], 'zB': com[2], 'IBxx': J[0, 0],
            'IByy': J[1, 1], 'IBzz': J[2, 2], 'IBxz': J[0, 2]}
    need(abs(float(h.mass) - 80.0 * ratio ** 3) < 1e-6, 'the human weighs %r', h.mass)
    for k, v in want.items():
        need(abs(nominal(rp[k]) - v) <= 1e-8 * (1 + abs(v)), 'rider %s is %r, the human has %r',
             k, rp[k], v)
    tot = combine({k: nominal(v) for k, v in be0.items()}, want)
    for k in be0:
        v = tot.get(k, nominal(be0[k]))
        need(abs(nominal(both[k]) - v) <= 1e-8 * (1 + abs(v)), 'bicycle with rider: %s is %r, '
             'rigid body sum %r', k, both[k], v)
    return True


def posture(chk, tr):
    hist = []
    for i, st in enumerate(tr):
        hist.append(st['act'])
        data = {'lengths': {k: fx(v) for k, v in st['dim'].items()}, 'adjusted': hist[:]}
        ok = chk.guard('posture', data, posture_case, st, (chk.traces + i) % 2)
        chk.case(('posture', tuple(sorted(st['dim'].items()))), data)
        if ok is None:
            return
    chk.count_trace(tr)


def run(chk):
    import bicycleparameters.rider  # noqa
    chk.rule = 'a case is a rider and a bicycle, new or with one more length changed'
    jobs = vlib.split_jobs(dict(spec='posture.qnt', steps=4, invariants=['limbs', 'onBike', 'natural']),
                           chk.scale(60, 500), 6, chk.seed + 5)
    chk.parallel(posture, [tr for l in vlib.quint_many(jobs) for tr in l])
    chk.assumptions = ['the yeadon package is trusted with where the segments of a human in a given '
                       'configuration are']
