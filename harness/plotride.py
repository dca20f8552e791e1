"""Drawings of measured bicycles (ideal.qnt) and of riders (posture.qnt)."""
import os
import random
import shutil
import tempfile

import numpy as np

import bikestore
import c19
import c27
import vlib
from c13 import ROT
from plotmdl import floats
from vlib import fx, need


def segments(fig, kind):
    """Two point lines of a figure in (x, z up), with their label."""
    if kind == 'plotly':
        out = []
        for t in fig.data:
            if t.x is not None and len(t.x) == 2 and t.mode == 'lines':
                out.append((np.array([floats(t.x), floats(t.y)]).T, t.name))
        return out
    ax = fig.axes[0]
    return [(np.array([floats(l.get_xdata()), floats(l.get_ydata())]).T, l.get_label())
            for l in ax.lines if len(l.get_xdata()) == 2]


def same_seg(p, q, tol):
    return min(np.max(np.abs(p - q)), np.max(np.abs(p - q[::-1]))) <= tol


def draw(bike, kind, **kw):
    import matplotlib.pyplot as plt
    with vlib.quiet():
        if kind == 'plotly':
            return bike._plot_bicycle_geometry_plotly(show=False, **kw)
        fig = bike.plot_bicycle_geometry(show=False, **kw)
    plt.close(fig)
    return fig


def pendulums(st, rng, kind):
    """The orientations a measured bicycle was hung in."""
    import bicycleparameters
    tmp = tempfile.mkdtemp()
    try:
        mp = c19.with_unc(c19.measured(st, rng), st['form']['unc'], rng)
        bikestore.write(os.path.join(tmp, 'bicycles', 'Bike', 'RawData', 'BikeMeasured.txt'), ''.join(
            '%s = %s\n' % (k, repr(v) if not hasattr(v, 'std_dev') else
                           '%r+/-%r' % (v.nominal_value, v.std_dev)) for k, v in mp.items()))
        with vlib.quiet():
            bike = bicycleparameters.Bicycle('Bike', pathToData=tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    rods = []
    for p in st['parts']:
        for j, r in enumerate(p['rods']):
            c, h = np.array([fx(r['x']), -fx(r['z'])]), np.array([fx(r['hx']), -fx(r['hz'])])
            rods.append((p['name'], str(j + 1), np.array([c - h, c + h])))
    ell = bool(rng.random() < 0.5) and all(p['exact'] for p in st['parts'])
    plain = segments(draw(bike, kind, pendulum=False, inertiaEllipse=ell), kind)
    fig = draw(bike, kind, inertiaEllipse=ell)
    segs = segments(fig, kind)
    left = list(segs)
    for p, n, q in rods:
        hit = [s for s in left if same_seg(s[0], q, 1e-7 * (1 + np.max(np.abs(q))))]
        need(hit, 'orientation %s of %s is not drawn at %s, nearest %s', n, p, q.tolist(),
             min((s[0].tolist() for s in segs), key=lambda s: np.max(np.abs(s - q))))
        left = [s for s in left if s is not hit[0]]
        if kind != 'plotly':
            t = [x for x in fig.axes[0].texts if x.get_text() == n and
                 min(np.linalg.norm(np.array(x.get_position()) - e) for e in q) < 1e-6]
            need(t, 'orientation %s of %s is not labelled at its line', n, p)
    need(len(left) == len(plain) and all(np.allclose(a[0], b[0]) for a, b in zip(left, plain)),
         'besides the orientations %d lines are drawn, without them %d', len(left), len(plain))
    for p, n, q in rods:
        need(not any(same_seg(s[0], q, 1e-9) for s in plain), 'orientation %s of %s is drawn '
             'although not asked for', n, p)
    return True


def stick(st, rng, kind):
    """A rider is drawn as lines between the joints."""
    import bicycleparameters
    d = {k: fx(v) for k, v in st['dim'].items()}
    tmp = tempfile.mkdtemp()
    try:
        c27.body_files(os.path.join(tmp, 'riders', 'Pat', 'RawData'), 'Pat', 'Frame', d)
        be = dict(bikestore.BENCH, **{k: (d[k], None) for k in c27.BENT})
        base = os.path.join(tmp, 'bicycles', 'Frame')
        bikestore.write(os.path.join(base, 'Parameters', 'FrameBenchmark.txt'), bikestore.par_text(be))
        unc = '+/-0.001' if rng.random() < 0.5 else ''
        bikestore.write(os.path.join(base, 'RawData', 'FrameMeasured.txt'),
                        ''.join('%s = %r%s\n' % (k, d[k], unc) for k in c27.MEASD))
        with vlib.quiet():
            bike = bicycleparameters.Bicycle('Frame', pathToData=tmp)
            before = segments(draw(bike, kind), kind)
            bike.add_rider('Pat')
        segs = segments(draw(bike, kind, centerOfMass=rng.random() < 0.5), kind)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    P = {n: np.array([fx(p['x']), -fx(p['z'])]) for n, p in st['pts'].items()}
    org = np.array([fx(st['pts']['hip'][a]) for a in 'xyz'])

    def side(v):
        w = org + ROT @ np.asarray(v, dtype=float).flatten()
        return np.array([w[0], -w[2]])
    h = bike.human
    limbs = {'lower leg': (side(h.K2.end_pos), P['knee']), 'upper leg': (P['knee'], P['hip']),
             'trunk': (P['hip'], P['shoulder']), 'upper arm': (P['shoulder'], P['elbow']),
             'lower arm': (P['elbow'], side(h.B2.end_pos)), 'head': (P['shoulder'], side(h.C.end_pos))}
    for n, q in limbs.items():
        q = np.array(q)
        need(any(same_seg(s[0], q, 5e-6) for s in segs), 'the %s of the rider is not drawn at %s', n,
             q.tolist())
        need(not any(same_seg(s[0], q, 5e-6) for s in before), 'the %s of a rider is drawn on an '
             'empty bicycle', n)
    return True


def run(chk):
    rng = random.Random(chk.seed)
    jobs = vlib.split_jobs(dict(spec='ideal.qnt', steps=1, invariants=['consistent', 'positive']),
                           chk.scale(16, 120), 4, chk.seed + 3)
    njobs = len(jobs)
    jobs += vlib.split_jobs(dict(spec='posture.qnt', steps=1, invariants=['limbs', 'onBike']),
                            chk.scale(8, 80), 4, chk.seed + 4)
    todo = []
    for i, traces in enumerate(vlib.quint_many(jobs)):
        for tr in traces:
            chk.count_trace(tr)
            todo += [(pendulums if i < njobs else stick, st, rng.random()) for st in tr]

    def one(chk, item):
        fn, st, seed = item
        r = random.Random(seed)
        kind = 'plotly' if seed < 0.4 else 'matplotlib'
        data = {'figure': kind}
        if fn is pendulums:
            data.update(measured=c19.measured(st, random.Random(0)), form=st['form'])
        else:
            data.update(lengths={k: fx(v) for k, v in st['dim'].items()})
        chk.guard('%s %s' % (kind, fn.__name__), data, fn, st, r, kind)
        chk.case((fn.__name__, seed), {'figure': kind, 'what': fn.__name__})
    chk.parallel(one, todo)
