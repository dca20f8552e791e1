"""C20 bicycle geometry: geometry.qnt describes one bicycle in several ways."""
import random

import numpy as np

import vlib
from bikestore import nominal
from vlib import fx, need

TOL = 1e-10


def near(got, want, what, tol=TOL):
    g = nominal(got)
    need(np.isfinite(g) and abs(g - want) <= tol * (1 + abs(want)), '%s is %r, specification %r',
         what, got, want)


class Num:
    """Plain or uncertain numbers and first-order propagation."""
    def __init__(self, unc, rng):
        self.unc, self.rng = unc, rng

    def __call__(self, v):
        from uncertainties import ufloat
        if self.unc == 0 or (self.unc == 2 and self.rng.random() < 0.5):
            return float(v)
        return ufloat(v, self.rng.choice([1e-4, 2e-3]) * (1 + abs(v)))


def spread(fn, args, out, what):
    """Standard deviation of a smooth function by first-order propagation."""
    s2 = 0.0
    plain = [nominal(a) for a in args]
    h = 1e-6
    for j, a in enumerate(args):
        s = getattr(a, 'std_dev', 0.0)
        if s:
            up, dn = list(plain), list(plain)
            up[j] += h
            dn[j] -= h
            s2 += ((nominal(fn(*up)) - nominal(fn(*dn))) / (2 * h) * s) ** 2
    if isinstance(out, np.ndarray) and out.size == 1:
        out = out.item()
    got = getattr(out, 'std_dev', 0.0)
    need(abs(got - np.sqrt(s2)) <= 1e-4 * np.sqrt(s2) + 1e-8,
         '%s: uncertainty %r, first-order propagation gives %r', what, got, float(np.sqrt(s2)))


def offsets(st, num, b):
    from bicycleparameters import geometry as g, bicycle
    t = {k: num(fx(v)) for k, v in st['tape'].items()}
    d = {k: fx(v) for k, v in st['desc'].items()}
    # trail from the offset
    fo, rF, lam = num(d['b']), num(b['rF']), num(b['lam'])
    out = bicycle.trail(rF, lam, fo)
    need(len(out) == 2, 'trail returns %r', out)
    near(out[0], b['c'], 'trail')
    near(out[1], d['cm'], 'mechanical trail')
    for j, n in enumerate(('trail', 'mechanical trail')):
        spread(lambda *a: bicycle.trail(*a)[j], (rF, lam, fo), out[j], n)
    if d['c'] > 0.02:
        h = tuple(t['h%d' % j] for j in range(1, 6))
        dd = tuple(t['d%d' % j] for j in range(1, 5)) + (t['d'],)
        abc = g.calculate_abc_geometry(h, dd)
        for n, v in zip('abc', abc):
            near(v, d[n], 'offset %s from the tape measurements' % n, 1e-9)
        spread(lambda *x: g.calculate_abc_geometry(x[:5], x[5:])[2], h + dd, abc[2], 'steer axis distance')
        # tilt from the offsets
        rR = num(b['rR'])
        a_, b_, c_ = (num(d[n]) for n in 'abc')
        lm = bicycle.lambda_from_abc(rF, rR, a_, b_, c_)
        near(lm, b['lam'], 'steer axis tilt', 1e-7)
        if any(hasattr(x, 'std_dev') for x in (a_, b_, c_)):
            need(lm.std_dev > 0, 'the uncertainty of the tilt was lost')
        # the whole conversion
        mp = {'dF': num(2 * np.pi * 7 * b['rF']), 'nF': 7, 'dR': num(2 * np.pi * 11 * b['rR']),
              'nR': 11, 'xcl': 0.3, 'zcl': -0.9}
        mp.update({k: t[k] for k in ('h1', 'h2', 'h3', 'h4', 'h5', 'd1', 'd2', 'd3', 'd4', 'd')})
        back(g, mp, b)
    mp = {'dF': num(2 * np.pi * 13 * b['rF']), 'nF': 13, 'dR': num(2 * np.pi * 3 * b['rR']), 'nR': 3,
          'w': num(b['w']), 'gamma': num(90 - np.degrees(b['lam'])), 'f': num(d['b'])}
    back(g, mp, b)


def back(g, mp, b):
    copy, par = dict(mp), {'mB': 3.0}
    out = g.calculate_benchmark_geometry(mp, par)
    need(all(mp[k] is copy[k] for k in copy) and set(mp) == set(copy), 'measured data changed')
    for k, v in b.items():
        near(out[k], v, '%s converted from %s' % (k, 'w' in mp and 'wheelbase' or 'offsets'), 1e-7)
    need(out['mB'] == 3.0, 'other parameters changed')
    for k in ('xcl', 'zcl'):
        need((k in out) == (k in mp) and out.get(k) == mp.get(k), '%s is %r', k, out.get(k))
    need(set(out) == set(b) | {'mB'} | (set(mp) & {'xcl', 'zcl'}), 'parameters %s', sorted(out))


def handlebar(st, num, b):
    from bicycleparameters import geometry as g
    t = {k: num(fx(v)) for k, v in st['tape'].items()}
    w = {k: fx(v) for k, v in st['bar'].items()}
    args = tuple(t[k] for k in ('h6', 'h7', 'd5', 'd6', 'l'))
    l1, l2 = g.calculate_l1_l2(*args)
    near(l1, w['l1'], 'l1')
    near(l2, w['l2'], 'l2')
    spread(lambda *x: g.calculate_l1_l2(*x)[1], args, l2, 'l2')
    args = num(b['lam']), num(w['l1']), num(w['l2'])
    u = g.fwheel_to_handlebar_ref(*args)
    near(u[0], w['u1'], 'u1')
    near(u[1], w['u2'], 'u2')
    for j in (0, 1):
        spread(lambda *x: g.fwheel_to_handlebar_ref(*x)[j], args, u[j], 'u%d' % (j + 1))


def axis(st, num, b):
    from bicycleparameters import geometry as g
    x, z, dist = (fx(st['point'][k]) for k in ('x', 'z', 'dist'))
    args = num(b['w']), num(b['c']), num(b['lam']), num(x), num(z)
    if dist < 1e-6:
        args = tuple(nominal(a) for a in args)

    def fn(w, c, lam, x, z):
        return g.distance_to_steer_axis(w, c, lam, np.array([x, 0.0, z]))
    out = fn(*args)
    near(out, dist, 'distance to the steer axis')
    need(nominal(out) >= 0, 'negative distance %r', out)
    if dist > 1e-3:
        spread(fn, args, out, 'distance to the steer axis')
    # fundamental geometry
    par = dict(b, mB=2.0)
    X, Z = g.fundamental_geometry_plot_data(par)
    for j, p in enumerate(st['feet']):
        near(X[j], fx(p[0]), 'x of fundamental point %d' % j)
        near(Z[j], fx(p[1]), 'z of fundamental point %d' % j)
    need(par == dict(b, mB=2.0), 'the parameters changed')


def lines(st, num, b):
    from bicycleparameters import geometry as g
    ln = {k: fx(v) for k, v in st['line'].items()}
    m, c, x, z = num(ln['m']), num(ln['b']), num(ln['x']), num(ln['z'])
    out = g.project_point_on_line((m, c), (x, z))
    near(out[0], ln['px'], 'x of the projected point')
    near(out[1], ln['pz'], 'y of the projected point')
    sp = st['space']
    p, u, v, proj = ([fx(a) for a in sp[k]] for k in ('p', 'u', 'v', 'proj'))
    o = [0.3, -0.2, 0.7]
    pts = np.array([o, np.add(o, u)]).T
    pt = np.add(o, p)
    keep = pts.copy()
    d = g.point_to_line_distance(pt, pts)
    near(d, fx(sp['dist']), 'distance from the line')
    near(g.point_to_line_distance(pt, pts[:, ::-1]), fx(sp['dist']), 'distance from the reversed line')
    need(np.all(pts == keep), 'the points changed')
    # vectors
    col = np.array(u).reshape(3, 1), np.array(v).reshape(3, 1)
    near(g.vec_angle(*col), fx(sp['angle']), 'angle between vectors', 3e-8)
    near(g.vec_angle(col[1], col[0]), fx(sp['angle']), 'angle between vectors', 3e-8)
    pc = np.array(p).reshape(3, 1)
    out = g.vec_project(pc, np.array(u))
    need(np.shape(out) == (3, 1), 'projected vector has shape %s', np.shape(out))
    for j in range(3):
        near(out[j, 0], proj[j], 'component %d of the projected vector' % j)
        o2 = g.vec_project(pc, j)
        need(all(o2[k, 0] == (0.0 if k == j else p[k]) for k in range(3)),
             'projection along axis %d of %s is %s', j, p, o2.tolist())
    need(np.all(pc.flatten() == p), 'the vector changed')
    for scale in (1e-5, 1e6):
        # only the direction of the normal and of the vectors matters
        o3 = g.vec_project(pc, np.array(u) * scale)
        for j in range(3):
            near(o3[j, 0], proj[j], 'component %d of the vector projected along %r u' % (j, scale))
        near(g.vec_angle(col[0] * scale, col[1]), fx(sp['angle']), 'angle between vectors', 3e-8)
    k = {n: fx(a) for n, a in st['links'].items()}
    t = g.calc_two_link_angles(k['L1'], k['L2'], k['D'])
    near(t[0], k['t1'], 'first link angle', 1e-7)
    near(t[1], k['t2'], 'second link angle', 1e-7)


def run(chk):
    chk.rule = 'a case is one bicycle whose descriptions are converted, plain or uncertain'
    jobs = vlib.split_jobs(dict(spec='geometry.qnt', steps=4, invariants=[
        'wheelbase', 'heights', 'forkOffset', 'nearest', 'elbow', 'normal']),
        chk.scale(300, 4000), 50, chk.seed)
    for traces in vlib.quint_many(jobs):
        for tr in traces:
            chk.count_trace(tr)
            for st in tr:
                b = {k: fx(v) for k, v in st['bike'].items()}
                data = {'bicycle': b, 'unc': st['unc'],
                        'other': {k: vlib.jsonable(st[k]) for k in ('tape', 'bar', 'point', 'line', 'space', 'links')}}
                for n, fn in (('offsets', offsets), ('handlebar', handlebar), ('steer axis', axis),
                              ('lines', lines)):
                    num = Num(st['unc'], random.Random(repr(sorted(b.items()))))
                    chk.guard(n, data, fn, st, num, b)
                chk.case(sorted(b.items()), {'bicycle': b, 'unc': st['unc']})
                if chk.too_many():
                    return
