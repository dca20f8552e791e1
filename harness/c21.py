"""C21 inertia transformations: replay of inertia.qnt (bodies of point masses)."""
import random

import numpy as np

import vlib
from bikestore import nominal
from vlib import fx, need

TOL = 1e-9


def tens(f):
    xx, yy, zz, xy, xz, yz = [fx(v) for v in f]
    return np.array([[xx, xy, xz], [xy, yy, yz], [xz, yz, zz]])


def flat(t):
    return [t[k] for k in ('xx', 'yy', 'zz', 'xy', 'xz', 'yz')]


def noms(a):
    return np.array([[nominal(v) for v in row] for row in np.atleast_2d(np.asarray(a, dtype=object))])


def std(x):
    if isinstance(x, np.ndarray) and x.size == 1:
        x = x.item()
    return float(getattr(x, 'std_dev', 0.0))


def same(got, want, what, scale=None):
    got = np.asarray(got, dtype=float)
    want = np.asarray(want, dtype=float)
    need(got.shape == want.shape, '%s has shape %s, specification %s', what, got.shape, want.shape)
    s = scale or np.max(np.abs(want)) or 1.0
    need(np.all(np.isfinite(got)) and np.max(np.abs(got - want)) <= TOL * s,
         '%s is %s, specification %s', what, got, want)


class Nums:
    def __init__(self, unc, rng):
        self.unc, self.rng = unc, rng

    def __call__(self, v, part=0.5):
        from uncertainties import ufloat
        if self.unc == 0 or (self.unc != 3 and self.rng.random() < part):
            return float(v)
        return ufloat(float(v), self.rng.choice([1e-4, 3e-3]) * (1e-2 + abs(float(v))))


def spread(fn, args, out, what):
    """Standard deviations by first-order propagation of independent inputs."""
    plain = [nominal(a) for a in args]
    base = np.asarray(fn(plain), dtype=float).flatten()
    s2 = np.zeros(base.shape)
    for j, a in enumerate(args):
        if std(a):
            h = 1e-5 * (1e-2 + abs(plain[j]))
            up, dn = list(plain), list(plain)
            up[j] += h
            dn[j] -= h
            d = (np.asarray(fn(up), dtype=float) - np.asarray(fn(dn), dtype=float)).flatten() / (2 * h)
            s2 += (d * std(a)) ** 2
    got = [std(v) for v in np.asarray(out, dtype=object).flatten()]
    for g, s in zip(got, np.sqrt(s2)):
        need(abs(g - s) <= 2e-3 * max(np.sqrt(s2)) + 1e-9 * max(np.abs(base)), '%s: uncertainties %s, specification %s', what, got,
             np.sqrt(s2))


def untouched(args, given, what):
    for a, b in zip(args, given):
        need(np.array_equal(np.asarray(a, dtype=object), np.asarray(b, dtype=object)),
             '%s changed its argument from %s to %s', what, b, a)


def usym(t, num):
    """Uncertain symmetric tensor, the two halves being the same quantity."""
    out = np.zeros((3, 3), dtype=object)
    vals = []
    for i in range(3):
        for j in range(i, 3):
            out[i, j] = out[j, i] = num(t[i, j])
            vals.append(out[i, j])
    return out, vals


def assemble(v):
    return np.array([[v[0], v[1], v[2]], [v[1], v[3], v[4]], [v[2], v[4], v[5]]])


def step(state, pre, st, rng):
    """state: dictionary with the tensor the implementation has evolved."""
    from bicycleparameters import inertia
    act, op = st['act'], st['act']['op']
    before = tens(flat((pre or st)['eye']))
    after = tens(flat(st['eye']))
    scale = max(abs(before).max(), abs(after).max())
    num = Nums(st['unc'], rng)
    arg = [fx(v) for v in act['arg']]
    out = [fx(v) for v in act['out']]
    if op in ('rotate', 'undo'):
        a = arg[0] if op == 'rotate' else -fx(pre['angle'])
        given = state['I'].copy()
        new = inertia.rotate_inertia_tensor(state['I'], a)
        untouched([state['I']], [given], 'rotate_inertia_tensor')
        same(noms(new), after, 'tensor turned by %r' % a, scale)
        back = inertia.rotate_inertia_tensor(new, -a)
        same(noms(back), before, 'tensor turned by %r and back' % a, scale)
        state['I'] = np.array(new, dtype=float)
        if st['unc']:
            ut, vals = usym(before, num)
            ua = num(a)
            got = inertia.rotate_inertia_tensor(ut, ua)
            same(noms(got), after, 'uncertain tensor turned', scale)

            def turned(v):
                ca, sa = np.cos(v[6]), np.sin(v[6])
                C = np.array([[ca, 0, -sa], [0, 1, 0], [sa, 0, ca]])
                return C @ assemble(v) @ C.T
            spread(turned, vals + [ua], got, 'rotate_inertia_tensor')
    elif op == 'move':
        want = tens(act['out'])
        m = fx(st['com']['m'])
        for d in (np.array(arg), list(arg), tuple(-v for v in arg)):
            given = before.copy(), (d.copy() if isinstance(d, np.ndarray) else d)
            got = inertia.parallel_axis(before, m, d)
            same(noms(got), want, 'inertia about a point at %s' % (d,), abs(want).max())
            untouched([before, d], given, 'parallel_axis')
        ut, vals = usym(before, num)
        um, ud = num(m), [num(v) for v in arg]
        got = inertia.parallel_axis(ut, um, np.array(ud))
        same(noms(got), want, 'uncertain inertia about a point', abs(want).max())

        def moved(v):
            d = np.array(v[7:])
            return assemble(v) + v[6] * (d @ d * np.eye(3) - np.outer(d, d))
        spread(moved, vals + [um] + ud, got, 'parallel_axis')
    elif op == 'swing':
        m, g, l, T = arg
        got = inertia.compound_pendulum_inertia(m, g, l, T)
        same([got], out, 'compound pendulum inertia', out[0] + m * l ** 2)
        u = [num(v) for v in arg]
        got = inertia.compound_pendulum_inertia(*u)
        same([nominal(got)], out, 'uncertain compound pendulum inertia', out[0] + m * l ** 2)
        spread(lambda v: (v[3] / 2 / np.pi) ** 2 * v[0] * v[1] * v[2] - v[0] * v[2] ** 2, u, got,
               'compound_pendulum_inertia')
    elif op == 'twist':
        k, T = arg
        same([inertia.tor_inertia(k, T)], out, 'torsional pendulum inertia')
        same([inertia.torsional_pendulum_stiffness(out[0], T)], [k], 'torsional stiffness')
        uk, uT, uj = num(k), num(T), num(out[0])
        j = inertia.tor_inertia(uk, uT)
        s = inertia.torsional_pendulum_stiffness(uj, uT)
        same([nominal(j), nominal(s)], [out[0], k], 'uncertain torsional pendulum')
        spread(lambda v: v[0] * v[1] ** 2 / 4 / np.pi ** 2, [uk, uT], j, 'tor_inertia')
        spread(lambda v: v[0] / v[1] ** 2 * 4 * np.pi ** 2, [uj, uT], s, 'torsional_pendulum_stiffness')
        # arrays of periods
        same(inertia.tor_inertia(k, np.array([T, 2 * T])), [out[0], 4 * out[0]], 'array of periods')
    elif op == 'axes':
        beta = [fx(v) for v in act['beta']]
        B = np.array([[np.cos(b) ** 2, -2 * np.sin(b) * np.cos(b), np.sin(b) ** 2] for b in beta])
        cond = np.linalg.cond(B)
        if cond > 1e4:
            return
        # the axes in any order
        order = list(range(len(beta)))
        rng.shuffle(order)
        for o in (range(len(beta)), order):
            jay, be = np.array([arg[i] for i in o]), np.array([beta[i] for i in o])
            given = jay.copy(), be.copy()
            got = inertia.inertia_components(jay, be)
            same(got, out, 'components from %d axes %s' % (len(be), be), scale * cond)
            untouched([jay, be], given, 'inertia_components')
        uj = [num(v) for v in arg]
        ub = [num(v, 0.8) for v in beta]
        got = inertia.inertia_components(np.array(uj), np.array(ub))
        same([nominal(v) for v in got], out, 'components from %d uncertain axes' % len(beta),
             scale * cond * 10)
        if st['unc']:
            n = len(beta)

            def fit(v):
                b = np.array(v[n:])
                B = np.vstack((np.cos(b) ** 2, -np.sin(2 * b), np.sin(b) ** 2)).T
                return np.linalg.lstsq(B, np.array(v[:n]), rcond=None)[0]
            if cond < 50:
                spread(fit, uj + ub, got, 'inertia_components')
    elif op == 'split':
        from bicycleparameters import com
        parts = [{k: fx(p[k]) for k in 'mxyz'} for p in act['part']]
        xyz = np.array([[p[k] for p in parts] for k in 'xyz'])
        ms = [p['m'] for p in parts]
        c = {k: fx(st['com'][k]) for k in 'mxyz'}
        for co, mm in ((xyz, np.array(ms)), (xyz.tolist(), ms), (xyz[:, ::-1], ms[::-1])):
            mT, cT = com.total_com(co, mm)
            same([mT], [c['m']], 'total mass')
            same(cT, [c['x'], c['y'], c['z']], 'total mass centre', 1 + abs(xyz).max())
        I1, I2, want = tens(act['arg'][:6]), tens(act['arg'][6:]), tens(act['out'])
        c1, c2 = xyz[:, 0], xyz[:, 1]
        cT = np.array([c['x'], c['y'], c['z']])
        got = inertia.parallel_axis(I1, ms[0], c1 - cT) + inertia.parallel_axis(I2, ms[1], c2 - cT)
        same(noms(got), want, 'sum of the parts about their common mass centre', abs(want).max())
        um = [num(v) for v in ms]
        mT, cu = com.total_com(xyz, um)
        same([nominal(v) for v in cu], cT, 'uncertain mass centre', 1 + abs(xyz).max())
        spread(lambda v: [sum(v)], um, [mT], 'total_com')
        spread(lambda v: xyz @ np.array(v) / sum(v), um, cu, 'total_com')
    elif op == 'tube':
        l, m, ro, ri = arg
        got = inertia.tube_inertia(l, m, ro, ri)
        same(got, [out[0], out[1], out[1]], 'tube inertia', max(out))
        u = [num(v) for v in arg]
        got = inertia.tube_inertia(*u)
        same([nominal(v) for v in got], [out[0], out[1], out[1]], 'uncertain tube', max(out))
        spread(lambda v: [v[1] / 2 * (v[2] ** 2 + v[3] ** 2)] +
               2 * [v[1] / 12 * (3 * v[2] ** 2 + 3 * v[3] ** 2 + v[0] ** 2)], u, got, 'tube_inertia')
    # in every state: principal values and axes reconstruct the tensor
    same([np.trace(after), (np.trace(after) ** 2 - np.trace(after @ after)) / 2, np.linalg.det(after)],
         [fx(v) for v in st['inv']], 'decoded tensor', scale ** 3 + 1)
    for I in (after, after.tolist()):
        Ip, C = inertia.principal_axes(I)
        Ip, C = np.asarray(Ip, dtype=float), np.asarray(C, dtype=float)
        need(Ip.shape == (3,) and C.shape == (3, 3), 'shapes %s %s', Ip.shape, C.shape)
        need(Ip[0] <= Ip[1] <= Ip[2], 'principal moments %s are not in order', Ip)
        inv = [fx(v) for v in st['inv']]
        same([Ip.sum()], inv[:1], 'sum of the principal moments', scale)
        same([Ip[0] * Ip[1] + Ip[1] * Ip[2] + Ip[2] * Ip[0]], inv[1:2],
             'sum of the products of the principal moments', scale ** 2)
        same([Ip.prod()], inv[2:], 'product of the principal moments', scale ** 3)
        same(C @ C.T, np.eye(3), 'C C^T of the principal axes of %s' % (after.tolist(),), 1.0)
        same(C.T @ np.diag(Ip) @ C, after, 'C^T diag(Ip) C', scale)
        same(C @ after @ C.T, np.diag(Ip), 'C I C^T', scale)
    # the benchmark dictionary
    for part in 'BHGSFRD':
        par = {'I%sxx' % q: 100.0 for q in 'BHGSFRD'}
        p = 'I' + part
        sym = after if abs(after[0, 1]) + abs(after[1, 2]) < 1e-12 * scale else None
        if part in 'FRD':
            par.update({p + 'xx': after[0, 0], p + 'yy': after[1, 1]})
            want = np.diag([after[0, 0], after[1, 1], after[0, 0]])
        else:
            par.update({p + 'xx': after[0, 0], p + 'yy': after[1, 1], p + 'zz': after[2, 2],
                        p + 'xz': after[0, 2]})
            want = np.array([[after[0, 0], 0, after[0, 2]], [0, after[1, 1], 0],
                             [after[0, 2], 0, after[2, 2]]])
        given = dict(par)
        got = inertia.part_inertia_tensor(par, part)
        need(par == given, 'part_inertia_tensor changed the parameters')
        same(noms(got), want, 'tensor of part %s' % part)
        if st['unc']:
            upar = {k: num(v) for k, v in par.items()}
            got = inertia.part_inertia_tensor(upar, part)
            same(noms(got), want, 'uncertain tensor of part %s' % part)
            for i, j, k in ((0, 0, 'xx'), (1, 1, 'yy')):
                need(std(got[i, j]) == std(upar[p + k]), 'uncertainty of %s%s', p, k)
        del sym


def replay(chk, tr):
    rng = random.Random(repr(tr[0]['body']))
    state = {'I': tens(flat(tr[0]['eye']))}
    hist = []
    for i, st in enumerate(tr):
        hist.append({'op': st['act']['op'], 'arg': [fx(v) for v in st['act']['arg']],
                     'beta': [fx(v) for v in st['act']['beta']]})
        data = {'body': [{k: fx(v) for k, v in p.items()} for p in tr[0]['body']],
                'unc': st['unc'], 'history': hist[:]}
        ok = chk.guard('inertia/' + st['act']['op'], data, lambda: step(
            state, tr[i - 1] if i else None, st, rng) or True)
        chk.case((repr(tr[0]['body']), repr(hist)), {'history': hist[-3:]})
        if not ok:
            break
    chk.count_trace(tr)


def run(chk):
    chk.rule = 'a case is one operation on one body of point masses after a history of operations'
    jobs = vlib.split_jobs(dict(spec='inertia.qnt', steps=12, invariants=[
        'rigid', 'undone', 'triangle', 'steiner']), chk.scale(150, 2400), 30, chk.seed)
    for traces in vlib.quint_many(jobs):
        for tr in traces:
            replay(chk, tr)
            if chk.too_many():
                return
    chk.assumptions = ['axis sets whose least squares problem has a condition number above 1e4 are skipped']
