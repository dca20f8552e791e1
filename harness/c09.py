"""C09: histories of simulations on one model object (simulate.qnt)."""
import copy

import numpy as np

import mdl
import vlib
from vlib import fx, fxm, need, need_close

INV = ['reversible', 'phiStart', 'increasing']
# relative to the largest magnitude a state has reached so far; the solvers
# work with a relative tolerance of 1e-3 per step
TOL = 0.03
STATS = []


def new_model(kind, base):
    if kind == 'lean':
        import lean
        return lean.new_model(base)
    return mdl.new_model(kind, base)


def law_fun(call, n, log):
    law = call['law']
    F, a, b, d = (np.array(fxm(law[k])) for k in 'Fabd')
    om, eta = fx(law['omega']), fx(law['eta'])

    def u(t, x):
        x = np.asarray(x)
        need(x.shape == (n,) and np.ndim(t) == 0, 'the input function got t %r and '
             'x of shape %s', t, x.shape)
        log.append((float(t), np.array(x)))
        val = F @ x + a + b * t + d * np.sin(om * t + eta)
        return mdl.container(list(val), call['useq'])
    return u


def running_max(x):
    return np.maximum.accumulate(np.abs(x), axis=0)


def check_traj(got, want, what, tol=TOL):
    need(got.shape == want.shape, '%s has shape %s, expected %s', what, got.shape, want.shape)
    need(np.all(np.isfinite(got)), '%s not finite', what)
    m = running_max(want)
    # states of one kind share a scale: an error of a fast state feeds a slow one
    scale = m + 0.02 * m.max(axis=1, keepdims=True) + 1e-4
    err = np.abs(got - want) / scale
    STATS.append(err.max())
    k = np.unravel_index(np.argmax(err), err.shape)
    need(err[k] <= tol, '%s: state %d at sample %d is %r, specification %r\n'
         'simulated %s\nspecification %s', what, k[1], k[0], got[k], want[k],
         got[:, k[1]], want[:, k[1]])


def check_sim(model, st, n, m):
    call, out = st['call'], st['want']
    t = mdl.container([fx(x) for x in call['t']], call['seq'])
    x0 = mdl.container([fx(x) for x in call['x0']], call['xseq'])
    t_before, x0_before = copy.deepcopy(t), copy.deepcopy(x0)
    kw = {k: fx(v) for k, v in call['scal'].items()}
    log = []
    f = law_fun(call, n, log) if call['op'] == 'forced' else None
    with vlib.quiet():
        if f is None:
            got = model.simulate(t, x0, **kw)
        else:
            got = model.simulate(t, x0, input_func=f, **kw)
    need(mdl.same_value(t, t_before), 'the caller\'s times changed to %r', t)
    need(mdl.same_value(x0, x0_before), 'the caller\'s initial conditions changed '
         'from %r to %r', x0_before, x0)
    need(len(got) == 2, 'simulate returned %d values', len(got))
    got = mdl.take(got)
    x, u = np.asarray(got[0]), np.asarray(got[1])
    want = np.array(fxm(out['x']))
    check_traj(x, want, '%s simulation' % call['op'])
    need_close(x[0], want[0], 'the first state', 1e-12, 1e-12)
    need(u.shape == (len(call['t']), m), 'inputs have shape %s', u.shape)
    if f is None:
        need(np.all(u == 0), 'inputs of a free simulation are not zero: %s', u)
    else:
        need(log, 'the input function was never called')
        for k in range(len(u)):
            need_close(u[k], np.asarray(f(fx(call['t'][k]), x[k])),
                       'input recorded at sample %d' % k, 1e-9, 1e-9)


def check_modes(model, st, n):
    call, out = st['call'], st['want']
    t = mdl.container([fx(x) for x in call['t']], call['seq'])
    kw = {k: fx(v) for k, v in call['scal'].items()}
    with vlib.quiet():
        got = mdl.take(np.asarray(model.simulate_modes(t, **kw)))
        evals, evecs = model.calc_eigen(**kw)
    nt = len(call['t'])
    need(got.shape == (n, nt, n), 'mode simulations have shape %s, expected %s',
         got.shape, (n, nt, n))
    A = np.array(fxm(out['A']))
    Phi = [np.array(fxm(p)) for p in out['Phi']]
    na = max(1.0, np.linalg.norm(A))
    for i in range(n):
        x0 = got[i, 0]
        nx = np.linalg.norm(x0)
        need(nx > 1e-6, 'mode %d starts at zero', i)
        lam = complex(evals[i])
        if abs(lam.imag) < 1e-9 * na:
            res = np.linalg.norm(A @ x0 - lam.real * x0) / na
        else:
            res = np.linalg.norm(A @ (A @ x0) - 2 * lam.real * (A @ x0)
                                 + abs(lam) ** 2 * x0) / na ** 2
        need(res <= 1e-6 * nx, 'mode %d does not start in the eigenspace of %s '
             '(residual %.3g)', i, lam, res / nx)
        check_traj(got[i], np.array([P @ x0 for P in Phi]), 'mode %d' % i)
        if min(abs(lam - mu) for j, mu in enumerate(evals) if j != i) > 1e-3 * na:
            # well separated: the eigenvectors do not depend on rounding
            # (but for their sign)
            v = evecs[:, i].real
            need_close(x0, v if x0 @ v >= 0 else -v,
                       'start of mode %d (eigenvalue %s)' % (i, lam), 1e-6, 1e-6)


def check_array(model, st):
    call = st['call']
    t = np.array([fx(x) for x in call['t']])
    x0 = mdl.container([fx(x) for x in call['x0']], call['xseq'])
    x0_before = copy.deepcopy(x0)
    kw = {k: np.array([fx(x) for x in v]) for k, v in call['arrs'].items()}
    for name, fn in (('simulate', lambda: model.simulate(t, x0, **kw)),
                     ('simulate_modes', lambda: model.simulate_modes(t, **kw))):
        try:
            with vlib.quiet():
                fn()
        except ValueError:
            pass
        except Exception as e:
            raise vlib.Mismatch('%s raised %r instead of ValueError for the array '
                                'parameters %s' % (name, e, sorted(kw)))
        else:
            raise vlib.Mismatch('%s accepted the array parameters %s' % (name, sorted(kw)))
        need(mdl.same_value(x0, x0_before), 'the caller\'s initial conditions changed')


def replay(chk, tr):
    box = {}
    hist = []
    for st in tr:
        call = st['call']
        n, m = (12, 3) if st['kind'] == 'lean' else (4, 2)
        hist.append({'op': call['op'], 'scal': {k: fx(v) for k, v in call['scal'].items()},
                     't': fxm(call['t']), 'x0': fxm(call['x0']),
                     'law': {k: fxm(v) for k, v in call['law'].items()}
                     if call['op'] == 'forced' else None})
        data = {'kind': st['kind'], 'base': mdl.par_floats(st['base']), 'calls': hist[:]}

        def one():
            if call['op'] == 'new':
                box['m'], box['given'] = new_model(st['kind'], st['base'])
                box['d'] = dict(box['given'])
                return
            if call['op'] == 'edit':
                box['d'], box['given'] = mdl.edit_params(box['m'], box['d'], st)
                return
            if call['op'] == 'modes':
                check_modes(box['m'], st, n)
            elif call['op'] == 'array':
                check_array(box['m'], st)
            else:
                check_sim(box['m'], st, n, m)
            mdl.check_params_unchanged(box['m'], box['d'], box['given'])
        chk.guard('%s/%s' % (st['kind'], call['op']), data, one)
        chk.case((st['kind'], hist[-1], sorted(st['base'].items())), data)
        if 'm' not in box or chk.too_many():
            return


def run(chk):
    chk.rule = 'a case is one simulation call after a history of calls on one model object'
    jobs = vlib.split_jobs(dict(spec='simulate.qnt', steps=8, invariants=INV),
                           chk.scale(60, 1200), 10, chk.seed)
    jobs += vlib.split_jobs(dict(spec='simulate.qnt', init='initLean', steps=6, invariants=INV),
                            chk.scale(24, 400), 4, chk.seed + 77)
    for traces in vlib.quint_many(jobs):
        for tr in traces:
            chk.count_trace(tr)
            replay(chk, tr)
            if chk.too_many():
                return
    if STATS:
        chk.extra['largest_trajectory_error'] = float(max(STATS))
