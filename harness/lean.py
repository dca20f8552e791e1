"""Conformance helpers for lean.qnt (rider lean model)."""
import numpy as np
import vlib
import mdl
from vlib import fx, fxm, need, need_close

INV = ['lockedOK', 'geometryOK']


def new_model(base):
    from bicycleparameters import parameter_sets as ps, models as ms
    d = mdl.par_floats(base)
    return ms.MooreRiderLean2012Model(ps.MooreRiderLean2012ParameterSet(d)), d


def elems(st):
    out = []
    for e in st['want']:
        out.append({'par': mdl.par_floats(e['par']), 'A': np.array(fxm(e['A'])),
                    'B': np.array(fxm(e['B'])), 'chi': np.array(fxm(e['chi']))})
    return out


def rtol(e):
    W = e['B'][[8, 10, 11]]
    return 1e-10 * max(1.0, np.linalg.cond(W) / 1e3)


def check_ss(got, st, es, what=''):
    A, B = np.asarray(got[0]), np.asarray(got[1])
    if not st['stacked']:
        A, B = A[None], B[None]
    need(A.shape == (len(es), 12, 12) and B.shape == (len(es), 12, 3),
         'shapes %s %s for %d values', A.shape, B.shape, len(es))
    for i, e in enumerate(es):
        need_close(A[i], e['A'], what + 'A[%d]' % i, rtol(e), 1e-10)
        need_close(B[i], e['B'], what + 'B[%d]' % i, rtol(e), 1e-10)


def check_eig(got, st, es, left):
    ev, ec = np.asarray(got[0]), np.asarray(got[1])
    if not st['stacked']:
        ev, ec = ev[None], ec[None]
    need(ev.shape == (len(es), 12) and ec.shape == (len(es), 12, 12),
         'eigen shapes %s %s', ev.shape, ec.shape)
    for i, e in enumerate(es):
        mdl.check_eig(ev[i], ec[i], e, left, 'rider lean eigen[%d]' % i)


def visit_full(model, st, es):
    if st['call']['op'] == 'badlen':
        return
    kw = mdl.overrides(st['call'])
    got, _ = mdl.call_model(model.form_state_space_matrices, kw)
    check_ss(got, st, es)
    mdl.check_names(model, *got)


def visit_arrays(model, st, es):
    if st['call']['op'] == 'badlen':
        return
    kw = mdl.overrides(st['call'])
    got, _ = mdl.call_model(model.form_state_space_matrices, kw)
    check_ss(got, st, es)
    for left in (False, True):
        got, _ = mdl.call_model(model.calc_eigen, kw, left=left)
        check_eig(got, st, es, left)


def visit_eig(model, st, es):
    if st['call']['op'] == 'badlen':
        return
    kw = mdl.overrides(st['call'])
    for left in (False, True):
        got, _ = mdl.call_model(model.calc_eigen, kw, left=left)
        check_eig(got, st, es, left)


def visit_overrides(model, st, es):
    call = st['call']
    kw = mdl.overrides(call)
    fns = [('form_state_space_matrices', model.form_state_space_matrices),
           ('calc_eigen', model.calc_eigen)]
    t = np.linspace(0.0, 0.05, 3)
    x0 = np.zeros(12)
    x0[3] = 0.05
    if call['op'] == 'badlen':
        for name, fn in fns:
            try:
                mdl.call_model(fn, kw)
            except ValueError:
                continue
            except vlib.Mismatch:
                raise
            except Exception as e:
                raise vlib.Mismatch('%s raised %r instead of ValueError' % (name, e))
            raise vlib.Mismatch('%s accepted arrays of different lengths' % name)
        return
    for name, fn in fns:
        got, warned = mdl.call_model(fn, kw)
        mdl.check_warned(warned, call, None)
        if name == 'calc_eigen':
            check_eig(got, st, es, False)
        else:
            check_ss(got, st, es)
    if not st['stacked']:
        fresh, _ = new_model(st['want'][0]['par'])
        got, warned = mdl.call_model(lambda **k: model.simulate(t, x0.copy(), **k), kw)
        mdl.check_warned(warned, call, None)
        want, _ = mdl.call_model(lambda **k: fresh.simulate(t, x0.copy(), **k), {})
        for g, w in zip(got, want):
            need_close(np.asarray(g), np.asarray(w), 'simulate', 1e-5, 1e-4)
    else:
        for name, fn in (('simulate', lambda **k: model.simulate(t, x0.copy(), **k)),
                         ('simulate_modes', lambda **k: model.simulate_modes(t, **k))):
            try:
                mdl.call_model(fn, kw)
            except ValueError:
                continue
            except vlib.Mismatch:
                raise
            except Exception as e:
                raise vlib.Mismatch('%s raised %r instead of ValueError for array '
                                    'parameters' % (name, e))
            raise vlib.Mismatch('%s accepted array parameters' % name)


def run_sessions(chk, n, steps, step, visit, chunk=6):
    jobs = vlib.split_jobs(dict(spec='lean.qnt', step=step, steps=steps,
                                invariants=INV), n, chunk, chk.seed + 3)
    for traces in vlib.quint_many(jobs):
        for tr in traces:
            chk.count_trace(tr)
            replay(chk, tr, visit)
            if chk.too_many():
                return


def replay(chk, tr, visit):
    hist = []
    box = {}
    for st in tr:
        hist.append({'op': st['call']['op'],
                     'kw': {k: fx(v) for k, v in st['call']['scal'].items()},
                     'arrs': {k: [fx(x) for x in v] for k, v in st['call']['arrs'].items()},
                     'bogus': st['call']['bogus']})
        data = {'kind': 'riderlean', 'base': mdl.par_floats(st['base']), 'calls': hist[:]}

        def one():
            if st['call']['op'] == 'new':
                box['m'], box['given'] = new_model(st['base'])
                box['d'] = dict(box['given'])
            if st['call']['op'] == 'edit':
                box['d'], box['given'] = mdl.edit_params(box['m'], box['d'], st)
            visit(box['m'], st, elems(st))
            mdl.check_params_unchanged(box['m'], box['d'], box['given'])
        chk.guard('riderlean/' + st['call']['op'], data, one)
        chk.case(('lean', st['call']['op'], hist[-1], sorted(st['base'].items())), data)
        if 'm' not in box or chk.too_many():
            return
