"""C05 override semantics over call histories on one model object."""
import numpy as np
import vlib
import mdl
from vlib import fx, need, need_close


def methods(model, kind):
    ms = [('form_reduced_canonical_matrices', model.form_reduced_canonical_matrices),
          ('form_state_space_matrices', model.form_state_space_matrices),
          ('calc_eigen', model.calc_eigen)]
    return ms


SIM_T = np.linspace(0.0, 0.1, 3)


def other_methods(model, st, kw):
    """Public methods that take scalar overrides only."""
    x0 = np.array([0.1, -0.05, 0.02, 0.3])
    return [('simulate', lambda **k: model.simulate(SIM_T, x0, **k)),
            ('simulate_modes', lambda **k: model.simulate_modes(SIM_T, **k))]


def visit(model, st, es):
    call = st['call']
    kw = mdl.overrides(call)
    keys = list(st['base'])
    if call['op'] == 'badlen':
        for name, fn in methods(model, st['kind']):
            try:
                mdl.call_model(fn, kw)
            except ValueError:
                continue
            except vlib.Mismatch:
                raise
            except Exception as e:
                raise vlib.Mismatch('%s raised %r instead of ValueError for array '
                                    'overrides of different lengths' % (name, e))
            raise vlib.Mismatch('%s accepted array overrides of different lengths %s' % (
                name, {k: len(v) for k, v in kw.items() if np.ndim(v) > 0}))
        return
    for name, fn in methods(model, st['kind']):
        got, warned = mdl.call_model(fn, kw)
        mdl.check_warned(warned, call, keys)
        if name == 'form_reduced_canonical_matrices':
            mdl.check_canonical(got, st, es)
        elif name == 'form_state_space_matrices':
            mdl.check_ss(got, st, es)
        else:
            ev, ec = np.asarray(got[0]), np.asarray(got[1])
            if not st['stacked']:
                ev, ec = ev[None], ec[None]
            need(len(ev) == len(es), 'calc_eigen returned %d sets', len(ev))
            for i, e in enumerate(es):
                mdl.check_eig(ev[i], ec[i], e, False, 'calc_eigen')
    if not st['stacked']:
        # a fresh model built with the overridden values behaves identically
        fresh, _ = mdl.new_model(st['kind'], st['want'][0]['par'])
        for (name, fn), (_, ff) in zip(other_methods(model, st, kw),
                                       other_methods(fresh, st, {})):
            got, warned = mdl.call_model(fn, kw)
            mdl.check_warned(warned, call, keys)
            want, _ = mdl.call_model(ff, {})
            got = got if isinstance(got, tuple) else (got,)
            want = want if isinstance(want, tuple) else (want,)
            if name == 'simulate_modes':
                continue   # eigenvector order/scale may differ
            for g, w in zip(got, want):
                need_close(np.asarray(g), np.asarray(w), name, 1e-5, 1e-5)
    else:
        for name, fn in other_methods(model, st, kw):
            try:
                mdl.call_model(fn, kw)
            except ValueError:
                continue
            except vlib.Mismatch:
                raise
            except Exception as e:
                raise vlib.Mismatch('%s raised %r instead of ValueError for array '
                                    'parameters' % (name, e))
            raise vlib.Mismatch('%s accepted array parameters' % name)


def run(chk):
    chk.rule = ('a case is one call of a history on one model object; distinct by base '
                'parameters and overrides')
    mdl.run_session(chk, chk.scale(70, 700), 8, 'init', 'step', visit)
    import lean
    lean.run_sessions(chk, chk.scale(24, 240), 5, 'step', lean.visit_overrides)
