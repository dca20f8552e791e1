"""C06 array overrides are stacks of scalar evaluations."""
import numpy as np
import vlib
import mdl
from vlib import fx, need, need_close


def visit(model, st, es):
    call = st['call']
    if call['op'] == 'badlen':
        return
    kw = mdl.overrides(call)
    got, _ = mdl.call_model(model.form_reduced_canonical_matrices, kw)
    mdl.check_canonical(got, st, es)
    got, _ = mdl.call_model(model.form_state_space_matrices, kw)
    mdl.check_ss(got, st, es)
    for left in (False, True):
        (ev, ec), _ = mdl.call_model(model.calc_eigen, kw, left=left)
        ev, ec = np.asarray(ev), np.asarray(ec)
        if not st['stacked']:
            ev, ec = ev[None], ec[None]
        need(ev.shape == (len(es), 4) and ec.shape == (len(es), 4, 4),
             'eigen shapes %s %s for %d values', ev.shape, ec.shape, len(es))
        for i, e in enumerate(es):
            mdl.check_eig(ev[i], ec[i], e, left, 'calc_eigen[%d]' % i)


def run(chk):
    chk.rule = 'a case is one call with array overrides (subset of parameters x length x container)'
    mdl.run_session(chk, chk.scale(90, 900), 7, 'init', 'stepArr', visit)
    import lean
    lean.run_sessions(chk, chk.scale(24, 240), 5, 'stepArr', lean.visit_arrays)
