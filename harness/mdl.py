"""Conformance helpers for the model/bicycle specifications."""
import copy
import os
import shutil
import tempfile
import warnings

import numpy as np

import vlib
from vlib import fx, fxm, need, need_close, Mismatch

INV = ['selfTest', 'symmetric', 'inverse', 'local', 'traceOK', 'zeroGain']


def par_floats(p):
    return {k: fx(v) for k, v in p.items()}


def number(x):
    """Whole numbers are often given as integers."""
    return int(x) if x == int(x) else x


def new_model(kind, base):
    from bicycleparameters import parameter_sets as ps, models as ms
    d = par_floats(base)
    if kind == 'whipple':
        return ms.Meijaard2007Model(ps.Meijaard2007ParameterSet(d, False)), d
    return ms.Meijaard2007WithFeedbackModel(
        ps.Meijaard2007WithFeedbackParameterSet(d, False)), d


def container(vals, seq, kinds=False):
    whole = vals and all(x == int(x) for x in vals)
    if whole:
        vals = [int(x) for x in vals]       # whole numbers come as integers
    if seq == 'list':
        return list(vals)
    if seq == 'tuple':
        return tuple(vals)
    out = np.array(vals)
    if vals and kinds:
        # arrays of any number type that holds the values exactly
        types = [np.int64, np.int8, np.uint8, np.int16, np.int32, np.uint16, np.float32] \
            if whole else [np.float64, np.float32]
        kind = types[int(sum(abs(x) for x in vals)) % len(types)]
        if whole and kind is not np.float32:
            lim = np.iinfo(kind)
            fits = lim.min <= min(vals) and max(vals) <= lim.max
        else:
            fits = all(float(kind(x)) == x for x in vals)
        if fits:
            out = out.astype(kind)
    return out


def overrides(call, n_hint=0):
    """Keyword arguments of a call, exactly as the specification chose them."""
    kw = {}
    for j, k in enumerate(sorted(call['scal'])):
        val = fx(call['scal'][k])
        # scalars of various Python types
        if val == int(val) and j % 2 == 0:
            val = int(val) if len(call['scal']) % 2 else np.int64(val)
        elif j % 3 == 1:
            val = np.float64(val)
        kw[k] = val
    for k in sorted(call['arrs']):
        kw[k] = container([fx(x) for x in call['arrs'][k]], call['seq'], True)
    for j, k in enumerate(call['bogus']):
        kw[k] = 1.0 if j % 2 == 0 else [1.0] * 7
    return kw


NAMES = {4: (['phi', 'delta', 'phidot', 'deltadot'], ['rad', 'rad', 'rad/s', 'rad/s'],
             ['Tphi', 'Tdelta'], ['N-m', 'N-m']),
         12: (['q1', 'q2', 'q3', 'q4', 'q6', 'q7', 'q8', 'q9', 'u4', 'u6', 'u7', 'u9'],
              ['m', 'm'] + ['rad'] * 6 + ['rad/s'] * 4, ['T4', 'T7', 'T9'], ['N-m'] * 3)}


def check_names(model, A, B):
    """The model names the states and inputs of its matrices as documented."""
    s, su, i, iu = NAMES[np.shape(A)[-1]]
    for k, want in (('state_vars', s), ('state_units', su), ('input_vars', i), ('input_units', iu)):
        need(list(getattr(model, k)) == want, '%s are %s', k, list(getattr(model, k)))
    need(np.shape(B)[-1] == len(i), 'the input matrix has shape %s', np.shape(B))


def same_value(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return type(a) is type(b) and a.shape == b.shape and bool(np.all(a == b))
    return type(a) is type(b) and a == b


def take(out):
    """What was returned; the caller then scribbles on the returned arrays,
    which must not matter to any later call."""
    if isinstance(out, tuple):
        return tuple(take(x) for x in out)
    if isinstance(out, np.ndarray) and out.size and out.dtype.kind in 'fciO' and (
            out.dtype != object or not hasattr(out.flat[0], 'lines')):
        kept = out.copy()
        if out.flags.writeable:
            out[...] = 7777
        return kept
    return out


def call_model(fn, kw, **extra):
    """Call with overrides; the caller's containers must not change and the
    unknown names must be warned about."""
    given = copy.deepcopy(kw)
    with warnings.catch_warnings(record=True) as w, vlib.quiet():
        warnings.simplefilter('always')
        out = take(fn(**dict(kw, **extra)))
    for k in kw:
        need(same_value(kw[k], given[k]),
             'the override %s passed by the caller was modified: %r -> %r',
             k, given[k], kw[k])
    return out, [str(x.message) for x in w]


def check_warned(msgs, call, allkeys):
    for k in call['bogus']:
        need(any(k in m for m in msgs), 'unknown parameter %s not warned about '
             '(warnings: %r)', k, msgs)
    if not call['bogus']:
        need(not any('not a valid' in m for m in msgs),
             'valid overrides were warned about: %r', msgs)


def check_params_unchanged(model, d, given):
    cur = dict(model.parameter_set.parameters)
    for k, v in d.items():
        need(k in cur and cur[k] == v, 'the model parameter %s changed from '
             '%r to %r', k, v, cur.get(k))
    extra = set(cur) - set(d)
    need(not extra, 'the model gained parameters %s', sorted(extra))
    need(given == d, 'the dictionary used to build the model changed')


def elems(state):
    """Specification results of a state as float arrays."""
    out = []
    for e in state['want']:
        out.append({
            'par': par_floats(e['par']),
            'canon': [np.array(fxm(e['canon'][m])) for m in ('M', 'C1', 'K0', 'K2')],
            'A': np.array(fxm(e['ss']['A'])), 'B': np.array(fxm(e['ss']['B'])),
            'chi': np.array(fxm(e['chi'])),
        })
    return out


CANON_KEYS = {'IBxx', 'IBxz', 'IBzz', 'IFxx', 'IFyy', 'IHxx', 'IHxz', 'IHzz',
              'IRxx', 'IRyy', 'c', 'lam', 'mB', 'mF', 'mH', 'mR', 'rF', 'rR',
              'w', 'xB', 'xH', 'zB', 'zH'}


def rtol_for(e):
    """Inverting the mass matrix amplifies rounding."""
    M = e['canon'][0]
    return 1e-10 * max(1.0, np.linalg.cond(M) / 1e3)


def check_canonical(got, state, es):
    need(len(got) == 4, 'expected four matrices, got %d', len(got))
    stacked = state['stacked'] and bool(set(state['call']['arrs']) & CANON_KEYS)
    for name, G, j in zip(('M', 'C1', 'K0', 'K2'), got, range(4)):
        G = np.asarray(G)
        if G.ndim == 2 and not stacked:
            for i, e in enumerate(es):
                need_close(G, e['canon'][j], '%s' % name, 1e-11, 1e-12)
        else:
            need(state['stacked'] and G.shape == (len(es), 2, 2),
                 '%s has shape %s for %d values', name, G.shape, len(es))
            for i, e in enumerate(es):
                need_close(G[i], e['canon'][j], '%s[%d]' % (name, i), 1e-11, 1e-12)


def check_ss(got, state, es):
    A, B = got
    A, B = np.asarray(A), np.asarray(B)
    if not state['stacked']:
        need(A.shape == (4, 4) and B.shape == (4, 2), 'shapes %s %s', A.shape, B.shape)
        A, B = A[None], B[None]
    need(A.shape == (len(es), 4, 4) and B.shape == (len(es), 4, 2),
         'shapes %s %s for %d values', A.shape, B.shape, len(es))
    for i, e in enumerate(es):
        rt = rtol_for(e)
        need_close(A[i], e['A'], 'A[%d]' % i, rt, 1e-11)
        need_close(B[i], e['B'], 'B[%d]' % i, rt, 1e-11)


def check_eig(evals, evecs, e, left, what=''):
    """Spectrum and eigenvectors against the exact state matrix."""
    evals, evecs = np.asarray(evals), np.asarray(evecs)
    n = e['A'].shape[0]
    need(evals.shape == (n,) and evecs.shape == (n, n),
         '%s shapes %s %s', what, evals.shape, evecs.shape)
    need(np.all(np.isfinite(evals)) and np.all(np.isfinite(evecs)),
         '%s non-finite eigen data', what)
    A = e['A'].T if left else e['A']
    scale = max(1.0, np.linalg.norm(A))
    # the multiset of eigenvalues: elementary symmetric functions
    poly = np.poly(evals)
    r = max(1.0, np.max(np.abs(evals)), np.linalg.norm(A) ** 0.5)
    for k in range(n + 1):
        tol = 1e-9 * (1 + abs(e['chi'][k])) + 1e-10 * r * scale ** (k - 1) if k else 1e-12
        need(abs(poly[k] - e['chi'][k]) <= max(tol, 1e-9 * comb_scale(evals, k)),
             '%s eigenvalues %s: characteristic polynomial coefficient %d is '
             '%s, specification %s', what, evals, k, poly[k], e['chi'][k])
    for j in range(n):
        v = evecs[:, j]
        nv = np.linalg.norm(v)
        need(nv > 1e-8, '%s eigenvector %d is zero', what, j)
        res = np.linalg.norm(A @ v - evals[j] * v) / nv
        need(res <= 1e-11 * scale, '%s column %d is not an eigenvector of '
             'eigenvalue %s (residual %.3g)', what, j, evals[j], res)


def comb_scale(evals, k):
    return abs(np.poly(-np.abs(evals))[k])


# ------------------------------------------------------- bicycles on disk ---
class Scratch:
    """A throw-away data directory."""
    def __init__(self):
        self.path = tempfile.mkdtemp(prefix='data_')
        os.makedirs(os.path.join(self.path, 'bicycles'))
        os.makedirs(os.path.join(self.path, 'riders'))

    def par_file(self, bike, pset, lines, kind='bicycles'):
        d = os.path.join(self.path, kind, bike, 'Parameters')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, bike + pset + '.txt'), 'w') as f:
            f.write('\n'.join(lines) + '\n')

    def close(self):
        shutil.rmtree(self.path, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def bench_lines(par, sig=None):
    out = []
    for k in sorted(par):
        if k == 'v':
            continue
        s = (sig or {}).get(k, 0)
        v = par[k]
        out.append('%s = %r+/-%r' % (k, v, s) if s else '%s = %r' % (k, v))
    return out


def live(bike, par, sig, shared=False):
    """Edit the parameters of a bicycle which has been used before."""
    cur = bike.parameters['Benchmark']
    for k in [k for k in cur if k not in par]:
        del cur[k]
    for k, v in with_sig(par, sig, shared).items():
        if k != 'v':
            cur[k] = v


def with_sig(par, sig, shared=False):
    """Parameters with independent deviations or those of one common source."""
    from uncertainties import ufloat
    if shared:
        u = ufloat(0.0, 1.0)
        return {k: (v + sig[k] * u if k in sig else v) for k, v in par.items()}
    return {k: (ufloat(v, sig[k]) if k in sig else v) for k, v in par.items()}


def nominal(x):
    from uncertainties import unumpy
    return np.array(unumpy.nominal_values(x), dtype=float)


def stds(x):
    from uncertainties import unumpy
    return np.array(unumpy.std_devs(x), dtype=float)


def run_session(chk, n, steps, init, step, visit, chunk=12):
    """Generate session traces and replay them on one object per trace.

    visit(model, state, es, history) performs the calls of one state.
    """
    jobs = vlib.split_jobs(dict(spec='session.qnt', init=init, step=step,
                                steps=steps, invariants=INV), n, chunk, chk.seed)
    for traces in vlib.quint_many(jobs):
        for tr in traces:
            chk.count_trace(tr)
            replay_session(chk, tr, visit)
            if chk.too_many():
                return


def edit_params(model, d, st):
    """The user edits the parameters of the live object."""
    new = {k: number(v) for k, v in par_floats(st['base']).items() if d.get(k) != v}
    ps = model.parameter_set
    if st['call']['seq'] == 'replace':
        ps.parameters = dict(ps.parameters, **new)
    else:
        for k, v in new.items():
            ps.parameters[k] = v
    d = dict(d, **new)
    return d, dict(d)


def replay_session(chk, tr, visit):
    hist = []
    model = d = given = None
    for st in tr:
        hist.append({'op': st['call']['op'], 'kw': vlib.jsonable(
            {k: (fx(v)) for k, v in st['call']['scal'].items()}),
            'arrs': {k: [fx(x) for x in v] for k, v in st['call']['arrs'].items()},
            'bogus': st['call']['bogus']})
        data = {'kind': st['kind'], 'base': par_floats(st['base']), 'calls': hist[:]}

        def one():
            nonlocal model, d, given
            if st['call']['op'] == 'new':
                with vlib.quiet():
                    model, given = new_model(st['kind'], st['base'])
                d = dict(given)
            if st['call']['op'] == 'edit':
                d, given = edit_params(model, d, st)
            es = elems(st)
            visit(model, st, es)
            check_params_unchanged(model, d, given)
        chk.guard('%s/%s' % (st['kind'], st['call']['op']), data, one)
        chk.case((st['kind'], st['call']['op'], hist[-1], sorted(st['base'].items())), data)
        if model is None or chk.too_many():
            return
