"""C04 mode tracking: exhaustive small grids (TLC) and long sequences (Quint)."""
import numpy as np
import tlc
import vlib
from vlib import need


def vectors(n, m):
    """Distinct, recognisable eigenvector columns."""
    ev = np.zeros((n, m, m), dtype=complex)
    for i in range(n):
        for k in range(m):
            for a in range(m):
                ev[i, a, k] = complex(1000 * i + 10 * k + a + 1, -(a + 1) * (k + 2) - 0.5 * i)
    return ev


def recovered(inp, vec, out_vals, out_vecs, i):
    """Permutation the implementation applied at set i, from the vectors."""
    m = inp.shape[1]
    perm = []
    for j in range(m):
        col = out_vecs[i, :, j]
        hit = [k for k in range(m) if np.array_equal(col, vec[i, :, k])]
        need(len(hit) == 1, 'set %d: column %d of the sorted eigenvectors is '
             'none of the input columns: %s', i, j, col)
        k = hit[0]
        need(out_vals[i, j] == inp[i, k], 'set %d mode %d: eigenvalue %s is paired '
             'with the eigenvector of %s', i, j, out_vals[i, j], inp[i, k])
        perm.append(k)
    need(sorted(perm) == list(range(m)), 'set %d: eigenvalues %s used %s: one is '
         'duplicated and one lost', i, list(inp[i]), perm)
    return tuple(perm)


def both(inp, vec):
    """Run sort_eigenmodes (and sort_modes for four modes)."""
    from bicycleparameters.bicycle import sort_eigenmodes, sort_modes
    a, b = inp.copy(), vec.copy()
    res = [('sort_eigenmodes',) + tuple(sort_eigenmodes(a, b))]
    if inp.shape[1] == 4:
        weave, capsize, caster = sort_modes(a, b)
        n = len(inp)
        shapes = [np.shape(x[k]) for x in (weave, capsize, caster) for k in ('evals', 'evecs')]
        need(shapes[0] == (n, 2) and shapes[1] == (n, 4, 2) and shapes[2] == (n,)
             and shapes[4] == (n,), 'sort_modes returned shapes %s', shapes)
        vals = np.concatenate([np.reshape(caster['evals'], (n, 1)),
                               np.reshape(capsize['evals'], (n, 1)), weave['evals']], axis=1)
        vecs = np.concatenate([np.reshape(caster['evecs'], (n, 4, 1)),
                               np.reshape(capsize['evecs'], (n, 4, 1)), weave['evecs']], axis=2)
        res.append(('sort_modes', vals, vecs))
    need(np.array_equal(a, inp) and np.array_equal(b, vec), 'the input arrays were modified')
    return res


def exhaustive(chk, cfg):
    states, gen = tlc.states('MCModeTracking', cfg, 'done = TRUE')
    allowed = {}
    for s in states:
        allowed.setdefault((s['cur'], s['inp']), set()).add(tuple(k - 1 for k in s['claim']))
    chk.states += len(states)
    chk.transitions += gen
    for (cur, row), ok in allowed.items():
        inp = np.array([[complex(*p) for p in cur], [complex(*p) for p in row]])
        m = inp.shape[1]
        vec = vectors(2, m)

        def one():
            for name, ov, oe in both(inp, vec):
                p0 = recovered(inp, vec, ov, oe, 0)
                need(p0 == tuple(range(m)), '%s: the first set was reordered %s', name, p0)
                p = recovered(inp, vec, ov, oe, 1)
                need(p in ok, '%s: %s continued by %s gives the assignment %s, the '
                     'specification allows %s', name, cur, row, p, sorted(ok))
        chk.guard('grid', {'current': cur, 'next': row}, one)
        chk.case((cur, row))
        if chk.too_many():
            return
    chk.extra.setdefault('exhaustive_models', []).append(
        '%s: %d pairs of sets' % (cfg, len(allowed)))


def sequences(chk, n, init):
    jobs = vlib.split_jobs(dict(spec='modes.qnt', init=init, steps=12,
                                invariants=['permutation', 'greedy']), n, 60, chk.seed)
    for traces in vlib.quint_many(jobs):
        for tr in traces:
            chk.count_trace(tr)
            inp = np.array([[complex(p['re'], p['im']) / 1000 for p in st['inp']] for st in tr])
            vec = vectors(*inp.shape)
            data = {'sets': [[str(x) for x in row] for row in inp]}

            def one():
                for name, ov, oe in both(inp, vec):
                    need(np.shape(ov) == inp.shape and np.shape(oe) == vec.shape,
                         '%s shapes %s %s', name, np.shape(ov), np.shape(oe))
                    follow = True
                    for i, st in enumerate(tr):
                        p = recovered(inp, vec, ov, oe, i)
                        if i == 0:
                            need(p == tuple(st['claim']), 'first set reordered')
                        elif follow:
                            need(p in st['allowed'], '%s set %d: assignment %s, the '
                                 'specification allows %s', name, i, p, sorted(st['allowed']))
                            # equidistant eigenvalues: another legal choice
                            follow = p == tuple(st['claim'])
            chk.guard('sequence', data, one)
            chk.case(data, data)
            if chk.too_many():
                return


def physical(chk, n):
    """Real eigenvalue sequences of random bicycles stay partitions."""
    import mdl
    jobs = vlib.split_jobs(dict(spec='session.qnt', init='initW', step='scalarCall',
                                steps=1), n, 8, chk.seed + 31)
    for traces in vlib.quint_many(jobs):
        for tr in traces:
            par = mdl.par_floats(tr[0]['base'])

            def one():
                with vlib.quiet():
                    model, _ = mdl.new_model('whipple', tr[0]['base'])
                    vals, vecs = model.calc_eigen(v=np.linspace(0.0, 12.0, 60))
                for name, ov, oe in both(vals, vecs):
                    for i in range(len(vals)):
                        got = sorted(ov[i], key=lambda z: (z.real, z.imag))
                        want = sorted(vals[i], key=lambda z: (z.real, z.imag))
                        need(got == want, '%s at speed index %d: %s sorted to %s',
                             name, i, list(vals[i]), list(ov[i]))
            chk.guard('physical', par, one)
            chk.case(('phys', sorted(par.items())))


def run(chk):
    chk.level = 'model_checking'
    chk.rule = ('a case is a pair of consecutive eigenvalue sets on the grid, or a '
                'sequence of 13 sets')
    for cfg in (('ModeTracking44.cfg', 'ModeTracking34.cfg') if chk.thorough
                else ('ModeTracking43.cfg', 'ModeTracking34.cfg')):
        exhaustive(chk, cfg)
    sequences(chk, chk.scale(240, 4000), 'init')
    sequences(chk, chk.scale(120, 2000), 'init4')
    physical(chk, chk.scale(16, 200))
