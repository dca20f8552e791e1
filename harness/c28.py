"""C28 statistics of a period estimate: replay of fit.qnt."""
import math
import os
import re
import tempfile

import numpy as np

import vlib
from vlib import fx, need

FIG = []


def keep_figure(self, fname, *a, **kw):
    ax = self.axes[0]
    FIG[:] = [dict(n=len(self.axes), lines=[np.array(x.get_xydata(), float) for x in ax.lines],
                   title=ax.get_title(), xlim=ax.get_xlim(), file=fname,
                   labels=(ax.get_xlabel(), ax.get_ylabel()))]


def estimate(st):
    from bicycleparameters import period
    p = {k: fx(v) for k, v in st['par'].items()}
    n, rate, eps = st['n'], fx(st['rate']), fx(st['eps'])
    k = np.arange(n)
    t = k / rate
    D = math.sqrt(1 - p['z'] ** 2)
    a = D * p['w'] * t
    clean = p['o'] + np.exp(-p['z'] * p['w'] * t) * (p['b'] * np.sin(a) + p['c'] * np.cos(a))
    y = clean + eps * (1 - 2.0 * ((k // st['group']) % 2))
    path = os.path.join(tempfile.gettempdir(), 'fit.png')
    late = bool(st['how'] and st['start'])
    if st['how']:
        t = t + fx(st['start'])
    FIG[:] = []
    with vlib.quiet():
        T = period.get_period(y.copy(), t.copy() if st['how'] else rate, path)
    need(abs(T.nominal_value - fx(st['period'])) <= 1e-3 * fx(st['period']) * eps * 1e3 + 1e-7,
         'period %r, specification %r', T, fx(st['period']))
    need(any(abs(T.std_dev - fx(x)) <= 0.0015 * fx(x) for x in st['std']), 'the uncertainty of the period is %r, '
         'specification %r', T.std_dev, fx(st['std'][0]))
    need(len(FIG) == 1 and FIG[0]['file'] == path, 'the figure of the fit was not saved')
    f = FIG[0]
    need(len(f['lines']) == 2, 'the figure of the fit shows %d curves', len(f['lines']))
    for name, curve, tol in (('recording', y, 1e-12), ('fit', clean, 0.3 * eps)):
        need(any(x.shape == (n, 2) and np.allclose(x[:, 0], t, rtol=1e-9, atol=1e-12) and
                 np.max(np.abs(x[:, 1] - curve)) <= tol for x in f['lines']),
             'the figure does not show the %s', name)
    need(f['xlim'][1] == t[-1] and f['xlim'][0] <= 0, 'the figure shows times %s, recorded until %r',
         f['xlim'], t[-1])
    # the numbers of the equation: o, z, w, b, z, w, c, z, w
    eq, _, rest = f['title'].partition('\n')
    num = [float(x) for x in re.findall(r'-?\d+\.\d+', eq.replace('1-', ' '))]
    want = [p['o']] + [x for q in (None, 'b', 'c') for x in ([] if q is None else [p[q]]) +
                       [p['z'], p['w']]]
    # the shift of the time origin may be part of the equation's amplitudes
    need(len(num) == len(want) and all(abs(g - w) <= d or late and j in (3, 6) for j, (g, w, d) in
                                       enumerate(zip(num, want, [0.006] + [6e-4, 0.06, 0.006] * 2 + [6e-4, 0.06]))),
        'the figure shows the equation %s, specification %s', num, want)
    r2, _, per = rest.partition(',')
    num = [float(x) for x in re.findall(r'\d+\.\d+', r2)]
    ss = np.sum((clean - np.mean(y)) ** 2) / np.sum((y - np.mean(y)) ** 2)
    need(len(num) == 1 and abs(num[0] - ss) <= 6e-4, 'the figure shows %s, r squared is %r', rest, ss)
    num = [float(x) for x in re.findall(r'\d+\.\d+', per)]
    need(num and abs(num[0] - T.nominal_value) <= 0.6 * 10 ** -(len(re.search(
        r'\.(\d+)', per).group(1))), 'the figure shows %s, the period is %r', rest, T)


def jacobian(st):
    from bicycleparameters import period
    p = {k: fx(v) for k, v in st['par'].items()}
    v = np.array([p[k] for k in 'obczw'])
    keep = v.copy()
    t = np.array([r[0] for r in st['rows']]) / fx(st['rate'])
    J = np.asarray(period.jac_fitfunc(v, t))
    want = np.array([[fx(x) for x in r[1]] for r in st['rows']])
    need(J.shape == want.shape, 'the Jacobian has shape %s', J.shape)
    need(np.max(np.abs(J - want) / (1 + np.abs(want))) < 1e-9, 'the Jacobian is %s, '
         'specification %s', J.tolist(), want.tolist())
    need(np.array_equal(v, keep), 'the parameters were changed')


def goodness(st):
    from bicycleparameters import period
    ym, yp = (np.array([fx(x) for x in st[k]]) for k in ('ym', 'yp'))
    a, b = ym.copy(), yp.copy()
    got = period.fit_goodness(ym, yp)
    need(np.array_equal(a, ym) and np.array_equal(b, yp), 'the series were changed')
    for name, g, w in zip(('r squared', 'SSE', 'SST', 'SSR'), got, st['good']):
        need(abs(g - fx(w)) <= 1e-10 * (1 + abs(fx(w))), '%s of %s and %s is %r, specification %r',
             name, a.tolist(), b.tolist(), g, fx(w))


def one(chk, st):
    data = {'parameters': {k: fx(v) for k, v in st['par'].items()}, 'rate': fx(st['rate']),
            'samples': st['n'], 'disturbance': fx(st['eps']), 'group': st['group'],
            'times given': bool(st['how']), 'start': fx(st['start'])}
    chk.guard('estimate', data, estimate, st)
    chk.guard('jacobian', data, jacobian, st)
    if st['good']:
        chk.guard('goodness', {k: [fx(x) for x in st[k]] for k in ('ym', 'yp')}, goodness, st)
    chk.case(repr(data), data)


def run(chk):
    import matplotlib.figure
    chk.rule = 'a case is one disturbed recording of fit.qnt with a way to hand it over'
    saved = matplotlib.figure.Figure.savefig
    matplotlib.figure.Figure.savefig = keep_figure
    try:
        jobs = vlib.split_jobs(dict(spec='fit.qnt', steps=11, invariants=[
            'positive', 'close', 'derived', 'bounds']), chk.scale(24, 300), 4, chk.seed)
        todo = []
        for traces in vlib.quint_many(jobs):
            for tr in traces:
                chk.count_trace(tr)
                todo += tr
        chk.parallel(one, todo)
    finally:
        matplotlib.figure.Figure.savefig = saved
