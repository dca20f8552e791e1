"""C23 period estimation: recordings of recording.qnt, trimming of Trim.tla."""
import math
import os
import random
import shutil
import tempfile

import numpy as np

import bikestore
import tlc
import vlib
from vlib import fx, need


def as_rate(rate, kind):
    if kind == 0 and rate == int(rate):
        return int(rate)
    return np.float64(rate) if kind == 1 else rate


def recorded(st):
    p = {k: fx(st[k]) for k in ('w0', 'zeta', 'amp', 'off', 'phase', 'rate', 't0', 'period', 'warp')}
    n = st['n']
    t = np.arange(n) / p['rate']
    t = t + p['warp'] * t * (1 - np.arange(n) / (n - 1))
    wd = p['w0'] * math.sqrt(1 - p['zeta'] ** 2)
    y = p['off'] + p['amp'] * np.exp(-p['zeta'] * p['w0'] * t) * np.sin(wd * t + p['phase'])
    for k, v in st['probe']:
        if abs(y[k] - fx(v)) > 1e-9 * (abs(p['amp']) + abs(p['off'])):
            raise vlib.Machinery('sample %d is %r, specification %r' % (k, y[k], fx(v)))
    return p, y, t + p['t0']


def estimate(st):
    from bicycleparameters import period
    p, y, times = recorded(st)
    times = times.tolist() if st['kind'] == 1 else times
    data = y.copy()
    if st['kind'] == 2:
        data.flags.writeable = False
    keep = np.array(times)
    plot = os.path.join(tempfile.gettempdir(), 'fit.png')
    with vlib.quiet():
        if st['how'] == 0:
            T = period.get_period(data, as_rate(p['rate'], st['kind']), plot)
        elif st['how'] == 1:
            T = period.get_period(data, times, plot)
        elif st['how'] == 2:
            T = period.get_period_from_truncated(data, as_rate(p['rate'], st['kind']), plot)
        else:
            T = period.get_period_from_truncated(data, times, plot)
    need(np.array_equal(data, y) and np.array_equal(np.array(times), keep),
         'the recording was changed')
    what = 'period of %s' % {k: float('%.6g' % v) for k, v in p.items()}
    need(abs(T.nominal_value - p['period']) <= 1e-4 * p['period'], '%s (%s): %r, specification %r',
         what, ['rate', 'times', 'trimmed', 'trimmed times'][st['how']], T, p['period'])
    need(math.isfinite(T.std_dev) and T.std_dev >= 0, '%s has uncertainty %r', what, T.std_dev)
    need(T.std_dev < 1e-3 * p['period'], '%s of a clean recording has uncertainty %r', what, T)
    return T


def sections(st):
    """The other way of trimming, by the means of the rectified half waves."""
    from bicycleparameters import period
    if not hasattr(period, 'average_rectified_sections'):
        return
    y = recorded(st)[1]
    arr = y.copy()
    got = np.asarray(period.average_rectified_sections(arr))
    need(np.array_equal(arr, y), 'average_rectified_sections changed the record')
    need(got.ndim == 1 and len(got) <= len(y), 'trimmed to shape %s', got.shape)
    if len(got):
        i = int(np.argmax(y == got[0]))
        ok = any(np.array_equal(y[j:j + len(got)], got) for j in np.flatnonzero(y == got[0]))
        need(ok, 'average_rectified_sections gives no contiguous part of the record (%d samples, '
             'from %d)', len(got), i)


def one(chk, st):
    data = {k: fx(st[k]) for k in ('w0', 'zeta', 'amp', 'off', 'phase', 'rate', 't0', 'warp')}
    data.update(n=st['n'], how=st['how'], kind=st['kind'])
    chk.guard('period', data, estimate, st)
    chk.guard('sections', data, sections, st)
    chk.guard('load', {'stored': sorted(st['stored']), 'note': st['note']}, load, st)
    chk.case(tuple(sorted(data.items())), data)


def trim(period, s, form):
    data = list(s['data'])
    n = len(data)
    if form == 0:
        arr = np.array(data, float)
    elif form == 1:
        arr = np.array(data, float) * 0.5 + 3.0
    else:
        arr = np.array(data) * 3
    copy = arr.copy()
    got = period.select_good_data(arr, 0.1)
    need(np.array_equal(arr, copy), 'trimming changed the record')
    dev = [n * x - sum(data) for x in data]
    top = max(abs(d) for d in dev)
    first = {j for j in range(n) if abs(dev[j]) == top}
    end = {s['last'] - 1} | {max(j for j in range(n) if 10 * dev[j] >= top)}
    got = np.asarray(got)
    ok = [(i, j) for i in first for e in end for j in (e, e + 1)
          if np.array_equal(arr[i:j], got)]
    need(ok, 'the record %s is trimmed to %s, specification samples %d to %d', copy.tolist(),
         got.tolist(), s['first'], s['last'])


def load(st):
    """A stored recording is loaded with its samples, times and remark."""
    from scipy.io import savemat
    from bicycleparameters import io
    tmp = tempfile.mkdtemp()
    try:
        lines = st['note'].split('|')
        given = np.array(lines) if len(lines) > 1 else st['note']
        d = {'data': np.array([fx(p[1]) for p in st['probe']]), 'notes': given, 'bicycle': 'Bike'}
        val = {'time': np.arange(5) / fx(st['rate']), 'sampleRate': fx(st['rate']), 'duration': 9,
               'ActualRate': fx(st['rate']) * 1.01}
        d.update({f: val[f] for f in st['stored']})
        p = os.path.join(tmp, 'rec.mat')
        savemat(p, d)
        got = io.load_pendulum_mat_file(p)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    want = set(st['kept']) | {'data', 'notes', 'bicycle'}
    need(set(got) == want, 'the loaded recording has %s, specification %s', sorted(got), sorted(want))
    if len(lines) > 1:
        need([str(x).strip() for x in np.ravel(got['notes'])] == lines, 'remark %r', got['notes'])
    else:
        need(isinstance(got['notes'], str) and got['notes'].strip() == st['note'].strip(),
             'remark %r', got['notes'])
    need(got['bicycle'] == 'Bike', 'bicycle %r', got['bicycle'])
    for k in ['data'] + sorted(st['kept']):
        need(np.array_equal(np.asarray(got[k]), np.asarray(d[k])), '%s is %r, stored %r', k, got[k], d[k])
    return True


def rates(period):
    need(period.get_sample_rate({'sampleRate': 200, 'data': 1}) == 200, 'sample rate')
    need(period.get_sample_rate({'ActualRate': 1000, 'sampleRate': 200}) == 1000, 'actual rate')
    need(period.get_sample_rate({'ActualRate': 99.5}) == 99.5, 'actual rate')


def run(chk):
    from bicycleparameters import period
    import matplotlib.figure
    chk.level = 'model_checking'
    chk.rule = ('a case is one recording with a way to hand it over, or one record of at most '
                'five (thorough: six) samples that is trimmed')
    saved = matplotlib.figure.Figure.savefig
    matplotlib.figure.Figure.savefig = bikestore.fake_savefig
    try:
        chk.guard('sample rate', {}, rates, period)
        states, gen = tlc.states('Trim', 'TrimWide.cfg' if chk.thorough else 'Trim.cfg')
        chk.states += len(states)
        chk.transitions += gen
        for n, s in enumerate(states):
            chk.guard('trim', s['data'], trim, period, s, n % 3)
            chk.case(s['data'])
            if chk.too_many():
                break
        jobs = vlib.split_jobs(dict(spec='recording.qnt', steps=29, invariants=[
            'longer', 'defn', 'sampled', 'bounded']), chk.scale(30, 400), 5, chk.seed)
        todo = []
        for traces in vlib.quint_many(jobs):
            for tr in traces:
                chk.count_trace(tr)
                todo += tr
        chk.parallel(one, todo)
    finally:
        matplotlib.figure.Figure.savefig = saved
