"""C18 recordings to periods: exhaustive replay of Trials.tla."""
import itertools
import os
import random
import shutil
import tempfile

import numpy as np

import bikestore
import tlc
import vlib
from vlib import need

REC = {1: ('Frame', 'Torsional', 'Second', 1, 1.90), 2: ('Frame', 'Torsional', 'Second', 2, 2.15),
       3: ('Fork', 'Torsional', 'Second', 1, 1.20), 4: ('Fork', 'Torsional', 'Second', 2, 1.05),
       5: ('Frame', 'Compound', 'First', 1, 1.60), 6: ('Frame', 'Torsional', 'Second', 3, 2.1501),
       7: ('Rod', 'Torsional', 'First', 1, 0.85)}
REC.update({n: ('Rwheel', 'Torsional', 'First', n - 10, 1.1 + 0.03 * ((n * 5) % 9)) for n in range(11, 20)})


def name(n):
    return 'Bike%s%s%s%d' % REC[n][:4]


def make(base):
    from scipy.io import savemat
    raw = os.path.join(base, 'bicycles', 'Bike', 'RawData')
    os.makedirs(raw)
    for n, (part, pend, ordi, trial, T) in REC.items():
        d = {'bicycle': 'Bike', 'part': part, 'pendulum': pend,
             'angle' if n % 2 else 'angleOrder': ordi, 'trial': str(trial), 'notes': '',
             'duration': 8, 'filename': name(n), 'data': bikestore.recording(T, 1400)}
        if n == 6:
            d['time'] = np.arange(1400) / bikestore.RATE
        if n != 2:
            d['sampleRate'] = bikestore.RATE
        if n in (2, 5):
            d['ActualRate'] = bikestore.RATE
            d['sampleRate'] = 500       # the actual rate counts
        savemat(os.path.join(raw, name(n) + '.mat'), d)
    return raw


def key_case(chk, s, period, io):
    rec, split = s['rec'], s['split']
    want = ''.join(s['key']) if s['key'] else None
    base = {'bicycle': 'Bike', 'part': rec['part'], 'pendulum': rec['pend'], 'trial': '1',
            'notes': '', 'sampleRate': 200, 'filename': 'x'}
    forms = [dict(base, angle=rec['ord']), dict(base, angleOrder=rec['ord']),
             dict(base, angleOrder=rec['ord'], pendulum=rec['pend'].lower())]
    if rec['part'] != 'Rod':
        forms.append(dict(base, angle=rec['ord'], rod='Rod'))
    else:
        forms.append(dict(base, angle=rec['ord'], rod='Rod'))
        forms.append(dict(base, angle=rec['ord'], rod='Calibration', part='Calibration'))
    for d in forms:
        copy = dict(d)
        if want is None:
            try:
                got = period.get_period_key(d, split)
            except Exception:
                continue
            need(False, 'a recording of a part that is not measured separately feeds %r', got)
        else:
            got = period.get_period_key(d, split)
            need(got == want, '%s feeds %r, specification %r', d, got, want)
        need(d == copy, 'the recording was changed')


def names(chk, s, io, rnd):
    rec = s['rec']
    for bike in ('Bike', 'Balanceassistv1', 'Rigidcl', 'X'):
        for trial in '1239':
            stem = bike + rec['part'] + rec['pend'] + rec['ord'] + trial
            for f in (stem, stem + '.mat'):
                want = {'bicycle': bike, 'part': rec['part'], 'pendulum': rec['pend'],
                        'angleOrder': rec['ord'], 'trial': trial}
                got = io.filename_to_dict(f)
                need(got == want, '%s is read as %s', f, got)


def count_case(chk, s, period):
    split = s['split']
    parts = 'BFRGS' if split else 'BFRH'
    tc = ['Tc%s%d' % (p, n) for n in (1, 2, 3) for p in parts]
    tt = ['TtP1', 'TtF1', 'TtR1'] + ['Tt%s%d' % (p, n) for n in (1, 2, 3, 4, 5, 6) for p in
                                     (parts.replace('F', '').replace('R', ''))]
    noise = {'mB': 1.0, 'TB': 2.0, 'tcB1': 1.0, 'ttB1': 2.0, 'cT': 3.0, 'aB1': 1.0}
    if split:
        noise['mS'] = 1.0
    for a, b in ((tc, tt), (tc[::-1], tt[::-1])):
        mp = dict.fromkeys(a[:s['nc']] + b[:s['nt']], 1.5)
        mp.update(noise)
        keys = list(mp)
        random.Random(s['nc'] * 31 + s['nt']).shuffle(keys)
        mp = {k: mp[k] for k in keys}
        copy = dict(mp)
        got = period.check_for_period(mp, split)
        need(bool(got) == s['recalc'], '%d compound and %d torsional periods of a bicycle with '
             'split=%s: recalculation %s, specification %s', s['nc'], s['nt'], split, got,
             s['recalc'])
        need(mp == copy, 'the measured data was changed')


def dir_case(chk, item):
    s, raw, single = item
    from bicycleparameters import period
    want = {''.join(k): v for k, v in dict(s['acc'] or {}).items()}

    def run():
        split = s['split']
        with vlib.quiet():
            got = period.calc_periods_for_files(raw, [name(n) + '.mat' for n in s['done']], split)
        need(set(got) == set(want), 'periods %s, specification %s', sorted(got), sorted(want))
        for k, ns in want.items():
            mean = sum(REC[n][4] for n in ns) / len(ns)
            need(abs(got[k].nominal_value - mean) < 2e-4 * mean, '%s is %r, the mean of the '
                 'recorded periods of trials %s is %r', k, got[k], sorted(ns), mean)
            one = sum(single[n].nominal_value for n in ns) / len(ns)
            need(abs(got[k].nominal_value - one) < 1e-9, '%s is %r, the mean of its trials is %r',
                 k, got[k], one)
            std = sum(single[n].std_dev ** 2 for n in ns) ** 0.5 / len(ns)
            need(abs(got[k].std_dev - std) <= 1e-6 * std + 1e-12, '%s is %r, uncertainty of the mean of '
                 'its trials is %r', k, got[k], std)
    data = {'order': [name(n) for n in s['done']], 'split': s['split']}
    chk.guard('directory', data, run)
    chk.traces += 1
    chk.case((s['done'], s['split']), data)


def split_cases(chk, main):
    base = ['mB', 'mF', 'alphaB1', 'aB1', 'TcB1', 'h1', 'd', 'lsp', 'w', 'g', 'xcl', 'lcs',
            'ds1', 'lst', 'whb', 'lamst', 'LhbF', 'TtR1']
    for pick, want in ((['mS', 'mG', 'aS1', 'alphaS1', 'TcS1'], True), (['mH', 'aH1', 'alphaH1', 'TcH1'], False),
                       (['mS'], True), ([], False), (['aS3'], True), (['mG', 'mS'], True)):
        for rot in range(0, len(base), 3):
            keys = base[rot:] + pick + base[:rot]
            mp = dict.fromkeys(keys, 1.0)
            chk.guard('split', keys, lambda: need(
                bool(main.is_fork_split(mp)) == want, 'fork of %s split: %s', keys,
                main.is_fork_split(mp)))
            chk.case(tuple(keys))


def run(chk):
    from bicycleparameters import io, main, period
    import matplotlib.figure
    chk.level = 'model_checking'
    chk.rule = ('a case is one recording, one directory in one order, or one number of stored '
                'periods (all states of Trials.tla)')
    rnd = random.Random(chk.seed)
    saved = matplotlib.figure.Figure.savefig
    matplotlib.figure.Figure.savefig = bikestore.fake_savefig
    tmp = tempfile.mkdtemp()
    try:
        states, gen = tlc.states('Trials', 'TrialsWide.cfg' if chk.thorough else 'Trials.cfg')
        chk.states += len(states)
        chk.transitions += gen
        for s in states:
            if s['mode'] == 'key':
                data = {'recording': dict(s['rec']), 'split': s['split']}
                chk.guard('key', data, key_case, chk, s, period, io)
                chk.guard('name', data, names, chk, s, io, rnd)
                chk.case((tuple(sorted(s['rec'].items())), s['split']), data)
            elif s['mode'] == 'count':
                chk.guard('stored periods', {k: s[k] for k in ('nc', 'nt', 'split')},
                          count_case, chk, s, period)
                chk.case((s['nc'], s['nt'], s['split']))
        split_cases(chk, main)
        raw = make(tmp)
        single = {}
        with vlib.quiet():
            for n in REC:
                single[n] = chk.guard('one recording', name(n), lambda: list(
                    period.calc_periods_for_files(raw, [name(n) + '.mat'], True).values())[0])
        if not chk.violations:
            chk.parallel(dir_case, [(s, raw, single) for s in states if s['mode'] in ('dir', 'many')
                                    and s['done']])
    finally:
        matplotlib.figure.Figure.savefig = saved
        shutil.rmtree(tmp, ignore_errors=True)
