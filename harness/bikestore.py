"""Replays BikeStore.tla in a scratch data directory (properties C14, C17)."""
import builtins
import os
import re
import shutil
import tempfile
from math import pi, sqrt

import numpy as np

import tlc
import vlib
from vlib import need

COMMON = '''# measured on a flat floor
Temp = 21.125+/-0.375 # Celsius
g = 9.81 +/- 0.01
mF = 2.02+/-0.02
mR = 3.11+/-0.02
mB = 9.86+/-0.02
mP = 5.56+/-0.02
lP = 1.05+/-0.001
dP = 0.03+/-0.0001, 0.0302+/-0.0001
lF = 0.293+/-0.001
lR = 0.29325+/-0.001
nF = 13
nR = 13
dF = 28.06+/-0.01
dR = 27.85+/-0.01
f = 0.0705+/-0.001
w = 1.121+/-0.002
gamma = 67.1+/-0.2

# frame
aB1 = 0.098+/-0.003
aB2 = 0.169+/-0.003
aB3 = -0.294+/-0.003
alphaB1 = 3.4+/-0.2
alphaB2 = 138.7+/-0.2
alphaB3 = 229.8+/-0.2
'''
WHOLE = COMMON + '''mH = 3.22+/-0.02
aH1 = 0.474+/-0.003
aH2 = 0.383+/-0.003
aH3 = 0.215+/-0.003
alphaH1 = 346.7+/-0.2
alphaH2 = 28.1+/-0.2
alphaH3 = 287.0+/-0.2
'''
SPLIT = COMMON + '''mG = 3.35+/-0.01
mS = 2.05+/-0.01
h6 = 0.15369+/-0.00001
h7 = 0.14833+/-0.00001
d5 = 0.01001+/-0.00001
d6 = 0.02217+/-0.00001
l = 0.962406+/-0.002
alphaG1 = 57.3+/-0.1
alphaG2 = 224.4+/-0.1
alphaG3 = 332.3+/-0.1
aG1 = -0.059+/-0.001
aG2 = 0.07525+/-0.001
aG3 = -0.069+/-0.001
alphaS1 = 252.6+/-0.1
alphaS2 = 156.2+/-0.1
alphaS3 = 127.6+/-0.1
aS1 = -0.0925+/-0.001
aS2 = -0.407+/-0.001
aS3 = -0.2965+/-0.001
'''
# period -> (stored value, value in the recording)
P = {'TcB1': (1.72, 1.87), 'TcF1': (1.48, 1.61), 'TcR1': (1.36, 1.53),
     'TcH1': (1.60, 1.75), 'TcS1': (1.47, 1.66), 'TcG1': (0.91, 0.99),
     'TtB1': (2.10, 2.25), 'TtB2': (2.38, 2.55), 'TtB3': (1.84, 1.99),
     'TtH1': (1.37, 1.44), 'TtH2': (1.29, 1.41), 'TtH3': (0.86, 0.94),
     'TtS1': (0.92, 1.03), 'TtS2': (0.97, 1.07), 'TtS3': (1.02, 1.12),
     'TtG1': (0.81, 0.88), 'TtG2': (0.78, 0.86), 'TtG3': (0.75, 0.83),
     'TtF1': (0.79, 0.87), 'TtR1': (0.83, 0.90), 'TtP1': (1.89, 2.02)}
PART = {'B': 'Frame', 'F': 'Fwheel', 'R': 'Rwheel', 'H': 'Fork', 'S': 'Fork',
        'G': 'Handlebar', 'P': 'Rod'}
ORDER = {'1': 'First', '2': 'Second', '3': 'Third'}
RATE = 200


def group(key, split):
    if key[2] in ('SG' if not split else 'H'):
        return None
    if key[1] == 'c':
        return 'c'
    return 'w' if key[2] in 'FRP' else 'b'


KEYS = {sp: {g: [k for k in sorted(P) if group(k, sp) == g] for g in 'cbw'}
        for sp in (False, True)}

BENCH = {'IBxx': (0.5296, 0.0012), 'IBxz': (-0.116285607878, None),
         'IByy': (1.3163960125, None), 'IBzz': (0.7568, 0.0004),
         'IFxx': (0.0883826870796, None), 'IFyy': (0.149221207336, None),
         'IHxx': (0.25335539588, None), 'IHxz': (-0.0720217263293, None),
         'IHyy': (0.245827908036, None), 'IHzz': (0.0955686343473, None),
         'IRxx': (0.0904114316323, None), 'IRyy': (0.152391250767, None),
         'c': (0.0685808540382, None), 'g': (9.81, 0.01), 'lam': (0.399680398707, None),
         'mB': (9.86, None), 'mF': (2.02, None), 'mH': (3.22, None), 'mR': (3.11, None),
         'rF': (0.34352982332, None), 'rR': (0.340958858855, None), 'w': (1.121, None),
         'xB': (0.275951285677, None), 'xH': (0.866949640247, None),
         'zB': (-0.537842424305, None), 'zH': (-0.748236400835, None)}
EXTRA = {'Principal': {'IB11': (0.5, None), 'lB': (-1.25, 0.12), 'xQ': (3e-7, None)},
         'Settings': {'kSeat': (2.5e4, 100.0)},
         'Means': {'w': (1.25, 0.12), 'mB': (10.5, None)},
         # what somebody put aside is a set of its own
         'Benchmark.old': {'w': (1.5, 0.12), 'mB': (11.5, None)}}


def par_text(d):
    return ''.join('%s = %s\n' % (k, repr(v) if s is None else '%r+/-%r' % (v, s))
                   for k, (v, s) in sorted(d.items()))


def nominal(x):
    if isinstance(x, np.ndarray) and x.size == 1:
        x = x.item()
    return float(getattr(x, 'nominal_value', x))


def recording(period, n):
    """A decaying oscillation with the given damped period."""
    t = np.arange(n) / RATE
    wd = 2 * pi / period
    zeta = 0.004
    wn = wd / sqrt(1 - zeta ** 2)
    return 2.5 + 1.5 * np.exp(-zeta * wn * t) * np.cos(wd * t + 0.3)


_MATS = {}


def mats_dir(base):
    """All recordings, created once per run."""
    from scipy.io import savemat
    if base not in _MATS:
        os.makedirs(base)
        for split in (False, True):
            for k in sum(KEYS[split].values(), []):
                part = PART[k[2]]
                pend = 'Compound' if k[1] == 'c' else 'Torsional'
                name = 'Bike%s%s%s1' % (part, pend, ORDER[k[3]])
                d = os.path.join(base, 'split' if split else 'whole')
                os.makedirs(d, exist_ok=True)
                savemat(os.path.join(d, name + '.mat'), {
                    'bicycle': 'Bike', 'part': part, 'pendulum': pend,
                    'angle' if k[2] in 'BS' else 'angleOrder': ORDER[k[3]],
                    'trial': '1', 'notes': '', 'duration': 10,
                    'sampleRate': RATE, 'data': recording(P[k][1], 1600),
                    'filename': name})
        _MATS[base] = {sp: {g: [os.path.join(base, 'split' if sp else 'whole',
                                             'Bike%s%s%s1.mat' % (
                                                 PART[k[2]], 'Compound' if k[1] == 'c' else 'Torsional',
                                                 ORDER[k[3]])) for k in KEYS[sp][g]]
                            for g in 'cbw'} for sp in (False, True)}
    return _MATS[base]


def period_values(per, split):
    out = {}
    for g, src in per.items():
        for k in KEYS[split][g]:
            if src != 'none':
                out[k] = (P[k][0], 1e-4) if src == 'file' else (P[k][1], None)
    return out


def parse(text):
    from bicycleparameters import io
    fd, p = tempfile.mkstemp()
    with os.fdopen(fd, 'w') as f:
        f.write(text)
    try:
        return io.load_parameter_text_file(p)
    finally:
        os.remove(p)


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        f.write(text)


def snapshot(root):
    out = {}
    for d, sub, files in os.walk(root):
        for x in sub:
            out[os.path.relpath(os.path.join(d, x), root) + '/'] = None
        for x in files:
            with open(os.path.join(d, x), 'rb') as f:
                out[os.path.relpath(os.path.join(d, x), root)] = f.read()
    return out


class Disk:
    def __init__(self, root, state, mats):
        self.root = root
        bike = os.path.join(root, 'bicycles', 'Bike')
        os.makedirs(bike)
        self.bike = bike
        if state['bench']['src'] != 'none':
            write(os.path.join(bike, 'Parameters', 'BikeBenchmark.txt'), par_text(BENCH))
        if state['extra']:
            for k, d in EXTRA.items():
                write(os.path.join(bike, 'Parameters', 'Bike%s.txt' % k), par_text(d))
        self.measured = os.path.join(bike, 'RawData', 'BikeMeasured.txt')
        self.base = SPLIT if state['split'] else WHOLE
        if state['raw'] != 'nodir':
            os.makedirs(os.path.join(bike, 'RawData'))
        if state['raw'] == 'file':
            per = period_values(state['per'], state['split'])
            write(self.measured, self.base + ''.join(
                '%s%s = %r+/-%r\n' % (' ' * (n % 5 == 3), k, v, s)
                for n, (k, (v, s)) in enumerate(sorted(per.items()))))
            for g in state['mats']:
                for p in mats[state['split']][g]:
                    shutil.copy(p, os.path.join(bike, 'RawData'))
        # bystanders
        if state['raw'] != 'nodir':
            for n in ('OtherMeasured.txt', 'OldBikeMeasured.txt', 'BikeMeasured.txt~', 'notes.txt',
                      'bikemeasured.txt', 'BikeMeasured.txt.bak', 'Measured.txt'):
                write(os.path.join(bike, 'RawData', n), WHOLE.replace('9.86', '19.86'))
        write(os.path.join(bike, 'RawDataOld', 'BikeMeasured.txt'), WHOLE.replace('9.86', '19.86'))
        write(os.path.join(bike, 'ParametersOld', 'BikeBenchmark.txt'), 'mB = 1.0\n')
        write(os.path.join(root, 'bicycles', 'Other', 'Parameters', 'OtherBenchmark.txt'),
              par_text({k: (v + 1, s) for k, (v, s) in BENCH.items()}))
        write(os.path.join(root, 'bicycles', 'Other', 'RawData', 'OtherMeasured.txt'), WHOLE)
        write(os.path.join(root, 'riders', 'Luke', 'Parameters', 'LukeBikeBenchmark.txt'),
              'mB = 80.0\n')


def compare(got, want, what, rtol):
    need(set(got) == set(want), '%s holds %s, specification %s', what, sorted(got), sorted(want))
    for k in want:
        w, g = nominal(want[k]), nominal(got[k])
        need(abs(g - w) <= rtol * abs(w) + rtol * 1e-2, '%s: %s is %r, specification %r',
             what, k, g, w)


def exact(got, want, what):
    from uncertainties import UFloat
    need(set(got) == set(want), '%s holds %s, specification %s', what, sorted(got), sorted(want))
    for k, (v, s) in want.items():
        need(nominal(got[k]) == v, '%s: %s is %r, stored %r', what, k, got[k], v)
        need((s is None) == (not isinstance(got[k], UFloat)), '%s: %s is %r', what, k, got[k])
        if s is not None:
            need(abs(got[k].std_dev - s) < 1e-9 * s, '%s: %s is %r, stored %r', what, k,
                 got[k], s)


def check_measured(got, state_per, split, base, what):
    want = {k: nominal(v) for k, v in parse(base).items()}
    per = period_values(state_per, split)
    want.update({k: v for k, (v, s) in per.items()})
    compare(got, want, what, 5e-4)


_CALC = {}


def computed(per, split):
    from bicycleparameters import main
    key = (tuple(sorted(per.items())), split)
    if key not in _CALC:
        mp = parse(SPLIT if split else WHOLE)
        mp.update({k: v for k, (v, s) in period_values(per, split).items()})
        _CALC[key] = {k: nominal(v) for k, v in main.calculate_benchmark_from_measured(mp)[0].items()}
    return _CALC[key]


def check_bench(got, bench, split, what):
    if bench['src'] == 'stored':
        exact(got, BENCH, what)
    else:
        compare(got, computed(bench['per'], split), what, 3e-3)


def one_path(chk, item):
    path, mats, which, rel = item
    tmp = tempfile.mkdtemp()
    here = os.getcwd()
    # directories are listed in any order
    listdir, order = os.listdir, len(path) + len(repr(path[0])) + 2 * rel
    os.listdir = lambda *a: sorted(listdir(*a), key=lambda n: (len(n) * (order % 4 // 2), n),
                                   reverse=bool(order % 2))
    try:
        disk = Disk(tmp, path[0], mats)
        trail = [{k: path[0][k] for k in ('bench', 'extra', 'raw', 'per', 'mats', 'split')}]
        bike = None
        if rel:
            os.chdir(tmp)
        for pre, post in zip(path, path[1:]):
            act = post['act']
            trail.append(dict(act))
            ok = chk.guard('bicycle store', {'history': trail}, step, disk,
                           pre, post, bike, which, rel)
            if ok is None:
                return
            bike = ok[0]
            chk.case(repr((trail[0], [sorted(x.items()) for x in trail[1:]])),
                     {'start': repr(trail[0]), 'ops': [dict(x) for x in trail[1:]]})
        chk.count_trace(path)
    finally:
        os.listdir = listdir
        os.chdir(here)
        shutil.rmtree(tmp, ignore_errors=True)


def step(disk, pre, post, bike, which, rel):
    import bicycleparameters
    import bicycleparameters.main
    act = post['act']
    before = snapshot(disk.root)
    if act['op'] == 'load':
        kw = {}
        if act['raw'] or post['ops'] % 2:
            kw['forceRawCalc'] = act['raw']
        if act['per'] or post['ops'] % 2:
            kw['forcePeriodCalc'] = act['per']
        if not rel:
            kw['pathToData'] = disk.root
        error = None
        with vlib.quiet():
            try:
                bike = bicycleparameters.Bicycle('Bike', **kw)
            except Exception as e:
                error, bike = e, None
        if post['mem']['loaded']:
            if error is not None:
                raise error
        else:
            need(error is not None, 'loading succeeded without usable data, Benchmark '
                 'parameters: %s', (bike.parameters.get('Benchmark') if bike else None))
        after = snapshot(disk.root)
        own = os.path.relpath(disk.measured, disk.root)
        plots = os.path.join('bicycles', 'Bike', 'Plots')
        for f in set(before) | set(after):
            if before.get(f, 0) != after.get(f, 0):
                need(f == own or f.startswith(plots), 'loading changed %s', f)
    else:
        asked = []

        def answer(prompt=''):
            asked.append(prompt)
            return 'y'
        old = builtins.input
        builtins.input = answer
        try:
            with vlib.quiet():
                bike.save_parameters()
        finally:
            builtins.input = old
        after = snapshot(disk.root)
        pars = os.path.join('bicycles', 'Bike', 'Parameters')
        for f in set(before) | set(after):
            if before.get(f, 0) != after.get(f, 0):
                need(f.startswith(pars), 'saving changed %s', f)
    split = post['split']
    # the stored files
    bpath = os.path.join(disk.bike, 'Parameters', 'BikeBenchmark.txt')
    need(os.path.exists(bpath) == (post['bench']['src'] != 'none'),
         'stored benchmark parameters: %s, specification %s', os.path.exists(bpath), post['bench'])
    if os.path.exists(bpath) and post['bench'] != pre['bench']:
        with open(bpath) as f:
            check_bench(parse(f.read()), post['bench'], split, 'stored benchmark parameters')
    if post['raw'] == 'file':
        with open(disk.measured) as f:
            text = f.read()
        check_measured(parse(text), post['per'], split, disk.base, 'measured file')
        if not any(v == 'mat' for v in post['per'].values()):
            keep = [x for x in text.split('\n') if not re.match(r'\s*T[ct][A-Z]', x)]
            need('\n'.join(keep).strip() == disk.base.strip(), 'other lines of the measured '
                 'file changed')
        else:
            keep = [x for x in text.split('\n') if not re.match(r'\s*T[ct][A-Z]', x) and x.strip()]
            need(keep == [x for x in disk.base.split('\n') if x.strip()],
                 'other lines of the measured file changed: %s', keep)
    # the bicycle object
    mem = post['mem']
    if mem['loaded']:
        pars = bike.parameters
        want = set()
        if mem['bench']['src'] != 'none':
            want.add('Benchmark')
        if mem['extra']:
            want |= set(EXTRA)
        if mem['meas']:
            want.add('Measured')
        need(set(pars) == want, 'parameter sets %s, specification %s', sorted(pars), sorted(want))
        if 'Benchmark' in want:
            check_bench(pars['Benchmark'], mem['bench'], split, 'Benchmark parameters')
        for k in EXTRA:
            if k in want:
                exact(pars[k], EXTRA[k], k)
        if mem['meas']:
            check_measured(pars['Measured'], mem['per'], split, disk.base, 'Measured parameters')
        need(bike.hasRider is False and bike.riderPar == {} and bike.human is None,
             'the bicycle has a rider: %s %s', bike.hasRider, bike.riderPar)
        need(bike.bicycleName == 'Bike', 'the bicycle is called %r', bike.bicycleName)
    return (bike,)


def fake_savefig(self, fname, *a, **kw):
    with open(fname, 'w') as f:
        f.write('figure')


def replay(chk, which, limit=None):
    import matplotlib.figure
    import bicycleparameters.main  # noqa
    saved = matplotlib.figure.Figure.savefig
    matplotlib.figure.Figure.savefig = fake_savefig
    base = os.path.join(tempfile.mkdtemp(), 'mats')
    try:
        g = tlc.Graph('BikeStore', 'BikeStoreAll.cfg' if chk.thorough else 'BikeStore.cfg')
        chk.states += len(g.nodes)
        chk.transitions += len(g.edges)
        core = lambda s: tuple(s[k] for k in ('bench', 'extra', 'raw', 'per', 'mats', 'split', 'mem'))
        paths = g.cover(seed=chk.seed, max_len=4, core=core)
        if which == 'periods':
            # histories in which periods are computed
            paths = [p for p in paths if p[0]['raw'] == 'file' and not p[0]['extra'] and
                     any(s['act']['out'] in ('calc', 'fail') for s in p)]
        mats = mats_dir(base)
        chk.extra.setdefault('exhaustive_models', []).append(
            'BikeStore: %d histories, %d of %d transitions uncovered' % (
                len(paths), g.uncovered, g.total_edges))
        chk.parallel(one_path, [(p, mats, which, i % 3 == 0) for i, p in enumerate(paths)])
    finally:
        matplotlib.figure.Figure.savefig = saved
        shutil.rmtree(os.path.dirname(base), ignore_errors=True)
