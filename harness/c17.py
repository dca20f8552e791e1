"""C17 writing periods: every transition of PeriodFile.tla in the real code."""
import os
import re
import shutil
import tempfile

import tlc
import vlib
from vlib import need

PARAM = {101: 'mB', 102: 'Temp'}
PARAM_TEXT = {101: 'mB = 10.50+/-0.02 # with TcB1 = 3.0', 102: 'Temp = 21.125+/-0.375 # Celsius'}
PARAM_VAL = {101: 10.5, 102: 21.125}
# the order of the names is the order of their numbers
PERIOD = {1: 'TcB1', 2: 'TtB1', 3: 'TtH12'}
TEXT0 = {1: 'TcB1 = 1.5000+/-0.0020', 2: 'TtB1 = 2.5, 2.7', 3: '  TtH12=0.75+/-0.003'}
VAL0 = {1: 1.5, 2: 2.6, 3: 0.75}
NOISE = {'comment': '# TtB2 = 9.0', 'Tcomment': '  # The periods are measured', 'blank': ''}


def is_period(line):
    return re.match(r'\s*T[ct][A-Z]', line)


def value(k, v):
    from uncertainties import ufloat
    if v == 1:
        return ufloat(k + 0.125, 0.015625) if k != 2 else k + 0.25
    return ufloat(3.0 + 0.0625 * k, 0.001)


def nominal(x):
    return getattr(x, 'nominal_value', x)


def text_of(l):
    if l['kind'] == 'param':
        return PARAM_TEXT[l['key']]
    if l['kind'] == 'period':
        return TEXT0[l['key']]
    return NOISE[l['kind']]


def content(state):
    ls = [text_of(l) for l in state['lines']]
    return '\n'.join(ls) + ('\n' if ls and state['terminated'] else '')


def replay(chk, io, path, src, dst):
    mp = {PERIOD[k]: value(k, v) for k, v in tlc.fun(dst['act']['mp']).items()} \
        if dst['act']['mp'] else {}
    # entries which are no periods are not written
    mp.update({'mB': 99.0, 'ITx': 5.0, 'aB1': 1.0, 'Temp': 4.5})
    before = dict(mp)
    with open(path, 'w') as f:
        f.write(content(src))
    for rep in range(3):
        with vlib.quiet():
            io.write_periods_to_file(path, mp)
        with open(path) as f:
            text = f.read()
        if rep:
            need(text == first, 'repeating the write changed the file')
        first = text
    need(mp == before, 'the periods handed in were changed')
    got = text.split('\n')
    if got and got[-1] == '':
        got = got[:-1]
    keep = [l for l in got if not is_period(l)]
    want = [text_of(l) for l in dst['lines'] if l['kind'] != 'period']
    while keep and keep[-1] == '' and len(keep) > len(want):
        keep.pop()
    need(keep == want or [x for x in keep if x.strip()] == [x for x in want if x.strip()],
         'other lines are %r, specification %r', keep, want)
    back = io.load_parameter_text_file(path)
    names = {}
    for l in dst['lines']:
        if l['kind'] == 'param':
            names[PARAM[l['key']]] = (PARAM_VAL[l['key']], None)
        elif l['kind'] == 'period':
            v = value(l['key'], l['val'])
            names[PERIOD[l['key']]] = (nominal(v), getattr(v, 'std_dev', None))
    need(set(back) == set(names), 'file holds %s, specification %s', sorted(back), sorted(names))
    for k, (v, s) in names.items():
        need(abs(nominal(back[k]) - v) <= 1e-3 * (s or 1e-9) + 1e-9 if s is None else
             abs(nominal(back[k]) - v) <= 0.06 * s + 1e-12, '%s is %r, specification %r',
             k, back[k], v)
        if k != 'Temp' and k.startswith('T') and s is not None:
            need(abs(back[k].std_dev - s) <= 0.06 * s, '%s is %r, uncertainty is %r', k, back[k], s)
    lines = [l.split('=')[0].strip() for l in got if is_period(l)]
    need(len(lines) == len(set(lines)), 'periods are stored twice: %s', lines)


def run(chk):
    chk.level = 'model_checking'
    chk.rule = ('a case is one write of periods into one file (every transition of '
                'PeriodFile.tla), or one load of a bicycle (BikeStore.tla)')
    from bicycleparameters import io
    g = tlc.Graph('PeriodFile', 'PeriodFile.cfg')
    chk.states += len(g.nodes)
    chk.transitions += len(g.edges)
    tmp = tempfile.mkdtemp()
    path = os.path.join(tmp, 'BikeMeasured.txt')
    for s, a, t in g.edges:
        src, dst = g.nodes[s], g.nodes[t]
        chk.guard('write', {'file': content(src), 'write': repr(dst['act'])},
                  replay, chk, io, path, src, dst)
        chk.case((content(src), repr(dst['act'])),
                 {'file': content(src), 'after': [dict(l) for l in dst['lines']]})
        if chk.too_many():
            break
    chk.traces += len(g.edges)
    shutil.rmtree(tmp, ignore_errors=True)
    chk.extra['exhaustive_models'] = ['PeriodFile.cfg: all %d transitions' % len(g.edges)]
    if os.path.exists(os.path.join(os.path.dirname(__file__), 'bikestore.py')):
        import bikestore
        bikestore.replay(chk, 'periods')
