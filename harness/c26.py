"""C26: the web application, driven through its HTTP callbacks.

The renderer below does what the browser part of Dash does: it keeps the value
of every component property, and after a change runs every callback that
depends on it, callbacks whose inputs other callbacks produce last.
"""
import base64
import glob
import os
import shutil
import time
from decimal import Decimal

import numpy as np

import plotgeo
import plotmdl
import vlib
from vlib import FX, fx, fxm, need

INV = ['fresh', 'ticks', 'ordered', 'polynomial', 'soundness']
WHEEL = ['r%s', 'm%s', 'I%sxx', 'I%syy']
FRAME = ['x%s', 'z%s', 'm%s', 'I%sxx', 'I%syy', 'I%szz', 'I%sxz']
GENERAL = ['w', 'c', 'lam', 'g']
DATA = '/repo/bicycleparameters/app-data/bicycles'


# ---------------------------------------------------------- stored bicycles ----
def stored():
    """The Benchmark parameters of every bicycle of the app, exactly."""
    out = {}
    for d in sorted(glob.glob(os.path.join(DATA, '*'))):
        name = os.path.basename(d)
        path = os.path.join(d, 'Parameters', name + 'Benchmark.txt')
        par = {}
        for line in open(path):
            if '=' in line:
                k, v = line.split('=')
                par[k.strip()] = int(Decimal(v.split('+/-')[0].strip()) * FX)
        out[name] = par
    return out


def qlist(l):
    return '[%s]' % ', '.join('"%s"' % x for x in l)


def write_data(path, bikes, first, shown, lo, hi):
    with open(path, 'w') as f:
        f.write('// Generated from the data files and the start page of the app.\nmodule appdata {\n')
        for name, par in bikes.items():
            f.write('  pure val %s: str -> int = Map(%s)\n' % (
                'D' + name.upper(), ', '.join('"%s" -> %d' % kv for kv in sorted(par.items()))))
        f.write('  pure val STORED: str -> (str -> int) = Map(%s)\n' % ', '.join(
            '"%s" -> D%s' % (n, n.upper()) for n in bikes))
        f.write('  pure val BIKES: List[str] = %s\n' % qlist(bikes))
        f.write('  pure val BIKE0: str = "%s"\n' % first)
        f.write('  pure val SHOWN0: List[str] = %s\n' % qlist(shown))
        f.write('  pure val LO0: int = %d\n  pure val HI0: int = %d\n}\n' % (lo, hi))


# ------------------------------------------------------------------ renderer ----
def walk(node):
    if isinstance(node, list):
        for n in node:
            yield from walk(n)
    elif isinstance(node, dict) and 'props' in node:
        yield node
        for k, v in node['props'].items():
            if isinstance(v, (dict, list)):
                yield from walk(v)


class Page:
    def __init__(self, client):
        self.c = client
        self.deps = client.get('/_dash-dependencies').get_json()
        self.nodes = list(walk(client.get('/_dash-layout').get_json()))
        self.val = {}
        for n in self.nodes:
            if isinstance(n['props'].get('id'), str):
                for k, v in n['props'].items():
                    self.val[n['props']['id'], k] = v
        self.find()

    def find(self):
        def typ(t):
            return [n['props'] for n in self.nodes if n['type'] == t]
        self.drop, = [p['id'] for p in typ('Dropdown')]
        self.check, = [p['id'] for p in typ('Checklist')]
        self.slider, = [p['id'] for p in typ('RangeSlider')]
        self.button, = [p['id'] for p in typ('Button') if p.get('id')]
        self.graphs = [p['id'] for p in typ('Graph')]
        self.cells = {}
        self.tables = {}
        for p in typ('DataTable'):
            for c in p['columns']:
                n = c['name']
                body = n[-2] if n.endswith(']') else None
                if body in ('F', 'R'):
                    keys, tab = [k % body for k in WHEEL], 'wheels'
                elif body in ('B', 'H'):
                    keys, tab = [k % body for k in FRAME], 'frames'
                elif n:
                    keys, tab = GENERAL, 'general'
                else:
                    continue
                self.tables[tab] = p['id']
                for row, k in enumerate(keys):
                    self.cells[k] = (p['id'], row, c['id'])

    @staticmethod
    def props(spec):
        s = spec['output']
        many = s.startswith('..')
        return many, [tuple(o.rsplit('.', 1)) for o in (s[2:-2].split('...') if many else [s])]

    def fire(self, dep, changed):
        many, outs = self.props(dep)
        def bind(l):
            return [dict(i, value=self.val.get((i['id'], i['property']))) for i in l]
        outputs = [{'id': i, 'property': p} for i, p in outs]
        body = {'output': dep['output'], 'outputs': outputs if many else outputs[0],
                'inputs': bind(dep['inputs']), 'state': bind(dep['state']),
                'changedPropIds': ['%s.%s' % c for c in changed]}
        with vlib.quiet():
            r = self.c.post('/_dash-update-component', json=body)
        need(r.status_code == 200, 'the callback of %s answers with the HTTP status %d', dep['output'],
             r.status_code)
        got = r.get_json()['response']
        for i, p in outs:
            need(i in got and p in got[i], 'no value for %s.%s', i, p)
            self.val[i, p] = got[i][p]
        return outs

    def settle(self, changed, early):
        """Run the callbacks that depend on the changed properties."""
        load = changed is None
        todo = []
        for d in self.deps:
            ins = {(i['id'], i['property']) for i in d['inputs']}
            if load or ins & set(changed):
                todo.append(d)
        while True:
            outs = [set(self.props(d)[1]) for d in self.deps]
            grown = [d for d in self.deps if d not in todo and any(
                {(i['id'], i['property']) for i in d['inputs']} & o
                for t, o in zip(self.deps, outs) if t in todo)]
            if not grown:
                break
            todo += grown
        fresh = set()
        base = set() if load else set(changed)
        while todo:
            for d in todo:
                ins = [(i['id'], i['property']) for i in d['inputs']]
                if not any(set(ins) & set(self.props(t)[1]) for t in todo if t is not d):
                    break
            # the order in which a page reports several changes is not defined
            ch = [i for i in ins if i in base] + [i for i in ins if i in fresh]
            if not early:
                ch.reverse()
            if load and not fresh:
                ch = []
            fresh |= set(self.fire(d, ch))
            todo.remove(d)

    # -- what a user does ---------------------------------------------------------
    def do(self, act):
        op = act['op']
        if op in ('load', 'reload'):
            self.settle(None, act['early'])
        elif op == 'select':
            self.val[self.drop, 'value'] = act['arg']
            self.settle([(self.drop, 'value')], act['early'])
        elif op == 'reset':
            self.val[self.button, 'n_clicks'] = (self.val.get((self.button, 'n_clicks')) or 0) + 1
            self.settle([(self.button, 'n_clicks')], act['early'])
        elif op == 'edit':
            t = self.tables[act['table']]
            rows = [dict(r) for r in self.val[t, 'data']]
            for k, v in act['news'].items():
                tab, row, col = self.cells[k]
                need(tab == t, 'parameter %s is not in the table %s', k, t)
                x = fx(v)
                rows[row][col] = int(x) if x == int(x) else x
            self.val[t, 'data'] = rows
            self.settle([(t, 'data')], act['early'])
        elif op == 'toggle':
            l = list(self.val[self.check, 'value'])
            l = [x for x in l if x != act['arg']] if act['arg'] in l else l + [act['arg']]
            self.val[self.check, 'value'] = l
            self.settle([(self.check, 'value')], act['early'])
        elif op == 'slide':
            self.val[self.slider, 'value'] = [act['lo'], act['hi']]
            self.settle([(self.slider, 'value')], act['early'])

    def table(self):
        out = {}
        for k, (t, row, col) in self.cells.items():
            out[k] = self.val[t, 'data'][row][col]
        return out


def decode(x):
    if isinstance(x, dict):
        if 'bdata' in x:
            a = np.frombuffer(base64.b64decode(x['bdata']), dtype=x['dtype'])
            return [v.item() for v in a]
        return {k: decode(v) for k, v in x.items()}
    if isinstance(x, list):
        return [decode(v) for v in x]
    return x


def figure(val):
    import plotly.graph_objects as go
    return go.Figure(decode(val))


# -------------------------------------------------------------------- checks ----
def spectra(view, xs):
    """Samples of the eigenvalue figure, from the specified polynomial."""
    P, (A0, A1, A2) = [fxm(c) for c in view['poly']], [np.array(fxm(a)) for a in view['size']]
    out = []
    for v in xs:
        chi = np.array([sum(c * v**j for j, c in enumerate(cs)) for cs in P])
        A = A0 + v * A1 + v * v * A2
        out.append({'A': A, 'chi': chi, 'top': float(np.max(np.real(np.roots(chi))))})
    return out


def check_eigen(fig, st, s):
    def pick(part, mode):
        return [t for t in fig.data if t.name and t.name.startswith(part + ' ' + mode)]
    xs = plotmdl.floats(fig.data[0].x)
    need(len(fig.data) == 8, '%d curves of eigenvalues', len(fig.data))
    lo, hi = float(s['lo']), float(s['hi'])
    need(np.all(np.diff(xs) >= 0) and abs(xs[0] - lo) < 1e-9 and abs(xs[-1] - hi) < 1e-9,
         'the speeds run from %s to %s, selected are %s to %s', xs[0], xs[-1], lo, hi)
    need(len(xs) >= 1 and (len(xs) == 1 or np.max(np.diff(xs)) < 0.5), 'neighbouring speeds are %s apart',
         np.max(np.diff(xs)) if len(xs) > 1 else None)
    for t in fig.data:
        need(np.array_equal(plotmdl.floats(t.x), xs), 'curves over different speeds')
    es = spectra(st['view'], xs)
    real, imag = [], []
    for mode, n in (('Weave', 2), ('Capsize', 1), ('Caster', 1)):
        re, im = pick('Re', mode), pick('Im', mode)
        need(len(re) == n and len(im) == n, '%d real and %d imaginary curves of %s', len(re), len(im), mode)
        real += [plotmdl.floats(t.y) for t in re]
        imag += [plotmdl.floats(t.y) for t in im]
    plotmdl.curve_sets(np.array(real).T, np.array(imag).T, es, 'eigenvalue figure')
    iv = [(float(h.x0), float(h.x1)) for h in fig.layout.shapes]
    none = any('No stability' in (a.text or '') for a in fig.layout.annotations)
    if 'stability' not in s['shown']:
        need(not iv and not none, 'stable speeds are shown although that is switched off')
        return
    stable = [e['top'] < 0 for e in es]
    runs, k = [], 0
    while k < len(xs):
        j = k
        while j + 1 < len(xs) and stable[j + 1] and stable[k]:
            j += 1
        if stable[k] and j > k:
            runs.append((k, j))
        k = j + 1
    plotmdl.check_bands(iv, {'kind': 'bicycle', 'bands': runs}, es, xs)
    need(none == (not iv), 'text of no stability: %s with the shaded regions %s', none, iv)


def check_view(page, st, who):
    s, view = st['sessions'][who], st['view']
    t = page.table()
    for k in sorted(view['tables']):
        x = fx(view['tables'][k])
        need(isinstance(t[k], (int, float)) and abs(t[k] - x) <= 1e-9 * (1 + abs(x)),
             'the table shows %r for %s, specification %r', t[k], k, x)
    geo = [g for g in page.graphs if 'geom' in g]
    eig = [g for g in page.graphs if 'eig' in g]
    need(len(geo) == 1 and len(eig) == 1, 'graphs %s', page.graphs)
    gf, ef = figure(page.val[geo[0], 'figure']), figure(page.val[eig[0], 'figure'])
    names = [tr.name for tr in gf.data]
    need('Ground' in names, 'the figure %s shows %s', geo[0], names)
    plotgeo.check_plotly(gf, view['shapes'], None, None)
    check_eigen(ef, st, s)


def replay(chk, tr):
    from bicycleparameters import app
    client = app.app.server.test_client()
    pages, hist = {}, []
    for st in tr:
        act = dict(st['act'])
        who = act['who']
        s = st['sessions'][who]
        act.update(lo=s['lo'], hi=s['hi'])
        hist.append({'op': act['op'], 'who': who, 'arg': act['arg'], 'news': {k: fx(v) for k, v in act['news'].items()},
                     'range': [s['lo'], s['hi']], 'early': act['early']})
        data = {'session': {'bike': s['bike'], 'shown': list(s['shown']), 'speeds': [s['lo'], s['hi']]},
                'history': hist[:]}

        def one():
            if act['op'] in ('load', 'reload'):
                for w in ((0, 1) if act['op'] == 'load' else (who,)):
                    pages[w] = Page(client)
                    pages[w].do(act)
            else:
                pages[who].do(act)
            check_view(pages[who], st, who)
        n = len(chk.violations) if not hasattr(chk, 'found') else len(chk.found)
        chk.guard('app/' + act['op'], data, one)
        chk.case((s['bike'], hist[-1], tuple(s['shown']), sorted(st['view']['tables'].items())), data)
        if (len(chk.found) if hasattr(chk, 'found') else len(chk.violations)) > n or chk.too_many():
            break


def run(chk):
    chk.rule = 'a case is one interaction of a browser session and the page it leads to'
    time.sleep = lambda s: None         # the spinner callbacks wait for a second
    from bicycleparameters import app
    bikes = stored()
    start = {}

    def options():
        page = Page(app.app.server.test_client())
        values = [o['value'] for o in page.val[page.drop, 'options']]
        need(sorted(values) == sorted(bikes), 'the app offers %s, stored are %s', values, sorted(bikes))
        need(len(page.cells) == 26, 'the tables have cells for %s', sorted(page.cells))
        need(page.val[page.drop, 'value'] in bikes, 'first bicycle')
        lo, hi = page.val[page.slider, 'value']
        start.update(first=page.val[page.drop, 'value'], shown=page.val[page.check, 'value'],
                     lo=int(lo), hi=int(hi))
    chk.guard('app/page', {}, options)
    if not start:
        return
    d = os.path.join(os.environ.get('VERIF_TMP', '/tmp'), 'appspec')
    os.makedirs(d, exist_ok=True)
    for f in glob.glob(os.path.join(vlib.SPEC, '*.qnt')):
        shutil.copy(f, d)
    write_data(os.path.join(d, 'appdata.qnt'), bikes, **start)
    spec = os.path.join(d, 'app.qnt')
    jobs = [dict(spec=spec, n=1, steps=3 * len(bikes) + 3, seed=chk.seed, step='stepTour', invariants=INV)]
    jobs += vlib.split_jobs(dict(spec=spec, steps=12, invariants=INV), chk.scale(36, 800), 6, chk.seed + 3)
    traces = [tr for l in vlib.quint_many(jobs) for tr in l]

    def one(c, tr):
        c.count_trace(tr)
        replay(c, tr)
    chk.parallel(one, traces)
