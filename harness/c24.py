"""C24: comparison tables (table.qnt) and parameter set sheets (sheet.qnt)."""
import os
import re
import tempfile

import vlib
from vlib import need

ZERO = 30
NAMES = ['Yellow', 'B', 'Rigidcl', 'Averylongbicyclenamethatiswide', 'Trek', 'Ed',
         'Browserins']


def number(n):
    from uncertainties import ufloat
    x = float('%de%d' % (n['mant'], n['ex']))
    if n['kind'] == 'plain':
        return x
    s = float('%de%d' % (n['smant'], n['sex']))
    return ufloat(x, s)


class Bike:
    """What a table uses of a Bicycle: its name and its parameters."""


def make_bikes(st, k):
    """Real Bicycle objects holding the specified parameters."""
    import bicycleparameters as bp
    import mdl
    out = []
    names = [NAMES[(k + 3 * j) % len(NAMES)] for j in range(len(st['bikes']))]
    base = {'IBxx': 1.0}
    with mdl.Scratch() as s:
        for name, pars in zip(names, st['bikes']):
            s.par_file(name, 'Benchmark', mdl.bench_lines(base))
            with vlib.quiet():
                b = bp.Bicycle(name, pathToData=s.path)
            b.parameters = {st['source']: {q: number(n) for q, n in sorted(pars.items())}}
            out.append(b)
    return out, names


def check_cell(val, sig, c, what):
    if c['kind'] == 'missing':
        need(val == 'NA' and sig == 'NA', '%s: %r %r for a missing parameter', what, val, sig)
        return
    want = [c['lo'] / 10 ** ZERO, c['hi'] / 10 ** ZERO]
    try:
        x = float(val)
    except ValueError:
        raise vlib.Mismatch('%s: value cell %r is no number' % (what, val))
    if c['kind'] in ('plain', 'sure'):
        need(abs(x - want[0]) <= 1e-11 * abs(want[0]) + 1e-14,
             '%s: value shown as %r, stored %r', what, val, want[0])
        if c['kind'] == 'plain':
            need(sig == 'NA', '%s: uncertainty %r shown for a value without', what, sig)
        else:
            need(float(sig) == 0.0, '%s: uncertainty %r shown for an exact value', what, sig)
        return
    try:
        s = float(sig)
    except ValueError:
        raise vlib.Mismatch('%s: uncertainty cell %r is no number' % (what, sig))
    unit = 10.0 ** c['place']
    need(min(abs(x - w) for w in want) <= 1e-6 * unit + 1e-15 * abs(x),
         '%s: value shown as %r, rounding the stored one gives %s', what, val, want)
    ws = [c['slo'] / 10 ** ZERO, c['shi'] / 10 ** ZERO]
    need(min(abs(s - w) for w in ws) <= 1e-6 * unit,
         '%s: uncertainty shown as %r, rounding the stored one gives %s', what, sig, ws)
    if c['place'] < 0:
        for cell in (val, sig):
            need('.' in cell and len(cell.split('.')[1]) == -c['place'],
                 '%s: %r does not have the %d decimals of the rounding', what, cell, -c['place'])


def check_rows(rows, st, label, what):
    # names that differ in case only may come in either order
    order = [label(r['key']) for r in st['rows']]
    fold = [r['key']['name'].lower() for r in st['rows']]
    rows = list(rows)
    for j in range(len(rows) - 1):
        if j + 1 < len(fold) and fold[j] == fold[j + 1] \
                and [rows[j][0], rows[j + 1][0]] == [order[j + 1], order[j]]:
            rows[j], rows[j + 1] = rows[j + 1], rows[j]
    need([r[0] for r in rows] == [label(r['key']) for r in st['rows']],
         '%s: rows are %s, specification %s', what, [r[0] for r in rows],
         [label(r['key']) for r in st['rows']])
    for r, w in zip(rows, st['rows']):
        need(len(r) == 1 + 2 * len(w['cells']), '%s: row %r', what, r)
        for j, c in enumerate(w['cells']):
            check_cell(r[1 + 2 * j], r[2 + 2 * j], c, '%s, %s of bicycle %d'
                       % (what, r[0], j))


def parse_rst(text, nb):
    """Strict parser of a grid table; returns names, sub header, rows."""
    lines = text.split('\n')
    if lines and lines[-1] == '':
        lines.pop()
    need(len({len(x) for x in lines}) == 1, 'ragged table:\n%s', text)
    seps, body = lines[0::2], lines[1::2]
    for x in seps:
        need(set(x) <= set('+-=') and x[0] == x[-1] == '+', 'bad rule %r', x)
    need(len(seps) == len(body) + 1, 'table has %d rules and %d rows', len(seps), len(body))
    need(seps[1].count('=') > 0 and '-' not in seps[1], 'no header rule: %r', seps[1])
    for x in seps[:1] + seps[2:]:
        need('=' not in x, 'header rule in the body: %r', x)
    cols = [i for i, ch in enumerate(seps[1]) if ch == '+']
    need(len(cols) == 2 + 2 * nb, 'rule %r has %d columns for %d bicycles', seps[1],
         len(cols) - 1, nb)
    for x in seps[2:]:
        need([i for i, ch in enumerate(x) if ch == '+'] == cols, 'rules differ: %r', x)
    top = [i for i, ch in enumerate(seps[0]) if ch == '+']
    need(top == [cols[0], cols[1]] + cols[3::2], 'column groups %s do not match %s', top, cols)

    def cells(line, at):
        need(all(line[i] == '|' for i in at), 'row %r is not aligned', line)
        return [line[a + 1:b].strip() for a, b in zip(at, at[1:])]
    names = cells(body[0], top)
    need(names[0] == '', 'header %r', body[0])
    rows = [cells(x, cols) for x in body[1:]]
    return names[1:], rows[0], rows[1:]


def check_text(text, st, names, latex, what):
    got, sub, rows = parse_rst(text, len(names))
    need(got == names, '%s: bicycles %s, expected %s', what, got, names)
    pair = [':math:`v`', r':math:`\sigma`'] if latex else ['v', 'sigma']
    need(sub == ['Variable'] + pair * len(names), '%s: sub header %s', what, sub)
    check_rows(rows, st, (lambda k: ':math:`' + k['tex'] + '`') if latex
               else (lambda k: k['name']), what)


def make(st, bikes, latex):
    from bicycleparameters.tables import Table
    return Table(st['source'], latex, bikes)


def check_step(box, st, k):
    from bicycleparameters import tables
    op = st['op']
    if op == 'new':
        box['bikes'], box['names'] = make_bikes(st, k)
        box['pars'] = [{s: dict(p) for s, p in b.parameters.items()} for b in box['bikes']]
        box['latex'] = bool(k % 2)
        box['t'] = make(st, box['bikes'] if k % 3 else tuple(box['bikes']), box['latex'])
        lab = (lambda q: q['tex']) if box['latex'] else (lambda q: q['name'])
        check_rows(box['t'].tableData, st, lab, 'table data')
        names = [r['key']['name'] for r in st['rows']]
        got = list(box['t'].allVariables)
        need(sorted(got) == sorted(names) and [x.lower() for x in got] == [x.lower() for x in names],
             'variables %s', box['t'].allVariables)
        for pars in st['bikes']:
            for q, n in pars.items():
                s = tables.uround(number(n))
                w = [r['cells'][st['bikes'].index(pars)] for r in st['rows']
                     if r['key']['name'] == q][0]
                parts = s.split('+/-')
                check_cell(parts[0], parts[1] if len(parts) == 2 else 'NA', w, 'uround of ' + q)
        for r in st['rows']:
            tex = tables.to_latex(r['key']['name'])
            need(tex == r['key']['tex'], 'to_latex(%r) is %r', r['key']['name'], tex)
    elif op == 'file':
        with tempfile.TemporaryDirectory() as d:
            p = os.path.join(d, 'table.rst')
            text = box['t'].create_rst_table(p)
            need(open(p).read().rstrip('\n') == text.rstrip('\n'),
                 'the file differs from the returned table')
        check_text(text, st, box['names'], box['latex'], 'rst table')
    elif op in ('rst', 'data'):
        for _ in range(1 if op == 'rst' else 2):
            check_text(box['t'].create_rst_table(), st, box['names'], box['latex'], 'rst table')
    else:
        box['latex'] = op == 'latex'
        box['t'] = make(st, box['bikes'], box['latex'])
        check_text(box['t'].create_rst_table(), st, box['names'], box['latex'], 'rst table')
    now = [{s: dict(p) for s, p in b.parameters.items()} for b in box['bikes']]
    need([[sorted(p) for p in b.values()] for b in now]
         == [[sorted(p) for p in b.values()] for b in box['pars']]
         and all(a[s][q] is b[s][q] for a, b in zip(now, box['pars']) for s in a for q in a[s]),
         'the bicycles\' parameters changed')


def replay(chk, item):
    k, tr = item
    chk.count_trace(tr)
    box, hist = {}, []
    for st in tr:
        hist.append(st['op'])
        data = {'source': st['source'], 'history': hist[:], 'bikes': [
            {q: str(number(n)) for q, n in b.items()} for b in st['bikes']]}
        chk.guard(st['op'], data, check_step, box, st, k)
        chk.case((hist[:], data['bikes']), data)
        if 't' not in box:
            return


ROW = re.compile(r'<tr>(.*?)</tr>', re.S)
TD = re.compile(r'<t[dh]>(.*?)</t[dh]>', re.S)


def check_sheet(box, st, k):
    import psets
    if st['op'] == 'new':
        d = {q: vlib.fx(v) for q, v in st['par'].items()}
        box['o'] = psets.build(st['kind'], d, bool(k % 2))
    elif st['op'] == 'all':
        box['o'].parameters = {q: vlib.fx(v) for q, v in st['par'].items()}
    else:
        for q in st['edited']:
            box['o'].parameters[q] = vlib.fx(st['par'][q])
    before = dict(box['o'].parameters)
    text = box['o']._repr_html_()
    need(dict(box['o'].parameters) == before, 'showing the sheet changed the parameters')
    need(st['kind'] in text, 'the sheet does not name the parameterization %s', st['kind'])
    rows = [TD.findall(r) for r in ROW.findall(text)]
    rows = [[c.strip() for c in r] for r in rows]
    need(rows and len(rows[0]) == 2 and not any(ch.isdigit() for ch in rows[0][1]),
         'no header in %r', rows[:1])
    want = {'\\(' + r['tex'] + '\\)': r for r in st['rows']}
    got = [r[0] for r in rows[1:]]
    need(sorted(got) == sorted(want), 'the sheet has rows for %s, specification %s',
         sorted(set(got) - set(want)) + [g for g in set(got) if got.count(g) > 1],
         sorted(set(want) - set(got)))
    for r in rows[1:]:
        w = want[r[0]]
        need(len(r) == 2 and re.fullmatch(r'-?\d+\.\d{3}', r[1]), '%s is shown as %r', w['name'], r)
        need(w['lo'] <= int(r[1].replace('.', '')) <= w['hi'], '%s is shown as %s, its value is %r',
             w['name'], r[1], vlib.fx(st['par'][w['name']]))


def replay_sheet(chk, item):
    k, tr = item
    chk.count_trace(tr)
    box, hist = {}, []
    for st in tr:
        hist.append(st['op'])
        data = {'kind': st['kind'], 'history': hist[:],
                'parameters': {q: vlib.fx(v) for q, v in st['par'].items()}}
        chk.guard('sheet ' + st['op'], data, check_sheet, box, st, k)
        chk.case((hist[:], data['parameters']), data)
        if 'o' not in box:
            return


def run(chk):
    chk.rule = ('a case is one table produced after a history of tables of the same bicycles, or '
                'the sheet of a parameter set after a history of edits')
    jobs = vlib.split_jobs(dict(spec='sheet.qnt', steps=6,
                                invariants=['onceEach', 'complete', 'halfUnit']),
                           chk.scale(150, 3000), 50, chk.seed)
    items = []
    for traces in vlib.quint_many(jobs):
        items += [(len(items) + j, t) for j, t in enumerate(traces)]
    chk.parallel(replay_sheet, items)
    jobs = vlib.split_jobs(dict(spec='table.qnt', steps=5,
                                invariants=['onceEach', 'complete', 'halfUnit']),
                           chk.scale(200, 4000), 50, chk.seed)
    items = []
    for traces in vlib.quint_many(jobs):
        items += [(len(items) + j, t) for j, t in enumerate(traces)]
    chk.parallel(replay, items)
