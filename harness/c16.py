"""C16 parameter text files: exhaustive line structure (TLC), numbers (Quint)."""
import math
import os
import tempfile
from fractions import Fraction

import tlc
import vlib
from vlib import need

NAME = {1: 'mB', 2: 'IBxz', 3: 'TcB1'}


def num(v, digits=3):
    return '%.*f' % (digits, v / 10 ** digits)


def render(line, text_vals):
    """Text of one parameter line in the layout the specification chose."""
    lay, name = line['layout'], line['name']
    pm = ' +/- ' if lay in ('aroundpm', 'spaced') else '+/-'
    vals = [v if s is None else v + pm + s for v, s in text_vals]
    if lay == 'tight':
        return name + '=' + ','.join(vals)
    if lay == 'spaced':
        return name + ' = ' + ', '.join(vals)
    if lay == 'comment':
        return name + ' = ' + ', '.join(vals) + ' # measured with a ruler, twice'
    if lay == 'commenteq':
        return name + ' = ' + ' , '.join(vals) + '# was mX = 1.0+/-0.1'
    if lay == 'indent':
        return '   ' + name + ' = ' + ', '.join(vals) + '   '
    if lay == 'aroundpm':
        return name + '= ' + ' , '.join(vals)
    if lay == 'tabs':
        return name + '\t=\t' + ',\t'.join(vals)
    raise vlib.Machinery('layout ' + lay)


NOISE = {'hash': '# a comment', 'blank': '', 'spaces': '   ',
         'hashindent': '   # indented comment', 'hasheq': '# mB = 3.0+/-0.1, 2'}


def check_dict(got, want, exact=True):
    """want: name -> (mean, std or None) as Fractions/floats."""
    from uncertainties import UFloat
    need(set(got) == set(want), 'names %s, specification %s', sorted(got), sorted(want))
    for k, (mean, std) in want.items():
        v = got[k]
        isunc = isinstance(v, UFloat)
        need(isunc == (std is not None), '%s was read as %r', k, v)
        nom = v.nominal_value if isunc else float(v)
        need(math.isclose(nom, mean, rel_tol=1e-12, abs_tol=1e-300),
             '%s: value %r, specification %r', k, nom, mean)
        if isunc:
            need(math.isclose(v.std_dev, std, rel_tol=1e-9, abs_tol=1e-300),
                 '%s: uncertainty %r, specification %r', k, v.std_dev, std)


def load(text, newline_at_end=True):
    from bicycleparameters import io
    fd, path = tempfile.mkstemp(suffix='.txt')
    with os.fdopen(fd, 'w') as f:
        f.write(text)
    try:
        return io.load_parameter_text_file(path)
    finally:
        with open(path) as f:
            need(f.read() == text, 'reading changed the file')
        os.remove(path)


def structure(chk, cfg):
    states, gen = tlc.states('ParamFile', cfg)
    chk.states += len(states)
    chk.transitions += gen
    for n, s in enumerate(states):
        lines = []
        for l in s['file']:
            if l['key'] == 0:
                lines.append(NOISE[l['layout']])
            else:
                tv = [(num(v), None if u < 0 else num(u)) for v, u in l['vals']]
                lines.append(render({'layout': l['layout'], 'name': NAME[l['key']]}, tv))
        text = '\n'.join(lines) + ('\n' if lines and n % 3 else '')
        items = tlc.fun(s['dict']).items()
        want = {NAME[k]: (e['sum'] / e['cnt'] / 1000,
                          math.sqrt(e['var']) / e['cnt'] / 1000 if e['unc'] else None)
                for k, e in items}
        chk.guard('structure', {'text': text}, lambda: check_dict(load(text), want))
        chk.case(text)
        if chk.too_many():
            return
    chk.extra.setdefault('exhaustive_models', []).append('%s: %d files' % (cfg, len(states)))


def sci(mant, ex, style):
    """Decimal text of mant * 10^ex."""
    if style % 3 == 0:
        return '%de%d' % (mant, ex)
    if style % 3 == 1 and mant != 0:
        s = '%d' % abs(mant)
        return '%s%s.%se%d' % ('-' if mant < 0 else '', s[0], s[1:] or '0', ex + len(s) - 1)
    f = Fraction(mant) * Fraction(10) ** ex
    return '%.*f' % (max(0, -ex), float(f)) if abs(ex) < 12 else '%de%d' % (mant, ex)


LAY = ['tight', 'spaced', 'comment', 'indent', 'tabs', 'commenteq']


def numbers(chk, n):
    from bicycleparameters import io
    jobs = vlib.split_jobs(dict(spec='textfile.qnt', steps=9,
                                invariants=['known', 'between']), n, 25, chk.seed)
    for traces in vlib.quint_many(jobs):
        for tr in traces:
            chk.count_trace(tr)
            st = tr[-1]
            lines = []
            for j, l in enumerate(st['lines']):
                tv = []
                for i, x in enumerate(l['lits']):
                    if x['smant']:
                        # one common style so that value and uncertainty parse alike
                        tv.append((sci(x['mant'], x['ex'], 2), sci(x['smant'], x['sex'], 2)))
                    else:
                        tv.append((sci(x['mant'], x['ex'], i + j), None))
                lines.append(render({'layout': LAY[l['layout']], 'name': l['name']}, tv))
            text = '\n'.join(lines) + '\n'
            want, slack = {}, {}
            for k, e in st['dict'].items():
                one = 10 ** e['scale']
                want[k] = (float(Fraction(e['num'], one * e['cnt'])),
                           math.sqrt(Fraction(e['varnum'], one * one)) / e['cnt']
                           if e['unc'] else None)
                slack[k] = float(Fraction(st['slack'][k], one))

            def one():
                got = load(text)
                check_dict(got, want)
                round_trip(io, got, slack)
            chk.guard('numbers', {'text': text}, one)
            chk.case(text, {'text': text})
            if chk.too_many():
                return


def round_trip(io, d, slack):
    from uncertainties import UFloat
    tmp = tempfile.mkdtemp()
    path = os.path.join(tmp, 'Sub', 'BikeBenchmark.txt')   # directory is created
    copy = dict(d)
    with vlib.quiet():
        ok = io.write_parameter_text_file(path, d)
    need(ok is True, 'write_parameter_text_file returned %r', ok)
    need(d == copy, 'writing changed the dictionary')
    back = io.load_parameter_text_file(path)
    need(set(back) == set(d), 'names %s were written, %s read back', sorted(d), sorted(back))
    for k in d:
        a, b = d[k], back[k]
        need(isinstance(a, UFloat) == isinstance(b, UFloat), '%s: %r read back as %r', k, a, b)
        if isinstance(a, UFloat):
            tol = 0.5000001 * slack[k] + 1e-13 * abs(a.nominal_value)
            need(abs(a.nominal_value - b.nominal_value) <= tol, '%s: %r written and read '
                 'back as %r (allowed deviation %g)', k, a, b, tol)
            need(abs(a.std_dev - b.std_dev) <= tol, '%s: uncertainty of %r read back as %r',
                 k, a, b)
        else:
            need(float(a) == float(b), '%s: %r written and read back as %r', k, a, b)
    import shutil
    shutil.rmtree(tmp, ignore_errors=True)


def run(chk):
    chk.level = 'model_checking'
    chk.rule = 'a case is one parameter file'
    structure(chk, 'ParamFile.cfg')
    structure(chk, 'ParamFileWide.cfg')
    numbers(chk, chk.scale(150, 3000))
