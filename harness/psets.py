"""Replay of parsets.qnt: parameter set objects through the real classes."""
import os
import random
import shutil
import tempfile

import numpy as np

import vlib
from vlib import fx, need

GAINS = ['kTphi_phi', 'kTphi_del', 'kTphi_phid', 'kTphi_deld', 'kTdel_phi', 'kTdel_del',
         'kTdel_phid', 'kTdel_deld']
RIDER = {'Meijaard2007', 'Meijaard2007WithFeedback', 'Moore2012'}
INV = ['complete', 'conserved', 'moore', 'planar']


def cls(kind):
    from bicycleparameters import parameter_sets as ps
    return getattr(ps, kind + 'ParameterSet')


def build(kind, d, rider):
    return cls(kind)(d, rider) if kind in RIDER else cls(kind)(d)


def tol(kind, par):
    """Absolute tolerances: rounding relative to the bodies' sizes."""
    t = {}
    for k, v in par.items():
        t[k] = 1e-11 * (abs(v) + 1e-2)
        if k[0] in 'Ii':
            t[k] = 1e-11 * max(abs(par[q]) for q in par if q[:2] == k[:2] and q[0] == k[0])
    return t


def same_par(got, want, exact, what):
    t = tol('', want)
    for k, v in want.items():
        need(k in got, '%s lacks %s', what, k)
        g = got[k]
        need(isinstance(g, float) and (g == v if exact else abs(g - v) <= t[k]),
             '%s: %s is %r, specification %r', what, k, g, v)


def extras(got, want, what):
    """Redundant entries of a benchmark set agree with the required ones."""
    der = {'yB': 0.0, 'yH': 0.0, 'yR': 0.0, 'yF': 0.0, 'xR': 0.0, 'IRxz': 0.0, 'IFxz': 0.0}
    for a, b in (('IRzz', 'IRxx'), ('IFzz', 'IFxx'), ('xF', 'w')):
        if b in want:
            der[a] = want[b]
    for k, v in der.items():
        if k in got and k not in want:
            need(abs(got[k] - v) <= 1e-10 * (1 + abs(v)), '%s: %s is %r, specification %r', what,
                 k, got[k], v)


class World:
    def __init__(self, tmp, rng):
        self.tmp, self.rng = tmp, rng
        self.objs, self.given, self.exact, self.frozen = [], [], [], []

    def add(self, obj, exact, d=None):
        self.objs.append(obj)
        self.exact.append(exact)
        self.given.append((d, dict(d)) if d is not None else None)
        self.frozen.append(dict(obj.parameters))

    def check(self, st, j, what):
        o, spec = self.objs[j], st['objs'][j]
        kind = spec['kind']
        need(type(o) is cls(kind), '%s is a %s, specification %s', what, type(o).__name__, kind)
        need(o.parameterization == kind, '%s calls itself %r', what, o.parameterization)
        want = {k: fx(v) for k, v in spec['par'].items()}
        same_par(o.parameters, want, self.exact[j], what)
        if kind in ('Meijaard2007', 'Meijaard2007WithFeedback'):
            extras(o.parameters, want, what)
        if kind in RIDER:
            need(o.includes_rider == spec['rider'] and isinstance(o.includes_rider, bool),
                 '%s: includes_rider is %r, specification %r', what, o.includes_rider, spec['rider'])

    def unchanged(self, what):
        for j, o in enumerate(self.objs):
            need(dict(o.parameters) == self.frozen[j], '%s changed object %d: %s', what, j,
                 [(k, self.frozen[j].get(k), o.parameters.get(k)) for k in
                  set(o.parameters) | set(self.frozen[j])
                  if self.frozen[j].get(k) != o.parameters.get(k)])
            if self.given[j] is not None:
                need(self.given[j][0] == self.given[j][1],
                     '%s changed the dictionary object %d was made from', what, j)


def dictionary(spec, extra, rng):
    """The caller's dictionary, entries in any order, plain or numpy floats."""
    d = {k: fx(v) for k, v in spec['par'].items()}
    ks = sorted(d)
    rng.shuffle(ks)
    out = {}
    for k in ks:
        out[k] = np.float64(d[k]) if rng.random() < 0.1 else d[k]
    if extra and spec['kind'] == 'Moore2019':
        out.update({'yD': 0.0, 'yP': 0.0, 'yH': 0.0, 'yR': 0.0, 'yF': 0.0, 'xR': 0.0,
                    'xF': out['w'], 'zF': -out['rF'], 'zR': -out['rR']})
    elif extra and spec['kind'] in ('Meijaard2007', 'Meijaard2007WithFeedback'):
        out.update({'IRzz': out['IRxx'], 'IFzz': out['IFxx'], 'yB': 0.0})
    return out


def bad_value(how, v):
    from uncertainties import ufloat
    return {'int': int(v) + 1, 'text': 'heavy', 'none': None, 'list': [v], 'array': np.array([v]),
            'uncertain': ufloat(v, 0.1), 'complex': complex(v), 'numpyint': np.int64(3),
            'numpy32': np.float32(v), 'bool': True, 'string number': repr(v)}[how]


def new(w, pre, st):
    act = st['act']
    spec = st['objs'][-1]
    d = dictionary(spec, act['extra'], w.rng)
    given = dict(d)
    o = build(spec['kind'], d, spec['rider'])
    need(d == given, 'making a set changed the dictionary')
    w.add(o, True, d)


def reject(w, pre, st):
    act = st['act']
    kind, key = act['name'], act['group'][0]
    # a valid dictionary of that kind, spoiled in one place
    d = {k: 1.0 + 0.125 * i for i, k in enumerate(sorted(cls(kind).par_strings))}
    if act['extra']:
        d['unrelated'] = 'x'
    ok = build(kind, dict(d), True)
    need({k: ok.parameters[k] for k in d if k != 'unrelated'} ==
         {k: v for k, v in d.items() if k != 'unrelated'}, 'valid dictionary of %s altered', kind)
    if act['bad'] == 'missing':
        del d[key]
    else:
        d[key] = bad_value(act['bad'], d[key])
    given = dict(d)
    try:
        o = build(kind, d, True)
    except ValueError:
        o = None
    need(o is None, '%s was made although %s is %s', kind, key, act['bad'])
    need(list(d) == list(given) and all(d[k] is given[k] for k in d),
         'the refused dictionary was changed')


MODEL = {'Meijaard2007': 'Meijaard2007Model',
         'Meijaard2007WithFeedback': 'Meijaard2007WithFeedbackModel',
         'MooreRiderLean2012': 'MooreRiderLean2012Model'}


def convert(w, pre, st):
    from bicycleparameters import models
    act = st['act']
    o, name = w.objs[act['obj']], act['name']
    kind = st['objs'][act['obj']]['kind']
    routes = [lambda: o.to_parameterization(name)]
    if name in MODEL:
        routes.append(lambda: getattr(models, MODEL[name])(o).parameter_set)
    for n, route in enumerate(routes):
        if not act['ok']:
            try:
                out = route()
            except ValueError:
                continue
            raise vlib.Mismatch('converting %s to %r gave %r' % (kind, name, out))
        out = route()
        w.unchanged('converting to %s' % name)
        if name == kind:
            need(out is o, 'converting %s to itself gave another object', kind)
            continue
        need(out is not o and out.parameters is not o.parameters,
             'the converted set shares the parameters of its source')
        # a second object must not depend on the first
        if n == 0:
            w.add(out, False)
        need(all(out is not x for x in w.objs[:-1]), 'conversion gave an existing object')
        spec = st['objs'][-1]
        want = {k: fx(v) for k, v in spec['par'].items()}
        same_par(out.parameters, want, False, '%s as %s' % (kind, name))
        if name == 'Meijaard2007WithFeedback':
            for k in GAINS:
                need(out.parameters[k] == 0.0, 'gain %s is %r', k, out.parameters[k])
    if act['ok'] and name != kind:
        # altering the result leaves the source alone
        again = o.to_parameterization(name)
        for k in list(again.parameters):
            again.parameters[k] = -7.25
        w.unchanged('altering the converted set')


def store(w, pre, st):
    from bicycleparameters import io as bio
    act = st['act']
    o = w.objs[act['obj']]
    kind = act['name']
    path = os.path.join(w.tmp, 'set-%d.%s' % (len(w.objs), act['op']))
    if act['op'] == 'yaml':
        import yaml
        o.to_yaml(path)
        w.unchanged('to_yaml')
        with open(path) as f:
            data = yaml.safe_load(f)
        need(data['parameterization'] == kind, 'the file says %r', data['parameterization'])
        same_par(data['values'], dict(o.parameters), True, 'values in the YAML file of ' + kind)
        if kind in RIDER:
            need(data['rider'] is bool(o.includes_rider), 'the rider flag in the file is %r, '
                 'specification %r', data['rider'], o.includes_rider)
        back = cls(kind)._from_yaml(path) if hasattr(cls(kind), '_from_yaml') else \
            build(kind, data['values'], data['rider'])
    else:
        import configparser
        o.to_ini(path)
        w.unchanged('to_ini')
        with open(path) as f:
            text = f.read()
        cp = configparser.ConfigParser(delimiters=('=',))
        cp.optionxform = str
        cp.read_string('[values]\n' + text)
        values = {k: float(v) for k, v in cp['values'].items()}
        same_par(values, {k: float(v) for k, v in o.parameters.items()}, True,
                 'values in the INI file of ' + kind)
        need(set(values) == set(o.parameters), 'entries of the INI file %s', sorted(values))
        # the text format of the package
        other = bio.load_parameter_text_file(path)
        for k, v in values.items():
            need(float(other[k]) == v, 'load_parameter_text_file reads %s as %r, written %r', k,
                 other[k], v)
        back = build(kind, values, st['objs'][act['obj']]['rider'])
    need(set(back.parameters) == set(o.parameters), 'entries read back %s', sorted(
        set(back.parameters) ^ set(o.parameters)))
    need(back.parameters is not o.parameters, 'shared parameters')
    for k, v in o.parameters.items():
        need(back.parameters[k] == v, '%s read back is %r, written %r', k, back.parameters[k], v)
    w.add(back, w.exact[act['obj']])


def near(got, want, what, scale=1.0):
    got = np.asarray(got, dtype=float)
    want = np.asarray(want, dtype=float)
    need(got.shape == want.shape and np.all(np.isfinite(got)) and
         np.max(np.abs(got - want)) <= 1e-10 * scale + 1e-13,
         '%s is %s, specification %s', what, got, want)


def weigh(w, pre, st):
    from bicycleparameters.com import total_com
    act = st['act']
    o = w.objs[act['obj']]
    group = act['group']
    eyes = {b: {k: fx(v) for k, v in e.items()} for b, e in st['eyes'].items()}
    need(sorted(o.body_labels) == sorted(eyes), 'body labels %s', o.body_labels)
    c = {k: fx(v) for k, v in st['centre'].items()}
    got = o.mass_center_of(*group)
    near(got, [c['x'], 0.0, c['z']], 'mass centre of %s' % group, 2.0)
    for b, e in eyes.items():
        near(o.form_mass_center_vector(b), [e['x'], 0.0, e['z']], 'mass centre of ' + b)
        near(o.mass_center_of(b), [e['x'], 0.0, e['z']], 'mass centre of ' + b)
        if hasattr(o, 'form_inertia_tensor'):
            I = o.form_inertia_tensor(b)
            near(I, [[e['xx'], 0, e['xz']], [0, e['yy'], 0], [e['xz'], 0, e['zz']]],
                 'inertia of ' + b, e['xx'] + e['yy'] + e['zz'])
            need(np.array_equal(I, np.asarray(I).T), 'inertia of %s is not symmetric', b)
            I[:] = 5.0
            o.form_mass_center_vector(b)[:] = 9.0
        if hasattr(o, '_planar_principal_radii_of_gyration'):
            radii(o, b, e, [fx(v) for v in st['princ'][b]])
    # grouping: the centre of part of the group and of the rest
    if len(group) > 1:
        n = 1 + w.rng.randrange(len(group) - 1)
        parts = [(sum(eyes[b]['m'] for b in g), o.mass_center_of(*g)) for g in (group[:n], group[n:])]
        m, com = total_com(np.array([p[1] for p in parts]).T, [p[0] for p in parts])
        need(abs(m - c['m']) <= 1e-11 * c['m'], 'total mass %r, specification %r', m, c['m'])
        near(com, got, 'mass centre from the groups %s and %s' % (group[:n], group[n:]), 2.0)
    near(o.mass_center_of(*group[::-1]), got, 'mass centre of %s in reverse order' % group, 2.0)
    w.unchanged('computing mass centres')


def radii(o, b, e, princ):
    kmax, kmin, kyy, ang = o._planar_principal_radii_of_gyration(b)
    m = e['m']
    s = e['xx'] + e['zz']
    near([m * kyy ** 2], [e['yy']], 'm kyy^2 of ' + b, e['yy'])
    near([m * kmax ** 2, m * kmin ** 2], princ, 'principal planar moments of ' + b, s)
    u = np.array([np.cos(ang), -np.sin(ang)])
    n = np.array([np.sin(ang), np.cos(ang)])
    J = m * kmax ** 2 * np.outer(u, u) + m * kmin ** 2 * np.outer(n, n)
    # the angle of an almost round body may carry its rounding
    near(J, [[e['xx'], e['xz']], [e['xz'], e['zz']]], 'inertia of %s rebuilt from radii %r, %r '
         'at angle %r' % (b, kmax, kmin, ang), s)


def edit(w, pre, st):
    """The user changes entries of an object, in place or with a new dictionary."""
    act = st['act']
    j = act['obj']
    o, spec = w.objs[j], st['objs'][j]
    old = {k: fx(v) for k, v in pre['objs'][j]['par'].items()}
    cur = dict(o.parameters)
    for k, v in spec['par'].items():
        v = fx(v)
        if v != old[k]:
            cur[k] = v
    # redundant entries, if there are any, follow
    for a, f in (('IRzz', lambda p: p['IRxx']), ('IFzz', lambda p: p['IFxx']),
                 ('xF', lambda p: p['w']), ('zF', lambda p: -p['rF']), ('zR', lambda p: -p['rR']),
                 ('kRbb', lambda p: p['kRaa']), ('kFbb', lambda p: p['kFaa'])):
        if a in cur and a not in spec['par']:
            cur[a] = f(cur)
    if act['extra']:
        o.parameters = dict(cur)
    else:
        for k in cur:
            o.parameters[k] = cur[k]
    w.frozen[j] = dict(cur)
    if w.given[j] is not None:
        w.given[j] = (w.given[j][0], dict(w.given[j][0]))


STEP = {'edit': edit, 'new': new, 'reject': reject, 'convert': convert, 'yaml': store, 'ini': store, 'weigh': weigh}


def replay(chk, tr, tag):
    tmp = tempfile.mkdtemp()
    rng = random.Random(repr(tr[0]['objs']))
    w = World(tmp, rng)
    hist = []

    def one(pre, st):
        STEP[st['act']['op']](w, pre, st)
        need(len(w.objs) == len(st['objs']), 'objects %d, specification %d', len(w.objs),
             len(st['objs']))
        for j in range(len(w.objs)):
            w.check(st, j, 'object %d' % j)
        w.unchanged(st['act']['op'])
        return True
    try:
        for i, st in enumerate(tr):
            a = st['act']
            hist.append({k: a[k] for k in ('op', 'obj', 'name', 'bad', 'group', 'extra')})
            data = {'objects': [{'kind': o['kind'], 'rider': o['rider'], 'par': {
                k: fx(v) for k, v in o['par'].items()}} for o in st['objs']], 'history': hist[:]}
            ok = chk.guard('%s/%s' % (tag, a['op']), data, one, tr[i - 1] if i else None, st)
            chk.case((sorted(tr[0]['objs'][0]['par'].items()), repr(hist)), {'history': hist[-4:]})
            if not ok:
                break
        chk.count_trace(tr)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(chk, step, tag, quick, thorough, steps=10):
    jobs = vlib.split_jobs(dict(spec='parsets.qnt', step=step, steps=steps, invariants=INV),
                           chk.scale(quick, thorough), max(10, chk.scale(quick, thorough) // 24), chk.seed)
    for traces in vlib.quint_many(jobs):
        for tr in traces:
            replay(chk, tr, tag)
            if chk.too_many():
                return
