"""C15 saving a bicycle: recorded saves are runs of SaveStore.tla."""
import builtins
import itertools
import os
import random
import shutil
import tempfile

import bikestore
import tlc
import vlib
from bikestore import nominal
from vlib import need

OLD = '# written by an older program\nmB = 1.0\n'
JUNK = ['', 'maybe', 'x', 'ny', '0', 'overwrite']
ANSWERS = [('y',), ('n',), ('junk', 'y'), ('junk', 'n'), ('eof',), ('junk', 'eof')]
RIDER = {'IBxx': (8.0, None), 'IBxz': (-1.5, None), 'IByy': (8.25, None), 'IBzz': (1.0, 0.12),
         'mB': (72.0, 0.4), 'xB': (0.291, None), 'yB': (0.0, None), 'zB': (-1.109, 0.002)}


def bike_name(n):
    return ['Bike', 'Balanceassistv1', 'Bikebike'][n % 3]


# what the second parameter set of the specification is called: one word
SECOND = ['Principal', 'Principal', 'Mean', 'Measurements', 'Rider', 'Moore2012', 'Data']


class World:
    def __init__(self, root, state, name, rel, second='Principal'):
        self.second = second
        real = self.real
        self.root, self.name, self.rider = root, name, state['rider']
        self.rel = rel
        self.bike_dir = os.path.join(root, 'bicycles', name)
        pars = os.path.join(self.bike_dir, 'Parameters')
        self.rid_dir = os.path.join(root, 'riders', 'Luke', 'Parameters')
        self.path = {}
        for f in state['file']:
            if f['dir'] == 'bike':
                p = os.path.join(pars, name + real(f['set']) + '.txt')
            elif f['dir'] == 'rider':
                p = os.path.join(self.rid_dir, 'Luke' + name + real(f['set']) + '.txt')
            else:
                p = os.path.join(self.rid_dir, 'Combined', 'Luke' + name + real(f['set']) + '.txt')
            self.path[f] = p
        bikestore.write(os.path.join(self.bike_dir, 'RawData', name + 'Measured.txt'),
                        bikestore.WHOLE)
        for s in state['have']:
            if s != 'Measured':
                d = bikestore.BENCH if s == 'Benchmark' else bikestore.EXTRA['Principal']
                bikestore.write(os.path.join(pars, name + real(s) + '.txt'), bikestore.par_text(d))
        if self.rider:
            bikestore.write(self.path[self.f('rider')], bikestore.par_text(RIDER))
        for b in ('Other', name + 'Two'):
            bikestore.write(os.path.join(root, 'bicycles', b, 'Parameters', b + 'Benchmark.txt'),
                            bikestore.par_text(bikestore.BENCH))
        bikestore.write(os.path.join(root, 'riders', 'Jason', 'Parameters', 'Jason%sBenchmark.txt'
                                     % name), 'mB = 80.0\n')
        if 'Measured' not in state['have']:
            shutil.rmtree(os.path.join(self.bike_dir, 'RawData'))
        import bicycleparameters
        with vlib.quiet():
            if rel:
                os.chdir(root)
                self.bike = bicycleparameters.Bicycle(name)
            else:
                self.bike = bicycleparameters.Bicycle(name, pathToData=root)
            if self.rider:
                self.bike.add_rider('Luke')
        want = {real(x) for x in state['have']}
        need(set(self.bike.parameters) == want, 'loaded %s, specification %s',
             sorted(self.bike.parameters), sorted(want))
        # now the directory gets the state the specification starts from
        for f, p in self.path.items():
            if os.path.exists(p):
                os.remove(p)
            if state['file'][f] == 0:
                bikestore.write(p, OLD)
        for d in (os.path.join(self.rid_dir, 'Combined'), self.rid_dir, pars):
            if os.path.isdir(d) and not os.listdir(d):
                os.rmdir(d)
        self.content = {1: self.dicts()}
        self.start = bikestore.snapshot(root)

    def real(self, s):
        return self.second if s == 'Principal' else s

    def f(self, d, s='Benchmark'):
        for f in self.path:
            if f['dir'] == d and f['set'] == s:
                return f

    def dicts(self):
        """What saving the object now has to store in each file."""
        out = {}
        for f in self.path:
            src = self.bike.riderPar if f['dir'] == 'rider' else self.bike.parameters
            if self.real(f['set']) in src:
                out[f] = dict(src[self.real(f['set'])])
        return out

    def modify(self):
        from uncertainties import ufloat
        for d in list(self.bike.parameters.values()) + list(self.bike.riderPar.values()):
            for i, k in enumerate(sorted(d)):
                d[k] = d[k] * 1.5 + 0.0625
            d['newA'] = 1e-7
            d['newB'] = ufloat(-12.25, 0.25)
        self.content[2] = self.dicts()

    def versions(self):
        """File -> version, and everything else must be as before."""
        known = {os.path.relpath(p, self.root): f for f, p in self.path.items()}
        now = bikestore.snapshot(self.root)
        out = {f: -1 for f in self.path}
        for rel, data in now.items():
            if rel in known:
                out[known[rel]] = self.version(known[rel], data.decode())
            elif data is not None:
                need(self.start.get(rel, 0) == data, 'saving wrote %s', rel)
        for rel, data in self.start.items():
            need(rel in now, 'saving removed %s', rel)
        return out

    def version(self, f, text):
        if text == OLD:
            return 0
        for v, d in self.content.items():
            if f in d:
                try:
                    check_text(text, d[f])
                    return v
                except Exception as e:
                    last = e
        raise vlib.Mismatch('%s holds %r' % (dict(f), text[:300]))


def check_text(text, want):
    from uncertainties import UFloat
    got = bikestore.parse(text)
    need(set(got) == set(want), 'names')
    for k, w in want.items():
        g = got[k]
        need(isinstance(g, UFloat) == isinstance(w, UFloat), k)
        if isinstance(w, UFloat) and w.std_dev > 0:
            need(abs(g.nominal_value - w.nominal_value) <= 0.15 * w.std_dev + 1e-12 *
                 abs(w.nominal_value), k)
            need(abs(g.std_dev - w.std_dev) <= 0.15 * w.std_dev, k)
        else:
            need(abs(nominal(g) - nominal(w)) <= 1e-12 * abs(nominal(w)), k)


class Runs:
    """The set of specification states that explain what was observed."""
    def __init__(self, graph, node):
        self.g, self.at = graph, {node}

    def event(self, what, match):
        new = set()
        for n in self.at:
            for a, t in self.g.out[n]:
                if match(self.g.nodes[t]):
                    new.add(t)
        need(new, 'no run of the specification allows: %s', what)
        self.at = new

    def observe(self, files, what):
        """Files may have been created since the last event."""
        seen, q = set(self.at), list(self.at)
        while q:
            n = q.pop()
            for a, t in self.g.out[n]:
                s = self.g.nodes[t]
                if s['act']['op'] == 'create' and t not in seen:
                    seen.add(t)
                    q.append(t)
        ok = {n for n in seen if dict(self.g.nodes[n]['file']) == files}
        need(ok, 'after %s the files are %s, which no run of the specification allows', what,
             {'%s/%s' % (f['dir'], f['set']): v for f, v in files.items()})
        self.at = ok


def one(chk, item):
    graph, node, policy, name, rel, second = item
    state = graph.nodes[node]
    tmp = tempfile.mkdtemp()
    here = os.getcwd()
    log = []
    desc = {'rider': state['rider'], 'have': sorted(state['have']), 'name': name, 'second': second,
            'files': [
        '%s/%s' % (f['dir'], f['set']) for f, v in state['file'].items() if v == 0], 'log': log}

    def run():
        w = World(tmp, state, name, rel, second)
        runs = Runs(graph, node)
        pol = iter(policy)
        for n in range(2):
            answers = {}
            rnd = random.Random(repr(policy) + str(n))
            ended = []

            def reply(prompt=''):
                asked = [f for f, p in w.path.items() if p in prompt or
                         os.path.relpath(p, tmp) in prompt]
                asked = asked if len(asked) == 1 else None
                f = asked[0] if asked else None
                if f is None or f not in answers or not answers[f]:
                    # a new question
                    runs.observe(w.versions(), 'the questions so far')
                    runs.event('asking about %s' % (f,), lambda s: s['act']['op'] == 'question'
                               and (f is None or s['act']['f'] == f))
                    answers[f] = list(next(pol, ('n',)))
                a = answers[f].pop(0)
                log.append(('ask', dict(f) if f else None, a))
                runs.observe(w.versions(), 'asking about %s' % (f,))
                runs.event('answer %s about %s' % (a, f), lambda s: s['act']['op'] == 'answer' and
                           s['act']['ans'] == a and (f is None or s['act']['f'] == f))
                if a == 'eof':
                    ended.append(1)
                    raise EOFError('closed')
                return a if a != 'junk' else rnd.choice(JUNK)

            runs.event('starting to save', lambda s: s['act']['op'] == 'begin')
            log.append('save')
            old = builtins.input
            builtins.input = reply
            before = {k: dict(v) for k, v in list(w.bike.parameters.items())}
            try:
                with vlib.quiet():
                    w.bike.save_parameters()
            except EOFError:
                need(ended, 'EOFError without a closed input')
            finally:
                builtins.input = old
            need({k: dict(v) for k, v in w.bike.parameters.items()} == before,
                 'saving changed the parameters of the bicycle')
            runs.observe(w.versions(), 'the save')
            # the save ended or was given up
            done = {n_ for n_ in runs.at if graph.nodes[n_]['status'] == 'idle'}
            for n_ in runs.at:
                for a_, t in graph.out[n_]:
                    if graph.nodes[t]['act']['op'] == 'end':
                        done.add(t)
            need(done, 'the save ended although files are left to write: %s',
                 [sorted((f['dir'], f['set']) for f in graph.nodes[x]['todo']) for x in runs.at])
            runs.at = done
            if n == 0 and len(policy) % 2:
                w.modify()
                runs.event('modify', lambda s: s['act']['op'] == 'modify')
                log.append('modify')
        reload(w)
        chk.count_trace(log)
        return True

    chk.guard('save', desc, run)
    os.chdir(here)
    shutil.rmtree(tmp, ignore_errors=True)
    chk.case(repr(desc), desc)


def reload(w):
    """Loading the saved bicycle gives the stored parameters."""
    import bicycleparameters
    own = {f: p for f, p in w.path.items() if f['dir'] == 'bike' and os.path.exists(p)}
    if w.f('bike') not in own:
        return
    with vlib.quiet():
        b = bicycleparameters.Bicycle(w.name, pathToData=w.root)
    for f, p in own.items():
        with open(p) as fh:
            want = bikestore.parse(fh.read())
        name = w.real(f['set'])
        need(name in b.parameters, 'the saved %s parameters are not loaded', name)
        got = b.parameters[name]
        need({k: str(v) for k, v in got.items()} == {k: str(v) for k, v in want.items()},
             'the saved %s parameters are loaded as %s', name, got)


def other_types(chk):
    import bicycleparameters
    tmp = tempfile.mkdtemp()
    bikestore.write(os.path.join(tmp, 'bicycles', 'Bike', 'Parameters', 'BikeBenchmark.txt'),
                    bikestore.par_text(bikestore.BENCH))
    with vlib.quiet():
        b = bicycleparameters.Bicycle('Bike', pathToData=tmp)
    before = bikestore.snapshot(tmp)
    for t in ('matlab', 'pickle'):
        def run():
            try:
                with vlib.quiet():
                    b.save_parameters(filetype=t)
            except NotImplementedError:
                pass
            need(bikestore.snapshot(tmp) == before, 'files changed')
        chk.guard('file type ' + t, {}, run)
        chk.case(t)
    shutil.rmtree(tmp, ignore_errors=True)


def run(chk):
    chk.level = 'model_checking'
    chk.rule = ('a case is two saves of one bicycle from one initial state of SaveStore.tla '
                'with one assignment of answers')
    other_types(chk)
    g = tlc.Graph('SaveStore', 'SaveStore.cfg')
    chk.states += len(g.nodes)
    chk.transitions += len(g.edges)
    rnd = random.Random(chk.seed)
    items = []
    for n in g.init:
        s = g.nodes[n]
        k = sum(1 for f, v in s['file'].items() if v == 0 and
                (f['dir'] != 'bike') == s['rider'])
        first = list(itertools.product(ANSWERS, repeat=k))
        for p in first:
            for r in range(chk.scale(3, 30)):
                rest = tuple(rnd.choice(ANSWERS) for i in range(rnd.randint(4, 5)))
                items.append((g, n, p + rest, bike_name(rnd.randint(0, 2)), rnd.random() < 0.3,
                              rnd.choice(SECOND)))
    chk.parallel(one, items)
    chk.extra['exhaustive_models'] = ['SaveStore.cfg: %d initial states, all answers to the first '
                               'save' % len(g.init)]
