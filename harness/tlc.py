"""Runs TLC on a TLA+ specification and decodes the dumped state graph."""
import collections
import os
import random
import re
import shutil
import subprocess
import tempfile

from vlib import Machinery, SPEC

TOOLS = ('/opt/veriftools/tla/tla2tools.jar:'
         '/opt/veriftools/tla/CommunityModules-deps.jar')


# ------------------------------------------------ TLA+ values -> Python ----
_TOK = re.compile(r'\s*(<<|>>|\|->|:>|@@|/\\|\[|\]|\{|\}|\(|\)|,|=|'
                  r'"(?:[^"\\]|\\.)*"|-?\d+|[A-Za-z_][A-Za-z_0-9]*)')


def tokens(s):
    out, i = [], 0
    while i < len(s):
        m = _TOK.match(s, i)
        if not m:
            if s[i:].strip() == '':
                break
            raise Machinery('cannot tokenize TLA value: %r' % s[i:i + 60])
        out.append(m.group(1))
        i = m.end()
    return out


class FrozenDict(dict):
    def __hash__(self):
        return hash(frozenset(self.items()))


class _P:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def expect(self, x):
        y = self.next()
        if y != x:
            raise Machinery('TLA value: expected %s got %s' % (x, y))

    def value(self):
        t = self.next()
        if t == '<<':
            return tuple(self.items('>>'))
        if t == '{':
            return frozenset(self.items('}'))
        if t == '[':
            d = FrozenDict()
            while True:
                k = self.next()
                k = k[1:-1] if k[0] == '"' else k
                self.expect('|->')
                d[k] = self.value()
                if self.next() == ']':
                    return d
        if t == '(':
            d = FrozenDict()
            while True:
                k = self.value()
                self.expect(':>')
                d[k] = self.value()
                if self.next() == ')':
                    return d
        if t[0] == '"':
            return t[1:-1].replace('\\"', '"').replace('\\\\', '\\')
        if t == 'TRUE':
            return True
        if t == 'FALSE':
            return False
        if re.match(r'-?\d+$', t):
            return int(t)
        return t

    def items(self, end):
        out = []
        if self.peek() == end:
            self.next()
            return out
        while True:
            out.append(self.value())
            if self.next() == end:
                return out


def state(text):
    """/\\ x = .. /\\ y = .. -> dictionary"""
    p = _P(tokens(text))
    st = FrozenDict()
    while p.peek() is not None:
        if p.peek() == '/\\':
            p.next()
        k = p.next()
        p.expect('=')
        st[k] = p.value()
    return st


def fun(v):
    """A TLA+ function; TLC prints functions on 1..n as tuples."""
    if isinstance(v, tuple):
        return {i + 1: x for i, x in enumerate(v)}
    return v


def run(module, cfg, dump=None, timeout=800, workers=4, extra=(), files=()):
    """Run TLC; raise Machinery unless it finishes without an error."""
    d = tempfile.mkdtemp(prefix='tlc_', dir=os.environ.get('VERIF_TMP', '/tmp'))
    try:
        for f in os.listdir(SPEC):
            if f.endswith('.tla') or f.endswith('.cfg'):
                shutil.copy(os.path.join(SPEC, f), d)
        for name, text in files:
            with open(os.path.join(d, name), 'w') as fh:
                fh.write(text)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx6g', '-cp', TOOLS, 'tlc2.TLC',
               '-workers', str(workers), '-deadlock', '-metadir',
               os.path.join(d, 'meta'), '-config', cfg]
        if dump is not None:
            cmd += ['-dump'] + dump + [os.path.join(d, 'graph')]
        cmd += list(extra) + [module]
        try:
            res = subprocess.run(cmd, cwd=d, capture_output=True, text=True,
                                 timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Machinery('TLC timed out on ' + module)
        out = res.stdout
        m = re.search(r'(\d+) states generated, (\d+) distinct', out)
        if res.returncode != 0 or not m:
            raise Machinery('TLC failed on %s/%s:\n%s' % (module, cfg, out[-3000:]))
        text = ''
        if dump is not None:
            for ext in ('graph.dot', 'graph.dump', 'graph'):
                p = os.path.join(d, ext)
                if os.path.exists(p):
                    with open(p) as fh:
                        text = fh.read()
                    break
        return int(m.group(1)), int(m.group(2)), text, out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def states(module, cfg, only='', **kw):
    """All distinct states of the specification (whose text contains only)."""
    gen, distinct, text, out = run(module, cfg, dump=[], **kw)
    res, n = [], 0
    for chunk in re.split(r'^State \d+:.*$', text, flags=re.M)[1:]:
        if chunk.strip():
            n += 1
            if only in chunk:
                res.append(state(chunk))
    if n != distinct:
        raise Machinery('dump has %d states, TLC reports %d' % (n, distinct))
    return res, gen


_NODE = re.compile(r'^(-?\d+) \[label="((?:[^"\\]|\\.)*)"(.*)\];?$')
_EDGE = re.compile(r'^(-?\d+) -> (-?\d+) \[label="([^"]*)"')


class Graph:
    """State graph with the action label on every edge."""
    def __init__(self, module, cfg, **kw):
        gen, distinct, text, out = run(module, cfg, dump=['dot,actionlabels'], **kw)
        self.generated = gen
        self.nodes, self.init, self.edges = {}, [], []
        for line in text.split('\n'):
            m = _NODE.match(line)
            if m and '->' not in line.split('[')[0]:
                label = m.group(2).replace('\\\\', '\\').replace('\\"', '"').replace('\\n', '\n')
                self.nodes[m.group(1)] = state(label)
                if 'style = filled' in m.group(3):
                    self.init.append(m.group(1))
                continue
            m = _EDGE.match(line)
            if m:
                self.edges.append((m.group(1), m.group(3), m.group(2)))
        if len(self.nodes) != distinct:
            raise Machinery('graph has %d nodes, TLC reports %d distinct states'
                            % (len(self.nodes), distinct))
        self.out = collections.defaultdict(list)
        for s, a, t in self.edges:
            self.out[s].append((a, t))

    def cover(self, seed=1, max_len=40, core=None, limit=None):
        """Paths from initial states that together take every edge.

        core(state) projects a state; edges are considered equal when their
        source projection, action and full target state agree, so a recorded
        last action in the state does not multiply the work.
        """
        core = core or (lambda s: s)
        rnd = random.Random(seed)
        key = {}
        for n, s in self.nodes.items():
            key[n] = core(s)
        todo = collections.defaultdict(set)
        rep = {}
        for s, a, t in self.edges:
            todo[key[s]].add((a, t))
            rep.setdefault(key[s], s)
        left = sum(len(v) for v in todo.values())
        total = left
        succ = {}
        for k in todo:
            succ[k] = sorted(todo[k])
        paths = []
        live = list(self.init)
        while left > 0 and live and (limit is None or len(paths) < limit):
            n = rnd.choice(live)
            path = [n]
            progress = False
            while len(path) < max_len:
                k = key[path[-1]]
                if todo.get(k):
                    e = rnd.choice(sorted(todo[k]))
                    todo[k].discard(e)
                    left -= 1
                    progress = True
                    path.append(e[1])
                    continue
                walk = self._bfs(key, succ, todo, path[-1], max_len - len(path))
                if walk is None:
                    break
                path += walk
            if progress:
                paths.append([self.nodes[x] for x in path])
            else:
                # nothing left to reach from this initial state, ever
                live.remove(n)
        self.total_edges = total
        self.uncovered = left
        return paths

    @staticmethod
    def _bfs(key, succ, todo, start, depth):
        seen = {key[start]}
        q = collections.deque([(start, [])])
        while q:
            n, p = q.popleft()
            if p and todo.get(key[n]):
                return p
            if len(p) >= depth:
                continue
            for a, t in succ.get(key[n], ()):
                if key[t] not in seen:
                    seen.add(key[t])
                    q.append((t, p + [t]))
        return None
