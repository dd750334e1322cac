"""Running TLC and getting behaviours out of it.

A specification that is bound to the code prints, for every transition TLC
generates, one JSON record {"s": source state, "a": action, "t": target state}
(operator EmitT, an ACTION_CONSTRAINT).  From these records the complete
labelled state graph is rebuilt here, and walks over it are replayed into the
implementation.
"""
import json
import os
import random
import re
import shutil
import subprocess
import tempfile
from collections import deque

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar'


class MachineryError(Exception):
    pass


def find_tlc():
    p = shutil.which('tlc')
    if not p:
        raise MachineryError('tlc is not installed')
    return p


class TlcResult:
    def __init__(self):
        self.ok = False
        self.states = 0
        self.distinct = 0
        self.depth = 0
        self.lines = []     # parsed JSON records printed by the specification
        self.out = ''
        self.violated = None


def run_tlc(module, cfg=None, env=None, workers=4, timeout=600, simulate=None, seed=1, extra=(), files=None, heap='4g'):
    """Run TLC on spec/<module>.tla with spec/<cfg>.cfg in a scratch directory."""
    res = TlcResult()
    d = tempfile.mkdtemp(prefix='vtlc_')
    try:
        for f in os.listdir(SPEC):
            if f.endswith('.tla') or f.endswith('.cfg'):
                shutil.copy(os.path.join(SPEC, f), d)
        for name, text in (files or {}).items():
            with open(os.path.join(d, name), 'w') as fh:
                fh.write(text)
        cmd = [find_tlc(), '-config', (cfg or module) + '.cfg', '-workers', str(workers),
               '-metadir', os.path.join(d, 'meta'), '-deadlock', '-noGenerateSpecTE', '-seed', str(seed), '-fp', '1']
        if simulate:
            cmd += ['-simulate', 'num=%d' % simulate[0], '-depth', str(simulate[1])]
        cmd += list(extra) + [module + '.tla']
        e = dict(os.environ)
        e['JAVA_TOOL_OPTIONS'] = '-Xmx%s -Xss64m -XX:+UseParallelGC' % heap
        e.update(env or {})
        outp = os.path.join(d, 'out.txt')
        with open(outp, 'w') as fh:
            try:
                p = subprocess.run(cmd, cwd=d, env=e, stdout=fh, stderr=subprocess.STDOUT, timeout=timeout)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = -1
        other = []
        with open(outp, errors='replace') as fh:
            for line in fh:
                if line.startswith('"{') or line.startswith('"['):
                    try:
                        res.lines.append(json.loads(json.loads(line)))
                    except ValueError:
                        raise MachineryError('unparsable TLC line: ' + line[:300])
                else:
                    other.append(line)
        res.out = ''.join(other)
        m = re.search(r'([\d,]+) states generated, ([\d,]+) distinct states found', res.out)
        if m:
            res.states = int(m.group(1).replace(',', ''))
            res.distinct = int(m.group(2).replace(',', ''))
        m = re.search(r'depth of the complete state graph search is (\d+)', res.out)
        if m:
            res.depth = int(m.group(1))
        m = re.search(r'(Invariant|property|Action property) (\S+) is violated', res.out)
        if m:
            res.violated = m.group(2)
        res.ok = rc == 0
        res.rc = rc
        if rc == -1:
            raise MachineryError('TLC timed out on %s/%s' % (module, cfg))
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def tlc_graph(module, cfg=None, **kw):
    """Exhaustive TLC run -> (result, Graph)."""
    r = run_tlc(module, cfg, **kw)
    if not r.ok:
        raise MachineryError('TLC rejects the specification %s/%s (rc %s, %s):\n%s' % (
            module, cfg, r.rc, r.violated, r.out[-3000:]))
    return r, Graph(r.lines)


class Graph:
    def __init__(self, records):
        self.ids = {}
        self.states = []
        self.out = []          # state -> list of edge indices
        self.edges = []        # (s, action, t)
        seen = {}
        indeg = set()
        for rec in records:
            s, t = self._id(rec['s']), self._id(rec['t'])
            key = (s, json.dumps(rec['a'], sort_keys=True), t)
            if key in seen:
                continue
            seen[key] = len(self.edges)
            self.out[s].append(len(self.edges))
            self.edges.append((s, rec['a'], t))
            if s != t:
                indeg.add(t)
        # deterministic order whatever the number of TLC workers
        order = sorted(range(len(self.edges)),
                       key=lambda i: (json.dumps(self.states[self.edges[i][0]], sort_keys=True),
                                      json.dumps(self.edges[i][1], sort_keys=True),
                                      json.dumps(self.states[self.edges[i][2]], sort_keys=True)))
        self.edges = [self.edges[i] for i in order]
        self.out = [[] for _ in self.states]
        for i, (s, a, t) in enumerate(self.edges):
            self.out[s].append(i)
        self.inits = sorted(i for i in range(len(self.states)) if i not in indeg)
        if not self.inits and self.states:
            self.inits = [0]

    def _id(self, st):
        k = json.dumps(st, sort_keys=True)
        i = self.ids.get(k)
        if i is None:
            i = self.ids[k] = len(self.states)
            self.states.append(st)
            self.out.append([])
        return i

    def _paths_from_inits(self):
        par = {}
        dq = deque()
        for i in self.inits:
            par[i] = None
            dq.append(i)
        while dq:
            u = dq.popleft()
            for e in self.out[u]:
                v = self.edges[e][2]
                if v not in par:
                    par[v] = e
                    dq.append(v)
        return par

    def walks(self, rng, maxlen=40, cover=True, extra_random=0, max_steps=None, pad=None):
        """Walks (lists of edges) that start in an initial state.  With
        cover, together they take every edge at least once (unless max_steps
        stops it); then extra_random random walks."""
        par = self._paths_from_inits()
        res = []
        total = 0
        if cover:
            uncovered = set(i for i, e in enumerate(self.edges) if e[0] in par)
            todo = sorted(uncovered)
            rng.shuffle(todo)
            left = {}
            for i in todo:
                left.setdefault(self.edges[i][0], []).append(i)
            for first in todo:
                if first not in uncovered:
                    continue
                if max_steps and total > max_steps:
                    break
                path = []
                u = self.edges[first][0]
                while par[u] is not None:
                    path.append(par[u])
                    u = self.edges[par[u]][0]
                path.reverse()
                path.append(first)
                for e in path:
                    uncovered.discard(e)
                u = self.edges[first][2]
                limit = max(maxlen, len(path))
                idle = 0
                while len(path) < limit:
                    c = left.get(u)
                    while c and c[-1] not in uncovered:
                        c.pop()
                    if c:
                        e = c.pop()
                    else:
                        # nearest state (2 steps) with uncovered edges, else random
                        e = None
                        cand = []
                        for x in self.out[u]:
                            y = self.edges[x][2]
                            lc = left.get(y)
                            while lc and lc[-1] not in uncovered:
                                lc.pop()
                            if lc:
                                cand.append(x)
                        if cand:
                            e = rng.choice(cand)
                        elif self.out[u]:
                            e = rng.choice(self.out[u])
                        else:
                            break
                    idle = 0 if e in uncovered else idle + 1
                    if pad is not None and idle > pad:
                        break       # nothing new in reach
                    uncovered.discard(e)
                    path.append(e)
                    u = self.edges[e][2]
                res.append(path)
                total += len(path)
        for _ in range(extra_random):
            u = rng.choice(self.inits)
            path = []
            while len(path) < maxlen and self.out[u]:
                e = rng.choice(self.out[u])
                path.append(e)
                u = self.edges[e][2]
            res.append(path)
        return res

    def steps(self, path):
        return [{'a': self.edges[e][1], 't': self.states[self.edges[e][2]]} for e in path]


SIM = """---- MODULE %(m)s_Sim ----
EXTENDS %(m)s
VARIABLE hist
SimInit == Init /\\ hist = <<>>
SimNext == IF Len(hist) < %(d)d
           THEN Next /\\ hist' = Append(hist, [a |-> act', t |-> St'])
           ELSE PrintT(ToJson(%(f)s)) /\\ UNCHANGED <<vars, hist>>
====
"""


def simulate_walks(module, cfg, num, depth, seed, **kw):
    """Random behaviours of length depth from `tlc -simulate`: [[{"a", "t"}, ..], ..]"""
    with open(os.path.join(SPEC, (cfg or module) + '.cfg')) as fh:
        keep = [ln for ln in fh.read().splitlines()
                if ln and ln.split()[0] not in ('SPECIFICATION', 'VIEW', 'ACTION_CONSTRAINT', 'PROPERTY', 'INIT', 'NEXT')]
    with open(os.path.join(SPEC, module + '.tla')) as fh:
        # results which are a function of the state reached are computed for the printed behaviours only
        final = '[i \\in DOMAIN hist |-> Final(hist[i])]' if '\nFinal(h) ==' in fh.read() else 'hist'
    files = {module + '_Sim.tla': SIM % {'m': module, 'd': depth, 'f': final},
             module + '_Sim.cfg': '\n'.join(['INIT SimInit', 'NEXT SimNext'] + keep) + '\n'}
    r = run_tlc(module + '_Sim', simulate=(num, depth + 2), seed=seed, workers=1, files=files, **kw)
    if not r.ok:
        raise MachineryError('TLC simulation of %s/%s failed (rc %s, %s):\n%s' % (module, cfg, r.rc, r.violated, r.out[-3000:]))
    walks = []
    for w in r.lines:
        if not walks or walks[-1] != w:
            walks.append(w)
    return r, walks
