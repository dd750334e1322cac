"""QResult.tla <-> Query."""
from common import mk_class, kind
from ngoschema.query import Query

A = [2, 1, 2, 1, 3]
B = [1, 1, 2, 1, 1]
CRIT = {'a2': {'a': 2}, 'b1': {'b': 1}, 'a_ge2': {'a__ge': 2}, 'none': {'a': 9}, 'all': {'a__gt': 0}}
_c = []


class Adapter:
    def __init__(self, params):
        self.q = {}
        self.n = 0
        if not _c:
            _c.append(mk_class({'type': 'object', 'properties': {'a': {'type': 'integer'}, 'b': {'type': 'integer'}}},
                               _lazyLoading=False))
        self.dicts = [{'a': a, 'b': b} for a, b in zip(A, B)]
        self.insts = [_c[0](d) for d in self.dicts]
        self.pos = {id(o): i + 1 for l in (self.dicts, self.insts) for i, o in enumerate(l)}
        self.objs = self.dicts

    def one(self, o):
        return ['n'] if o is None else ['i', self.pos.get(id(o), 0)]

    def many(self, os):
        return ['ok', ['l', [self.one(o) for o in os]]]

    def step(self, a):
        try:
            r = self._step(a)
        except Exception as er:
            if a['op'] == 'pick' and a['w'] == 'get':
                return ['err', 'not one']
            return ['err', kind(er)]
        return ['ok', ['n']] if r is None else r

    def _step(self, a):
        op, q = a['op'], self.q.get(a.get('i'))
        if op == 'new':
            if not self.q:
                self.objs = self.insts if a['k'] == 'instances' else self.dicts
            src = list(self.objs)
            if a['k'] == 'stream':
                src = (o for o in src)
            elif a['k'] == 'tuple':
                src = tuple(src)
            self.q[a['i']] = Query(src, distinct=a['d'], order_by=a['o'] or False, reverse=a['r'])
        elif op == 'derive':
            kw = dict(CRIT[a['c']])
            if a['d']:
                kw['distinct'] = True
            if a['o']:
                kw['order_by'] = a['o']
            if a['r']:
                kw['reverse'] = a['r'] == 'yes'
            self.q[a['j']] = (q.filter if a['how'] else q.exclude)(**kw)
        elif op == 'order':
            self.q[a['j']] = q.order_by(a['o'], reverse=a['r'])
        elif op == 'reverse':
            self.q[a['j']] = q.reverse()
        elif op == 'setop':
            self.q[a['k']] = getattr(q, a['o'])(*[self.q[x] for x in (a['j'], a['l']) if x])
        elif op == 'pick':
            return ['ok', self.one(getattr(q, a['w'])(**CRIT[a['c']]))]
        else:
            w = a['w']
            if w == 'list':
                return self.many(list(q))
            if w == 'twice':
                first, second = [o for o in q], [o for o in q]
                return self.many(first) if self.many(first) == self.many(second) else ['ok', 'differs']
            if w == 'all':
                return self.many(q.all())
            if w in ('len', 'count'):
                return ['ok', ['i', len(q) if w == 'len' else q.count()]]
            if w in ('first', 'last'):
                return ['ok', self.one(getattr(q, w)())]
            if w in ('get0', 'get1'):
                return ['ok', self.one(q[int(w[-1])])]
            if w == 'slice':
                return self.many(q[1:3])
            if w == 'empty':
                return ['ok', ['b', q.isEmpty()]]
            o = {'in3': self.objs[2], 'in2': self.objs[1], 'notin': {'a': 77, 'b': 0}}[w]
            return ['ok', ['b', o in q]]

    def probe(self, a, t, last):
        if last:
            if [(o['a'], o['b']) for o in self.objs] != list(zip(A, B)):
                return 'the objects were changed'
