"""Array.tla <-> a typed array property."""
from common import mk_class, enc, dec, call

_classes = {}


def get_class(c):
    key = (c['lazy'], c['owner'])
    if key not in _classes:
        _classes[key] = mk_class({'type': 'object', 'properties': {
            'a': {'type': 'array', 'lazyLoading': c['lazy'], 'splitString': True,
                  'items': {'type': 'integer', 'maximum': 5}}}}, _lazyLoading=c['owner'])
    return _classes[key]


class Adapter:
    def __init__(self, params):
        self.o = None

    def step(self, a):
        op = a['op']
        if op == 'new':
            self.cls = get_class(a['cfg'])
            self.o = self.cls(a=[dec(v) for v in a['v']])
            self.held = self.o.a
            return ['ok', ['n']]
        o = self.o
        arr = self.held            # a reference taken once sees every change made in place
        v = dec(a['v']) if 'v' in a else None
        i = a.get('i')
        if op == 'getitem':
            return call(lambda: arr[i])
        if op == 'len':
            return call(lambda: len(arr))
        if op == 'all':
            return call({'list': lambda: list(arr), 'ser': lambda: arr.do_serialize(),
                         'owner': lambda: list(o.a), 'slice': lambda: list(arr[:]),
                         'copy': lambda: list(arr.copy())}[a['door']])
        if op == 'slice':
            return call(lambda: list(arr[a['lo']:a['hi']]))
        if op == 'step':
            return call(lambda: list(arr[::a['st']]))
        if op == 'in':
            return call(lambda: v in arr)
        if op == 'index':
            return call(lambda: arr.index(v))
        if op == 'count':
            return call(lambda: arr.count(v))
        if op == 'eq':
            w = self.cls(a=[dec(x) for x in a['w']]).a
            r, s = call(lambda: arr == w), call(lambda: not (w != arr))
            return r if r == s else ['asymmetric', r, s]
        if op == 'append':
            return call(arr.append, v)
        if op == 'insert':
            return call(arr.insert, i, v)
        if op == 'setitem':
            return call(arr.__setitem__, i, v)
        if op == 'extend':
            w = [dec(x) for x in a['w']]
            if a['door'] == 'extend':
                return call(arr.extend, w)
            arr += w
            return ['ok', ['n']]
        if op == 'pop':
            return call(arr.pop, i)
        if op == 'del':
            return call(arr.__delitem__, i)
        if op == 'remove':
            return call(arr.remove, v)
        if op == 'reverse':
            return call(arr.reverse)
        if op == 'clear':
            return call(arr.clear)
        if op == 'assign':
            w = [dec(x) for x in a['w']]
            w = {'list': lambda: w, 'tuple': lambda: tuple(w), 'self': lambda: self.cls(a=w).a,
                 'scalar': lambda: w[0], 'split': lambda: ', '.join(w), 'none': lambda: []}[a['from']]()
            r = call(setattr, o, 'a', w)
            self.held = o.a
            return r
        raise ValueError(op)

    def probe(self, a, t, last):
        if t['obj'] == 'live':
            n = call(lambda: [len(self.o.a), self.o.a is self.held])
            if n != ['ok', enc([len(t['items']), True])]:
                return 'length %d: %s' % (len(t['items']), n)
