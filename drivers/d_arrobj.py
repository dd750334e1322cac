"""ArrObj.tla <-> an array of objects."""
from common import mk_class, enc, dec, call

_classes = {}


def get_class(c):
    key = (c['lo'], c['la'], c['li'])
    if key not in _classes:
        _classes[key] = mk_class({'type': 'object', 'properties': {
            'a': {'type': 'array', 'lazyLoading': c['la'], 'items': {
                'type': 'object', 'lazyLoading': c['li'], 'properties': {
                    'x': {'type': 'integer'}, 'y': {'type': 'integer', 'default': '`int(x)+1'}}}}}},
            _lazyLoading=c['lo'])
    return _classes[key]


class Adapter:
    def __init__(self, params):
        self.o = self.h = None

    def item(self, a):
        d = {'x': dec(a['x'])}
        return d if a['form'] == 'dict' else self.cls(a=[d]).a[0]

    def step(self, a):
        op = a['op']
        if op == 'new':
            self.cls = get_class(a['cfg'])
            self.o = self.cls(a=[{'x': dec(v)} for v in a['v']])
            return ['ok', ['n']]
        o, i, h = self.o, a.get('i'), self.h
        n = len(o.a)
        if op == 'xs':
            return call({'list': lambda: [c.x for c in o.a], 'get': lambda: [o.a[j]['x'] for j in range(n)],
                         'path': lambda: [o['a[%d].x' % j] for j in range(n)],
                         'ser': lambda: [c.get('x') for c in o.do_serialize(no_defaults=False).get('a', [])]}[a['door']])
        if op == 'ys':
            return call(lambda: [c.y for c in o.a])
        if op == 'hold':
            self.h = o.a[i]
            return ['ok', ['n']]
        if op == 'held':
            return call(getattr, h, 'x')
        if op == 'where':
            return call(lambda: [c is h for c in o.a])
        if op == 'find':
            def find():
                c = o.a.get(x=a['x'])
                if o.a.get(x=a['x'], default=7) is not (7 if c is None else c):
                    return 'another one with a default'
                return -1 if c is None else [j for j in range(n) if o.a[j] is c][0]
            return call(find)
        if op == 'equals':
            def equals():
                i = o.a.index(h) if h in o.a else -1
                return [i, o.a.count(h)]
            return call(equals)
        if op == 'setheld':
            return call(setattr, h, 'x', dec(a['x']))
        if op == 'setx':
            v = dec(a['x'])
            if a['door'] == 'path':
                return call(o.__setitem__, 'a[%d].x' % i, v)
            return call(setattr, o.a[i - n if a['door'] == 'neg' else i], 'x', v)
        if op == 'insert':
            v = self.item(a)
            return call(o.a.append, v) if i == n else call(o.a.insert, i, v)
        if op == 'setitem':
            return call(o.a.__setitem__, i, self.item(a))
        if op == 'putback':
            return call(o.a.append, h)
        if op == 'del':
            if a['door'] == 'del':
                del o.a[i]
            else:
                o.a.pop(i - n if a['door'] == 'popneg' else i)
            return ['ok', ['n']]
        if op == 'reverse':
            return call(o.a.reverse)
        if op == 'assign':
            return call(setattr, o, 'a', [{'x': dec(v)} for v in a['x']])
        if op == 'clear':
            return call(o.a.clear)
        raise ValueError(op)

    def probe(self, a, t, last):
        pass
