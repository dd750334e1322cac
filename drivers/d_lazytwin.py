"""LazyTwin.tla <-> nested objects, every part lazy or eager."""
import json

from common import mk_class, enc, dec, call, kind

_classes = {}


def get_d(self):
    return self.n + 10


def get_e(self):
    return 33 if self.n == 3 else None


def get_class(c):
    key = (c['o'], c['k'], c['a'], c['i'])
    if key not in _classes:
        _classes[key] = mk_class({'type': 'object', 'dependencies': {'d': ['n'], 'e': ['n']}, 'properties': {
            's': {'type': 'string', 'default': '{{n}}'},
            'u': {'type': 'integer', 'default': '`int(k.x)+int(n)'},
            'd': {'type': 'integer'},
            'e': {'type': 'integer'},
            'n': {'type': 'integer', 'default': 1},
            'x': {'type': 'integer', 'default': 9},        # same name as in the children
            'k': {'type': 'object', 'lazyLoading': c['k'], 'default': {}, 'properties': {
                'y': {'type': 'integer', 'default': '`int(x)+1'},
                'x': {'type': 'integer', 'default': 2},
                'w': {'type': 'string', 'default': '{{g.z}}'},
                'g': {'type': 'object', 'lazyLoading': c['k'], 'default': {}, 'properties': {'z': {'type': 'string', 'default': 'q'}}}}},
            'a': {'type': 'array', 'lazyLoading': c['a'], 'items': {
                'type': 'object', 'lazyLoading': c['i'], 'properties': {
                    't': {'type': 'string', 'default': '{{x}}'}, 'x': {'type': 'integer'}}}}}},
            _lazyLoading=c['o'], get_d=get_d, get_e=get_e)
    return _classes[key]


def plain(r):
    return {'n': dec(r['n']), 'k': {'x': dec(r['x']), 'g': {'z': dec(r['z'])}},
            'a': [{'x': dec(v)} for v in r['a']]}


GET = {
    'd': lambda o: o.d, 'e': lambda o: o['e'], 'n': lambda o: o.n, 's': lambda o: o.s, 'u': lambda o: o.u, 'x': lambda o: o.k.x, 'y': lambda o: o['k.y'],
    'z': lambda o: o.k.g.z, 'w': lambda o: o.k['w'],
    'ax': lambda o: [c.x for c in o.a], 'at': lambda o: [c['t'] for c in o.a]}
SER = {
    'd': lambda d: d['d'], 'e': lambda d: d['e'], 'n': lambda d: d['n'], 's': lambda d: d['s'], 'u': lambda d: d['u'], 'x': lambda d: d['k']['x'],
    'y': lambda d: d['k']['y'], 'z': lambda d: d['k']['g']['z'], 'w': lambda d: d['k']['w'],
    'ax': lambda d: [c['x'] for c in d['a']], 'at': lambda d: [c['t'] for c in d['a']]}


def view(o, fs):
    return {k: enc(f(o)) for k, f in fs.items()}


class Adapter:
    def __init__(self, params):
        self.o = None

    def step(self, a):
        op = a['op']
        if op == 'new':
            self.cls = cls = get_class(a['cfg'])
            d, f = plain(a['r']), a['form']
            if f == 'partial':
                self.o = cls({'k': {}})
            elif f == 'kw':
                self.o = cls(**d)
            elif f == 'typed':
                src = cls(d)
                self.o = cls(n=src.n, k=src.k, a=src.a)
            else:
                self.o = cls(d)
            return ['ok', ['n']]
        o = self.o
        if op == 'get':
            return call(GET[a['p']], o)
        if op in ('view', 'via'):
            try:
                if op == 'view':
                    return ['ok', view(o, GET)]
                d = a['door']
                if d == 'ser':
                    return ['ok', view(o.do_serialize(no_defaults=False), SER)]
                if d == 'json':
                    return ['ok', view(json.loads(json.dumps(o.do_serialize(no_defaults=False))), SER)]
                if d == 'copy':
                    return ['ok', view(o.copy(), GET)]
                return ['ok', view(self.cls(o.do_serialize(no_defaults=(d == 'reload'))), GET)]
            except Exception as er:
                return ['err', kind(er)]
        if op == 'keys':
            d = o.do_serialize()
            return ['ok', {'o': sorted(d), 'k': sorted(d.get('k', {})), 'a': sorted({k for c in d.get('a', []) for k in c})}]
        v = dec(a['v']) if op in ('n', 'x', 'z', 'append', 'item') else None
        if op == 'eq':
            b = self.cls(plain(a['r']))
            r = call(lambda: o == b)
            s = call(lambda: not (b != o))
            return r if r == s else ['asymmetric', r, s]
        if op == 'n':
            return call(setattr, o, 'n', v)
        if op == 'x':
            return {'child': lambda: call(setattr, o.k, 'x', v), 'path': lambda: call(o.__setitem__, 'k.x', v),
                    'whole': lambda: call(setattr, o, 'k', {'x': v}),
                    'typed': lambda: call(setattr, o, 'k', self.cls(k={'x': v, 'g': {'z': o.k.g.z}}).k)}[a['door']]()
        if op == 'z':
            return {'child': lambda: call(setattr, o.k.g, 'z', v), 'path': lambda: call(o.__setitem__, 'k.g.z', v),
                    'whole': lambda: call(setattr, o.k, 'g', {'z': v})}[a['door']]()
        if op == 'append':
            return call(o.a.append, {'x': v})
        if op == 'item':
            i = a['i']
            return {'child': lambda: call(setattr, o.a[i], 'x', v), 'path': lambda: call(o.__setitem__, 'a[%d].x' % i, v),
                    'whole': lambda: call(o.a.__setitem__, i, {'x': v})}[a['door']]()
        if op == 'pop':
            o.a.pop(0)
            return ['ok', ['n']]
        if op == 'arr':
            return call(setattr, o, 'a', [{'x': dec(x)} for x in a['v']])
        raise ValueError(op)

    def probe(self, a, t, last):
        pass
