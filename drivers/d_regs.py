"""Regs.tla <-> Registry, GenericClassRegistry."""
from common import kind
from ngoschema.utils import GenericClassRegistry
from ngoschema.utils.utils import Registry, WeakRegistry


class A:
    pass


class B:
    pass


VALS = [None, A, B]


class Adapter:
    def __init__(self, params):
        self.r = None

    def make(self, weak):
        cls = WeakRegistry if weak else Registry
        r1 = cls()
        r2 = Registry(r1)
        self.r = [None, r1, r2, cls(r1, r2), GenericClassRegistry(r2)]

    def step(self, a):
        try:
            return self._step(a)
        except Exception as er:
            return ['err', kind(er)]

    def _step(self, a):
        op = a['op']
        if self.r is None:
            self.make(a['weak'])
        if op == 'register':
            r, v = self.r[a['i']], VALS[a['v']]
            if a['i'] == 4:
                back = (r.register() if a['own'] else r.register(a['k']))(v)
            else:
                r.register(a['k'], v)
                back = v
            return ['ok', ['i', VALS.index(back)]]
        if op == 'unregister':
            self.r[a['i']].unregister(a['k'])
            return ['ok', ['n']]
        return ['ok', [self.look(r) for r in self.r[1:]]]

    def look(self, r):
        get = {k: VALS.index(r.get(k, None)) for k in ('A', 'B')}
        for k in ('A', 'B'):
            if (r.get(k, A) is not (VALS[get[k]] or A)) or (get[k] and r[k] is not VALS[get[k]]):
                return 'inconsistent'
            if hasattr(r, 'contains') and r.contains(k) != (k in r):
                return 'inconsistent'
        if [r[k] for k in r] != list(r.values()):
            return 'inconsistent'
        return {'items': [{'k': k, 'v': VALS.index(v)} for k, v in r.items()], 'len': len(r), 'get': get,
                'in': {k: k in r for k in ('A', 'B')}}

    def probe(self, a, t, last):
        return None
