"""Maps.tla <-> ReadOnlyChainMap, Context."""
try:  # the tracing compiler of PyPy 3.9 aborts on this workload (an assertion of its optimizer)
    import pypyjit
    pypyjit.set_param('off')
except ImportError:
    pass

from common import kind
from ngoschema.utils import ReadOnlyChainMap
from ngoschema.utils.utils import Context


class A(dict):
    pass


class B(A):
    pass


def pairs(m):
    return [{'k': k, 'v': m[k]} for k in m]


class Adapter:
    def __init__(self, params):
        self.d = [A(a=1, b=2), B(b=3, c=4)]
        self.c = []

    def ref(self, r):
        return (self.d if r[0] == 'd' else self.c)[r[1] - 1]

    def name(self, m):
        for i, x in enumerate(self.d):
            if x is m:
                return ['d', i + 1]
        return ['l', 1 if m == {'a': 9} else 0] if type(m) is dict else ['?', str(type(m))]

    def number(self, m):
        return 0 if m is None else self.name(m)[1]

    def step(self, a):
        try:
            r = self._step(a)
        except Exception as er:
            return ['err', kind(er)]
        return ['ok', ['n']] if r is None else r

    def _step(self, a):
        op = a['op']
        if op == 'set':
            self.d[a['i'] - 1][a['k']] = a['v']
        elif op == 'del':
            del self.d[a['i'] - 1][a['k']]
        elif op == 'new':
            ms = [self.ref(r) for r in a['maps']]
            self.c.append(Context(*ms, **({'a': 9} if a['l'] else {})) if a['kind'] == 'ctx' else ReadOnlyChainMap(*ms))
        elif op == 'child':
            p = self.c[a['j'] - 1]
            ms, kw = [self.ref(r) for r in a['maps']], {'a': 9} if a['l'] else {}
            ch = (p.create_child if isinstance(p, Context) else p.new_child)(*ms, **kw)
            if ch is not p:
                self.c.append(ch)
            return ['ok', ['b', ch is p]]
        elif op in ('append', 'prepend'):
            getattr(self.c[a['j'] - 1], op)(self.ref(a['r']))
        elif op == 'same':
            x, y = self.c[a['i'] - 1], self.c[a['j'] - 1]
            return ['ok', ['b', hash(x) == hash(y) and x == y]]
        else:
            c = self.c[a['j'] - 1]
            ps = pairs(c)
            none = object()
            r = {'items': ps, 'len': len(c),
                 'merged': sorted([{'k': k, 'v': v} for k, v in c.merged.items()], key=repr),
                 'rev': list(c.reversed_keys()), 'flat': [self.name(m) for m in c.maps_flattened],
                 'missing': sorted(k for k in 'abc' if k not in c and c.get(k, none) is none), 'find': []}
            if isinstance(c, Context):
                r['find'] = [self.number(f) for f in (
                    c.find_instance(A), c.find_instance(B), c.find_instance(A, exclude=self.d[0]),
                    c.find_instance(A, reverse=True), c.find_instance(B, exclude=self.d[1], reverse=True))]
            if str(c) != str(c.merged) or [p['k'] for p in ps] != list(c.keys()) or any(c.get(p['k'], none) != p['v'] for p in ps):
                return ['ok', 'inconsistent']
            return ['ok', r]

    def probe(self, a, t, last):
        return None
