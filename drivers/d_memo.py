"""Memo.tla <-> memoized_property, memoized_method, classproperty."""
import copy

from common import enc, kind
from ngoschema.decorators import memoized_property, memoized_method, classproperty


def make():
    runs = [0]

    def compute(o, k=0):
        runs[0] += 1
        if o.x < 0:
            1 / 0
        return o.x + 10 * k

    class A(object):
        _cp = [1]

        def __init__(self):
            self.x = 0

        @memoized_property
        def prop(self):
            """the property"""
            return compute(self)

        @memoized_method()
        def meth(self, k):
            """the method"""
            return compute(self, k)

        @memoized_method(maxsize=1)
        def last(self, k):
            return compute(self, k)

        @classproperty
        def ro(cls):
            return cls._cp[0]

        @classproperty
        def cp(cls):
            return cls._cp[0]

        @cp.setter
        def cp(cls, v):
            cls._cp[0] = v

    class B(A):
        @memoized_method()
        def meth(self, k):
            return super(B, self).meth(k) + 100

    return A, B, runs


class Adapter:
    def __init__(self, params):
        self.A, self.B, self.runs = make()
        self.o = {1: self.A(), 2: self.B()}
        self.kept = {i: o.meth for i, o in self.o.items()}

    def step(self, a):
        self.runs[0] = 0
        try:
            return ['ok', enc(self._step(a))]
        except Exception as er:
            return ['err', kind(er)]

    def _step(self, a):
        op = a['op']
        o = self.o.get(a.get('i'))
        if op == 'setx':
            o.x = a['v']
        elif op == 'read':
            return o.prop if a['how'] == 'get' else getattr(o, 'prop')
        elif op == 'reset':
            if a['how'] == 'name':
                memoized_property.reset(o, 'prop')
            else:
                self.A.prop._reset(o)
        elif op == 'call':
            f = {'call': lambda: o.meth, 'kept': lambda: self.kept[a['i']],
                 'class': lambda: lambda k: type(o).meth(o, k)}[a['how']]()
            return f(a['k'])
        elif op == 'last':
            return o.last(a['k'])
        elif op == 'copy':
            c = getattr(copy, a['how'])(o)
            c.x = a['v']
            return c.meth(a['k'])
        elif op == 'cget':
            on = {'class': self.A, 'subclass': self.B, 'inst': self.o[1], 'subinst': self.o[2]}[a['on']]
            return on.cp if on.cp == on.ro else [on.cp, on.ro]
        elif op == 'cset':
            setattr(o, 'ro' if a['ro'] else 'cp', a['v'])

    def probe(self, a, t, last):
        if self.runs[0] != a['runs']:
            return 'computed %d times, expected %d' % (self.runs[0], a['runs'])
        if [self.o[1].x, self.o[2].x] != t['x']:
            return 'attributes %r' % [self.o[1].x, self.o[2].x]
