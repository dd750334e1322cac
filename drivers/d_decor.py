"""Decor.tla <-> ngoschema.decorators on functions, methods, class methods."""
import logging

from common import enc, dec, kind
from ngoschema.decorators import assert_arg, assert_prop, take_arrays, log_exceptions, log_init
from ngoschema.types import Integer, String

RUNS = [0]


def ran(*args):
    RUNS[0] += 1
    return list(args)


class Counter(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.n = 0

    def emit(self, record):
        self.n += record.levelno >= logging.ERROR


def make_bag():
    LOG = logging.Logger('vf-decor', logging.DEBUG)
    LOG.manager = logging.Manager(logging.RootLogger(logging.DEBUG))   # out of reach of logging.disable
    H = Counter()
    LOG.addHandler(H)

    @assert_arg(0, Integer, minimum=0)
    @assert_arg('y', String, maxLength=1)
    def f(x, y='def'):
        """doc of f"""
        return ran(x, y)

    @assert_arg('x', Integer, minimum=0)
    def g(x):
        """doc of g"""
        return ran(x)

    @take_arrays(0, 1)
    def arr(a, b=10):
        """doc of arr"""
        return ran(a, b)

    @take_arrays(0, flatten=True)
    def flat(a):
        """doc of flat"""
        return ran(a, a + 10)

    def boom(x):
        ran()
        if x == 'boom':
            1 / 0
        return [x]

    @log_exceptions
    def logged(x=10):
        """doc of logged"""
        return boom(x)

    class Bag(list):
        p = None
        _logger = LOG
        got = None

        def __repr__(self):
            return 'bag'

        @assert_arg(1, Integer, minimum=0)
        @assert_arg('y', String, maxLength=1)
        def fm(self, x, y='def'):
            return ran(x, y)

        @classmethod
        @assert_arg(1, Integer, minimum=0)
        @assert_arg('y', String, maxLength=1)
        def fc(cls, x, y='def'):
            return ran(x, y)

        @staticmethod
        @assert_arg('x', Integer, minimum=0)
        @assert_arg(1, String, maxLength=1)
        def fs(x, y='def'):
            return ran(x, y)

        @assert_arg('x', Integer, minimum=0)
        def gm(self, x):
            return ran(x)

        @classmethod
        @assert_arg('x', Integer, minimum=0)
        def gc(cls, x):
            return ran(x)

        @staticmethod
        @assert_arg(0, Integer, minimum=0)
        def gs(x):
            return ran(x)

        @take_arrays(0, 1)
        def arr(self, a, b=10):
            return ran(a, b)

        @log_exceptions
        def logged(self, x=10):
            return boom(x)

        @assert_prop('p')
        @assert_arg(1, Integer, minimum=0)
        def need(self, x):
            return ran(x, self.p)

    class Inited(object):
        _logger = LOG

        @log_init
        def __init__(self, x=10):
            self.got = boom(x)

    return Bag, Inited, H, {'f': f, 'g': g, 'arr': arr, 'flat': flat, 'logged': logged}


class Adapter:
    def __init__(self, params):
        self.Bag, self.Inited, self.H, self.fns = make_bag()
        self.b = self.Bag()

    def step(self, a):
        RUNS[0] = 0
        self.H.n = 0
        try:
            r = self._step(a)
        except Exception as er:
            r = ['err', kind(er)]
        else:
            r = ['ok', enc(r)]
        return r

    def forms(self, form, name):
        b = self.b
        return {'func': lambda: self.fns[name],
                'method': lambda: getattr(b, name + 'm'),
                'unbound': lambda: lambda *a, **k: getattr(self.Bag, name + 'm')(b, *a, **k),
                'class': lambda: getattr(self.Bag, name + 'c'),
                'classinst': lambda: getattr(b, name + 'c'),
                'static': lambda: getattr(b, name + 's')}[form]()

    def _step(self, a):
        op = a['op']
        if op == 'assert':
            f = self.forms(a['form'], 'f')
            if a['y'][0] == 'omit':
                return f(x=dec(a['x'])) if a['how'] == 'named' else f(dec(a['x']))
            if a['how'] == 'named':
                return f(y=dec(a['y']), x=dec(a['x']))
            return f(dec(a['x']), dec(a['y']))
        if op == 'flag':
            return self.forms(a['form'], 'g')(dec(a['x']), assert_args=a['flag'])
        if op == 'missing':
            return self.forms(a['form'], 'f')()
        if op in ('arrays', 'flatten'):
            args = [{'i': lambda v: v, 'list': list, 'tuple': tuple}[v[0]](v[1])
                    for v in [a['a']] + ([a['b']] if op == 'arrays' else []) if v[0] != 'omit']
            if op == 'flatten':
                return self.fns['flat'](*args)
            return (self.fns['arr'] if a['form'] == 'func' else self.b.arr)(*args)
        if op == 'logged':
            args, kw = [], {}
            if a['x'][0] != 'omit':
                if a['how'] == 'named':
                    kw['x'] = dec(a['x'])
                else:
                    args.append(dec(a['x']))
            if a['form'] == 'init':
                return self.Inited(*args, **kw).got
            return (self.fns['logged'] if a['form'] == 'func' else self.b.logged)(*args, **kw)
        if op == 'need':
            return self.b.need(dec(a['x']))
        if op == 'setp':
            self.b.p = dec(a['v'])
            return
        if op == 'fill':
            self.b[:] = [0] * a['n']
            return
        if op == 'names':
            f = self.fns[a['f']]
            return [f.__name__, 'doc of %s' % a['f'] in f.__doc__]

    def probe(self, a, t, last):
        if RUNS[0] != a['runs']:
            return 'function executed %d times, expected %d' % (RUNS[0], a['runs'])
        if self.H.n != a.get('errors', 0):
            return '%d errors logged, expected %d' % (self.H.n, a.get('errors', 0))
        if list(self.b) != [0] * t['bag']:
            return 'collection changed: %r' % self.b
