"""Poly.tla <-> $schema: objects of derived classes where a base is declared."""
import copy
import itertools
import json

from common import kind
from ngoschema.managers.type_builder import type_builder
from ngoschema.resolvers.uri_resolver import UriResolver

_n = itertools.count()
_sets = {}

DATA = [
    ('', '', {'x': 1}, 0), ('', '', {}, 0), ('rel', 'D', {'x': 1, 'y': 3}, 0), ('abs', 'D', {'x': 1}, 0),
    ('abs', 'E', {'y': 7}, 3), ('rel', 'E', {}, 1), ('abs', 'B', {'x': 1}, 0), ('abs', 'F', {'z': 1}, 0),
    ('abs', 'O', {'x': 1}, 0), ('abs', 'Z', {'x': 1}, 0), ('abs', 'D', {'y': 'bad'}, 0), ('', '', {'y': 3}, 0),
    ('abs', 'D', {'z': 1}, 0), ('abs', 'E', {}, 9), ('rel', 'E', {'x': 2}, 16), ('abs', 'E', {'y': 4}, 8),
    ('abs', 'C', {}, 0), ('rel', 'C', {'x': 4}, 0), ('rel', 'E', {'y': 8}, 17)]
FIELDS = {'B': 'x', 'D': 'xy', 'E': 'xyn', 'F': 'xz', 'C': 'x', 'O': 'xy'}


def classes(lazy):
    if lazy not in _sets:
        u = 'http://vfp%d.org/doc' % next(_n)
        i = {'type': 'integer'}

        def obj(ps, base=None, **kw):
            d = {'type': 'object', 'lazyLoading': lazy, 'additionalProperties': False, 'properties': ps}
            return dict(d, **(dict(kw, extends=['#/$defs/' + base]) if base else kw))
        r = lambda n: {'$ref': '#/$defs/' + n}
        UriResolver.register_doc({'$id': u, '$defs': {
            'B': obj({'x': i}), 'D': obj({'y': dict(i, default=7)}, 'B'),
            'E': obj({'y': dict(i, default=8), 'n': r('B')}, 'D'), 'F': obj({'z': i}, 'B'), 'C': obj({'x': dict(i, default=5)}, 'B'), 'O': obj({'x': i, 'y': i}),
            'H': obj({'c': r('B'), 'd': r('D'), 'o': {'type': 'object', 'lazyLoading': lazy}, 'a': {'type': 'array', 'items': r('B')}},
                     patternProperties={'^p_': r('B')}),
            'G': obj({'g': i}, 'H', patternProperties={'^p_': r('B')})}}, u)
        _sets[lazy] = (u + '#/$defs/', {n: type_builder.load(u + '#/$defs/' + n) for n in 'BCDEFOHG'})
    return _sets[lazy]


def fn(d):
    return d or []


class Adapter:
    def __init__(self, params):
        self.given = {}

    def probe(self, a, t, last):
        return None

    def close(self):
        pass

    def make_data(self):
        self.data = [None] * len(DATA)
        for i in sorted(range(len(DATA)), key=lambda i: (DATA[i][3] and 1 + bool(DATA[DATA[i][3] - 1][3]), i)):
            name, k, f, n = DATA[i]
            d = dict(f)
            if name:
                d['$schema'] = {'abs': self.base, 'rel': '#/$defs/'}[name] + k
            if n:
                d['n'] = self.data[n - 1]
            self.data[i] = d
        self.before = copy.deepcopy(self.data)

    def value(self, w):
        if w[0] == 'data':
            return self.data[w[1] - 1]
        return self.cls['B'](copy.deepcopy(self.before[w[1] - 1]))

    def holder(self, given):
        kw = {{'p': 'p_1'}.get(s, s): self.value(w) for s, w in given.items() if s[0] != 'a'}
        a = [self.value(given[s]) for s in ('a1', 'a2') if s in given]
        if a:
            kw['a'] = a
        if self.up == 'HG':
            kw['$schema'] = self.base + 'G'
        h = self.cls['G' if self.up == 'G' else 'H'](kw)
        if type(h) is not self.cls[self.up[-1]]:
            raise AssertionError('the holder is a %s' % type(h))
        if not self.lazy or not given:
            return h
        for s in given:
            self.obs(h, s)
        return h

    def step(self, a):
        try:
            r = getattr(self, a['op'])(a)
        except AssertionError as er:
            return ['wrong', str(er)[:200]]
        except Exception as er:
            r = ['err', 'refused']
            if a['res'][0] == 'ok':
                r += [kind(er), str(er)[:200]]
        if self.data != self.before:
            return ['wrong', 'the data given was changed to %s' % self.data]
        return r

    def make(self, a):
        self.lazy, self.up = a['lazy'], a['up']
        self.base, self.cls = classes(self.lazy)
        self.make_data()
        self.h = self.holder({})
        return ['ok', ['n']]

    def get(self, h, s):
        if s[0] == 'a':
            return h.a[int(s[1]) - 1]
        return h['p_1'] if s == 'p' else getattr(h, s)

    def set(self, a):
        s, door = a['s'], a['door']
        if door == 'cons':
            given = dict(self.given, **{s: a['w']})
            self.h = self.holder(given)
            self.given = given
            return ['ok', ['n']]
        v = self.value(a['w'])
        self.given[s] = a['w']
        if s[0] == 'a':
            if s in self.placed():
                self.h.a[int(s[1]) - 1] = v
            elif s == 'a1':
                self.h['a'] = [v]
            else:
                self.h.a.append(v)
        elif door == 'attr':
            setattr(self.h, s, v)
        else:
            self.h['p_1' if s == 'p' else s] = v
        if a['w'][0] == 'obj' and self.get(self.h, s) is not v:
            raise AssertionError('another object than the one given')
        return ['ok', ['n']]

    def placed(self):
        return ['a%d' % (i + 1) for i in range(len(self.h.a or []))]

    def refused(self, a):
        self.holder(dict(self.given, **{a['s']: a['w']}))
        return ['ok', ['n']]

    def one(self, v):
        for f in list(v):
            v[f]     # a lazy object refuses when it is read
        k = next((n for n, c in self.cls.items() if type(v) is c), repr(type(v)))
        fs = {f: v[f] for f in FIELDS.get(k, '') if f != 'n'}
        for f, x in fs.items():
            if getattr(v, f) is not x or not (x is None or isinstance(x, int)):
                raise AssertionError('%s reads %r' % (f, x))
        n = v.n if 'n' in FIELDS.get(k, '') else None
        if n is not None and n._parent is not v:
            raise AssertionError('parent of n')
        return [k, {f: '' if x is None else str(x) for f, x in fs.items()}, [] if n is None else [self.one(n)]]

    def obs(self, h, s):
        v = self.get(h, s)
        if v._root is not h or self.get(h, s) is not v:
            raise AssertionError('root or identity of %s' % s)
        return self.one(v)

    def read(self, a):
        s = a['s']
        o, v = self.obs(self.h, s), self.get(self.h, s)
        if s != 'o':
            c = self.cls['D' if s == 'd' else 'B']
            c.validate(v, items=True)
            if not c.check(v, items=True):
                raise AssertionError('not an object of its declared class')
            w = c.convert(v)
            if type(w) is not type(v) or not (w == v):
                raise AssertionError('converted to %s' % w)
        if v.copy() != v or type(v.copy()) is not type(v):
            raise AssertionError('copied to %s' % v.copy())
        return ['ok', o]

    def written(self, d):
        d = dict(d)
        k = d.pop('$schema', '')
        if k:
            if not k.startswith(self.base):
                raise AssertionError('class written %s' % k)
            k = k[len(self.base):]
        n = d.pop('n', None)
        return [k, fn({f: str(x) for f, x in d.items()}), [] if n is None else [self.written(n)]]

    def reload(self, a):
        exp = [w[0] for w in a['res'][1]['set']]
        text = json.loads(json.dumps(self.h.do_serialize()))
        if '$schema' in text:
            raise AssertionError('class of the holder written')
        ws = []
        for k, v in text.items():
            if k == 'a':
                ws += [['a%d' % (i + 1), self.written(x)] for i, x in enumerate(v)]
            else:
                ws.append([{'p_1': 'p'}.get(k, k), self.written(v)])
        c = self.cls['H'] if a['via'] == 'H' else type(self.h)
        orig = copy.deepcopy(text)
        h1, h2 = c(text), c(text)
        o1 = [self.obs(h1, s) for s, _ in ws]
        if text != orig or o1 != [self.obs(h2, s) for s, _ in ws] or not h1 == h2:
            raise AssertionError('read twice: %s and %s' % (h1, h2))
        if type(self.h) is c and not (h1 == self.h and self.h == h1):
            raise AssertionError('what is read again is not equal')
        if o1 != [self.obs(self.h, s) for s, _ in ws]:
            raise AssertionError('what is read again differs')
        if h1.do_serialize() != text:
            raise AssertionError('written again as %s' % h1.do_serialize())
        self.h = h1
        self.up = 'H' if type(h1) is self.cls['H'] else self.up
        ws.sort(key=lambda w: exp.index(w[0]) if w[0] in exp else 0)
        return ['ok', {'set': ws}]

    def call(self, a):
        d, c = self.data[a['i'] - 1], self.cls[a['k']]
        v = c(d) if a['door'] == 'call' else c(**d) if a['door'] == 'kw' else c.convert(d)
        w = c.serialize(v)
        return ['ok', [self.one(v), self.written(w)]]
