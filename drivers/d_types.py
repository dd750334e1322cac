"""Types.tla <-> type_builder: loading definitions which refer to each other."""
import itertools

from common import kind, mk_class
from ngoschema.managers.namespace_manager import default_ns_manager
from ngoschema.managers.type_builder import type_builder
from ngoschema.resolvers.uri_resolver import UriResolver

_n = itertools.count()


def plain(v):
    if hasattr(v, 'items'):
        return {k: plain(x) for k, x in v.items() if x != []}
    return [plain(x) for x in v] if isinstance(v, (list, tuple)) else v


class Adapter:
    def __init__(self, params):
        self.base = 'http://vft%d.org/' % next(_n)
        self.cls = {}

    def probe(self, a, t, last):
        return None

    def close(self):
        for d in ('one', 'two'):
            UriResolver.unregister_doc(self.base + d)
        for k in [k for k in type_builder._registry if k.startswith(self.base)]:
            del type_builder._registry[k]

    def uri(self, n):
        return '%s%s#/$defs/%s' % (self.base, 'two' if n in self.second else 'one', n.replace('.', '/$defs/'))

    def ref(self, n, of):
        u = self.uri(n)
        return '#' + u.split('#')[1] if (n in self.second) == (of in self.second) else u

    def schema(self, n, k, to, f):
        r = lambda t: {'$ref': self.ref(t, n)}
        if k == 'alias':
            return r(to)
        if k == 'arr':
            return {'type': 'array', 'items': r(to)}
        if k == 'int':
            return {'type': 'integer', 'minimum': 2}
        if k == 'low':
            return dict(r(to), maximum=5)
        ps = {'o_' + n.replace('.', '_'): {'type': 'integer', 'minimum': 2}}
        s = {'properties': ps, 'additionalProperties': False, 'lazyLoading': self.lazy}
        for st, t in f:
            if st == 'r':
                ps['r'] = r(t)
            elif st == 'a':
                ps['a'] = {'type': 'array', 'items': r(t)}
            elif st == 'i':
                ps['i'] = {'type': 'object', 'properties': {'back': r(t)}, 'additionalProperties': False, 'lazyLoading': self.lazy}
            elif st == 'p':
                s['patternProperties'] = {'^x_': r(t)}
            elif st == 'm':
                s['additionalProperties'] = r(t)
        if k == 'sub':
            s.update(r(to))
        else:
            s['type'] = 'object'
            if to:
                s['extends'] = [self.ref(to, n)]
        return s

    def register(self):
        docs = {'one': {}, 'two': {}}
        for n in sorted(self.defs):
            if n == self.missing:
                continue
            d = docs['two' if n in self.second else 'one']
            ns = n.split('.')
            for x in ns[:-1]:
                d = d[x].setdefault('$defs', {})
            d[ns[-1]] = self.schema(n, *self.defs[n])
        for k, d in docs.items():
            UriResolver.register_doc({'$id': self.base + k, '$defs': d}, self.base + k)

    def step(self, a):
        op = a['op']
        if op == 'world':
            self.lazy = a['lazy']
            self.defs = {n: (k, to, f['set']) for n, k, to, f in a['defs']['set']}
            self.missing, self.second = a['missing'], a['second']['set']
            self.register()
            return ['ok', ['n']]
        if op == 'complete':
            self.missing = ''
            self.register()
            return ['ok', ['n']]
        try:
            return getattr(self, op)(a)
        except Exception as er:
            return ['err', 'refused', kind(er), str(er)[:200]]

    def load(self, a):
        d, door, u = a['d'], a['door'], self.uri(a['d'])
        try:
            if door == 'uri':
                c = type_builder.load(u)
            elif door == 'build':
                c = type_builder.build(u)
                if a['res'][0] == 'ok' and type_builder.build(u, self.schema(d, *self.defs[d])) is not c:
                    return ['ok', 'another type for what was built']
            elif door == 'name':
                c = default_ns_manager.load(default_ns_manager.get_id_cname(u))
            else:
                c = mk_class(None, _id=u)
        except Exception as er:
            return ['err', 'refused']
        if a['res'][0] != 'ok':
            return ['ok', repr(c)]
        x = a['res'][1]
        i = x['is'] if type_builder.load(self.uri(x['is'])) is c is type_builder.load(u) and self.cls.setdefault(x['is'], c) is c else repr(c)
        bs = [b for b in x['bases']['set'] if self.cls[b] in c.__mro__]
        return ['ok', {'is': i, 'bases': {'set': bs}}]

    PART = {'r': 'properties/r', 'a': 'properties/a', 'i': 'properties/i', 'p': 'patternProperties/^x_', 'm': 'additionalProperties'}

    def part(self, a):
        try:
            c = type_builder.load(self.uri(a['d']) + '/' + self.PART[a['s']])
        except Exception:
            return ['err', 'refused']
        if a['res'][0] != 'ok':
            return ['ok', repr(c)]
        x = a['res'][1]
        if x == 'own':
            ok = self.cls.setdefault(a['d'] + '/' + a['s'], c) is c
        else:
            ok = type_builder.load(self.uri(x)) is c and self.cls.setdefault(x, c) is c
        return ['ok', x if ok else repr(c)]

    def use(self, a):
        return ['ok', {'set': [e if r is None else [e, r] for e in a['res'][1]['set'] for r in [self.one(a['d'], *e)]]}]

    def data(self, path, end, lines, j=0):
        if j == len(path) and not lines[j]:
            return [] if end[1] == '' else end[1] if end[1] == 'x' else int(end[1])
        if j < len(path) and path[j] == 'n':
            return [self.data(path, end, lines, j + 1)]
        d = {'o_' + n.replace('.', '_'): 3 for n in lines[j]}
        if j == len(path):
            if end[0] == 'bad':
                d['o_' + end[1].replace('.', '_')] = 1
            elif end[0] == 'alien':
                d['zz'] = 1
            return d
        s, x = path[j], self.data(path, end, lines, j + 1)
        k, x = {'r': ('r', x), 'a': ('a', [x]), 'i': ('i', {'back': x}), 'p': ('x_1', x), 'm': ('mm', x)}[s]
        d[k] = x
        return d

    def one(self, d, path, end, along, lines):
        data = self.data(path, end, lines)
        t = type_builder.load(self.uri(d))
        try:
            x = t(data)
            if end[0] != 'ok' and not self.lazy:
                return 'accepted'
            v = x
            for j, s in enumerate(path + ['']):
                if lines[j] or s == 'n' or isinstance(v, list):
                    if type(v) is not type_builder.load(self.uri(along[j])):
                        return 'a %r for %s' % (type(v), along[j])
                for n in lines[j]:
                    if v['o_' + n.replace('.', '_')] != 3:
                        return 'value'
                if s in ('i', 'a'):
                    h = next(n for n in lines[j] if s in [y for y, _ in self.defs[n][2]])
                    c = type_builder.load(self.uri(h) + '/' + self.PART[s])
                    if type(v[s]) is not c or self.cls.setdefault(h + '/' + s, c) is not c:
                        return 'another type of %s of %s' % (s, h)
                if s:
                    v = {'r': lambda: v.r, 'a': lambda: v.a[0], 'i': lambda: v.i.back, 'p': lambda: v['x_1'],
                         'm': lambda: v['mm'], 'n': lambda: v[0]}[s]()
            if end[0] == 'alien':
                v['zz']     # a lazy object rejects it when it is read
            if end[0] != 'ok':
                return 'accepted'
            if not lines[-1] and end[1] and v != int(end[1]):
                return 'read %r' % v
            if hasattr(x, 'do_serialize') and plain(x.do_serialize()) != plain(data):
                return 'serialized to %r' % x.do_serialize()
        except Exception as er:
            if end[0] == 'ok':
                return 'refused: %s %s' % (kind(er), str(er)[:100])
        return None
