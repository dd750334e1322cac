"""ObjNames.tla <-> ObjectProtocol: aliases, translated names, paths."""
from common import mk_class, call, kind

_classes = {}
INT = {'type': 'integer'}


def get_class(inherited, lazy):
    key = (inherited, lazy)
    if key not in _classes:
        sch = {'type': 'object', 'properties': {
            'i': INT, 'x-y': INT,
            'k': {'type': 'object', 'lazyLoading': lazy, 'properties': {
                'x': INT, 'kk': {'type': 'object', 'lazyLoading': lazy, 'properties': {'y': INT}}}},
            'm': {'type': 'array', 'items': {'type': 'array', 'items': {
                'type': 'object', 'lazyLoading': lazy, 'properties': {'x': INT}}}},
            'l': {'type': 'array', 'items': {'type': 'object', 'lazyLoading': lazy, 'properties': {'x': INT}}}},
            'aliases': {'al': 'i'}, 'negatedAliases': {'ng': 'i'}}
        c = mk_class(sch, _lazyLoading=lazy)
        if inherited:
            c = mk_class({'type': 'object', 'properties': {'other': INT}, 'aliases': {'oo': 'other'}},
                         bases=(c,), _lazyLoading=lazy)
        _classes[key] = c
    return _classes[key]


class Adapter:
    def __init__(self, params):
        self.o = None

    def read(self, door, name):
        o = self.o
        if door == 'attr':
            return getattr(o, name)
        if door == 'item':
            return o[name]
        if door == 'get':
            return o.get(name)
        if door == 'from_k':
            return o.k[name]
        return eval('o.' + name, {'o': o})

    def write(self, door, name, v):
        o = self.o
        if door == 'attr':
            setattr(o, name, v)
        elif door == 'item':
            o[name] = v
        elif door == 'from_k':
            o.k[name] = v
        else:
            exec('o.%s = v' % name, {'o': o, 'v': v})

    def step(self, a):
        op = a['op']
        if op == 'new':
            cls = get_class(a['cfg']['inherited'], a['cfg']['lazy'])
            d = {a['ni']: a['v'], a['nx']: a['v'],
                 'k': {'x': 1, 'kk': {'y': 1}}, 'l': [{'x': 1} for _ in range(12)],
                 'm': [[{'x': 1}, {'x': 1}], [{'x': 1}, {'x': 1}]]}
            try:
                self.o = cls(d) if a['how'] == 'dict' else cls(**d)
            except Exception as er:
                return ['err', kind(er)]
            return ['ok', ['n']]
        if op == 'get':
            r = call(self.read, a['door'], a['name'])
            return ['err', 'absent'] if r[0] == 'err' else r
        if op == 'set':
            return call(self.write, a['door'], a['name'], a['v'])
        if op == 'setk':
            v = {'x': a['v'], 'kk': {'y': a['v']}}
            if a['door'] == 'attr':
                return call(setattr, self.o, 'k', v)
            return call(self.o.__setitem__, 'k', v)
        if op == 'del':
            o, n = self.o, a['name']
            if a['door'] == 'pop':
                return call(o.pop, n)
            if a['door'] == 'attr':
                return call(delattr, o, n)
            if a['door'] == 'chain':
                return call(exec, 'del o.' + n, {'o': o})
            return call((o if a['door'] == 'item' else o.k).__delitem__, n)
        if op == 'in':
            return call(lambda: a['name'] in self.o)

    def probe(self, a, t, last):
        if t['obj'] != 'live':
            return None
        if last or a['op'] in ('set', 'del'):
            o, s = self.o, t['slot']
            v = lambda k: o.get(k, 99) if k in o else 99
            x = lambda c, k='x': c.get(k, 99) if k in c else 99
            got = {'i': v('i'), 'xy': v('x-y'), 'kx': x(o.k), 'ky': x(o.k.kk, 'y'), 'l1': x(o.l[1]),
                   'l10': x(o.l[10]), 'm': x(o.m[1][0])}
            if got != s:
                return 'slots: specification %s, code %s' % (s, got)
            rest = [o.l[i].x for i in range(12) if i not in (1, 10)] + [o.m[0][0].x, o.m[0][1].x, o.m[1][1].x]
            if rest != [1] * 13:
                return 'other items were changed: %s' % rest
