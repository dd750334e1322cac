"""Defaults.tla <-> properties with defaults of every kind, wherever declared."""
import copy
from common import mk_class
from d_typed import py, tag, bad

_classes = {}
INT = {'type': 'integer'}


def schema(t, d):
    s = {'integer': INT, 'string': {'type': 'string'}, 'boolean': {'type': 'boolean'}, 'number': {'type': 'number'},
         'enum': {'enum': [1, 0]}, 'any': {}, 'date': {'type': 'date'}, 'tuple': {'type': 'tuple'},
         'ints': {'type': 'array', 'items': INT},
         'intss': {'type': 'array', 'items': {'type': 'array', 'items': INT}},
         'obj': {'type': 'object', 'properties': {'x': {'type': 'integer', 'default': 0}}},
         'objs': {'type': 'array', 'items': {'type': 'object', 'properties': {'x': {'type': 'integer', 'default': 0}}}},
         'map': {'type': 'object', 'additionalProperties': INT}}[t]
    s = copy.deepcopy(s)
    if d != ['n']:
        s['default'] = py(d)
    return s


def build(c, row):
    lz = dict(_lazyLoading=c['lazy'])
    p = schema(row['t'], row['d'])
    w = {'type': 'integer'}
    if c['place'] == 'child':
        return mk_class({'type': 'object', 'properties': {
            'k': {'type': 'object', 'properties': {'p': p, 'w': w}, 'default': {}}}}, **lz)
    if c['place'] == 'item':
        return mk_class({'type': 'object', 'properties': {
            'a': {'type': 'array', 'items': {'type': 'object', 'properties': {'p': p, 'w': w}}}}}, **lz)
    if c['src'] == 'schema':
        return mk_class({'type': 'object', 'properties': {'p': p, 'w': w}}, **lz)
    if c['src'] == 'base':
        base = mk_class({'type': 'object', 'properties': {'p': p, 'w': w}}, **lz)
        return mk_class({'type': 'object', 'properties': {'q': w}}, bases=(base,), **lz)
    base = mk_class({'type': 'object', 'properties': {'p': schema(row['t'], row['other']), 'w': w}}, **lz)
    base()
    if c['src'] == 'redef':
        return mk_class({'type': 'object', 'properties': {'p': p}}, bases=(base,), **lz)
    return mk_class({'type': 'object', 'properties': {'q': w}}, bases=(base,), p=py(row['d']), **lz)


class Adapter:
    def __init__(self, params):
        self.root = self.wroot = None

    def at(self, root, i=0):
        pl = self.cfg['place']
        return root if pl == 'top' else root.k if pl == 'child' else root.a[i]

    def wrap(self, d):
        pl = self.cfg['place']
        if pl == 'child':
            return {'k': d} if d else {}
        return d if pl == 'top' else {'a': [d, {}]}

    def tag(self, v):
        return tag(list(v)) if isinstance(v, tuple) else tag(v)

    def ok(self, f):
        try:
            r = f()
            return ['ok', r]
        except Exception as er:
            return bad(er)

    def step(self, a):
        op = a['op']
        if op == 'new':
            c = self.cfg = a['cfg']
            key = tuple(sorted(c.items()))
            if key not in _classes:
                _classes[key] = build(c, a['row'])
            self.cls = _classes[key]

            def new():
                self.given = [py(a['v'])] if a['given'] else []
                self.copy = copy.deepcopy(self.given)
                self.wroot = self.cls(self.wrap({}))
                self.root = self.cls(self.wrap({'p': self.given[0]} if a['given'] else {}))
                if c['place'] == 'item':
                    self.wroot = self.root
                return ['n']
            return self.ok(new)
        x = self.at(self.root)
        path = {'top': 'p', 'child': 'k.p', 'item': 'a[0].p'}[self.cfg['place']]
        if op == 'get':
            return self.ok(lambda: self.tag({'attr': lambda: x.p, 'item': lambda: x['p'], 'get': lambda: x.get('p'),
                                             'path': lambda: self.root[path]}[a['door']]()))
        if op == 'set':
            v = py(a['v'])
            self.given.append(v)
            self.copy.append(copy.deepcopy(v))
            return self.ok(lambda: {'attr': lambda: setattr(x, 'p', v), 'item': lambda: x.__setitem__('p', v),
                                    'update': lambda: x.update({'p': v}),
                                    'path': lambda: self.root.__setitem__(path, v)}[a['door']]() or ['n'])
        if op == 'mut':
            v, k = x.p, a['kind']

            def mut():
                if k == 'append':
                    v.append(7)
                elif k == 'deep':
                    v[0].append(7) if len(v) else v.append([7])
                elif k == 'x':
                    v.x = 7
                elif k == 'k':
                    v['k'] = 7
                elif len(v):
                    v[0].x = 7
                else:
                    v.append({'x': 7})
                # what the caller gave is his
                assert self.given == self.copy, 'the given value has been changed'
                return ['n']
            return self.ok(mut)
        if op == 'witness':
            return self.ok(lambda: self.tag(self.at(self.wroot, 1).p))
        if op == 'fresh':
            return self.ok(lambda: self.tag(self.at(self.cls(self.wrap({}))).p))
        if op == 'ser':
            try:
                s = self.root.do_serialize(no_defaults=a['nd'])
                d = s if self.cfg['place'] == 'top' else s.get('k', {}) if self.cfg['place'] == 'child' else s['a'][0]
                return ['present' if 'p' in d else 'absent']
            except Exception as er:
                return bad(er)
        if op == 'reload':
            def reload():
                s = self.root.do_serialize(no_defaults=a['nd'])
                return self.tag(self.at(self.cls(s)).p)
            return self.ok(reload)

    def probe(self, a, t, last):
        return None
