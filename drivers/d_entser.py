"""EntSer.tla <-> serialization of entities by their keys."""
import itertools
from common import mk_class
from ngoschema.models.instances import Entity

_classes = {}
KEYS = {'int': ['id'], 'pair': ['id', 'm'], 'date': ['d'], 'text': ['t']}
DATES = ['2020-01-02', '2021-03-04']


def classes(kind, lazy):
    if (kind, lazy) not in _classes:
        B = mk_class({'type': 'object', 'primaryKeys': KEYS[kind], 'properties': {
            'id': {'type': 'integer'}, 'm': {'type': 'string', 'default': 'z'}, 'd': {'type': 'date'},
            't': {'type': 'string'}, 'n': {'type': 'string'}}}, bases=(Entity,), _lazyLoading=lazy)
        P = mk_class({'type': 'object', 'properties': {'boss': {'$ref': B._id}}}, bases=(B,), _lazyLoading=lazy)
        H = mk_class({'type': 'object', 'properties': {
            'own': {'$ref': P._id}, 'all': {'type': 'array', 'items': {'$ref': P._id}}, 'x': {'type': 'integer'}}},
            _lazyLoading=lazy)
        _classes[kind, lazy] = P, H
    return _classes[kind, lazy]


def plain(v):
    from collections.abc import Mapping
    if isinstance(v, Mapping):
        return {k: plain(x) for k, x in v.items()} or []
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v if type(v) in (int, str, float, bool) else ['n'] if v is None else ['?', type(v).__name__]


class Adapter:
    def __init__(self, params):
        self.o = None

    def lit(self, e):
        k = self.kind
        d = {'n': 'N'}
        if k in ('int', 'pair'):
            d['id'] = e['i']
        elif k == 'date':
            d['d'] = DATES[e['i']]
        else:
            d['t'] = ['a,b', ''][e['i']]
        if e['m']:
            d['m'] = e['m']
        return d

    def at(self, p):
        return self.o if p == 'self' else self.o.all[0] if p == 'all' else getattr(self.o, p)

    def step(self, a):
        op = a['op']
        if op == 'init':
            return ['ok', ['n']]
        if op == 'new':
            self.kind = a['c']['kind']
            P, H = classes(self.kind, a['c']['lazy'])
            o = a['o']
            if o['r'] == 'P':
                d = self.lit(o['e'])
                if o['boss']['i'] >= 0:
                    d['boss'] = self.lit(o['boss'])
                self.o = P(d)
            else:
                d = {'x': 3}
                if o['own']['i'] >= 0:
                    d['own'] = self.lit(o['own'])
                if o['all']:
                    d['all'] = [self.lit(e) for e in o['all']]
                self.o = H(d)
            return ['ok', ['n']]
        if op == 'set':
            setattr(self.at(a['place']), a['f'], a['v'])
            return ['ok', ['n']]
        if op == 'keys':
            ks = [x for x in self.at(a['place']).identityKeys]
            if a['place'] == 'all':
                l = self.o.all
                if l.get(*ks) is not l[0] or [list(x) for x in l.identityKeys] != [ks]:
                    return ['wrong', 'by its keys: %s, keys of all: %s' % (l.get(*ks), l.identityKeys)]
                k = ks[0]
                if l.get(k + 5 if isinstance(k, int) else 'none' if isinstance(k, str) else k.replace(year=1999)) is not None:
                    return ['wrong', 'found by other keys']
            return ['ok', [x if isinstance(x, (int, str)) else x.isoformat() for x in ks]]
        p = a['p']
        opts = {n: True for f, n in (('use', 'use_identity_keys'), ('ent', 'use_entity_keys'),
                                     ('add', 'add_identity_keys'), ('root', 'root_entity')) if p[f]}
        if p['only']:
            opts['only'] = [p['only']]
        return ['ok', plain(self.o.do_serialize(**opts))]

    def probe(self, a, t, last):
        return None
