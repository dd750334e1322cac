"""Fkeys.tla <-> foreign keys of entities."""
import datetime
import itertools
import json

from common import kind
from ngoschema.models.instances import Entity
from ngoschema.resolvers.uri_resolver import UriResolver
from ngoschema.managers.type_builder import type_builder
from ngoschema.repositories.memory_repository import MemoryRepository
from ngoschema import session as ss

_n = itertools.count()
_loaded = {}
ALL = ('Person', 'Order', 'Vip', 'Thing')


def definitions(key):
    uri = 'http://vf.test/fkeys%d' % next(_n)
    ids = {'int': {'id': {'type': 'integer'}}, 'text': {'id': {'type': 'string'}},
           'pair': {'a': {'type': 'integer'}, 'b': {'type': 'string'}}, 'day': {'id': {'type': 'date'}},
           'mix': {'a': {'type': 'integer'}, 'b': {'type': 'date'}}}[key]

    def fk(name, **kw):
        d = {'foreignKey': dict({'foreignSchema': '#/$defs/' + name}, **kw)}
        return d
    defs = {
        'Person': {'type': 'object', 'extends': [Entity._id], 'primaryKeys': list(ids),
                   'properties': dict(ids, nick={'type': 'string'}, boss=fk('Person'), last=fk('Order'))},
        'Vip': {'type': 'object', 'extends': ['#/$defs/Person'], 'properties': {'level': {'type': 'integer'}}},
        'Thing': {'type': 'object', 'extends': [Entity._id], 'primaryKeys': list(ids), 'properties': dict(ids, nick={'type': 'string'})},
        'Order': {'type': 'object', 'extends': [Entity._id], 'primaryKeys': ['no'], 'properties': {
            'no': {'type': 'integer'}, 'buyer': fk('Person'), 'guest': fk('Vip'),
            'tag': fk('Person', foreignKeys=['nick']),
            'boss': fk('Person'),
            'all': {'type': 'array', 'items': fk('Person')}}}}
    UriResolver.register_doc({'$id': uri, '$defs': defs}, uri)
    return uri + '#/$defs/'


def py(v):
    return v[1]


def tag(v):
    if v is None:
        return ['n']
    if isinstance(v, bool):
        return ['b', v]
    if isinstance(v, int):
        return ['i', v]
    if isinstance(v, datetime.date):
        return ['d', v.isoformat()]
    if isinstance(v, str):
        return ['s', str(v)]
    if isinstance(v, tuple):
        return ['t', [tag(x) for x in v]]
    return ['?', repr(v)[:40]]


def form(k, how):
    k = [py(x) for x in k]
    return {'scalar': lambda: k[0], 'tuple': lambda: tuple(k), 'list': lambda: k, 'joined': lambda: ','.join(map(str, k))}[how]()


class Adapter:
    def __init__(self, params):
        self.ents = []

    def no(self, o):
        for i, x in enumerate(self.ents):
            if x is o:
                return i + 1
        return 'another object'

    def whole(self, d):
        r = {p: tag(d.get(p)) for p in ('buyer', 'guest', 'tag', 'boss')}
        r['all'] = ['l', [tag(x) for x in (d.get('all') or [])]]
        return ['ok', r]

    def step(self, a):
        try:
            r = self._step(a)
        except Exception as er:
            return ['err', 'unresolved' if a['op'] in ('resolve', 'ask') else 'invalid']
        return ['ok', ['n']] if r is None else r

    def _step(self, a):
        op = a['op']
        if op == 'load':
            key = (a['cfg']['key'], a['cfg']['first'])
            if key not in _loaded:
                base = definitions(key[0])
                _loaded[key] = {n: type_builder.load(base + n) for n in [key[1]] + [n for n in ALL if n != key[1]]}
            self.cls = _loaded[key]
            self.session = ss.session_maker()()
            self.repos = {n: MemoryRepository(instanceClass=self.cls[n], many=True, meta_opts={'session': self.session})
                          for n in ('Thing', 'Order', 'Person', 'Vip')}
            self.o = self.cls['Order'](no=1)
            self.repos['Order'].commit(self.o)
            self.o.set_context(self.o._context, session=self.session)
            return
        o = self.o
        if op == 'ent':
            k = [py(x) for x in a['k']]
            d = dict(zip(('a', 'b') if len(k) > 1 else ('id',), k), nick=py(a['name']))
            e = self.cls[a['cls']](d)
            self.ents.append(e)
            if a['in']:
                self.repos[a['cls']].commit(e)
            return
        if op == 'set':
            how = a['how']
            v = (form(a['k'], a['form']) if how == 'key' else self.ents[a['e'] - 1] if how == 'ent'
                 else None if how == 'none' else a['v'])
            setattr(o, a['p'], v)
            return
        if op == 'all':
            o.all = [form(a['k'], 'tuple')] + ([self.ents[a['e'] - 1]] if a['e'] else [])
            return
        if op == 'get':
            return ['ok', tag(o[a['p']])]
        if op == 'whole':
            if a['door'] == 'get':
                return self.whole({p: o[p] for p in ('buyer', 'guest', 'tag', 'boss', 'all')})
            d = o.do_serialize(no_defaults=a['door'] != 'full')
            if a['door'] != 'json':
                return self.whole(d)
            return self.whole(self.cls['Order'](json.loads(json.dumps(d))))
        t = self.cls['Order'].items_type(a['p'])
        if op == 'resolve':
            if a['how'] == 'ptr':
                return ['ok', ['i', self.no(getattr(o, a['p'] + '_ptr'))]]
            if a['how'] == 'type':
                return ['ok', ['i', self.no(t.resolve(o[a['p']], session=self.session))]]
            return ['ok', ['i', self.no(t.evaluate(o[a['p']], resolve=True, session=self.session))]]
        return ['ok', ['i', self.no(t.resolve(form(a['k'], a['form']), session=self.session))]]

    def probe(self, a, t, last):
        return None
