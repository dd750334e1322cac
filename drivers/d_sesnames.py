"""SesNames.tla <-> Session.resolve_cname."""
from ngoschema.models.instances import Entity, Instance
from ngoschema.repositories.memory_repository import MemoryRepository
from ngoschema import session as ss
from ngoschema.resolvers.uri_resolver import UriResolver
from ngoschema.managers.type_builder import type_builder

_c = []


def classes():
    if not _c:
        u = 'http://vf.test/sesnames'
        UriResolver.register_doc({'$id': u, '$defs': {
            'K': {'type': 'object', 'extends': [Instance._id], 'properties': {
                'v': {'type': 'integer'}, 'k': {'$ref': '#/$defs/K'}}},
            'R': {'type': 'object', 'extends': [Entity._id, Instance._id], 'primaryKeys': ['name'], 'properties': {
                'k': {'$ref': '#/$defs/K'}, 'v': {'type': 'integer'}}}}}, u)
        _c.append(type_builder.load(u + '#/$defs/R'))
    return _c[0]


class Adapter:
    def __init__(self, params):
        self.s = ss.session_maker()()
        self.repos = []
        for i in range(2):
            r = MemoryRepository(instanceClass=classes(), many=True, meta_opts={'session': self.s})
            if r not in list(self.s.repositories):
                self.s.bind_repo(r)
            self.repos.append(r)
        self.o = []

    def step(self, a):
        op = a['op']
        if op == 'init':
            return ['ok', ['n']]
        if op == 'commit':
            n = len(self.o) + 1
            d = {'name': a['name'], 'v': n * 10}
            if a['k']:
                d['k'] = {'name': a['k'], 'v': n * 10 + 1}
                if a['kk']:
                    d['k']['k'] = {'name': a['kk'], 'v': n * 10 + 2}
            o = classes()(d)
            self.o.append(o)
            self.repos[a['r'] - 1].commit(o)
            return ['ok', ['n']]
        if op == 'rename':
            self.o[a['i'] - 1].k.name = a['name']
            return ['ok', ['n']]
        try:
            x = self.s.resolve_cname('.'.join(a['p']))
        except Exception:
            return ['err', 'any']
        for i, o in enumerate(self.o):
            for j, y in enumerate((o, o.k, o.k.k if o.k is not None else None)):
                if y is not None and y is x:
                    return ['ok', ['obj', i + 1, j]]
        if isinstance(x, int):
            return ['ok', ['val', x // 10, x % 10]]
        return ['ok', ['?', repr(x)[:80]]]

    def probe(self, a, t, last):
        return None
