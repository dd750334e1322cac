"""Repo.tla <-> MemoryRepository, Session, Entity."""
from common import mk_class, kind
from ngoschema.models.instances import Entity
from ngoschema.repositories.memory_repository import MemoryRepository
from ngoschema import session as ss

_c = {}


def classes():
    if not _c:
        _c['E'] = mk_class({'type': 'object', 'primaryKeys': ['id'], 'properties': {
            'id': {'type': 'integer'}, 'n': {'type': 'string'}}}, bases=(Entity,))
        _c['F'] = mk_class({'type': 'object', 'properties': {'q': {'type': 'integer'}}}, bases=(_c['E'],))
        _c['P'] = mk_class({'type': 'object', 'primaryKeys': ['a', 'b'], 'properties': {
            'a': {'type': 'integer'}, 'b': {'type': 'string'}, 'n': {'type': 'string'}}}, bases=(Entity,))
    return _c


class Adapter:
    def __init__(self, params):
        c = classes()
        maker = ss.session_maker()
        self.sess = [maker(), maker()]
        self.repos = [MemoryRepository(instanceClass=c[k], many=True, meta_opts={'session': self.sess[s]})
                      for k, s in (('E', 0), ('F', 0), ('P', 0), ('E', 1))]
        self.objs = []
        self.last = [[] for r in self.repos]

    def no(self, o):
        for i, x in enumerate(self.objs):
            if x is o:
                return i + 1
        return 'another object' if o is not None else 0

    def key(self, o):
        names = ('a', 'b') if isinstance(o, _c['P']) else ('id',)
        k = [o[n] for n in names]
        if list(o.identityKeys) != k:
            return ['identityKeys', list(o.identityKeys), k]
        return [-1] if k == [None] else k

    def content(self, i):
        c = getattr(self.repos[i], '_content', None)
        return self.last[i] if c is None else c

    def find(self, r, k):
        r = self.repos[r - 1]
        if k not in r:
            return 0
        return self.no(r.resolve_fkey(k))

    def step(self, a):
        op = a['op']
        try:
            if op == 'new':
                d = {'n': 'o%d' % len(self.objs)}
                k = a['key']
                if a['cls'] == 'P':
                    d.update(a=k[0], b=k[1])
                elif k != [-1]:
                    d['id'] = k[0]
                c = _c[a['cls']]
                self.objs.append(c(d) if a['how'] == 'dict' else c(**d))
                return ['ok', ['n']]
            if op == 'commit':
                o = self.objs[a['o'] - 1]
                self.last[a['r'] - 1] = self.repos[a['r'] - 1].commit(o)
                return ['ok', self.key(o)]
            if op == 'resolve':
                k = {'tuple': tuple, 'list': list, 'scalar': lambda k: k[0]}[a['form']](a['k'])
                return ['ok', ['i', self.no(self.sess[a['s'] - 1].resolve_fkey(k, _c[a['c']]))]]
        except Exception as er:
            return ['err', kind(er)]
        x = a['res'][1]
        r = {'cont': [[self.no(o) for o in self.content(i)] for i in range(4)],
             'keys': [self.key(o) for o in self.objs],
             'int': {k: [self.find(int(k), (i,)) for i in range(3)] for k in x['int']},
             'pair': [[self.find(3, (i, j)) for j in 'xy'] for i in range(2)]}
        return ['ok', r]

    def probe(self, a, t, last):
        for i, r in enumerate(self.repos):
            for o in self.content(i):
                if last and r.query(n=o.n) is not o:
                    return 'repository %d: query finds another object' % (i + 1)
