"""Expand.tla <-> type_builder.expand, on documents registered for the history."""
import copy
from common import kind
from ngoschema.managers.type_builder import type_builder
from ngoschema.resolvers.uri_resolver import UriResolver, resolve_uri

URIS = {'d1': 'https://numengo.org/vfexpa', 'd2': 'https://numengo.org/vfexpb'}


def uid(d):
    return '%s#/$defs/%s' % (URIS['d2' if d == 'C' else 'd1'], d)


def definition(d, c):
    sch = {'type': 'object', 'properties': {}}
    for p in c[d]:
        sch['properties'][p] = {'x': {'type': 'integer', 'title': d},
                                'r': {'$ref': '#/$defs/R', 'title': d},
                                'l': {'type': 'array', 'title': d, 'items': {'$ref': '#/$defs/R'}}}[p]
    if 'r' in c[d]:
        sch['required'] = ['r']
    ext = {'A': [], 'B': c['eb'], 'C': c['ec']}[d]
    if ext:
        sch['extends'] = [uid(e) if d == 'C' else '#/$defs/' + e for e in ext]
    return sch


class Adapter:
    def __init__(self, params):
        self.docs = None

    def close(self):
        for u in URIS.values():
            UriResolver.get_doc_store().pop(u, None)

    def step(self, a):
        c = a['cfg']
        if self.docs is None:
            docs = {'d1': {'$defs': {'A': definition('A', c), 'B': definition('B', c), 'R': {'type': 'string'}}},
                    'd2': {'$defs': {'C': definition('C', c), 'R': {'type': 'integer'}}}}
            self.docs = copy.deepcopy(docs)
            for k, u in URIS.items():
                UriResolver.register_doc(docs[k], u)
        try:
            e = type_builder.expand(uid(a['d']))
            return ['ok', [self.name(i) for i in e.get('extends', [])],
                    [[p, s['title'], self.target(p, s)] for p, s in sorted(dict(e.get('properties', {})).items())],
                    'r' in e.get('required', [])]
        except Exception as er:
            return ['err', kind(er)]

    @staticmethod
    def name(i):
        u, f = i.split('#')
        return [f.split('/')[-1], {v: k for k, v in URIS.items()}.get(u, u)]

    def target(self, p, s):
        if p == 'x':
            return ''
        n, d = self.name((s if p == 'r' else s['items'])['$ref'])
        return d if n == 'R' else n

    def probe(self, a, t, last):
        if self.docs is not None:
            for k, u in URIS.items():
                if resolve_uri(u) != self.docs[k]:
                    return 'the document %s has been changed: %s' % (k, resolve_uri(u))
