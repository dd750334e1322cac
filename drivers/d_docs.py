"""Docs.tla <-> document store, resolve_uri, Uri."""
import itertools
import json
import os
import tempfile
from urllib.parse import urljoin

from jsonschema.exceptions import RefResolutionError
from common import kind
from ngoschema.exceptions import InvalidValue
from ngoschema.loaders.schemas import load_schema, load_schema_file
from ngoschema.resolvers.uri_resolver import UriResolver, resolve_uri, relative_url, scope
from ngoschema.types.uri import Uri

_n = itertools.count()
_T = Uri()


def build(v):
    if v[0] == 'o':
        return {k: build(x) for k, x in v[1]}
    if v[0] == 'l':
        return [build(x) for x in v[1]]
    return None if v[0] == 'n' else v[1]


def tagged(v):
    if isinstance(v, dict):
        return ['o', [[k, tagged(x)] for k, x in v.items()]]
    if isinstance(v, list):
        return ['l', [tagged(x) for x in v]]
    return ['n'] if v is None else ['s', v] if isinstance(v, str) else ['i', v]


class Adapter:
    def __init__(self, params):
        self.base = 'vf%d.org/docs' % next(_n)   # the store is global
        self.docs = {}

    def uri(self, u, sp):
        p = '%s/%s' % (self.base, ['', 'a', 'a/b', 'aB'][u])
        return ['http://' + p, 'HTTP://' + p[0].upper() + p[1:], 'http://' + p + '#'][sp]

    def probe(self, a, t, last):
        return None

    def close(self):
        for u in (1, 2, 3):
            UriResolver.unregister_doc(self.uri(u, 0))

    def step(self, a):
        try:
            return ['ok', self.do(a)]
        except Exception as er:
            return ['err', kind(er), str(er)[:200]]

    def do(self, a):
        op = a['op']
        if op == 'static':
            b, t = a['base'], a['target']
            return [urljoin(b, relative_url(t, b)), scope('#/$defs/T', b + '#/$defs/U'),
                    scope(t + '#/$defs/T', b + '#'), scope(t, b)]
        if op == 'look':
            return [self.look(i + 1, x, a) for i, x in enumerate(a['res'][1])]
        u = a['u']
        if op == 'unregister':
            UriResolver.unregister_doc(self.uri(u, a['sp']))
            self.docs.pop(u, None)
        elif op == 'amend':
            self.docs[u].clear()
            self.docs[u].update(build(a['doc']))
        else:
            doc, uri, door = build(a['doc']), self.uri(u, a['sp']), a['door']
            if door == 'register':
                UriResolver.register_doc(doc, uri)
            elif door == 'item':
                UriResolver.get_doc_store()[uri] = doc
            elif door == 'file':
                d = tempfile.mkdtemp(prefix='vfdocs')
                p = os.path.join(d, 'x.json')
                try:
                    with open(p, 'w') as fh:
                        json.dump(dict(doc, **{'$id': uri}), fh)
                    got, doc = load_schema_file(p)
                finally:
                    os.remove(p)
                    os.rmdir(d)
                assert got == uri, got
                doc.pop('$id')
            else:
                doc['$id'] = uri + ('#' if door == 'load#' else '')
                store = {}
                got, sch = load_schema(doc, store)
                assert got == uri and sch is doc and store == {uri: doc}, got
                del doc['$id']
            self.docs[u] = doc
        return ['n']

    def look(self, u, x, a):
        uri = self.uri(u, a['sp'])
        r = []
        for f, want in x['at']['set']:
            try:
                if a['door'] == 'given':
                    if u not in self.docs:
                        r.append([f, want])
                        continue
                    v = resolve_uri(f or '#', doc=self.docs[u])
                else:
                    full = uri.rstrip('#') + f if f else uri
                    if a['door'] == 'resolver':
                        if u not in self.docs or '/-1' in f or f == '#/s/0':
                            # jsonschema counts from the end, and the letters of a text
                            r.append([f, want])
                            continue
                        v = UriResolver.create(full).resolve(full)[1]
                    else:
                        v = resolve_uri(full) if a['door'] == 'function' else _T.resolve(full)
                    if not f and v is not self.docs[u]:
                        v = 'another document'
                r.append([f, ['ok', tagged(v)]])
            except Exception as er:
                r.append([f, ['err', 'refused' if isinstance(er, (InvalidValue, RefResolutionError)) or type(er) is Exception else kind(er)]])
        return {'here': uri in UriResolver.get_doc_store(), 'at': {'set': r}}
