"""Spaces.tla <-> NamespaceManager."""
import itertools

from common import kind
from ngoschema.managers.namespace_manager import NamespaceManager
from ngoschema.resolvers.uri_resolver import UriResolver

_n = itertools.count()


def defs():
    return {'$defs': {
        'T': {'type': 'object', '$defs': {'In': {'type': 'object'}},
              'properties': {'p': {'type': 'object', 'properties': {'q': {'type': 'string'}}}}},
        'Tt': {'type': 'object'}, 'moda': {'type': 'object'},
        'mod': {'$defs': {'V': {'type': 'object', '$defs': {'W': {'type': 'string'}}}}}}}


class Adapter:
    def __init__(self, params):
        self.parent = NamespaceManager()
        self.m = NamespaceManager(self.parent)
        self.docs = []
        # the store of documents is global
        self.k = next(_n)

    def enc(self, u):
        return u.replace('q-w', 'q-w%d' % self.k).replace('@', 'vf%d' % self.k).replace('q_w', 'q_w%d' % self.k)

    def probe(self, a, t, last):
        return None

    def close(self):
        for u in self.docs:
            UriResolver.unregister_doc(u)

    def absolute(self, i):
        """an identifier in the current document is a fragment"""
        if i is None:
            return None
        if i.startswith('#'):
            i = self.m.currentNsUri.split('#')[0] + i
        return i.rstrip('#')

    def step(self, a):
        op = a['op']
        try:
            if op in ('register', 'unregister'):
                u = self.enc({'a': 'https://q-w.org/3/a', 'ab': 'https://q-w.org/3/ab', 'sub': 'https://q-w.org/3/a/b-c/1',
                              'ms': 'https://numengo.org/@'}[a['d']])
                if op == 'register':
                    UriResolver.register_doc(defs(), u)
                    self.docs.append(u)
                else:
                    UriResolver.unregister_doc(u)
                    self.docs.remove(u)
            elif op == 'add':
                m = self.m if a['where'] == 'local' else self.parent
                if a['name']:
                    m.add(self.enc(a['u']), self.enc(a['name']))
                else:
                    m.add(self.enc(a['u']))
            elif op == 'current':
                self.m.set_current(self.enc(a['name']))
            return ['ok', self.look(a['res'][1])]
        except Exception as er:
            return ['err', kind(er), str(er)[:200]]

    def tryit(self, f, *args, **kw):
        try:
            return f(*args, **kw)
        except Exception as er:
            return '!' + kind(er) + str(er)[:80]

    def look(self, x):
        m = self.m
        cn, asked, local = [], [], []
        for e in x['cn']['set']:
            i = self.enc(e['id'])
            names = [self.enc(n) for n in e['cn']['set']]
            forms = [i] if '#' in i else [i, i + '#']
            bad = None
            for f in forms:
                n = self.tryit(m.get_id_cname, f)
                if n not in names:
                    bad = ['name', f, n]
                    continue
                back = self.absolute(self.tryit(m.get_cname_id, n))
                if back != i:
                    bad = ['back', f, n, back]
                if n and n not in m:
                    bad = ['contains', n]
                r = self.tryit(m.get_id_cname, f, relative=True)
                if m.currentNs and (n + '.').startswith(m.currentNs + '.'):
                    full = m.currentNs + ('.' + r if r else '')
                    if full != n or (r and self.absolute(self.tryit(m.get_cname_id, '.' + r)) != i):
                        bad = ['relative', f, n, r]
                elif r != n:
                    bad = ['relative', f, n, r]
            cn.append(bad or e)
        for q, i in x['asked']['set']:
            got = self.absolute(self.tryit(m.get_cname_id, self.enc(q)))
            asked.append([q, i] if got == self.enc(i).rstrip('#') else [q, got])
        for q, i in x['local']['set']:
            got = self.tryit(m.get_cname_id, q)
            dot = self.tryit(m.get_cname_id, '.' + q)
            local.append([q, i] if self.absolute(got) == self.absolute(dot) == self.enc(i) else [q, got, dot])
        ns = m.namespaces()
        spaces = [s for s in x['spaces']['set'] if self.enc(s) in ns]
        un = []
        known = [self.enc(s) for s in x['spaces']['set'] if s]
        for n, u in x['un']['set']:
            e = [n, u]
            if self.enc(n) in m or self.enc(n) + '.T' in m:
                e = ['contains', n]
            r = self.tryit(m.get_id_cname, self.enc(u) + '#/$defs/T')
            if any((r + '.').startswith(k + '.') for k in known):
                e = ['named', u, r]
            un.append(e)
        if any(n in m for n in ('alx', 'alx.T', 'al.phax')[:2 if 'al' in known else 3]):
            un.append('contains')
        c = x['cur']
        if [m.currentNs, m.currentNsUri.rstrip('#')] != [self.enc(c[0]), self.enc(c[1]).rstrip('#')]:
            c = [m.currentNs, m.currentNsUri]
        return {'un': {'set': un}, 'cn': {'set': cn}, 'asked': {'set': asked}, 'local': {'set': local}, 'cur': c, 'spaces': {'set': spaces}}
