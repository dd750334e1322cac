"""Family.tla <-> parents, roots, canonical names of Instance objects."""
from common import mk_class, kind
from ngoschema.models.instances import Instance
from ngoschema.resolvers.uri_resolver import UriResolver

_c = {}


def classes(lazy):
    if lazy not in _c:
        doc = 'https://vf.org/family%d' % lazy
        i, p = doc + '#/$defs/I', doc + '#/$defs/P'
        UriResolver.register_doc({'$id': doc, '$defs': {
            'I': {'extends': [Instance._id], 'type': 'object', 'lazyLoading': lazy, 'properties': {
                'k': {'$ref': i}, 'ks': {'type': 'array', 'items': {'$ref': i}}, 'p': {'$ref': p},
                'v': {'type': 'integer'}, 'nm': {'type': 'string'}}},
            'P': {'type': 'object', 'lazyLoading': lazy, 'properties': {'k': {'$ref': i}}}}}, doc)
        cls = mk_class(None, bases=(Instance,), _id=i)
        _c[lazy] = type(cls(name='x', p={}).p), cls
    return _c[lazy]



class Adapter:
    def __init__(self, params):
        self.nodes = []

    def no(self, o):
        if o is None:
            return 0
        for i, x in enumerate(self.nodes):
            if x is o:
                return i + 1
        return 'not a known object: %s' % type(o).__name__

    def nm(self, name, **kw):
        return dict(kw, name='{{this.nm}}', nm=name) if self.der else dict(kw, name=name)

    def add(self, o):
        self.nodes.append(o)
        if isinstance(o, self.I):
            o.v = len(self.nodes)

    def step(self, a):
        self.P, self.I = classes(a['lazy'])
        self.der = a['der']
        try:
            self.do(a)
        except Exception as er:
            return ['err', kind(er), str(er)[:200]]
        for o in self.nodes:
            self.kids(o)   # lazy loading: everything is read once
        return ['ok', [self.look(i, x) for i, x in enumerate(a['res'][1])]]

    def do(self, a):
        op = a['op']
        n = self.nodes
        o = n[a['o'] - 1] if 'o' in a else None
        x = n[a['x'] - 1] if 'x' in a else None
        if op == 'new':
            self.add(self.I(self.nm(a['name'])) if a['t'] == 'I' else self.P())
        elif op == 'newtree':
            p, q, r = a['names']
            t = self.I(self.nm(p, k=self.nm(q), ks=[self.nm(r)]))
            self.add(t), self.add(t.k), self.add(t.ks[0])
        elif op == 'dictk':
            if a['door'] == 'attr':
                o.k = self.nm(a['name'])
            else:
                o['k'] = self.nm(a['name'])
            self.add(o.k)
        elif op == 'dictks':
            p, q = a['names']
            o.k = self.nm(p, ks=[self.nm(q)])
            self.add(o.k), self.add(o.k.ks[0])
        elif op == 'dictp':
            o.p = {'k': self.nm(a['name'])}
            self.add(o.p), self.add(o.p.k)
        elif op == 'appdict':
            o.ks.append(self.nm(a['name']))
            self.add(o.ks[len(o.ks) - 1])
        elif op == 'objk':
            o.k = x
        elif op == 'objp':
            o.p = x
        elif op == 'app':
            if a['pos'] == 'front':
                o.ks.insert(0, x)
            else:
                o.ks.append(x)
        elif op == 'setks':
            o.ks = [x]
        elif op == 'setitem':
            o.ks[a['i']] = x
        elif op == 'around':
            self.add(self.I(self.nm(a['name'], **{a['slot']: x if a['slot'] == 'k' else [x]})))
        elif op == 'delk':
            del o.k
        elif op == 'pop':
            del o.ks[0]
        elif op == 'rename':
            setattr(n[a['i'] - 1], 'nm' if self.der else 'name', a['name'])
        elif op == 'copy':
            c = n[a['i'] - 1].copy()
            c.ks = [c.ks[j] for j in range(len(c.ks))]   # copies share their arrays
            self.add(c)
        else:
            raise ValueError(op)

    def kids(self, o):
        ks = o.get('ks') if isinstance(o, self.I) else None
        return [self.no(o.get('k')), [self.no(ks[j]) for j in range(len(ks or []))],
                self.no(o.get('p')) if isinstance(o, self.I) else 0]

    def ids(self, f):
        try:
            return f()
        except Exception as er:
            return kind(er)

    def look(self, i, x):
        if i >= len(self.nodes):
            return 'no such node'
        o = self.nodes[i]
        r = {'kids': self.kids(o), 'att': x['att']}
        if 'root' in x:
            r['par'] = self.no(o._parent)
            r['root'] = self.no(o._root)
        if 'pi' in x:
            st = str(o)
            r['pi'] = self.no(o._parentInstance)
            r['cn'] = o.canonicalName
            for s in (str(o), repr(o)):
                if o.name not in s:
                    r['cn'] = s
            if ' %s>' % x['cn'] not in st:
                r['cn'] = 'str: ' + st
        if 'reach' in x:
            got = []
            for e in x['reach']['set']:
                ids = e['ids']['set']
                j = self.ids(lambda: self.no(o.resolve_cname(e['path'])))
                v = self.ids(lambda: o.resolve_cname(e['path'].split('.') + ['v']))
                # v holds the number of the node (copies share it)
                ok = j in ids and v in [self.nodes[q - 1].v for q in ids]
                got.append(e if ok else {'path': e['path'], 'ids': [j, v]})
            r['reach'] = {'set': got}
            miss = []
            for m in x['missing']['set']:
                j = self.ids(lambda: self.no(o.resolve_cname(m)))
                miss.append(m if isinstance(j, str) else [m, j])
            r['missing'] = {'set': miss}
        return r

    def probe(self, a, t, last):
        return None
