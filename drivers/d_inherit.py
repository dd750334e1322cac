"""Inherit.tla <-> classes composed by inheritance."""
import itertools
from common import mk_class, enc, dec, kind

_u = itertools.count()


def schema(body):
    props = {}
    for k, p in (body['props'] or {}).items():
        props[k] = {'type': p['t']}
        if p['d'] != ['n']:
            props[k]['default'] = dec(p['d'])
    s = {'type': 'object', 'properties': props}
    for f, n in (('req', 'required'), ('ro', 'readOnly'), ('ns', 'notSerialized')):
        if body[f]:
            s[n] = list(body[f])
    for f, n in (('al', 'aliases'), ('ng', 'negatedAliases')):
        if body[f]:
            s[n] = dict(body[f])
    if body['pat']:
        s['patternProperties'] = {'^%s_' % k: {'type': 'integer', 'maximum': {'p': 5, 'q': 6}[k]} for k in body['pat']}
    return s


def raises(f):
    try:
        f()
    except Exception as er:
        return True
    return False


def trans(k):
    return k.replace('-', '_')


class Adapter:
    def __init__(self, params):
        self.cls = []
        self.names = []
        self.pre = 'Inh%d_' % next(_u)

    def step(self, a):
        if a['op'] == 'def':
            s = schema(a['body'])
            bs = [i - 1 for i in a['bs']]
            py = bs if a['via'] == 'python' else [] if a['via'] == 'extends' else bs[:1]
            ext = [i for i in bs if i not in py]
            if ext:
                s['extends'] = [self.names[i] for i in ext]
            before = repr(s)
            name = self.names[0] if a['renamed'] else self.pre + str(a['n'])
            attrs = {k: dec(v) for k, v in (a['body']['attr'] or {}).items()}
            c = mk_class(s, bases=tuple(self.cls[i] for i in py), name=name, **attrs)
            if repr(s) != before:
                return ['err', 'the schema given was altered']
            self.cls.append(c)
            self.names.append(name)
            return ['ok', ['n']]
        return ['ok', self.observe(self.cls[a['i'] - 1], a['res'][1])]

    def observe(self, c, exp):
        o = c({})
        names = sorted(o)
        r = {'reads': {k: enc(o[k]) for k in names}}
        r['ro'] = {k: raises(lambda: o.__setitem__(k, o[k])) for k in names}
        for k in names:
            if not r['ro'][k]:
                if len(k) % 2:
                    setattr(o, trans(k), '5')
                else:
                    o[k] = '5'
        r['after'] = {k: enc(getattr(o, trans(k))) for k in names}
        r['al'] = {k: enc(getattr(o, k)) for k in ('z', 'zz')}
        r['zn'] = enc(o.zn)
        r['ser'] = {k: enc(v) for k, v in o.do_serialize(no_defaults=False).items()}
        r['z'] = ['n']
        if exp['z'] != ['n']:
            o['z'] = '6'
            # what was reached through z, whose name is the expectation's business, reads the same by z
            r['z'] = enc(o['z'])
            if r['z'] != exp['z'] or sum(1 for k in names if enc(o[k]) == r['z']) != 1 or len(o) != len(names):
                r['z'] = ['written through z', {k: enc(o[k]) for k in o}]
        r['pat'] = {}
        for k, over in (('p', 6), ('q', 7)):
            n = k + '_1'
            o[n] = str(over - 1)
            got = enc(o[n])
            r['pat'][k] = got == enc(over - 1) and raises(lambda: o.__setitem__(n, over))
            if not r['pat'][k] and got != enc(str(over - 1)):
                r['pat'][k] = [got]
            del o[n]
        o2 = c({})
        r['req'] = {k: raises(lambda: o2.__delitem__(k)) for k in names}
        r['subs'] = [issubclass(c, d) and isinstance(o, d) for d in self.cls]
        # an empty function of the specification comes as an empty list
        for k in ('reads', 'after', 'ro', 'req', 'ser'):
            if not r[k]:
                r[k] = []
        return r

    def probe(self, a, t, last):
        return None
