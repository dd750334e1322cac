"""ObjSerial.tla <-> do_serialize of ObjectProtocol."""
from common import mk_class, call, kind, enc
from collections import OrderedDict

_classes = {}
INT = {'type': 'integer'}


def get_class(cfg):
    key = (cfg['lazy'], cfg['inherited'])
    if key not in _classes:
        lz = cfg['lazy']
        kid = {'type': 'object', 'lazyLoading': lz, 'notSerialized': ['kn'], 'readOnly': ['rr'],
               'properties': {'x': {'type': 'integer', 'default': 1}, 'kn': INT,
                              'rr': {'type': 'integer', 'default': 7}}}
        props = OrderedDict([
            ('r', INT), ('d', {'type': 'integer', 'default': 4}), ('ro', {'type': 'integer', 'default': 7}),
            ('ns', INT), ('o', INT), ('e', {'type': 'integer', 'default': '`int(r)+1'}),
            ('k', dict(kid)), ('k2', dict(kid)),
            ('m', {'type': 'array', 'items': {
                'type': 'object', 'lazyLoading': lz, 'readOnly': ['q'], 'properties': {
                    'y': INT, 'z': {'type': 'integer', 'default': 3}, 'q': {'type': 'integer', 'default': 8}}}})])
        extra = {'required': ['r'], 'readOnly': ['ro'], 'notSerialized': ['ns'],
                 'aliases': {'al': 'd'}, 'negatedAliases': {'ng': 'r'}}
        if cfg['inherited']:
            low = OrderedDict((k, props.pop(k)) for k in ('o', 'e', 'm'))
            c = mk_class(dict({'type': 'object', 'properties': props}, **extra), _lazyLoading=lz)
            c = mk_class({'type': 'object', 'properties': low}, bases=(c,), _lazyLoading=lz)
        else:
            c = mk_class(dict({'type': 'object', 'properties': props}, **extra), _lazyLoading=lz)
        _classes[key] = c
    return _classes[key]


def plain(v):
    if isinstance(v, dict):
        if type(v) not in (dict, OrderedDict):
            return ['o', 'instance of ' + type(v).__name__]
        return ['o', {k: plain(x) for k, x in v.items()} or []]
    if isinstance(v, (list, tuple)):
        return ['l', [plain(x) for x in v]]
    return enc(v)


def reads(o):
    return {'r': enc(o.r), 'd': enc(o.d), 'ro': enc(o.ro), 'o': enc(o.o), 'e': enc(o.e),
            'kx': enc(o.k.x), 'mz': enc(o.m[0].z), 'ns': enc(o.ns),
            'rr': enc(o.k.rr), 'rr2': enc(o.k2.rr), 'q': enc(o.m[1].q)}


class Adapter:
    def __init__(self, params):
        self.o = None

    def step(self, a):
        op, o = a['op'], self.o
        if op == 'new':
            self.cls = get_class(a['cfg'])
            try:
                self.o = self.cls({'r': 1, 'k': {'kn': 4}, 'k2': {'kn': 4, 'rr': 5}, 'm': [{'y': 1, 'q': 9}, {'y': 2, 'q': 9}]})
            except Exception as er:
                return ['err', kind(er)]
            return ['ok', ['n']]
        if op == 'set':
            s, v = a['s'], a['v']
            if s == 'kx':
                return call(setattr, o.k, 'x', v)
            if s == 'kn':
                return call(setattr, o.k, 'kn', v)
            if s == 'mz':
                return call(setattr, o.m[0], 'z', v)
            return call(setattr, o, s, v)
        if op == 'ser':
            p = a['o']
            kw = {}
            # passing an option explicitly or not at all must be the same
            if p['ex']:
                kw['excludes'] = sorted(p['ex'])
            if p['only']:
                kw['only'] = sorted(p['only'])
            if not p['nd']:
                kw['no_defaults'] = False
            if p['nro']:
                kw['no_readOnly'] = True
            try:
                r = o.do_serialize(**kw)
            except Exception as er:
                return ['err', kind(er)]
            if kw.get('excludes', sorted(p['ex'])) != sorted(p['ex']):
                return ['err', 'the excludes of the caller were changed']
            return ['ok', plain(r)[1]]
        if op == 'round':
            try:
                n = self.cls(o.do_serialize(no_defaults=a['nd']))
                return ['ok', reads(n)]
            except Exception as er:
                return ['err', kind(er)]

    def probe(self, a, t, last):
        if last and self.o is not None:
            st = t['st']
            i = lambda n: ['i', n] if n else ['n']
            exp = {'r': i(st['r']), 'd': i(st['d']), 'ro': i(7), 'o': i(st['o']),
                   'e': i(st['e'] or st['r'] + 1), 'kx': i(st['kx']), 'mz': i(st['mz']), 'ns': i(st['ns']),
                   'rr': i(7), 'rr2': i(5), 'q': i(9)}
            got = reads(self.o)
            if exp != got:
                return 'specification %s, code %s' % (exp, got)
