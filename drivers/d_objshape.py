"""ObjShape.tla <-> ObjectProtocol: required, read-only, pattern and additional properties."""
from common import mk_class, call, kind, dec

_classes = {}


def get_class(cfg):
    key = (cfg['add'], cfg['lazy'], cfg['from'], cfg['pat'])
    if key not in _classes:
        add = {'true': True, 'false': False, 'int': {'type': 'integer', 'maximum': 5}}[cfg['add']]
        sch = {'type': 'object', 'additionalProperties': add,
               'required': ['r'], 'readOnly': ['ro'],
               'properties': {'r': {'type': 'integer'}, 'd': {'type': 'integer', 'default': 4},
                              'ro': {'type': 'integer', 'default': 7}, 'o': {'type': 'integer'}},
               }
        if cfg['pat']:      # (its presence makes a class evaluate its items at construction)
            sch['patternProperties'] = {'^p_[0-9]': {'type': 'integer', 'maximum': 5}}
        lz = {'_lazyLoading': cfg['lazy']}
        top = {'type': 'object', 'additionalProperties': add}
        frm = cfg['from']
        if frm == 'extends':
            name = 'ShapeBase%s' % len(_classes)
            mk_class(sch, name=name, **lz)
            c = mk_class(dict(top, extends=[name]), **lz)
        else:
            c = mk_class(sch, **lz)
        if frm == 'base':
            c = mk_class(top, bases=(c,), **lz)
        elif frm == 'second':
            first = mk_class({'type': 'object', 'properties': {}, 'patternProperties': {'^never$': {'type': 'string'}}}
                             if cfg['pat'] else {'type': 'object', 'properties': {}}, **lz)
            c = mk_class(top, bases=(first, c), **lz)
        elif frm == 'grand':
            mid = mk_class(dict(top, readOnly=[], required=[]), bases=(c,), **lz)
            c = mk_class(dict(top), bases=(mid,), **lz)
        _classes[key] = c
    return _classes[key]


class Adapter:
    def __init__(self, params):
        self.o = None

    def step(self, a):
        op, o, s = a['op'], self.o, a.get('s')
        if op == 'new':
            d = {'r': 1}
            if a['extra'] != '-':
                d[a['extra']] = dec(a['v'])
            try:
                self.o = get_class(a['cfg'])(d)
            except Exception as er:
                k = kind(er)
                return ['err', 'reject' if k in ('invalid', 'KeyError', 'AttributeError') else k]
            return ['ok', ['n']]
        if op == 'get':
            r = call({'attr': lambda: getattr(o, s), 'item': lambda: o[s], 'get': lambda: o.get(s, 'dflt')}[a['door']])
            if a['door'] == 'attr' and a['res'] == ['err', 'absent'] and r in (['err', 'KeyError'], ['err', 'AttributeError']):
                r = ['err', 'absent']
            return r
        if op == 'set':
            v = dec(a['v'])
            return call({'attr': lambda: setattr(o, s, v), 'item': lambda: o.__setitem__(s, v),
                         'update': lambda: o.update({s: v})}[a['door']])
        if op == 'del':
            r = call({'attr': lambda: delattr(o, s), 'item': lambda: o.__delitem__(s)}[a['door']])
            if s != 'r' and r in (['err', 'KeyError'], ['err', 'AttributeError']):
                r = ['err', 'absent']
            return r
        if op == 'in':
            return call(lambda: s in o)
        if op == 'keys':
            ks = list(o)
            exp = a['res'][1]
            return ['ok', exp if sorted(exp) == sorted(ks) else ks, len(o)]

    def probe(self, a, t, last):
        return None
