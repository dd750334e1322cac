"""Accessors.tla <-> get_/set_ methods along a chain of classes."""
from common import mk_class, enc, dec, kind

_classes = {}
_log = []
INC = {'A': 1, 'B': 10, 'E': 20}


def getter(lv):
    return lambda self: self.a + INC[lv]


def setter(lv):
    return lambda self, v: _log.append([lv, enc(v)])


def deleter(lv):
    # the value is still there
    def call(self):
        v = self._data.get('y')
        try:
            v = None if v is None else int(v)
        except ValueError:
            v = None
        _log.append(['del', lv, enc(v)])
    return call


def get_class(c):
    key = (c['lv'], tuple(sorted(c['get'])), tuple(sorted(c['set'])), tuple(sorted(c['redecl'])), c['lazy'])
    if key not in _classes:
        cls = None
        for lv in {'A': 'A', 'B': 'AB', 'E': 'ABE'}[c['lv']]:
            sch, attrs = {'type': 'object'}, {}
            if lv == 'A' or lv in c['redecl']:
                sch['properties'] = {'x': {'type': 'integer'}, 'y': {'type': 'integer'}}
            if lv == 'A':
                sch['properties']['a'] = {'type': 'integer', 'default': 1}
                sch['dependencies'] = {'x': ['a']}
            if lv == 'A' or lv in c['get']:
                attrs['get_x'] = getter(lv)
                attrs['del_y'] = deleter(lv)
            if lv == 'A' or lv in c['set']:
                attrs['set_y'] = setter(lv)
            cls = mk_class(sch, (cls,) if cls else (), _lazyLoading=c['lazy'], **attrs)
        _classes[key] = cls
    return _classes[key]


class Adapter:
    def __init__(self, params):
        self.o = None

    def step(self, a):
        del _log[:]
        try:
            r = ['ok', enc(self.do(a))]
        except Exception as er:
            k = kind(er)
            r = ['err', 'missing' if k in ('AttributeError', 'KeyError') else k]
        return r + [list(_log)]

    def do(self, a):
        op, door = a['op'], a.get('door')
        if op == 'new':
            self.o = get_class(a['cfg'])()
            del _log[:]
            return
        o, p = self.o, op[3]
        if op == 'dely':
            if door == 'pop':
                return o.pop('y')
            if door == 'attr':
                del o.y
            else:
                del o['y']
            return
        if op[:3] == 'get':
            return getattr(o, p) if door == 'attr' else o[p]
        if door == 'attr':
            setattr(o, p, dec(a['v']))
        else:
            o[p] = dec(a['v'])

    def probe(self, a, t, last):
        pass
