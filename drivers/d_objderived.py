"""ObjDerived.tla <-> ObjectProtocol: literal, derived and getter properties."""
import re

from common import mk_class, enc, dec, call, kind

EXTRA = {}


def text(e):
    form = e[1]
    if form == 'inc':
        return '`int(%s)+%d' % (name(e[2]), e[3])
    if form == 'add':
        return '`int(%s)+int(%s)' % (name(e[2]), name(e[3]))
    if form == 'tpl':
        return '{{%s}}' % name(e[2])
    if form == 'dup':
        return '{{%s}}-{{%s}}' % (name(e[2]), name(e[3]))
    raise ValueError(e)


# python names of the properties: some are also names of builtins
NAMES = {'a': 'id', 'b': 'max', 'g': 'type', 'u': 'format'}

PY = {v: k for k, v in NAMES.items()}


def name(p):
    return NAMES.get(p, p).replace('_', '.')


def pyval(v):
    return text(v) if v[0] == 'x' else dec(v)


def int_t(lo, hi, **kw):
    return dict({'type': 'integer', 'minimum': lo, 'maximum': hi}, **kw)


def str_t(mx, **kw):
    return dict({'type': 'string', 'maxLength': mx}, **kw)


_classes = {}


def get_class(idx, lazy):
    c = _classes.get((idx, lazy))
    if c:
        return c
    attrs = {'_lazyLoading': lazy}
    if idx == 1:
        sch = {'type': 'object', 'properties': {
            'a': int_t(0, 5),
            'b': int_t(0, 3, default='`int(a)+2'),
            'c': str_t(9, default='{{b}}'),
            'd': int_t(0, 9, default='`int(a)+int(b)')}}
    elif idx == 2:
        sch = {'type': 'object', 'properties': {
            'n': int_t(0, 5, default=1),
            'n1': int_t(0, 5, default=2),
            't': str_t(12, default='{{n}}-{{n1}}'),
            'u': int_t(0, 8, default='`int(n1)+int(n)')}}
    elif idx == 3:
        sch = {'type': 'object', 'properties': {
            'k': {'type': 'object', 'lazyLoading': lazy, 'properties': {'x': int_t(0, 5, default=1)}},
            'm': int_t(0, 6, default='`int(k.x)+1'),
            's': str_t(9, default='{{k.x}}'),
            'w': str_t(9, default='{{m}}')}}
    elif idx == 4:
        sch = {'type': 'object', 'properties': {
            'a': int_t(0, 5, default=1),
            'g': int_t(0, 9),
            'h': int_t(0, 6),
            'e': int_t(0, 20, default='`int(g)+int(a)')},
            'dependencies': {'g': ['a'], 'h': ['g']}}
        attrs['get_type'] = lambda self: self.id + 3
        attrs['get_h'] = lambda self: self.type + 1
    elif idx == 5:
        base = {'type': 'object', 'properties': {NAMES['a']: int_t(0, 5, default=1)}}
        attrs['bases'] = (mk_class(base, _lazyLoading=lazy),)
        sch = {'type': 'object', 'properties': {
            'r': int_t(0, 9, default='`int(a)+2'),
            'g': int_t(0, 12),
            's': str_t(9, default='{{r}}'),
            'b': int_t(0, 9, default='`int(r)+int(a)')},
            'readOnly': ['r'],
            'dependencies': {'g': ['r']}}
        attrs['get_type'] = lambda self: self.r + 1
    sub = lambda t: re.sub(r'\b([abgu])\b', lambda m: NAMES[m.group(1)], t) if isinstance(t, str) and t[:1] in '`{' else t
    for d in sch['properties'].values():
        if 'default' in d:
            d['default'] = sub(d['default'])
    sch['properties'] = {name(p): d for p, d in sch['properties'].items()}
    if 'dependencies' in sch:
        sch['dependencies'] = {name(p): [name(q) for q in d] for p, d in sch['dependencies'].items()}
    c = _classes[(idx, lazy)] = mk_class(sch, **attrs)
    return c


class Adapter:
    def __init__(self, params):
        self.o = None

    def step(self, a):
        op = a['op']
        if op == 'new':
            cls = get_class(a['cls'], a['lazy'])
            val = pyval(a['v'])
            init = {'k': {'x': val}} if a['p'] == 'k_x' else {name(a['p']): val}
            if a['cls'] == 3:
                init.setdefault('k', {})
            try:
                self.o = cls(init)
            except Exception as er:
                return ['err', kind(er)]
            return ['ok', ['n']]
        p, o = NAMES.get(a.get('p'), a.get('p')), self.o
        if op == 'get':
            if p == 'k_x':
                f = {'attr': lambda: o.k.x, 'item': lambda: o['k.x'], 'get': lambda: o.k.get('x')}[a['door']]
            else:
                f = {'attr': lambda: getattr(o, p), 'item': lambda: o[p], 'get': lambda: o.get(p)}[a['door']]
            r = call(f)
            if p == 'k_x' and a['door'] == 'item' and r == ['err', 'KeyError']:
                r = ['err', 'invalid']      # dotted access reports every failure as KeyError
            return r
        if op == 'set':
            v = pyval(a['v'])
            if p == 'k_x':
                if a['door'] == 'attr':
                    return call(setattr, o.k, 'x', v)
                r = call(o.__setitem__, 'k.x', v)
                return ['err', 'invalid'] if r == ['err', 'KeyError'] else r
            if a['door'] == 'attr':
                return call(setattr, o, p, v)
            return call(o.__setitem__, p, v)
        if op == 'items':
            try:
                d = dict(o.items())
                if 'k' in d:
                    d['k_x'] = d.pop('k').x
            except Exception as er:
                return ['err', kind(er)]
            return ['ok', {PY.get(k, k): enc(v) for k, v in d.items()}]
        raise ValueError(op)

    def probe(self, a, t, last):
        return None
