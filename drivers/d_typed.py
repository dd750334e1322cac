"""Typed.tla <-> a property of every type."""
import datetime
import decimal
from collections.abc import Mapping, Sequence
from common import mk_class, kind

_classes = {}


def schema(t):
    t = dict(t)
    ty = t.pop('t')
    items = t.pop('items', None)
    if ty == 'any':
        return {}
    if ty == 'enum':
        return {'enum': t['enum']}
    if ty == 'array':
        return {'type': 'array', 'items': schema(items)}
    if ty == 'object':
        return {'type': 'object', 'properties': {'x': schema(items)}, 'additionalProperties': False}
    if 'anyOf' in t:
        t['anyOf'] = [{'maximum': t['anyOf'][0]}, {'minimum': t['anyOf'][1]}]
    return dict(t, type=ty)


def py(v):
    k = v[0]
    if k == 'n':
        return None
    if k in ('i', 's', 'b'):
        return v[1]
    if k == 'f':
        return v[1] / 10.0
    if k == 'l':
        return [py(x) for x in v[1]]
    if k == 'o':
        return {a: py(b) for a, b in (v[1] or {}).items()}
    raise ValueError(v)


def tag(v):
    if v is None:
        return ['n']
    if isinstance(v, bool):
        return ['b', v]
    if isinstance(v, int):
        return ['i', v]
    if isinstance(v, str):
        return ['s', v]
    if isinstance(v, float):
        return ['f', int(round(v * 10))]
    if isinstance(v, decimal.Decimal):
        return ['d', int(round(v * 10))]
    if isinstance(v, datetime.date):
        return ['date', v.isoformat()]
    if isinstance(v, Mapping):
        return ['o', {k: tag(v[k]) for k in v} or []]
    if isinstance(v, Sequence):
        return ['l', [tag(v[i]) for i in range(len(v))]]
    return ['?', type(v).__name__]


def bad(er):
    return ['err', 'invalid' if not isinstance(er, AssertionError) else 'AssertionError']


def run(f):
    try:
        return ['ok', tag(f())]
    except Exception as er:
        return bad(er)


def direct(via, sch, v):
    from ngoschema.managers.type_builder import type_builder
    from ngoschema.types import Primitive, Enum
    from ngoschema.decorators import assert_arg
    sch = dict(sch)
    ty = Enum if 'enum' in sch else type_builder.get_type(sch['type']) if 'type' in sch else Primitive
    if via == 'call':
        return ty(**sch)(v)
    if via == 'serialized':
        t = ty(**sch)
        return t(t(v, serialize=True))
    if via == 'arg':
        return assert_arg(0, ty, **sch)(lambda x: x)(v)
    return ty.extend_type('VfDirect', **sch)()(v)


class Adapter:
    def __init__(self, params):
        self.o = None

    def step(self, a):
        op, o = a['op'], self.o
        if op == 'new':
            c = a['cfg']
            key = (c['ty'], c['lazy'], c['inherited'])
            if key not in _classes:
                sch = {'type': 'object', 'properties': {'p': schema(a['sch']), 'w': {'type': 'integer'}}}
                cls = mk_class(sch, _lazyLoading=c['lazy'])
                if c['inherited']:
                    cls = mk_class({'type': 'object', 'properties': {'q': {'type': 'integer'}}}, bases=(cls,), _lazyLoading=c['lazy'])
                _classes[key] = cls
            d = {'w': 1}
            if a['v'] != ['n']:
                d['p'] = py(a['v'])
            try:
                self.o = _classes[key](d)
            except Exception as er:
                return bad(er)
            return ['ok', ['n']]
        if op == 'direct':
            return run(lambda: direct(a['via'], schema(a['sch']), py(a['v'])))
        if op == 'get':
            return run({'attr': lambda: o.p, 'item': lambda: o['p'], 'get': lambda: o.get('p')}[a['door']])
        if op == 'set':
            v = py(a['v'])
            return run({'attr': lambda: setattr(o, 'p', v), 'item': lambda: o.__setitem__('p', v),
                        'update': lambda: o.update({'p': v})}[a['door']])
        if op == 'inner':
            v, k = py(a['v']), a['kind']
            return run({'x': lambda: setattr(o.p, 'x', v), 'first': lambda: o.p.__setitem__(0, v),
                        'append': lambda: o.p.append(v)}[k])
        if op == 'getw':
            return run(lambda: o.w)
        if op == 'setw':
            return run(lambda: setattr(o, 'w', a['v']))

    def probe(self, a, t, last):
        if last and t['obj'] == 'live':
            r = run(lambda: self.o.w)
            if r != ['ok', ['i', t['w']]]:
                return 'witness %s' % r
