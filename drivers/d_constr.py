"""Constr.tla <-> a property whose schema combines several keywords."""
import decimal
from collections.abc import Sequence
from common import mk_class
from ngoschema.resolvers.uri_resolver import UriResolver

_classes = {}

CL = {
    'min0': {'minimum': 0}, 'max4': {'maximum': 4}, 'xmin0': {'exclusiveMinimum': 0}, 'xmax4': {'exclusiveMaximum': 4},
    'mul2': {'multipleOf': 2}, 'const4': {'const': 4}, 'enum0123': {'enum': [0, 1, 2, 3]},
    'all': {'allOf': [{'minimum': 1}, {'maximum': 5}]},
    'any': {'anyOf': [{'maximum': 1}, {'minimum': 4}]},
    'one': {'oneOf': [{'maximum': 4}, {'minimum': 2}]},
    'not': {'not': {'minimum': 2, 'maximum': 3}},
    'if': {'if': {'minimum': 3}, 'then': {'maximum': 4}, 'else': {'minimum': 1}},
}
SCL = {
    'minl2': {'minLength': 2}, 'maxl3': {'maxLength': 3}, 'pat': {'pattern': '^a'}, 'constab': {'const': 'ab'},
    'enum': {'enum': ['ab', 'b', 'abcd']},
    'all': {'allOf': [{'minLength': 1}, {'maxLength': 2}]},
    'any': {'anyOf': [{'maxLength': 1}, {'minLength': 4}]},
    'one': {'oneOf': [{'pattern': '^a'}, {'pattern': 'b$'}]},
    'not': {'not': {'pattern': 'b$'}},
}


def define(sch):
    uri = 'http://vf.test/constr%d' % len(_classes)
    UriResolver.register_doc({'$id': uri, '$defs': {'D': sch}}, uri)
    return uri + '#/$defs/D'


def build(c):
    cl, table = sorted(c['cl']), SCL if c['t'] == 'string' else CL
    sch = {'type': c['t']}
    first = dict(sch, **table[cl[0]]) if cl else sch
    rest = {}
    for x in cl[1:]:
        rest.update(table[x])
    whole = dict(first, **rest)
    out = {'type': 'object', 'properties': {}}
    if c['place'] == 'prop':
        out['properties']['p'] = whole
    elif c['place'] == 'item':
        out['properties']['p'] = {'type': 'array', 'items': whole}
    elif c['place'] == 'def':
        out['properties']['p'] = {'$ref': define(whole)}
    else:                                  # a definition, restricted further where it is used
        out['properties']['p'] = dict({'$ref': define(first)}, **rest)
    return mk_class(out, _lazyLoading=c['lazy'])


def py(v, t):
    if v[0] == 'l':
        return [py(x, t) for x in v[1]]
    if v[0] == 's':
        return v[1]
    return v[1] // 10 if v[1] % 10 == 0 else v[1] / 10.0


def tag(v):
    if isinstance(v, str):
        return ['s', v]
    if isinstance(v, (int, float, decimal.Decimal)) and not isinstance(v, bool):
        return ['f', int(round(v * 10))]
    if isinstance(v, Sequence):
        return ['l', [tag(v[i]) for i in range(len(v))]]
    return ['?', type(v).__name__]


class Adapter:
    def __init__(self, params):
        self.o = None

    def step(self, a):
        op, o = a['op'], self.o
        try:
            if op == 'new':
                c = self.c = a['cfg']
                key = (c['t'], c['place'], c['lazy'], tuple(sorted(c['cl'])))
                if key not in _classes:
                    _classes[key] = build(c)
                self.cls = _classes[key]
                self.o = self.cls({'p': py(a['v'], c['t'])})
                return ['ok', ['n']]
            if op == 'set':
                o.p = py(a['v'], self.c['t'])
                return ['ok', ['n']]
            if op == 'get':
                return ['ok', tag(o.p)]
            if op == 'check':
                t = self.cls.items_type('p')
                return ['ok', ['b', bool(t.check(py(a['v'], self.c['t']), convert=True, validate=True))]]
        except Exception as er:
            return ['err', 'invalid']

    def probe(self, a, t, last):
        return None
