"""DerivedDeep.tla <-> properties derived from inputs several levels down."""
from common import mk_class, call

STR = {'type': 'string'}
INT = {'type': 'integer', 'minimum': 0, 'maximum': 99}
_classes = {}


def get_class(c):
    key = (c['lo'], c['la'])
    if key in _classes:
        return _classes[key]
    s = lambda d: dict(STR, default=d)
    i = lambda d: {'type': 'integer', 'default': d}
    inner = {'type': 'object', 'lazyLoading': c['lo'], 'properties': {'z': dict(INT)}}
    props = {
        'f': s('{{s}}{{n}}'),
        's': i('`sum(v for r in m for v in r)'),
        't': s('{% for r in m %}{% for v in r %}{{v}},{% endfor %};{% endfor %}'),
        'k': s('z{{c.b.z}}'), 'c2': i('`c.b.z+len(m[0])'),
        'n': s('{% for v in q %}{{v}},{% endfor %}'), 'e': s('d{{d.w[0]}}'),
        'm': {'type': 'array', 'lazyLoading': c['la'],
              'items': {'type': 'array', 'lazyLoading': c['la'], 'items': dict(INT)}},
        'c': {'type': 'object', 'lazyLoading': c['lo'], 'properties': {'b': inner}}}
    _classes[key] = mk_class({'type': 'object', 'properties': props}, _lazyLoading=c['lo'])
    return _classes[key]


class Adapter:
    def __init__(self, params):
        self.o = None

    def step(self, a):
        op = a['op']
        if op == 'new':
            r = a['raw']
            self.o = get_class(a['cfg'])(m=[list(x) for x in r['m']], c={'b': {'z': r['z']}},
                                         q=list(r['q']), d={'w': [r['d']]})
            return ['ok', ['n']]
        o, v, d = self.o, a.get('v'), a.get('door')
        if op == 'get':
            return call(getattr, o, {'c': 'c2'}.get(a['p'], a['p']))
        if op == 'mitem':
            if d == 'path':
                return call(o.__setitem__, 'm[0][0]', v)
            if d == 'row':
                return call(o.m.__setitem__, 0, [v] + [int(x) for x in o.m[0]][1:])
            row = o.m[0]
            if d == 'held':
                o.s, o.t        # read while the row is held
            return call(row.__setitem__, 0, v)
        if op == 'mappend':
            return call(o.m[0].append, 2)
        if op == 'mpop':
            if d == 'pop':
                o.m[0].pop()
            else:
                del o.m[0][1]
        elif op == 'mgrow':
            return call(o.m.append, [1])
        elif op == 'mshrink':
            o.m.pop()
        elif op == 'setz':
            if d == 'path':
                return call(o.__setitem__, 'c.b.z', v)
            if d == 'inner':
                return call(setattr, o.c, 'b', {'z': v})
            if d == 'whole':
                return call(setattr, o, 'c', {'b': {'z': v}})
            inner = o.c.b
            if d == 'held':
                o.k, o.c2
            return call(setattr, inner, 'z', v)
        elif op == 'qitem':
            if d == 'whole':
                return call(setattr, o, 'q', [v] + [int(x) for x in o.q][1:])
            o.q[0] = v
        elif op == 'qappend':
            o.q.append(2)
        elif op == 'qpop':
            o.q.pop()
        elif op == 'setd':
            if d == 'whole':
                return call(setattr, o, 'd', {'w': [v]})
            if d == 'key':
                o.d['w'] = [v]
            else:
                o.d['w'][0] = v
        else:
            raise ValueError(op)
        return ['ok', ['n']]

    def probe(self, a, t, last):
        return None
