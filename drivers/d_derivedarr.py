"""DerivedArr.tla <-> properties derived from array items and child objects."""
from common import mk_class, call

STR = {'type': 'string'}
INT = {'type': 'integer', 'minimum': 0, 'maximum': 5}
_classes = {}


def s(d):
    return dict(STR, default=d)


def i(d):
    return {'type': 'integer', 'default': d}


def get_class(c):
    key = (c['cls'], c['lo'], c['la'])
    if key in _classes:
        return _classes[key]
    if c['cls'] == 1:
        props = {
            'c': s('{% if s %}{{l|length}}{% else %}no{{s}}{% endif %}'),
            't': s('{{l[0]}}'), 'e': i('`int(l[1])+1'), 'n': i('`len(l)'),
            'w': s('{{t}}/{{n}}'), 'j': s('<{% for i in l %}{{i}},{% endfor %}'),
            'r': s('{{x|replace("b",s)}}{{x.upper()}}'),
            'l': {'type': 'array', 'lazyLoading': c['la'], 'items': dict(INT)},
            's': dict(INT), 'x': dict(STR)}
    else:
        child = {'type': 'object', 'lazyLoading': c['la'], 'properties': {'x': dict(INT)}}
        props = {
            'h': s('{{v}}-{{u}}'), 'q': s('{{k.x + m|length}}'),
            'g': s('{% for i in m %}{{i.x}},{% endfor %}'), 'u': s('{{m[0].x}}'), 'v': i('`int(m[0].x)+1'), 'z': i('`int(this.k.x)+1'), 'y': i('`k.x+m[0].x'),
            'm': {'type': 'array', 'lazyLoading': c['la'], 'items': child}, 'k': dict(child)}
    r = _classes[key] = mk_class({'type': 'object', 'properties': props}, _lazyLoading=c['lo'])
    return r


class Adapter:
    def __init__(self, params):
        self.o = None

    def step(self, a):
        op = a['op']
        if op == 'new':
            self.c, r = a['cfg'], a['raw']
            if self.c['cls'] == 1:
                init = {'l': list(r['l']), 's': r['s'], 'x': r['x']}
            else:
                init = {'m': [{'x': v} for v in r['m']], 'k': {'x': r['k']}}
            self.o = get_class(self.c)(init)
            return ['ok', ['n']]
        o, one = self.o, self.c['cls'] == 1
        arr = (lambda: o.l) if one else (lambda: o.m)
        val = (lambda v: v) if one else (lambda v: {'x': v})
        if op == 'get':
            return call(getattr, o, a['p'])
        if op == 'setarr':
            return call(setattr, o, 'l' if one else 'm', [val(v) for v in a['v']])
        if op == 'setitem':
            n, v, d = a['i'], a['v'], a['door']
            if d == 'neg':
                n -= len(arr())
            if d in ('item', 'neg') and not one:
                return call(setattr, arr()[n], 'x', v)
            if d == 'path':
                return call(o.__setitem__, 'l[%d]' % n if one else 'm[%d].x' % n, v)
            return call(arr().__setitem__, n, val(v))
        if op == 'append':
            return call(arr().append, val(a['v']))
        if op == 'insert':
            return call(arr().insert, 0, val(a['v']))
        if op == 'remove':
            if a['door'] == 'pop':
                arr().pop(a['i'])
            else:
                del arr()[a['i']]
            return ['ok', ['n']]
        if op == 'reverse':
            return call(arr().reverse)
        if op in ('sets', 'setx'):
            return call(setattr, o, op[3], a['v'])
        if op == 'setk':
            v, d = a['v'], a['door']
            if d == 'child':
                return call(setattr, o.k, 'x', v)
            if d == 'path':
                return call(o.__setitem__, 'k.x', v)
            if d == 'whole':
                return call(setattr, o, 'k', {'x': v})
            if d == 'wholeitem':
                return call(o.__setitem__, 'k', {'x': v})
            child = o.k
            child.x = 1 - v
            o.k = child          # the same child, changed after it is assigned again
            return call(setattr, child, 'x', v)
        if op == 'reject':
            for f in (lambda: arr().__setitem__(0, 9), lambda: arr().append('x'), lambda: arr().insert(0, -1)):
                try:
                    f()
                    return ['ok', 'accepted']
                except Exception:
                    pass
            return ['ok', ['n']]
        raise ValueError(op)

    def probe(self, a, t, last):
        return None
