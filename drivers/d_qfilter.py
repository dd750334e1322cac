"""QFilter.tla <-> Filter, Query.filter/exclude/filter_any_of/exclude_any_of, ArrayProtocol items."""
from common import mk_class, call, kind, enc
from ngoschema.query import Query, Filter

INT = {'type': 'integer'}
_c = {}


def classes():
    if not _c:
        item = {'type': 'object', 'properties': {
            'a': INT, 's': {'type': 'string'}, 'size': INT, 'l': {'type': 'array', 'items': INT},
            'c': {'type': 'object', 'properties': {
                'x': INT, 'size': INT, 'e': {'type': 'object', 'properties': {'y': INT, 'z': INT}}}}}}
        _c['item'] = mk_class(item, _lazyLoading=False)
        _c['arr'] = mk_class({'type': 'object', 'properties': {'l': {'type': 'array', 'items': item}}}, _lazyLoading=False)
    return _c


def val(v):
    if v[0] == 'o':
        return {k: val(x) for k, x in (v[1] or {}).items()}
    if v[0] == 'l':
        return [val(x) for x in v[1]]
    return None if v[0] == 'n' else v[1]


def crit(cs):
    kw = {}
    for c in cs:
        ops = list(c['ops']) + (['not'] if c['neg'] else [])
        kw['__'.join(list(c['p']) + ops)] = val(c['v'])
    return kw


class Adapter:
    def __init__(self, params):
        self.f = None
        self.inst = {}

    def step(self, a):
        op = a['op']
        if op == 'new':
            f = a['f']
            self.attrs = ['__'.join(p) for p in f['pr']]
            self.kw = crit(f['cs'])
            self.mode = f['mode']
            self.f = Filter(*self.attrs, negate=f['mode'].startswith('exclude'), any_of=f['mode'].endswith('any'), **self.kw)
            return ['ok', ['n']]
        if op == 'test':
            o = val(a['o'])
            if a['as'] == 'instance':
                o = self.inst.setdefault(a['i'], classes()['item'](o))
            r = call(self.f, o)
            return r
        if op == 'run':
            objs = [val(o) for o in a['objs']]
            src = objs
            if a['src'] == 'stream':
                src = iter(objs)
            elif a['src'] == 'instances':
                src = objs = [classes()['item'](o) for o in objs]
            elif a['src'] == 'array':
                self.owner = classes()['arr'](l=objs)
                src = self.owner.l
                objs = [self.owner.l[i] for i in range(len(objs))]
            q = Query(src)
            m = {'filter': q.filter, 'exclude': q.exclude, 'any': q.filter_any_of, 'exclude_any': q.exclude_any_of}[self.mode]
            try:
                got = list(m(*self.attrs, **self.kw))
            except Exception as er:
                return ['err', kind(er)]
            pos = {id(o): i + 1 for i, o in enumerate(objs)}
            return ['ok', ['l', [['i', pos.get(id(o), 0)] for o in got]]]

    def probe(self, a, t, last):
        return None
