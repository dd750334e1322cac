"""Temporal.tla <-> date, time and datetime properties."""
import datetime as D
import arrow
from common import mk_class
from d_typed import bad

_classes = {}


def given(g):
    d, t, z, h = g['d'], g['t'], g['z'], g['how']
    if h == 'text':
        return g['text']
    if h == 'date':
        return D.date(d['y'], d['m'], d['d'])
    if h == 'time':
        return D.time(t['h'], t['i'], t['s'], t['u'])
    x = D.datetime(d['y'], d['m'], d['d'], t['h'], t['i'], t['s'], t['u'])
    if z or h == 'arrow':
        x = x.replace(tzinfo=D.timezone(D.timedelta(minutes=z)))
    return arrow.Arrow.fromdatetime(x) if h == 'arrow' else x


def date(v):
    return {'y': v.year, 'm': v.month, 'd': v.day}


def time(v):
    return {'h': v.hour, 'i': v.minute, 's': v.second, 'u': v.microsecond}


def tag(v):
    if isinstance(v, (arrow.Arrow, D.datetime)):
        if isinstance(v, D.datetime):
            return ['datetime', str(v)]
        return ['dt', date(v), time(v), int(v.utcoffset().total_seconds() // 60)]
    if isinstance(v, D.date):
        return ['date', date(v)]
    if isinstance(v, D.time):
        return ['time', time(v)] if v.tzinfo is None else ['time', str(v)]
    return [repr(v)]


class Adapter:
    def __init__(self, params):
        pass

    def read(self, o):
        return o.p if self.cfg['where'] == 'prop' else o.l[0]

    def step(self, a):
        op = a['op']
        try:
            if op == 'new':
                c = self.cfg = a['cfg']
                key = tuple(sorted(c.items()))
                if key not in _classes:
                    p = {'type': c['ty']}
                    if c['f']:
                        p['format'] = c['f']
                    sch = {'p': p} if c['where'] == 'prop' else {'l': {'type': 'array', 'items': p}}
                    _classes[key] = mk_class({'type': 'object', 'properties': sch}, _lazyLoading=c['lazy'])
                self.cls = _classes[key]
                self.o = self.cls()
                return ['ok', ['n']]
            if op == 'give':
                v = given(a['g'])
                if self.cfg['where'] == 'prop':
                    self.o.p = v
                else:
                    self.o = self.cls(l=[v])
                return ['ok', tag(self.read(self.o))]
            s = self.o.do_serialize()
            if op == 'ser':
                return ['ok', s['p'] if self.cfg['where'] == 'prop' else s['l'][0]]
            self.o = self.cls(s)
            return ['ok', tag(self.read(self.o))]
        except Exception as er:
            return bad(er)

    def probe(self, a, t, last):
        return None
