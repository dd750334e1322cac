"""Colls.tla <-> ngoschema.utils on nested collections, graphs, classes, texts."""
import collections
import copy

from common import kind
from ngoschema.utils import utils as U, str_utils as SU


def dec(v):
    if v[0] == 'd':
        return collections.OrderedDict((k, dec(x)) for k, x in v[1])
    if v[0] == 'l':
        return [dec(x) for x in v[1]]
    if v[0] == 't':
        return tuple(dec(x) for x in v[1])
    return None if v[0] == 'n' else v[1]


def enc(v):
    if isinstance(v, dict):
        return ['d', [[k, enc(x)] for k, x in v.items()]]
    if isinstance(v, (list, tuple)):
        return ['l', [enc(x) for x in v]]
    if v is None:
        return ['n']
    return ['s' if isinstance(v, str) else 'i', v]


class Adapter:
    changed = None

    def __init__(self, params):
        pass

    def step(self, a):
        self.changed = None
        try:
            return ['ok', getattr(self, a['op'])(a)]
        except Exception as er:
            return ['err', kind(er)]

    def keep(self, arg):
        self.arg, self.was = arg, copy.deepcopy(arg)
        return arg

    def same(self):
        if self.arg != self.was:
            self.changed = '%r became %r' % (self.was, self.arg)

    def filter(self, a):
        t = self.keep(dec(a['t']))
        kw = {k: tuple(a[k]) for k in ('only', 'but') if a[k]}
        r = U.filter_collection(t, recursive=a['rec'], **kw)
        self.same()
        return enc(r)

    def flatten(self, a):
        t = self.keep(dec(a['t']))
        r = U.nested_dict_iter(t, **({} if a['sep'] == 'default' else {'separator': a['sep']}))
        r = ['d', [[k, enc(v)] for k, v in r]]
        self.same()
        return r

    def descend(self, a):
        t = self.keep(dec(a['t']))
        r = U.get_descendant(t, [x[1] for x in a['p']] if a['how'] == 'list' else a['p'])
        self.same()
        return enc(r)

    def split(self, a):
        return U.split_path(a['p'])

    def through(self, a):
        t, calls = dec(a['t']), []

        def fn(coll, key, level, mode):
            calls.append([level, str(key)])
            v = coll[key]
            if mode == 'incr' and isinstance(v, int):
                coll[key] = v + 1
            elif mode == 'wrap' and v == 1:
                coll[key] = {'a': 7}
            elif mode == 'drop' and v == 1:
                del coll[key]
        U.apply_through_collection(t, fn, recursive=a['rec'], mode=a['mode'])
        return {'t': enc(t), 'calls': calls}

    def tolist(self, a):
        v = self.keep(dec(a['v']))
        r = U.to_list(v, *([[]] if a['dflt'] == 'empty' else []))
        self.same()
        return enc(r)

    def pages(self, a):
        return [list(p) for p in U.grouper(a['n'], iter(range(1, a['len'] + 1)))]

    def sort(self, a):
        d = {i + 1: set(x) for i, x in enumerate(a['d'])}
        self.keep(d)
        levels, cyclic = [], False
        try:
            for lv in U.topological_sort(d):
                levels.append(sorted(lv))
        except AssertionError:
            cyclic = True
        self.same()
        return {'levels': levels, 'cyclic': cyclic}

    def classes(self, a):
        cls = {0: object}
        for i, b in enumerate(a['bs']):
            cls[i + 1] = type('C%d' % (i + 1), tuple(cls[j] for j in b) or (object,), {})
        num = {c: i for i, c in cls.items()}
        q = [cls[i] for i in a['q']]
        try:
            m = ['ok', [num[c] for c in U.mro(*q)]]
        except Exception as er:
            m = ['err', kind(er)]
        return {'mro': m, 'gcs': num[U.gcs(*q)]}

    def splittext(self, a):
        return SU.split_string(a['s'], ''.join(sorted(a['dl'])), strip=a['strip'])

    def replace(self, a):
        r = self.keep(dict(map(tuple, a['r'])))
        x = SU.multiple_replace(a['s'], r)
        self.same()
        return x

    def probe(self, a, t, last):
        return self.changed
