"""KeyDicts.tla <-> CaseInsensitiveDict, UriDict."""
from common import kind
from ngoschema.utils.utils import CaseInsensitiveDict, UriDict


class Adapter:
    def __init__(self, params):
        self.m = None

    def step(self, a):
        try:
            r = self._step(a)
        except Exception as er:
            return ['err', kind(er)]
        return ['ok', ['n']] if r is None else r

    def _step(self, a):
        op = a['op']
        cls = {'case': CaseInsensitiveDict, 'uri': UriDict}[a['kind']]
        if op == 'make':
            p = [(k, i + 1) for i, k in enumerate(a['s'])]
            self.m = cls(dict(p)) if a['how'] == 'dict' else cls(p)
            return
        if self.m is None:
            self.m = cls()
        m = self.m
        if op == 'set':
            if a['how'] == 'item':
                m[a['s']] = a['v']
            elif a['how'] == 'update':
                m.update({a['s']: a['v']})
            else:
                return ['ok', ['i', m.setdefault(a['s'], a['v'])]]
        elif op == 'del':
            if a['how'] == 'del':
                del m[a['s']]
            else:
                return ['ok', ['i', m.pop(a['s'], *([7] if a['how'] == 'popdef' else []))]]
        elif op == 'get':
            try:
                item = ['ok', ['i', m[a['s']]]]
            except Exception as er:
                item = ['err', kind(er)]
            return ['ok', {'get': m.get(a['s'], 7), 'in': a['s'] in m, 'item': item}]
        else:
            return ['ok', {'items': [{'k': k, 'v': m[k]} for k in m], 'len': len(m)}]

    def probe(self, a, t, last):
        return None
