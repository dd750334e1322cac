"""Refs.tla <-> importable, module, class, function, method, callable, path and uri properties."""
import builtins
import os
import pathlib
import shutil
import tempfile
import urllib.parse
from common import mk_class
from d_typed import bad
import vfsym
import vfsym.sub

_classes = {}
COND = {'': {}, 'exists': {'isPathExisting': True}, 'dir': {'isPathDir': True}, 'file': {'isPathFile': True},
        'expand': {'expandUser': True}, 'expandfile': {'expandUser': True, 'isPathFile': True}}


def symbol(name):
    """the object a name stands for"""
    parts = name.split('.')
    if parts[0] not in ('vfsym', 'builtins'):
        return getattr(builtins, name)
    o = vfsym if parts[0] == 'vfsym' else builtins
    for p in parts[1:]:
        o = getattr(o, p)
    return o


class Adapter:
    def __init__(self, params):
        self.dir = None

    def scratch(self):
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix='vfrefs'))
        self.old = os.getcwd(), os.environ.get('HOME')
        os.mkdir(self.dir + '/d')
        for f in ('f', 'a b', 'd/f'):
            open(self.dir + '/' + f, 'w').close()
        os.chdir(self.dir)
        os.environ['HOME'] = self.dir

    def close(self):
        if self.dir:
            os.chdir(self.old[0])
            os.environ['HOME'] = self.old[1] or '/root'
            shutil.rmtree(self.dir)

    def text(self, x):
        base, names = x
        return '/'.join(([] if base == 'rel' else [self.dir if base == 'abs' else '~']) + names) or '.'

    def given(self, how, x):
        ty = self.cfg['ty']
        if ty == 'uri':
            return pathlib.Path(self.text(x)) if how == 'path' else urllib.parse.urlparse(x) if how == 'url' else x
        if ty == 'path':
            t = self.text(x)
            if how == 'object':
                return pathlib.Path(t)
            if how == 'url':
                return urllib.parse.urlparse('file://' + urllib.parse.quote(t))
            if how == 'quoted':
                return urllib.parse.urlparse(urllib.parse.quote(t))
            return t
        return symbol(x) if how == 'object' else x

    def path(self, p):
        p = str(p)
        if p == self.dir or p.startswith(self.dir + '/'):
            return ['abs', [n for n in p[len(self.dir) + 1:].split('/') if n]]
        if p == '~' or p.startswith('~/'):
            return ['home', [n for n in p[2:].split('/') if n]]
        return ['rel', [] if p == '.' else p.split('/')]

    def tag(self, v, exp=None):
        """what v, as read, is"""
        ty = self.cfg['ty']
        if ty == 'path':
            return ['path', self.path(v)] if isinstance(v, pathlib.Path) else ['not a path', repr(v)]
        if ty == 'uri':
            if not isinstance(v, urllib.parse.ParseResult):
                return ['not a url', repr(v)]
            return self.url(v.geturl())
        # equal: a bound method is made anew at every access
        if exp and exp[0] == 'ok' and exp[1][0] == 'sym' and (lambda s: v is s or (v == s and type(v) is type(s)))(symbol(exp[1][1])):
            return exp[1]
        return ['another', repr(v)[:60]]

    def url(self, u):
        p = 'file://' + urllib.parse.quote(self.dir)
        if u == p or u.startswith(p + '/'):
            return ['urlof', ['abs', [urllib.parse.unquote(n) for n in u[len(p) + 1:].split('/') if n]]]
        return ['uri', u]

    def step(self, a):
        op = a['op']
        try:
            if op == 'new':
                c = self.cfg = a['cfg']
                if c['ty'] in ('path', 'uri'):
                    self.scratch()
                key = tuple(sorted(c.items()))
                if key not in _classes:
                    _classes[key] = mk_class({'type': 'object', 'properties': {'p': dict(COND[c['c']], type=c['ty'])}}, _lazyLoading=c['lazy'])
                self.cls = _classes[key]
                self.o = self.cls()
                return ['ok', ['n']]
            if op == 'give':
                self.o.p = self.given(a['how'], a['x'])
                return ['ok', self.tag(self.o.p, a['res'])]
            if op == 'flip':
                f = self.dir + '/' + '/'.join(a['f'])
                open(f, 'w').close() if a['there'] else os.remove(f)
                return ['ok', ['n']]
            if op == 'get':
                return ['ok', self.tag(self.o.p, a['res'])]
            s = self.o.do_serialize()['p']
            if op == 'ser':
                if not isinstance(s, str):
                    return ['not a text', repr(s)]
                ty = self.cfg['ty']
                return ['ok', ['path', self.path(s)] if ty == 'path' else self.url(s) if ty == 'uri' else ['sym', s]]
            self.o = self.cls({'p': s})
            return ['ok', self.tag(self.o.p, a['res'])]
        except Exception as er:
            return bad(er)

    def probe(self, a, t, last):
        return None
