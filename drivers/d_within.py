"""Within.tla <-> casted_as, working_directory, threadsafe_counter."""
import os
import pathlib
import shutil
import tempfile
import threading

from common import kind
from ngoschema.utils import utils as U


class Adapter:
    def __init__(self, params):
        self.back = os.getcwd()
        self.tmp = os.path.realpath(tempfile.mkdtemp(prefix='vf-within'))
        for d in ('one', 'two'):
            os.mkdir(os.path.join(self.tmp, d))
        os.chdir(self.tmp)
        A = type('A', (object,), {'w': lambda s: 1})
        B = type('B', (A,), {'w': lambda s: 2})
        C = type('C', (B,), {'w': lambda s: 3})
        D = type('D', (A,), {'w': lambda s: 4})
        self.cls = {1: A, 2: B, 3: C, 4: D}
        self.obj = C()
        self.stack = []
        self.cnt = [U.threadsafe_counter(), U.threadsafe_counter(10)]

    def close(self):
        os.chdir(self.back)
        shutil.rmtree(self.tmp, ignore_errors=True)

    def path(self, d):
        return self.tmp if d == 'root' else os.path.join(self.tmp, d)

    def step(self, a):
        try:
            r = self._step(a)
        except Exception as er:
            return ['err', kind(er)]
        return ['ok', ['n'] if r is None else r]

    def open(self, c):
        c.__enter__()
        self.stack.append(c)

    def _step(self, a):
        op = a['op']
        if op == 'cast':
            self.open(U.casted_as(self.obj, self.cls[a['c']]))
        elif op == 'enter':
            p = self.path(a['d'])
            self.open(U.working_directory(pathlib.Path(p) if a['how'] == 'path' else p))
        elif op == 'leave':
            c = self.stack.pop()
            if a['how'] == 'normal':
                c.__exit__(None, None, None)
            else:
                er = ZeroDivisionError()
                if not c.__exit__(ZeroDivisionError, er, None):
                    raise er
        elif op == 'wander':
            os.chdir(self.path(a['d']))
        elif op == 'count':
            f = self.cnt[a['c'] - 1]
            if not a['threads']:
                return [f()]
            got = []
            ts = [threading.Thread(target=lambda: got.append(f())) for _ in range(a['threads'])]
            for x in ts:
                x.start()
            for x in ts:
                x.join()
            return sorted(got)

    def probe(self, a, t, last):
        if type(self.obj) is not self.cls[t['cls']] or self.obj.w() != t['cls']:
            return 'instance is a %s' % type(self.obj).__name__
        if os.getcwd() != self.path(t['dir']):
            return 'working directory %s, expected %s' % (os.getcwd(), t['dir'])
