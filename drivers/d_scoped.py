"""Scoped.tla <-> session_maker, scoped_session (per thread, per key), repositories bound to sessions."""
import queue
import threading

from common import kind
from ngoschema.session import Session, scoped_session, session_maker, close_all_sessions
from ngoschema.repositories import MemoryRepository

CLOSED = []


class Closing(Session):
    def close(self):
        CLOSED.append(id(self))


class Worker:
    def __init__(self):
        self.q, self.r = queue.Queue(), queue.Queue()
        self.t = threading.Thread(target=self.run, daemon=True)
        self.t.start()

    def run(self):
        while True:
            f = self.q.get()
            if f is None:
                return
            try:
                self.r.put((f(), None))
            except Exception as er:
                self.r.put((None, er))

    def __call__(self, f):
        self.q.put(f)
        r, er = self.r.get(timeout=60)
        if er is not None:
            raise er
        return r


class Adapter:
    def __init__(self, params):
        self.maker = session_maker(class_=Closing)
        self.key = 'x'
        self.scoped = {'t': scoped_session(self.maker), 'k': scoped_session(self.maker, lambda: self.key)}
        self.workers = {'t1': Worker(), 't2': Worker()}
        self.seen, self.slot, self.repos, self.closed = [], {}, [], []

    def close(self):
        for w in self.workers.values():
            w.q.put(None)

    def on(self, s, f):
        """run f(scoped session) in the scope s"""
        sc = self.scoped[s[0]]
        if s[0] == 't':
            return self.workers[s](lambda: f(sc))
        self.key = s[1]
        return f(sc)

    def step(self, a):
        del CLOSED[:]
        self.gone = {}
        try:
            r = self._step(a)
        except Exception as er:
            r = ['err', kind(er)]
        return ['ok', ['n']] if r is None else r

    def look(self, s, slot=None):
        new = not any(x is s for x in self.seen)
        if new:
            self.seen.append(s)
            if slot:
                self.slot[slot] = s
        elif self.slot.get(slot) is not s:
            new = 'the session of another scope'
        if len({x._hash_key for x in self.seen}) != len(self.seen):
            return ['ok', 'sessions with the same number']
        return ['ok', {'new': new, 'af': bool(s.autoflush), 'repos': len(s.repositories)}]

    def _step(self, a):
        op, s = a['op'], a.get('s')
        if op == 'get':
            return self.look(self.on(s, lambda sc: sc()), s)
        if op == 'getkw':
            return self.look(self.on(s, lambda sc: sc(autoflush=a['af'])), s)
        if op == 'remove':
            self.on(s, lambda sc: sc.remove())
            self.gone = {s: self.slot.pop(s, None)}
        elif op == 'configure':
            if a['on'] == 'factory':
                self.maker.configure(autoflush=a['af'])
            else:
                self.on(a['on'], lambda sc: sc.configure(autoflush=a['af']))
        elif op == 'direct':
            return self.look(self.maker(**({} if a['af'] == 'conf' else {'autoflush': a['af'] == 'yes'})))
        elif op == 'bind':
            self.repos.append(MemoryRepository(meta_opts={'session': self.slot[s]}))
            if self.repos[-1]._session is not self.slot[s]:
                return ['err', 'repository of another session']
        elif op == 'closeall':
            close_all_sessions()

    def probe(self, a, t, last):
        mine = dict(self.slot, **{k: v for k, v in self.gone.items() if v is not None})
        closed = sorted(s for s, x in mine.items() for c in CLOSED if c == id(x))
        if closed != sorted(a.get('closed', [])):
            return 'closed %r, expected %r' % (closed, a.get('closed', []))
        for s, x in self.slot.items():
            if len(x.repositories) != t['sess'][s]['repos']:
                return 'session of %s has %d repositories' % (s, len(x.repositories))
