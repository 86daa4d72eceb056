"""Message passing between threads of one process, with a random arrival order and deadlock detection."""
import copy
import threading


class Deadlock(Exception):
    pass


class Status:
    def __init__(self):
        self.source = self.tag = None

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag


class Comm:
    def __init__(self, size, rng):
        self.n, self.rng = size, rng
        self.local = threading.local()
        self.cv = threading.Condition()
        self.box = []                  # (source, dest, tag, object)
        self.waiting = {}
        self.live = set(range(size))
        self.dead = None
        self.barriers = 0
        self.gen = 0
        self.sent = []

    @property
    def rank(self):
        return getattr(self.local, 'rank', 0)

    @property
    def size(self):
        return self.n

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.n

    def send(self, obj, dest=0, tag=0):
        with self.cv:
            if not 0 <= dest < self.n:
                raise ValueError('send to rank %r of %d' % (dest, self.n))
            self.sent.append((self.rank, dest, tag, obj))
            self.box.append((self.rank, dest, tag, copy.deepcopy(obj)))
            self.cv.notify_all()

    def _match(self, me, source, tag):
        first = {}
        for k, (s, d, t, o) in enumerate(self.box):
            if d == me and source in (-1, s) and tag in (-1, t):
                first.setdefault((s,), k)
        return list(first.values())

    def _stuck(self):
        return all(r in self.waiting for r in self.live) and \
            not any(w == 'barrier' and False or w != 'barrier' and self._match(r, *w) for r, w in self.waiting.items() if r in self.live)

    def recv(self, buf=None, source=-1, tag=-1, status=None):
        me = self.rank
        with self.cv:
            while True:
                if self.dead:
                    raise Deadlock(self.dead)
                ks = self._match(me, source, tag)
                if ks:
                    k = self.rng.choice(ks)
                    s, d, t, o = self.box.pop(k)
                    if status is not None:
                        status.source, status.tag = s, t
                    return o
                self.waiting[me] = (source, tag)
                if self._stuck():
                    self.dead = 'all processes wait: %r' % ({r: self.waiting[r] for r in self.live},)
                    self.cv.notify_all()
                    raise Deadlock(self.dead)
                self.cv.wait(20)
                self.waiting.pop(me, None)

    def barrier(self):
        me = self.rank
        with self.cv:
            self.barriers += 1
            g = self.gen
            if self.barriers >= len(self.live):
                self.barriers = 0
                self.gen += 1
                self.cv.notify_all()
                return
            while self.gen == g and not self.dead:
                self.waiting[me] = 'barrier'
                if self._stuck():
                    self.dead = 'all processes wait'
                    self.cv.notify_all()
                    break
                self.cv.wait(20)
                self.waiting.pop(me, None)
            if self.dead:
                raise Deadlock(self.dead)

    Barrier = barrier


class MPI:
    ANY_SOURCE = -1
    ANY_TAG = -1
    Status = Status


def run(size, rng, setcomm, fn):
    """fn(rank) on every rank; returns (results, errors, comm)"""
    c = Comm(size, rng)
    m = MPI()
    m.COMM_WORLD = c
    setcomm(m, c)
    res, err = [None] * size, [None] * size

    def body(r):
        c.local.rank = r
        try:
            res[r] = fn(r)
        except BaseException as e:
            err[r] = e
        finally:
            with c.cv:
                c.live.discard(r)
                c.waiting.pop(r, None)
                if c.live and c._stuck():
                    c.dead = 'process %d ended, the others wait: %r' % (r, {k: c.waiting[k] for k in c.live})
                c.cv.notify_all()
    ts = [threading.Thread(target=body, args=(r,), daemon=True) for r in range(size)]
    for t in ts:
        t.start()
    for t in ts:
        t.join(60)
        if t.is_alive():
            with c.cv:
                c.dead = 'no progress'
                c.cv.notify_all()
    return res, err, c
