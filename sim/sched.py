"""Cooperative scheduler for real threads: one runs at a time, handing over at executed source lines."""
import threading
import _thread
import sut


class Deadlock(Exception):
    pass


class Stop(BaseException):
    """Unwinds the remaining threads after a failure of the scheduler."""


class Sched:
    """quanta: executed lines between hand-overs; picks: which runnable thread continues.  Both are plan data."""

    def __init__(self, quanta, picks):
        self.quanta = quanta or [50]
        self.picks = picks or [0]
        self.nq = 0
        self.np = 0
        self.left = 0
        self.cur = None
        self.threads = {}        # ident -> index
        self.gates = []
        self.state = []          # 'run' 'wait' 'done'
        self.switches = 0
        self.trace = []
        self.failure = None
        self.main = _thread.allocate_lock()
        self.waiting = {}        # index -> lock it waits for

    def quantum(self):
        q = self.quanta[self.nq % len(self.quanta)]
        self.nq += 1
        return q

    def pick(self, among):
        p = self.picks[self.np % len(self.picks)]
        self.np += 1
        return among[p % len(among)]

    def runnable(self):
        return [i for i, x in enumerate(self.state) if x == 'run' and not (i in self.waiting and self.waiting[i].held)]

    # ---- called from the running thread
    def line(self, code, line):
        i = self.threads.get(_thread.get_ident())
        if i is None or i != self.cur:
            return
        self.left -= 1
        if self.left <= 0:
            self.hand_over(i, (code.co_name, line))

    def hand_over(self, i, where):
        self.left = self.quantum()
        rs = self.runnable()
        if not rs:
            self.failure = self.failure or Deadlock(f'every thread waits: {sorted(self.waiting)}')
            self.abort()
            raise Stop()
        j = self.pick(rs)
        if j == i:
            return
        self.switches += 1
        self.trace.append((i, j) + where)
        self.cur = j
        self.gates[j].release()
        self.gates[i].acquire()
        if self.failure:
            raise Stop()

    def abort(self):
        for j, x in enumerate(self.state):
            if x == 'run':
                try:
                    self.gates[j].release()
                except RuntimeError:
                    pass

    def run(self, jobs):
        """Run the callables to completion under the schedule."""
        self.main.acquire()
        ready = _thread.allocate_lock()
        ready.acquire()

        def body(i, job):
            self.threads[_thread.get_ident()] = i
            self.gates[i].acquire()
            try:
                if not self.failure:
                    job()
            except Stop:
                pass
            except BaseException as e:
                self.failure = self.failure or e
                self.abort()
            finally:
                self.state[i] = 'done'
                if self.failure:
                    if all(x == 'done' for x in self.state):
                        self.main.release()
                else:
                    live = self.runnable()
                    if live:
                        self.cur = self.pick(live)
                        self.gates[self.cur].release()
                    elif all(x == 'done' for x in self.state):
                        self.main.release()
                    else:
                        self.failure = Deadlock('threads left waiting for a lock nobody holds')
                        self.abort()
        ts = []
        for i, job in enumerate(jobs):
            g = _thread.allocate_lock()
            g.acquire()
            self.gates.append(g)
            self.state.append('run')
        for i, job in enumerate(jobs):
            t = threading.Thread(target=body, args=(i, job), daemon=True)
            ts.append(t)
        # real locks for the threads' own start and end, simulated ones for the library
        for t in ts:
            t.start()
        global current
        current = self
        self.left = self.quantum()
        self.cur = self.pick(list(range(len(jobs))))
        self.gates[self.cur].release()
        self.main.acquire()
        current = None
        for t in ts:
            t.join(5)
        if self.failure:
            raise self.failure


current = None


class SimLock:
    """threading.Lock / RLock for library code: waiting hands over to another simulated thread."""

    def __init__(self, reentrant=False):
        self.held = 0
        self.owner = None
        self.re = reentrant

    def acquire(self, blocking=True, timeout=-1):
        s = current
        me = s.threads.get(_thread.get_ident()) if s else None
        if self.held and self.re and self.owner == (s, me):
            self.held += 1
            return True
        while self.held:
            if not blocking:
                return False
            if s is None or me is None:
                raise sut.Budget('waits for a lock that nobody will release')
            s.waiting[me] = self
            try:
                s.hand_over(me, ('lock', 0))
            finally:
                s.waiting.pop(me, None)
        self.held = 1
        self.owner = (s, me)
        return True

    def release(self):
        if not self.held:
            raise RuntimeError('release unlocked lock')
        self.held -= 1
        if not self.held:
            self.owner = None

    def locked(self):
        return bool(self.held)

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class patched:
    """with patched(): library code importing threading locks gets simulated ones."""

    def __enter__(self):
        self.old = threading.Lock, threading.RLock
        real = self.old

        def pick(re):
            def make():
                import sys
                f = sys._getframe(1)
                if f.f_code.co_filename.startswith(sut.REPO):
                    return SimLock(re)
                return real[1 if re else 0]()
            return make
        threading.Lock = pick(False)
        threading.RLock = pick(True)

    def __exit__(self, *a):
        threading.Lock, threading.RLock = self.old
