"""A deterministic scheduler for real threads.

All threads of a simulated run are real Python threads, but only the one that
holds the baton runs.  Every line the code under test executes is a possible
pre-emption point; the plan says after how many lines the baton moves and to
whom.  Locks the code under test creates are made through `SimLock`, so a thread
that waits for one gives the baton away (and a deadlock is seen, not waited for).
"""
import os
import sys
import threading

from . import seams

REAL_LOCK, REAL_RLOCK = threading.Lock, threading.RLock
ROOT = [None]
ACTIVE = None


class _Abort(BaseException):
    pass


class SimLock:
    def __init__(self, real):
        self._real = real

    def acquire(self, blocking=True, timeout=-1):
        s = ACTIVE
        t = s and s.me()
        if not t:
            return self._real.acquire(blocking, timeout)
        while not self._real.acquire(False):
            if not blocking:
                return False
            s.block(t, self)
        return True

    def release(self):
        self._real.release()
        s = ACTIVE
        if s:
            s.unblock(self)

    def locked(self):
        return self._real.locked()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


def _mine(depth=2):
    f = sys._getframe(depth)
    return ROOT[0] and f.f_code.co_filename.startswith(ROOT[0])


def install(root):
    ROOT[0] = os.path.join(root, "dataprofiler") + os.sep

    def Lock():
        return SimLock(REAL_LOCK()) if _mine() else REAL_LOCK()

    def RLock():
        return SimLock(REAL_RLOCK()) if _mine() else REAL_RLOCK()

    threading.Lock, threading.RLock = Lock, RLock


class T:
    def __init__(self, i, fn):
        self.i, self.fn = i, fn
        self.sem = threading.Semaphore(0)
        self.state = "ready"
        self.budget = 0
        self.on = None
        self.result = self.error = None
        self.lines = 0


class Sched:
    def __init__(self, env, bursts):
        self.env = env
        self.bursts = list(bursts)
        self.k = 0
        self.ts = []
        self.by_id = {}
        self.main = threading.Semaphore(0)
        self.abort = False
        self.deadlock = None
        self.switches = 0
        self.trace = []

    def me(self):
        return self.by_id.get(threading.get_ident())

    # ---------------------------------------------------------- decisions --
    def burst(self):
        if self.k < len(self.bursts):
            b = max(1, int(self.bursts[self.k]))
        else:
            b = 1 << 60
        self.k += 1
        return b

    def next(self, frm):
        ready = [t for t in self.ts if t.state == "ready"]
        if not ready:
            return None
        others = [t for t in ready if t is not frm]
        pool = others or ready
        return pool[self.env.decide(len(pool))]

    # ------------------------------------------------------------- baton --
    def switch(self, t):
        """Thread t gives the baton away (it may get it back at once)."""
        n = self.next(t)
        if n is None:
            return self.stuck(t)
        n.budget = self.burst()
        if n is t:
            return
        self.switches += 1
        self.trace.append((t.i, n.i, t.lines))
        n.sem.release()
        if t.state != "done":
            t.sem.acquire()
            if self.abort:
                raise _Abort()

    def stuck(self, t):
        if all(x.state == "done" for x in self.ts):
            self.main.release()
            return
        self.deadlock = [(x.i, x.state) for x in self.ts]
        self.stop()
        if t.state != "done":
            raise _Abort()

    def stop(self):
        self.abort = True
        for x in self.ts:
            x.sem.release()
        self.main.release()

    def block(self, t, lock):
        t.state, t.on = "blocked", lock
        self.env.probe("lock_waited_for")
        self.switch(t)

    def unblock(self, lock):
        for x in self.ts:
            if x.state == "blocked" and x.on is lock:
                x.state, x.on = "ready", None

    # ----------------------------------------------------------- threads --
    def body(self, t):
        t.sem.acquire()
        self.by_id[threading.get_ident()] = t
        try:
            if self.abort:
                return
            root = ROOT[0]
            seen = {}

            def local(frame, event, arg):
                if event == "line":
                    t.lines += 1
                    t.budget -= 1
                    if t.budget <= 0:
                        self.switch(t)
                return local

            def tracer(frame, event, arg):
                f = frame.f_code.co_filename
                ok = seen.get(f)
                if ok is None:
                    ok = seen[f] = f.startswith(root)
                return local if ok else None

            sys.settrace(tracer)
            try:
                t.result = t.fn()
            finally:
                sys.settrace(None)
        except _Abort:
            pass
        except BaseException as e:  # noqa: handed to the run
            t.error = e
        finally:
            t.state = "done"
            if not self.abort:
                self.switch(t)

    def run(self, fns):
        """Run the functions as threads to completion; returns the threads."""
        global ACTIVE
        self.ts = [T(i, f) for i, f in enumerate(fns)]
        th = [threading.Thread(target=self.body, args=(t,), daemon=True) for t in self.ts]
        ACTIVE = self
        try:
            for x in th:
                x.start()
            first = self.ts[self.env.decide(len(self.ts))]
            first.budget = self.burst()
            first.sem.release()
            self.main.acquire()
        except BaseException:
            self.stop()
            raise
        finally:
            for x in th:
                x.join(20)
            ACTIVE = None
        self.env.probe("thread_switches", self.switches)
        for a in self.trace:
            self.env.log("switch", *a)
        return self.ts
