"""Seams: every source of nondeterminism the simulated code can reach.

All seams are dispatchers: with no simulation active they behave like the real
thing; while a run is active (`CURRENT` is set) the active `Env` decides.

  clock     time.time / time.perf_counter        -> Env.clock (simulated seconds)
  pool      multiprocessing.Pool                 -> SimPool (seeded order + faults)
  host      psutil.cpu_count / virtual_memory    -> Env.host
  disk      builtins.open (+ io.open) on scratch -> SimDisk file objects
  network   urllib3 create_connection            -> SimNet sockets
  random    random / numpy.random / dp seed      -> re-seeded per run
"""
import builtins
import io
import multiprocessing
import multiprocessing.pool
import os
import pickle
import random
import time

CURRENT = None  # the active Env

REAL_OPEN = builtins.open
REAL_TIME = time.time
REAL_PERF = time.perf_counter
REAL_POOL = multiprocessing.Pool


# ---------------------------------------------------------------- clock ----
class Clock:
    """Simulated wall clock: moves a little on every read, and by `jump`."""

    def __init__(self, start=1_600_000_000.0, step=0.001, jumps=None):
        self.now = start
        self.start = start
        self.step = step
        self.reads = 0
        self.elapsed = 0.0
        self.jumps = dict(jumps or {})  # read number -> signed seconds
        self.fired = 0

    def read(self):
        self.reads += 1
        self.now += self.step
        self.elapsed += self.step
        j = self.jumps.get(self.reads)
        if j:
            self.now += j
            self.elapsed += abs(j)
            self.fired += 1
            if CURRENT is not None:
                CURRENT.fault("clock_jump_back" if j < 0 else "clock_jump_fwd")
        return self.now

    def advance(self, dt):
        self.now += dt
        self.elapsed += abs(dt)


def _time():
    env = CURRENT
    if env is None or env.clock is None:
        return REAL_TIME()
    return env.clock.read()


# ----------------------------------------------------------------- pool ----
class WorkerFault(Exception):
    """Stands for an exception that came back from a pool worker."""


class SimResult:
    def __init__(self, pool, tid):
        self.pool, self.tid = pool, tid

    def get(self, timeout=None):
        return self.pool._get(self.tid)

    def wait(self, timeout=None):
        try:
            self.pool._ensure(self.tid)
        except Exception:
            pass

    def ready(self):
        return self.tid in self.pool.done

    def successful(self):
        return self.ready() and self.pool.done[self.tid][0] == "ok"


class SimPool:
    """A pool whose workers run inside this process, one task at a time.

    Arguments and results cross a pickle boundary exactly as with real worker
    processes.  `env.pool_plan` (see Env) decides the completion order and which
    submissions / tasks fail.
    """

    def __init__(self, processes=None, initializer=None, initargs=(), **kw):
        env = CURRENT
        env.pools += 1
        if env.pool_fault("ctor"):
            env.fault("pool_ctor_oserror")
            raise OSError(12, "Cannot allocate memory (injected: fork)")
        self.env = env
        env.pool_list.append(self)
        self.n = processes
        self.pending = []  # task ids in submission order
        self.tasks = {}
        self.done = {}
        self.next = 0
        self.closed = False
        self.joined = False
        self._processes = processes
        env.log("pool", processes)

    # -- API used by the library / likely refactorings
    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        env = self.env
        if self.closed:
            raise ValueError("Pool not running")
        if env.pool_fault("submit"):
            env.fault("pool_submit_oserror")
            raise OSError(11, "Resource temporarily unavailable (injected: submit)")
        tid = self.next
        self.next += 1
        try:
            blob = pickle.dumps((func, tuple(args), dict(kwds or {})))
        except Exception as e:  # real pools deliver this at .get()
            self.done[tid] = ("err", e)
            return SimResult(self, tid)
        self.tasks[tid] = (blob, callback, error_callback)
        self.pending.append(tid)
        env.log("submit", tid, getattr(func, "__name__", "?"))
        # a worker may finish work before the parent submits more
        while self.pending and env.pool_coin():
            self._step()
        return SimResult(self, tid)

    def apply(self, func, args=(), kwds=None):
        return self.apply_async(func, args, kwds).get()

    def map_async(self, func, it, chunksize=None, callback=None, error_callback=None):
        return _Many([self.apply_async(func, (x,)) for x in it])

    def map(self, func, it, chunksize=None):
        return self.map_async(func, it).get()

    def starmap(self, func, it, chunksize=None):
        return _Many([self.apply_async(func, tuple(x)) for x in it]).get()

    def starmap_async(self, func, it, chunksize=None, callback=None, error_callback=None):
        return _Many([self.apply_async(func, tuple(x)) for x in it])

    def imap(self, func, it, chunksize=1):
        rs = [self.apply_async(func, (x,)) for x in it]
        return iter([r.get() for r in rs])

    def imap_unordered(self, func, it, chunksize=1):
        rs = [self.apply_async(func, (x,)) for x in it]
        order = self.env.pool_shuffle(len(rs))
        return iter([rs[k].get() for k in order])

    def close(self):
        self.closed = True

    def terminate(self):
        self.closed = True
        self.pending = []

    def join(self):
        if not self.closed:
            raise ValueError("Pool is still running")
        while self.pending:
            self._step()
        self.joined = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()

    # -- scheduling
    def _step(self):
        env = self.env
        k = env.pool_pick(min(len(self.pending), max(1, self.n or 1)))
        tid = self.pending.pop(k)
        if k:
            env.probe("pool_out_of_order")
        blob, cb, ecb = self.tasks.pop(tid)
        kind = env.pool_task_fault(tid)
        env.clock.advance(env.pool_delay())
        if kind in ("before", "oom_before"):
            env.fault("pool_task_fail_before")
            exc = MemoryError("injected") if kind == "oom_before" else OSError(5, "injected worker I/O error")
            self.done[tid] = ("err", exc)
            env.log("task", tid, kind)
            return
        states = (random.getstate(), _np().random.get_state())
        random.seed(env.seed_int + 1000003 * (tid + 1))
        _np().random.seed((env.seed_int + 7919 * (tid + 1)) % (2**32))
        try:
            func, args, kwds = pickle.loads(blob)
            res = func(*args, **kwds)
            out = ("ok", pickle.dumps(res))
        except Exception as e:
            out = ("err", e)
        finally:
            random.setstate(states[0])
            _np().random.set_state(states[1])
        if kind == "after" and out[0] == "ok":
            env.fault("pool_task_fail_after")  # work done, result lost
            out = ("err", MemoryError("injected: result could not be sent"))
        env.log("task", tid, out[0])
        self.done[tid] = out
        if out[0] == "ok" and cb:
            cb(pickle.loads(out[1]))
        if out[0] == "err" and ecb:
            ecb(out[1])

    def _ensure(self, tid):
        guard = 0
        while tid not in self.done:
            guard += 1
            if not self.pending or guard > 100000:
                raise RuntimeError("simulated pool: waiting on a task that was never submitted")
            self._step()

    def _get(self, tid):
        self._ensure(tid)
        st, v = self.done[tid]
        if st == "err":
            raise v
        return pickle.loads(v)


class _Many:
    def __init__(self, rs):
        self.rs = rs

    def get(self, timeout=None):
        return [r.get() for r in self.rs]

    def wait(self, timeout=None):
        for r in self.rs:
            r.wait()


def _np():
    import numpy

    return numpy


def _pool(*a, **k):
    if CURRENT is None:
        return REAL_POOL(*a, **k)
    return SimPool(*a, **k)


# ----------------------------------------------------------------- disk ----
def _open(file, mode="r", *a, **k):
    env = CURRENT
    if env is not None and env.disk is not None and isinstance(file, (str, bytes, os.PathLike)):
        p = os.fspath(file)
        if isinstance(p, bytes):
            p = p.decode()
        if os.path.abspath(p).startswith(env.disk.root):
            return env.disk.open(os.path.abspath(p), mode, *a, **k)
    return REAL_OPEN(file, mode, *a, **k)


def install_early():
    from . import boot, sched

    sched.install(boot.REPO)
    multiprocessing.Pool = _pool
    time.time = _time
    time.perf_counter = lambda: REAL_PERF() if CURRENT is None or CURRENT.clock is None else CURRENT.clock.read()
    builtins.open = _open
    io.open = _open
    import psutil

    real_cpu, real_vm = psutil.cpu_count, psutil.virtual_memory

    def cpu_count(*a, **k):
        if CURRENT is None or CURRENT.host is None:
            return real_cpu(*a, **k)
        return CURRENT.cpus()

    class _VM:
        def __init__(self, avail):
            self.available = avail
            self.total = 64 << 30
            self.used = self.total - avail
            self.free = avail
            self.percent = 10.0

    def virtual_memory():
        if CURRENT is None or CURRENT.host is None:
            return real_vm()
        if CURRENT.host.get("mem_err"):
            CURRENT.fault("host_memory_unknown")
            raise NotImplementedError("injected: platform not supported")
        return _VM(CURRENT.host["mem"])

    psutil.cpu_count = cpu_count
    psutil.virtual_memory = virtual_memory


def install_late(dp):
    """Seams that need third-party modules already imported."""
    try:
        import urllib3.util.connection as uc

        real_cc = uc.create_connection

        def create_connection(address, *a, **k):
            if CURRENT is not None and CURRENT.net is not None:
                return CURRENT.net.connect(*address[:2])
            return real_cc(address, *a, **k)

        uc.create_connection = create_connection
    except ImportError:
        pass
    try:
        import pyarrow.parquet as pq

        def sim_source(src):
            env = CURRENT
            if env is not None and env.disk is not None and isinstance(src, str) and os.path.abspath(src).startswith(env.disk.root):
                h = _open(src, "rb")  # pyarrow's own file access, through the simulated disk
                env.disk.handles.remove(h)  # pyarrow's to close
                return h
            return src

        real_table = pq.read_table
        real_init = pq.ParquetFile.__init__

        def init(self, source, *a, **k):
            return real_init(self, sim_source(source), *a, **k)

        pq.ParquetFile.__init__ = init
        pq.read_table = lambda source, *a, **k: real_table(sim_source(source), *a, **k)
    except ImportError:
        pass
