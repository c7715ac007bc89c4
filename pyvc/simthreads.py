"""Threads of the unmodified modules under a scheduler of ours: one thread runs
at a time, may be preempted at every line of the given modules and at every
operation of a lock, and time is virtual.  A schedule is a sequence of random
choices, so a failing one is replayed from its seed."""
import asyncio
import collections
import importlib
import inspect
import itertools
import queue as _queue
import sys
import threading as _threading
import time as _time
import types
import warnings

from . import simloop
from .load import source_path
from .simloop import Hang


class Killed(BaseException):
    """the execution is over"""


class _T:
    def __init__(self, name):
        self.sem = _threading.Semaphore(0)
        self.pred = self.deadline = None
        self.done = self.timed = False
        self.name = name
        self.real = None


CUR = None


class Sched:
    def __init__(self, rng, p=None, max_steps=60000, creep=1e-4):
        self.rng, self.p = rng, rng.choice((0.02, 0.1, 0.4)) if p is None else p
        self.now = 1000.0
        self.creep = creep
        self.threads = []
        self.steps, self.max_steps = 0, max_steps
        self.dead = None
        self.files = set()
        self.errors = []

    def me(self):
        return self.cur

    def _pick(self):
        self.steps += 1
        self.now += self.creep
        if self.steps > self.max_steps and self.dead is None:
            self.dead = Hang("no progress is made any more")
        if self.dead:
            return None
        run = [t for t in self.threads if not t.done and (t.pred is None or t.pred()
               or (t.deadline is not None and t.deadline <= self.now))]
        if not run:
            dl = [t for t in self.threads if not t.done and t.deadline is not None]
            if not dl:
                self.dead = Hang("no progress is possible any more: " + ", ".join(
                    t.name for t in self.threads if not t.done))
                return None
            m = min(t.deadline for t in dl)
            self.now = max(self.now, m)
            run = [t for t in dl if t.deadline <= self.now]
        return self.rng.choice(run)

    def _to(self, me, n):
        if n is None:               # the execution is over
            if me is not self.threads[0]:
                self.cur = self.threads[0]
                self.threads[0].sem.release()
                me.sem.acquire()
            self._alive(me)
        if n is not me:
            self.cur = n
            n.sem.release()
            me.sem.acquire()
        self._alive(me)

    def _alive(self, me):
        if self.dead:
            if me is self.threads[0] and not isinstance(self.dead, Killed):
                raise self.dead
            raise Killed()

    def switch(self):
        me = self.cur
        self._to(me, self._pick())

    def block(self, pred, timeout=None):
        """-> does pred hold (False: the time is over)"""
        me = self.cur
        me.pred = pred
        me.deadline = None if timeout is None else self.now + max(timeout, 0)
        try:
            self._to(me, self._pick())
        finally:
            me.pred = me.deadline = None
        return bool(pred())

    def sleep(self, t):
        self.block(lambda: False, t)

    def trace(self, frame, event, arg):
        if frame.f_code.co_filename not in self.files:
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == "line" and self.cur.real is _threading.current_thread() \
                and self.rng.random() < self.p:
            self.switch()
        return self.line

    def spawn(self, fn, name):
        t = _T(name)

        def body():
            t.sem.acquire()
            try:
                if not self.dead:
                    sys.settrace(self.trace)
                    fn()
            except Killed:
                pass
            except BaseException as e:
                self.errors.append(e)
            finally:
                sys.settrace(None)
                t.done = True
                if not self.dead:
                    n = self._pick()
                    n = n or self.threads[0]
                    self.cur = n
                    n.sem.release()
                elif self.cur is t:
                    self.cur = self.threads[0]
                    self.threads[0].sem.release()
        t.real = _threading.Thread(target=body, daemon=True)
        self.threads.append(t)
        t.real.start()
        return t

    def finish(self):
        if not self.dead or isinstance(self.dead, Hang):
            self.dead = Killed()
        for t in self.threads[1:]:
            if not t.done:
                for _ in range(20):
                    self.cur = t
                    t.sem.release()
                    t.real.join(0.05)
                    if not t.real.is_alive():
                        break


def _op():
    if CUR is not None and not CUR.dead:
        CUR.switch()


class Lock:
    def __init__(self):
        self.owner = None

    def acquire(self, blocking=True, timeout=-1):
        _op()
        if self.owner is not None:
            if not blocking:
                return False
            if not CUR.block(lambda: self.owner is None, None if timeout < 0 else timeout):
                return False
        self.owner = CUR.cur
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.owner = None
        _op()

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self.owner = None


class RLock:
    def __init__(self):
        self.owner, self.n = None, 0

    def acquire(self, blocking=True, timeout=-1):
        _op()
        if self.owner is CUR.cur:
            self.n += 1
            return True
        if self.owner is not None:
            if not blocking:
                return False
            if not CUR.block(lambda: self.owner is None, None if timeout < 0 else timeout):
                return False
        self.owner, self.n = CUR.cur, 1
        return True

    def release(self):
        if self.owner is not CUR.cur:
            raise RuntimeError("cannot release un-acquired lock")
        self.n -= 1
        if not self.n:
            self.owner = None
            _op()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self.owner is CUR.cur

    def _release_save(self):
        s = self.n
        self.owner, self.n = None, 0
        return s

    def _acquire_restore(self, s):
        self.acquire()
        self.n = s


class Thread:
    n = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        Thread.n += 1
        self.target, self.args, self.kwargs = target, args, kwargs or {}
        self.name = name or "Thread-%d" % Thread.n
        self.daemon = bool(daemon)
        self._t = None

    def run(self):
        if self.target is not None:
            self.target(*self.args, **self.kwargs)

    def start(self):
        if self._t is not None:
            raise RuntimeError("threads can only be started once")
        self._t = CUR.spawn(self.run, self.name)
        _op()

    def is_alive(self):
        return self._t is not None and not self._t.done

    def join(self, timeout=None):
        if self._t is None:
            raise RuntimeError("cannot join thread before it is started")
        if CUR.cur is self._t:
            raise RuntimeError("cannot join current thread")
        CUR.block(lambda: self._t.done, timeout)

    @property
    def ident(self):
        return None if self._t is None else self._t.real.ident


def _now():
    return CUR.now if CUR is not None else _time.monotonic()


def _sleep(t):
    CUR.sleep(t)


def current_thread():
    return _threading.current_thread()


threading = types.ModuleType("threading")
threading.__dict__.update({k: v for k, v in vars(_threading).items() if not k.startswith("__")})
threading.__dict__.update(Lock=Lock, RLock=RLock, _allocate_lock=Lock, _time=_now, Thread=Thread,
                          _deque=collections.deque, _islice=itertools.islice)
for _c in ("Condition", "Semaphore", "BoundedSemaphore", "Event", "Barrier"):
    exec(inspect.getsource(getattr(_threading, _c)), threading.__dict__)
time = types.ModuleType("time")
time.__dict__.update({k: v for k, v in vars(_time).items() if not k.startswith("__")})
time.__dict__.update(time=_now, monotonic=_now, sleep=_sleep, perf_counter=_now)
queue = types.ModuleType("queue")
exec(open(_queue.__file__).read(), queue.__dict__)
queue.__dict__.update(threading=threading, time=_now, SimpleQueue=queue._PySimpleQueue,
                      Empty=_queue.Empty, Full=_queue.Full)
FAKES = {"threading": threading, "time": time, "queue": queue}


def load(modname):
    """a private copy of a module whose threads, locks, queues and clocks are ours"""
    path = source_path(modname)
    importlib.import_module(modname)
    mod = types.ModuleType(modname)
    mod.__file__ = path
    mod.__package__ = modname if path.endswith("__init__.py") else modname.rpartition(".")[0]
    saved = {k: sys.modules[k] for k in FAKES}
    old = sys.modules.get(modname)
    sys.modules.update(FAKES)
    sys.modules[modname] = mod
    try:
        exec(compile(open(path).read(), path, "exec"), mod.__dict__)
    finally:
        sys.modules.update(saved)
        sys.modules[modname] = old
    return mod


class _Selector(simloop._Selector):
    def select(self, timeout=None):
        ev = self.real.select(0)
        if ev or timeout == 0:
            CUR.switch()
            return self.real.select(0)
        CUR.block(lambda: bool(self.real.select(0)), timeout)
        return self.real.select(0)


class Loop(asyncio.SelectorEventLoop):
    def __init__(self):
        self.errors = []
        asyncio.SelectorEventLoop.__init__(self, _Selector(self))
        self.set_exception_handler(lambda loop, c: self.errors.append(c))

    def time(self):
        return _now()


class Executor:
    """one new thread per call, results are asyncio futures"""

    def submit(self, fn, *args, **kw):
        loop = asyncio.get_running_loop()
        fut = loop.create_future()

        def done(ok, v):
            if not fut.done():
                fut.set_result(v) if ok else fut.set_exception(v)

        def run():
            try:
                r = (True, fn(*args, **kw))
            except Killed:
                raise
            except BaseException as e:
                r = (False, e)
            try:
                loop.call_soon_threadsafe(done, *r)
            except RuntimeError:
                pass
        Thread(target=run, name="executor").start()
        return fut

    def shutdown(self, wait=True, **kw):
        pass


def run(rng, main, mods=(), p=None, max_steps=60000, creep=1e-4):
    """run main(loop, sched) on a loop in the first thread"""
    return _run(rng, main, mods, p, max_steps, True, creep)


def run_plain(rng, main, mods=(), p=None, max_steps=60000, creep=1e-4):
    """run main(sched) in the first thread, without a loop"""
    return _run(rng, main, mods, p, max_steps, False, creep)


def _run(rng, main, mods, p, max_steps, looped, creep):
    global CUR
    s = Sched(rng, p, max_steps, creep)
    s.files = {m.__file__ for m in mods}
    t0 = _T("main")
    t0.real = _threading.current_thread()
    s.threads.append(t0)
    s.cur = t0
    CUR = s
    old = sys.gettrace()
    loop = None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            sys.settrace(s.trace)
            if not looped:
                return main(s)
            loop = Loop()
            asyncio.set_event_loop(loop)

            async def go():
                return await main(loop, s)
            return loop.run_until_complete(go())
        finally:
            sys.settrace(old)
            s.finish()
            CUR = None
            if loop is not None:
                try:
                    for t in asyncio.all_tasks(loop):
                        t.cancel()
                    loop._ready.clear()
                    asyncio.set_event_loop(None)
                    loop.close()
                except BaseException:
                    pass
