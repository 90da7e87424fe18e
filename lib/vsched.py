"""Deterministic scheduler for real Python threads, with virtual time.

install() replaces the names of the threading, time, socket and select modules
by stand-ins (import vnet for the network part).  It has to be called before
modbus_tk is imported.  A Run executes a scenario: all its threads are real
threads, but only the one holding the baton runs.  The baton changes hands at
operations of the stand-ins and, when opcode tracing is on, between any two
bytecodes of modbus_tk; the Strategy decides.  When every thread is blocked the
virtual clock jumps to the next deadline; when there is none the run is dead:
that is reported as a deadlock.
"""
import _thread
import ctypes
import gc
import random
import sys
import threading
import time
import weakref

REAL = {}
_real_time = time.time
_real_mono = time.monotonic
_real_cpu = time.process_time
_real_sleep = time.sleep

CUR = None            # the current Run
BY_IDENT = {}         # ident -> managed thread of the current run
ALL_LOCKS = weakref.WeakSet()
RUNS = 0
TRACE_DIR = None      # opcodes of files below this directory can be preempted


class VAbort(BaseException):
    """raised in the threads of a run which is given up"""


class Strategy(object):
    """Never switches by itself: a thread runs until it blocks"""
    opcodes = False

    def switch(self, run, cands, step):
        """cands: the other threads which can run. Returns one of them or None"""
        return None

    def pick(self, run, cands):
        """the running thread blocked: which one continues?"""
        return cands[0]


class RandomStrategy(Strategy):
    """switches at shim operations with a given probability"""

    def __init__(self, seed, prob=0.3):
        self.rnd = random.Random(seed)
        self.prob = prob

    def switch(self, run, cands, step):
        if cands and self.rnd.random() < self.prob:
            return self.rnd.choice(cands)
        return None

    def pick(self, run, cands):
        return self.rnd.choice(cands)


class PointStrategy(Strategy):
    """preempts at the given steps (opcodes and shim operations count as steps).
    After a preemption the preempted thread continues only if the others block or end
    (or at a further point)."""

    def __init__(self, points, opcodes=True, seed=0, order=None):
        self.points = dict(points)      # step -> index of the candidate
        self.opcodes = opcodes
        self.rnd = random.Random(seed)
        self.order = order

    def switch(self, run, cands, step):
        if step in self.points and cands:
            return cands[self.points[step] % len(cands)]
        return None

    def pick(self, run, cands):
        if self.order is None:
            return cands[0]
        return cands[self.rnd.randrange(len(cands))]


class MThread(object):
    """a managed thread"""

    def __init__(self, run, fct, name, vthread=None):
        self.run = run
        self.fct = fct
        self.name = name
        self.vthread = vthread
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.pred = None
        self.deadline = None
        self.done = False
        self.background = False
        self.exc = None
        self.idx = len(run.threads)
        self.ident = None
        self.where = ""

    def boot(self):
        self.ident = _thread.get_ident()
        BY_IDENT[self.ident] = self
        self.gate.acquire()
        try:
            if self.run.aborting:
                return
            if self.run.strategy.opcodes:
                sys.settrace(self.run.tracer)
            self.fct()
        except VAbort:
            pass
        except BaseException as exc:   # pylint: disable=broad-except
            self.exc = exc
            self.run.errors.append((self.name, exc))
        finally:
            sys.settrace(None)
            self.done = True
            BY_IDENT.pop(_thread.get_ident(), None)
            self.run.thread_ended(self)


class Run(object):
    """one execution of a scenario"""
    endless = 0                     # runs which did not come to an end
    leaks = 0                       # runs whose threads did not go away

    def __init__(self, strategy=None, max_steps=400000, max_time=3600.0, real_limit=30.0):
        self.strategy = strategy or Strategy()
        self.threads = []
        self.now = 1000.0
        self.steps = 0
        self.ops = 0
        # when some runs did not come to an end, the others need not be waited for so long
        patient = Run.endless < 3
        self.max_steps = max_steps if patient else min(max_steps, 40000)
        self.max_ops = 200000 if patient else 20000
        self.max_time = self.now + max_time
        self.real_limit = real_limit if patient else min(real_limit, 5.0)
        self.aborting = False
        self.verdict = None         # None, "deadlock", "livelock", "timeout"
        self.blocked = []
        self.errors = []
        self.finished = _thread.allocate_lock()
        self.finished.acquire()
        self.current = None
        self.log = []
        self.switches = 0
        self.no_preempt = 0

    # --- life cycle
    def spawn(self, fct, name="t", vthread=None):
        thread = MThread(self, fct, name, vthread)
        self.threads.append(thread)
        _thread.start_new_thread(thread.boot, ())
        return thread

    def execute(self, main):
        """run main in a managed thread until every foreground thread has ended"""
        global CUR, RUNS
        # garbage is collected between the runs only: destructors are not to run at random places
        gc.disable()
        RUNS += 1
        if RUNS % 20 == 0:
            gc.collect()
        for lock in list(ALL_LOCKS):
            lock._reset()
        CUR = self
        first = self.spawn(main, "main")
        self.current = first
        first.gate.release()
        if not self.wait_end():
            self.verdict = self.verdict or "timeout"
            self.aborting = True
        self.aborting = True
        if self.verdict in ("livelock", "timeout"):
            Run.endless += 1
        # let the remaining threads go away
        limit, cpu = _real_mono() + 2.0, _real_cpu()
        longest = limit + (18.0 if Run.leaks < 3 else 0.0)
        for thread in self.threads:
            while not thread.done and (_real_mono() < limit or (_real_mono() < longest and _real_cpu() < cpu + 0.2)):
                if _real_mono() > limit - 1.0 and _real_cpu() > cpu + 0.1 and thread.ident is not None:
                    # it runs round without any operation
                    ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(thread.ident), ctypes.py_object(VAbort))
                try:
                    thread.gate.release()
                except RuntimeError:
                    pass
                _real_sleep(0.0005)
        if [t for t in self.threads if not t.done]:
            Run.leaks += 1
        CUR = None
        return self.verdict

    def wait_end(self):
        """false when the run does not come to an end: it has used up its time, and not because the machine is busy
        with something else"""
        start, cpu = _real_mono(), _real_cpu()
        last, last_cpu = start, cpu
        while True:
            if self.finished.acquire(True, 1.0 if _real_mono() - start > 1.0 else 0.5):
                return True
            now, used = _real_mono(), _real_cpu()
            if now - start > 8 * self.real_limit:
                return False
            if now - start > self.real_limit:
                if used - cpu > 0.5 * self.real_limit:
                    return False            # running on and on
                if now - last > 4.0 and used - last_cpu < 0.02:
                    return False            # everything stands still
            if now - last > 5.0:
                last, last_cpu = now, used

    def finish(self, verdict=None):
        if verdict and not self.verdict:
            self.verdict = verdict
            self.blocked = [(t.name, t.where) for t in self.threads if not t.done]
        self.aborting = True
        try:
            self.finished.release()
        except RuntimeError:
            pass

    def thread_ended(self, thread):
        if self.aborting:
            return
        if not [t for t in self.threads if not t.done and not t.background]:
            self.finish()
            return
        nxt = self.choose()
        if nxt is None:
            self.finish("deadlock")
        else:
            self.current = nxt
            nxt.gate.release()

    # --- scheduling
    def me(self):
        return BY_IDENT.get(_thread.get_ident())

    def ready(self, but=None):
        res = []
        for thread in self.threads:
            if thread.done or thread is but:
                continue
            if thread.pred is None or thread.pred() or (thread.deadline is not None and thread.deadline <= self.now):
                res.append(thread)
        return res

    def choose(self):
        """the next thread, after advancing the clock if necessary"""
        while True:
            cands = self.ready()
            if cands:
                return cands[0] if len(cands) == 1 else self.strategy.pick(self, cands)
            dls = [t.deadline for t in self.threads if not t.done and t.deadline is not None]
            if not dls:
                return None
            self.now = max(self.now, min(dls))
            if self.now > self.max_time:
                self.finish("livelock")
                return None

    def hand_over(self, me, nxt):
        if nxt is me:
            return
        self.switches += 1
        self.current = nxt
        nxt.gate.release()
        me.gate.acquire()
        if self.aborting:
            raise VAbort()

    def point(self, what=""):
        """a point where the running thread can be preempted"""
        me = self.me()
        if me is None:
            return
        if self.aborting:
            raise VAbort()
        self.ops += 1
        if self.ops > self.max_ops:
            self.finish("livelock")
            raise VAbort()
        self.step(me)

    def step(self, me):
        self.steps += 1
        if self.steps > self.max_steps:
            self.finish("livelock")
            raise VAbort()
        if self.no_preempt:
            return
        nxt = self.strategy.switch(self, LazyReady(self, me), self.steps)
        if nxt is not None:
            self.hand_over(me, nxt)

    def block(self, pred, timeout=None, where=""):
        """wait until pred() or timeout. Returns pred()"""
        me = self.me()
        if self.aborting:
            raise VAbort()
        me.pred = pred
        me.deadline = None if timeout is None else self.now + max(0.0, timeout)
        me.where = where
        try:
            nxt = self.choose()
            if nxt is None:
                self.finish("deadlock")
                raise VAbort()
            self.hand_over(me, nxt)
        finally:
            me.pred = None
            me.deadline = None
        return pred()

    def sleep(self, duration):
        self.point("sleep")
        self.block(lambda: False, duration, "sleep")

    def idle(self, settle=0.0):
        """wait until every other thread is blocked without (or beyond) the given time"""
        me = self.me()

        def quiet():
            for thread in self.threads:
                if thread is me or thread.done:
                    continue
                if thread.pred is None or thread.pred():
                    return False
            return True
        self.block(quiet, None, "idle")

    # --- opcode tracing
    def tracer(self, frame, event, arg):
        if event == "call" and frame.f_code.co_filename.startswith(TRACE_DIR):
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
            return self.local_tracer
        return None

    def local_tracer(self, frame, event, arg):
        if event == "opcode":
            me = BY_IDENT.get(_thread.get_ident())
            if me is not None and not self.aborting and self.current is me:
                try:
                    self.step(me)
                except VAbort:
                    # (an exception from here can crash the interpreter: the next operation ends the thread)
                    return None
        return self.local_tracer


class LazyReady(object):
    """the list of the other threads which can run, computed when needed"""

    def __init__(self, run, me):
        self.run, self.me, self.lst = run, me, None

    def get(self):
        if self.lst is None:
            self.lst = self.run.ready(self.me)
        return self.lst

    def __len__(self):
        return len(self.get())

    def __bool__(self):
        return bool(self.get())

    def __getitem__(self, i):
        return self.get()[i]


def managed():
    """the current run if the calling thread belongs to it"""
    if CUR is not None and _thread.get_ident() in BY_IDENT:
        return CUR
    return None


# ---------------------------------------------------------------- threading
class VLock(object):
    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0
        ALL_LOCKS.add(self)

    def _reset(self):
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        run = managed()
        me = _thread.get_ident()
        if run is None:
            if self.owner is not None and not (self.reentrant and self.owner == me):
                raise RuntimeError("stand-in lock used by several unmanaged threads")
            self.owner = me
            self.count += 1
            return True
        run.point("acquire")
        if self.reentrant and self.owner == me:
            self.count += 1
            return True
        if self.owner is not None:
            if not blocking:
                return False
            if not run.block(lambda: self.owner is None, None if timeout is None or timeout < 0 else timeout, "lock"):
                return False
        self.owner = me
        self.count = 1
        return True

    def release(self):
        if self.owner is None or (self.reentrant and self.owner != _thread.get_ident()):
            if CUR is not None and CUR.aborting:
                return
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None
        run = managed()
        if run is not None and not run.aborting:
            run.point("release")

    def locked(self):
        return self.owner is not None

    def _is_owned(self):
        return self.owner == _thread.get_ident()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *args):
        self.release()


class VRLock(VLock):
    reentrant = True


class VCondition(object):
    def __init__(self, lock=None):
        self.lock = lock if lock is not None else VRLock()
        self.acquire = self.lock.acquire
        self.release = self.lock.release
        self.waiters = []

    def __enter__(self):
        self.lock.acquire()
        return self

    def __exit__(self, *args):
        self.lock.release()

    def wait(self, timeout=None):
        run = managed()
        if run is None:
            raise RuntimeError("wait in an unmanaged thread")
        token = [False]
        self.waiters.append(token)
        count, self.lock.count, self.lock.owner = self.lock.count, 0, None
        try:
            res = run.block(lambda: token[0], timeout, "condition")
        finally:
            if token in self.waiters:
                self.waiters.remove(token)
        if self.lock.owner is not None:
            run.block(lambda: self.lock.owner is None, None, "condition lock")
        self.lock.owner, self.lock.count = _thread.get_ident(), count
        return res

    def wait_for(self, predicate, timeout=None):
        run = managed()
        end = None if timeout is None else run.now + timeout
        result = predicate()
        while not result:
            left = None if end is None else end - run.now
            if left is not None and left <= 0:
                break
            self.wait(left)
            result = predicate()
        return result

    def notify(self, n=1):
        for token in self.waiters[:n]:
            token[0] = True
        del self.waiters[:n]

    def notify_all(self):
        self.notify(len(self.waiters))

    notifyAll = notify_all


class VEvent(object):
    def __init__(self):
        self._flag = False

    def is_set(self):
        run = managed()
        if run is not None:
            run.point("event")
        return self._flag

    isSet = is_set

    def set(self):
        run = managed()
        if run is not None:
            run.point("event")
        self._flag = True

    def clear(self):
        run = managed()
        if run is not None:
            run.point("event")
        self._flag = False

    def wait(self, timeout=None):
        run = managed()
        if run is None:
            return self._flag
        run.point("event")
        if self._flag:
            return True
        return run.block(lambda: self._flag, timeout, "event")


class VSemaphore(object):
    def __init__(self, value=1):
        self._value = value

    def acquire(self, blocking=True, timeout=None):
        run = managed()
        if run is not None:
            run.point("semaphore")
            if self._value <= 0:
                if not blocking:
                    return False
                if not run.block(lambda: self._value > 0, timeout, "semaphore"):
                    return False
        self._value -= 1
        return True

    def release(self, n=1):
        self._value += n
        run = managed()
        if run is not None:
            run.point("semaphore")

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *args):
        self.release()


_COUNTER = [0]


class VThread(object):
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        _COUNTER[0] += 1
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        self.name = name or "Thread-%d" % _COUNTER[0]
        self.daemon = bool(daemon)
        self._m = None

    def start(self):
        run = managed()
        if self._m is not None:
            raise RuntimeError("threads can only be started once")
        if run is None:
            raise RuntimeError("thread started outside of a run")
        run.point("start")
        self._m = run.spawn(self.run, self.name, self)
        if getattr(run, "on_thread", None):
            run.on_thread(self)
        run.point("started")

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def is_alive(self):
        run = managed()
        if run is not None:
            run.point("is_alive")
        return self._m is not None and not self._m.done

    isAlive = is_alive

    def join(self, timeout=None):
        run = managed()
        if self._m is None:
            raise RuntimeError("cannot join thread before it is started")
        if run is None:
            return
        if run.me() is self._m:
            raise RuntimeError("cannot join current thread")
        run.point("join")
        if not self._m.done:
            m = self._m
            run.block(lambda: m.done, timeout, "join " + self.name)

    @property
    def ident(self):
        return None if self._m is None else 1 + self._m.idx

    native_id = ident

    def getName(self):
        return self.name

    def setName(self, name):
        self.name = name

    def setDaemon(self, daemon):
        self.daemon = daemon

    def isDaemon(self):
        return self.daemon


class VTimer(VThread):
    def __init__(self, interval, function, args=None, kwargs=None):
        VThread.__init__(self)
        self.interval, self.function = interval, function
        self.args, self.kwargs = args or [], kwargs or {}
        self.finished = VEvent()

    def cancel(self):
        self.finished.set()

    def run(self):
        if not self.finished.wait(self.interval):
            self.function(*self.args, **self.kwargs)


class _Main(object):
    name = "MainThread"
    daemon = False
    ident = 0

    def is_alive(self):
        return True


def v_current_thread():
    m = BY_IDENT.get(_thread.get_ident())
    if m is None or m.vthread is None:
        return _Main()
    return m.vthread


# --------------------------------------------------------------------- time
def v_time():
    run = managed()
    return _real_time() if run is None else run.now


def v_mono():
    run = managed()
    return _real_mono() if run is None else run.now


def v_sleep(duration):
    run = managed()
    if run is None:
        return _real_sleep(duration)
    run.sleep(duration)


def install(repo):
    """replace threading and time. Called once per process, before modbus_tk is imported"""
    global TRACE_DIR
    import logging
    import queue
    logging.disable(logging.CRITICAL)
    TRACE_DIR = repo.rstrip("/") + "/modbus_tk/"
    threading.Lock = VLock
    threading.RLock = VRLock
    threading.Condition = VCondition
    threading.Event = VEvent
    threading.Semaphore = VSemaphore
    threading.BoundedSemaphore = VSemaphore
    threading.Thread = VThread
    threading.Timer = VTimer
    threading.current_thread = v_current_thread
    threading.currentThread = v_current_thread
    time.time = v_time
    time.monotonic = v_mono
    time.perf_counter = v_mono
    time.sleep = v_sleep
    queue.SimpleQueue = queue.Queue
    queue.time = v_mono
    if repo not in sys.path:
        sys.path.insert(0, repo)
