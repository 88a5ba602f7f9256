"""
Controlled scheduler: runs the real code of several threads one step at a time and enumerates every
interleaving up to a preemption bound (stateless search with iterative context bounding).

``install()`` replaces the synchronisation primitives of ``threading`` by ones that hand every decision
to the scheduler when used from a controlled thread and behave like the originals otherwise; it has to be
called before the code under test is imported.  A scheduling point is every source line of the traced
files (or every bytecode), every operation of a primitive and every explicit ``point()``.
"""
import _thread
import sys
import threading

_real_lock = _thread.allocate_lock
_CURRENT = {}  # thread ident -> (scheduler, tid)
MAX_POINTS = 20000


class Abort(BaseException):
    """Unwinds controlled threads of an execution that is over (deadlock)."""


class Divergence(Exception):
    """The program did not follow a recorded prefix: nondeterminism that is not under control."""


def _me():
    return _CURRENT.get(_thread.get_ident())


class VLock:
    def __init__(self):
        self._l = _real_lock()

    def acquire(self, blocking=True, timeout=-1):
        me = _me()
        if me is None:
            return self._l.acquire(blocking, timeout)
        s, t = me
        s.point(t)
        while not self._l.acquire(False):
            if not blocking:
                return False
            if not s.block(t, self, timed=timeout is not None and timeout >= 0):
                return False
        return True

    def release(self):
        me = _me()
        self._l.release()
        if me is not None:
            me[0].wake(self)
            me[0].point(me[1])

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l = _real_lock()


class VRLock:
    def __init__(self):
        self._block = VLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        ident = _thread.get_ident()
        if self._owner == ident:
            self._count += 1
            return True
        if not self._block.acquire(blocking, timeout):
            return False
        self._owner, self._count = ident, 1
        return True

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._block.release()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    # for Condition
    def _release_save(self):
        state = (self._count, self._owner)
        self._count, self._owner = 0, None
        self._block.release()
        return state

    def _acquire_restore(self, state):
        self._block.acquire()
        self._count, self._owner = state

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _at_fork_reinit(self):
        self._block._at_fork_reinit()
        self._owner, self._count = None, 0


class VCondition:
    def __init__(self, lock=None):
        self._lock = lock if lock is not None else VRLock()
        self.acquire, self.release = self._lock.acquire, self._lock.release
        self._waiters = []

    def __enter__(self):
        self._lock.acquire()
        return self

    def __exit__(self, *a):
        self._lock.release()

    def wait(self, timeout=None):
        waiter = VLock()
        waiter._l.acquire()
        self._waiters.append(waiter)
        save = self._lock._release_save() if hasattr(self._lock, "_release_save") else self._lock.release()
        try:
            got = waiter.acquire(True, -1 if timeout is None else timeout)
            if not got and waiter in self._waiters:
                self._waiters.remove(waiter)
            return got
        finally:
            if hasattr(self._lock, "_acquire_restore"):
                self._lock._acquire_restore(save)
            else:
                self._lock.acquire()

    def wait_for(self, predicate, timeout=None):
        result = predicate()
        while not result:
            if not self.wait(timeout) and timeout is not None:
                return predicate()
            result = predicate()
        return result

    def notify(self, n=1):
        for waiter in self._waiters[:n]:
            self._waiters.remove(waiter)
            waiter.release()

    def notify_all(self):
        self.notify(len(self._waiters))

    notifyAll = notify_all


class VEvent:
    def __init__(self):
        self._flag = False
        self._cond = VCondition(VLock())

    def _at_fork_reinit(self):
        self._cond = VCondition(VLock())

    def is_set(self):
        return self._flag

    isSet = is_set

    def set(self):
        with self._cond:
            self._flag = True
            self._cond.notify_all()

    def clear(self):
        with self._cond:
            self._flag = False

    def wait(self, timeout=None):
        with self._cond:
            if not self._flag:
                self._cond.wait(timeout)
            return self._flag


class VSemaphore:
    def __init__(self, value=1):
        self._cond = VCondition(VLock())
        self._value = value

    def acquire(self, blocking=True, timeout=None):
        with self._cond:
            while self._value == 0:
                if not blocking:
                    return False
                if not self._cond.wait(timeout) and timeout is not None:
                    return False
            self._value -= 1
            return True

    def release(self, n=1):
        with self._cond:
            self._value += n
            self._cond.notify(n)

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


def install():
    threading.Lock = VLock
    threading.RLock = VRLock
    threading.Condition = VCondition
    threading.Event = VEvent
    threading.Semaphore = threading.BoundedSemaphore = VSemaphore


class Point:
    __slots__ = ("enabled", "running", "where")

    def __init__(self, enabled, running):
        self.enabled = enabled      # canonical order: the running thread first if enabled, then by number
        self.running = running      # whether the running thread is still enabled


class Execution:
    def __init__(self, points, choices, deadlock, livelock, order):
        self.points, self.choices = points, choices
        self.deadlock, self.livelock, self.order = deadlock, livelock, order


class Scheduler:
    def __init__(self, bodies, prefix, traced, opcodes=False):
        self.bodies = bodies
        self.prefix = prefix
        self.traced = traced        # predicate on file names
        self.opcodes = opcodes
        self.n = len(bodies)
        self.sems = [_real_lock() for _ in bodies]
        for s in self.sems:
            s.acquire()
        self.main = _real_lock()
        self.main.acquire()
        self.blocked = [None] * self.n     # object a thread is blocked on
        self.timed = [False] * self.n
        self.done = [False] * self.n
        self.points, self.choices, self.order = [], [], []
        self.aborting = False
        self.deadlock = False
        self.livelock = False
        self.error = None
        self.clock = 0

    # -- called from controlled threads
    def point(self, t):
        if self.aborting:
            raise Abort()
        self._switch(t)

    def block(self, t, obj, timed=False):
        """Blocks thread t; returns False if a timed wait ran out (only when nothing else can run)."""
        self.blocked[t] = obj
        self.timed[t] = timed
        self._switch(t)
        if self.blocked[t] is not None:
            self.blocked[t] = None
            return False
        return True

    def wake(self, obj):
        for t in range(self.n):
            if self.blocked[t] is obj:
                self.blocked[t] = None

    def _enabled(self, t):
        en = [i for i in range(self.n) if not self.done[i] and self.blocked[i] is None]
        if not en:
            en = [i for i in range(self.n) if not self.done[i] and self.timed[i]][:1]
        if t in en:
            return [t] + [i for i in en if i != t], True
        return en, False

    def _choose(self, t):
        en, running = self._enabled(t)
        if not en:
            return None
        if len(self.points) >= MAX_POINTS:
            self.livelock = True
            return None
        i = len(self.points)
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= len(en):
                self.error = Divergence(f"choice {c} of {len(en)} at point {i}")
                return None
        else:
            c = 0
        self.points.append(Point(en, running))
        self.choices.append(c)
        self.clock += 1
        if c or not running:
            self.order.append(en[c])
        return en[c]

    def _switch(self, t):
        nxt = self._choose(t)
        if nxt is None:
            if not self.livelock and self.error is None:
                self.deadlock = True
            self.aborting = True
            self.main.release()
            self.sems[t].acquire()  # resumed only to unwind
            raise Abort()
        if nxt != t:
            self.sems[nxt].release()
            self.sems[t].acquire()
            if self.aborting:
                raise Abort()

    def _thread(self, t):
        ident = _thread.get_ident()
        self.sems[t].acquire()
        if self.aborting:
            self._finish_abort(t)
            return
        _CURRENT[ident] = (self, t)
        try:
            sys.settrace(self._trace)
            try:
                self.bodies[t](lambda: self.point(t))
            finally:
                sys.settrace(None)
        except Abort:
            pass
        except BaseException as exc:  # harness bodies catch what the code under test may raise
            self.error = self.error or exc
        _CURRENT.pop(ident, None)
        self.done[t] = True
        if self.aborting:
            self._finish_abort(t)
            return
        nxt = self._choose(t)
        if nxt is None:
            if not all(self.done) and not self.livelock and self.error is None:
                self.deadlock = True
            self.aborting = True
            self.main.release()
        else:
            self.sems[nxt].release()

    def _finish_abort(self, t):
        self.done[t] = True
        self.main.release()

    def _trace(self, frame, event, arg):
        if not self.traced(frame.f_code.co_filename):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self._local

    def _local(self, frame, event, arg):
        if event == ("opcode" if self.opcodes else "line"):
            me = _me()
            if me is not None and not self.aborting:
                me[0].point(me[1])
        return self._local

    def run(self):
        for t in range(self.n):
            _thread.start_new_thread(self._thread, (t,))
        first = self._choose(-1)
        self.sems[first].release()
        self.main.acquire()
        # unwind whatever is left
        self.aborting = True
        for t in range(self.n):
            if not self.done[t]:
                self.sems[t].release()
                self.main.acquire()
        if self.error is not None:
            raise self.error
        return Execution(self.points, self.choices, self.deadlock, self.livelock, self.order)


def explore(make, check, traced, bound, shard=(0, 1), opcodes=False, on_run=None, max_fail=5):
    """
    Runs every execution with at most ``bound`` preemptions.  ``make()`` returns (bodies, world) afresh,
    ``check(execution, world)`` judges one and returns True if it found a violation.  Executions whose first deviation is
    number i are explored by shard i mod n.
    """
    stats = {"schedules": 0, "points": 0, "fails": 0}
    k, n = shard

    def one(prefix):
        bodies, world = make()
        x = Scheduler(bodies, prefix, traced, opcodes).run()
        if x.choices[: len(prefix)] != list(prefix):
            raise Divergence(f"prefix of {len(prefix)} choices not followed")
        stats["schedules"] += 1
        stats["points"] += len(x.points)
        if check(x, world):
            stats["fails"] += 1
        return x

    stack = []

    def push(x, start, used, root):
        i0 = 0
        cost = used
        for i in range(start, len(x.points)):
            p = x.points[i]
            c = cost + (1 if p.running else 0)
            if c <= bound:
                for alt in range(1, len(p.enabled)):
                    if not root or i0 % n == k:
                        stack.append((x.choices[:i] + [alt], c))
                    i0 += 1
        # all choices from ``start`` on are 0: continuing a runnable thread, never a preemption

    x = one([])
    push(x, 0, 0, True)
    while stack and stats["fails"] < max_fail:
        prefix, used = stack.pop()
        x = one(prefix)
        push(x, len(prefix), used, False)
    return stats
