"""The simulator: one virtual clock, one event queue, one seeded scheduler.

Everything the client library can block on or ask the time from goes through here (see net.py for
the socket and serial stand-ins).  A run is a pure function of its scenario: time only moves when a
simulated call costs time or waits, and every choice comes from a random generator the scenario
seeds."""
import hashlib
import heapq
import random
import sys
import threading
import time as _real_time

US = 1_000_000
_real_monotonic = _real_time.monotonic


class SimHang(BaseException):
    """The code under test does not terminate (in simulated time or in simulated calls)."""


class SimAbort(BaseException):
    """Unwinds a task of a run that is over."""


class Kernel:
    MAX_STEPS = 300_000       # simulated calls in one operation
    MAX_TIME = 20_000 * US    # simulated time in one operation
    MAX_IDLE = 3_000          # consecutive reads that return nothing at once

    def __init__(self):
        self.now = 0
        self.seq = 0
        self.heap = []
        self.offset = 0            # client clock = now + offset (clock jumps)
        self.steps = 0             # simulated calls in the current operation
        self.total_steps = 0
        self.op_began = 0
        self.idle = 0
        self.dead = None
        self.trace = hashlib.blake2b(digest_size=8)
        self.faults = {}
        self.sched = None          # set for multi task runs
        self.clock_jumps = {}      # simulated call number in the operation -> microseconds
        self.jumps_done = 0
        self.log = None            # a list when the run is traced for a replay

    # -- bookkeeping
    def note(self, label):
        self.trace.update(label.encode())
        if self.log is not None and len(self.log) < 5000:
            self.log.append("%d %s" % (self.now, label))

    def fault(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self.note("!" + kind)

    def begin_op(self, jumps=None):
        self.steps = 0
        self.idle = 0
        self.op_began = self.now
        self.clock_jumps = dict(jumps or {})
        self.jumps_done = 0

    # -- time
    def client_time(self):
        return (self.now + self.offset) / US + 1000.0

    def at(self, t, fn):
        self.seq += 1
        heapq.heappush(self.heap, (max(t, self.now), self.seq, fn))

    def _run_until(self, t):
        while self.heap and self.heap[0][0] <= t:
            when, _, fn = heapq.heappop(self.heap)
            if when > self.now:
                self.now = when
            fn()
        if t > self.now:
            self.now = t

    def hang(self, why):
        self.dead = self.dead or why
        raise SimHang(why)

    # -- seams
    def enter(self, label):
        """Every simulated call passes here: it costs a microsecond and is a scheduling point."""
        if self.dead:
            raise SimHang(self.dead)
        self.steps += 1
        self.total_steps += 1
        if self.steps > self.MAX_STEPS:
            self.hang("more than %d calls in one operation" % self.MAX_STEPS)
        j = self.clock_jumps.pop(self.steps, None)
        if j is not None:
            self.offset += j
            self.jumps_done += 1
            self.fault("clock_jump_back" if j < 0 else "clock_jump_forward")
        self.note(label)
        if self.sched is not None:
            self.sched.pause(None, None)
        self._run_until(self.now + 1)

    def wait(self, ready, deadline):
        """Block until ready() or the deadline. -> ready()"""
        if self.sched is not None:
            self.sched.pause(ready, deadline)
            return ready()
        while not ready():
            if self.heap and (deadline is None or self.heap[0][0] <= deadline):
                self._run_until(self.heap[0][0])
            elif deadline is None:
                self.hang("blocked forever")
            else:
                self._run_until(deadline)
                break
            if self.now - self.op_began > self.MAX_TIME:
                self.hang("more than %d s in one operation" % (self.MAX_TIME // US))
        return ready()

    def tick_idle(self, empty):
        """Reads that return nothing without waiting: a loop around them never ends."""
        self.idle = self.idle + 1 if empty else 0
        if self.idle > self.MAX_IDLE:
            self.hang("spinning on reads that return nothing")

    def sleep(self, seconds):
        self.enter("sleep")
        self.wait(lambda: False, self.now + int(max(0, seconds) * US))

    def drain(self, t):
        """Let the rest of the world go on without the client until t."""
        self._run_until(t)


class Scheduler:
    """Runs several tasks, one at a time.  Tasks are threads, but only the one holding the baton
    runs; which one gets it next is decided by the seeded generator at every simulated call.
    stick: how likely a task that can go on does so."""

    def __init__(self, kernel, seed, stick=0.0):
        self.k = kernel
        self.rng = random.Random(seed)
        self.stick = stick
        self.tasks = []
        self.finished = threading.Event()
        self.cur = None
        self.over = False
        self.switches = 0
        self.points = 0
        self.held = (None, 0)      # a task that lost the processor, until that many points passed

    def spawn(self, name, fn):
        t = {"name": name, "fn": fn, "go": threading.Semaphore(0), "ready": None, "deadline": None,
             "done": False, "exc": None}

        def main():
            t["go"].acquire()
            try:
                if not self.over:
                    fn()
            except BaseException as e:  # noqa
                t["exc"] = e
            t["done"] = True
            self._hand_over()

        t["thread"] = threading.Thread(target=main, daemon=True)
        t["thread"].start()
        self.tasks.append(t)

    def _pick(self):
        """The task that goes next, or None if the run is over."""
        k = self.k
        while True:
            live = [t for t in self.tasks if not t["done"]]
            if not live or self.over:
                return None
            if k.dead:
                return None
            runnable = [t for t in live if t["ready"] is None or t["ready"]()
                        or (t["deadline"] is not None and t["deadline"] <= k.now)]
            if runnable:
                self.points += 1
                held, until = self.held
                if self.points < until and len(runnable) > 1:
                    runnable = [t for t in runnable if t is not held]
                if self.cur in runnable and self.rng.random() < self.stick:
                    return self.cur
                return runnable[self.rng.randrange(len(runnable))]
            nxt = [t["deadline"] for t in live if t["deadline"] is not None]
            if k.heap:
                nxt.append(k.heap[0][0])
            if not nxt:
                k.dead = "all tasks blocked forever"
                return None
            k._run_until(min(nxt))
            if k.now > k.MAX_TIME:
                k.dead = "simulated time ran out"
                return None

    def _hand_over(self):
        t = self._pick()
        if t is None:
            # unwind whoever is left, one after the other
            self.over = True
            for u in self.tasks:
                if not u["done"]:
                    u["go"].release()
                    return
            self.finished.set()
            return
        self._switch(t)
        t["go"].release()

    def _switch(self, t):
        if t is not self.cur:
            self.switches += 1
            self.k.note("@" + t["name"])
        self.cur = t
        t["ready"] = t["deadline"] = None

    def pause(self, ready, deadline):
        t = self.cur
        if self.over:
            raise SimAbort()
        t["ready"], t["deadline"] = ready, deadline
        n = self._pick()
        if n is t:
            self._switch(t)
            return
        if n is None:
            self.over = True
            raise SimAbort()
        self._switch(n)
        n["go"].release()
        t["go"].acquire()
        if self.over:
            raise SimAbort()

    def run(self):
        self._hand_over()
        self.finished.wait()


# ---------------------------------------------------------------- preemption and interrupts
class Lines:
    """Calls back at chosen lines of the library's own code, counted over all tasks: the places
    between simulated calls where a thread can lose the processor or an interrupt can arrive.
    rare: of each line only the occurrences 1, 2, 4, 8 and so on count."""

    TOOL = 4

    def __init__(self, root, act, rare=False):
        self.root, self.act = root, act
        self.left = 0
        self.seen = 0
        self.rare = {} if rare else None

    def _line(self, code, line):
        if not code.co_filename.startswith(self.root):
            return sys.monitoring.DISABLE
        self.seen += 1
        if self.rare is not None:
            # loops over bytes must not drown the lines that run once per operation
            n = self.rare[code, line] = self.rare.get((code, line), 0) + 1
            if n & (n - 1):
                return
        self.left -= 1
        if self.left <= 0:
            self.left = 10 ** 9
            self.act(self)

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, "elgas-sim")
        m.register_callback(self.TOOL, m.events.LINE, self._line)
        m.set_events(self.TOOL, m.events.LINE)
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(self.TOOL, 0)
        m.register_callback(self.TOOL, m.events.LINE, None)
        m.free_tool_id(self.TOOL)
        m.restart_events()


CURRENT = [None]      # the scheduler of the run in progress


class SimLock:
    """A lock of the library: taking it hands the baton over instead of blocking the process."""

    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.owner, self.depth = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        if self.reentrant and self.owner == me:
            self.depth += 1
            return True
        if self.owner is not None:
            s = CURRENT[0]
            if not blocking:
                return False
            if s is None:
                raise SimHang("a lock that is held is taken again")
            s.pause(lambda: self.owner is None,
                    None if timeout is None or timeout < 0 else s.k.now + int(timeout * US))
            if self.owner is not None:
                return False
        self.owner, self.depth = me, 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if not self.depth:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def install_locks():
    """Locks created by the library (or code generated for it) are simulated."""
    def factory(real, reentrant):
        def make(*a, **k):
            name = sys._getframe(1).f_globals.get("__name__") or ""
            if name.split(".")[0] == "elgas":
                return SimLock(reentrant)
            return real(*a, **k)
        return make
    threading.Lock = factory(threading.Lock, False)
    threading.RLock = factory(threading.RLock, True)
