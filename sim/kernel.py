"""The simulation kernel: simulated threads, processes, locks, timers, clock and the choice of who runs.

Exactly one entity runs at a time.  Python code of the system under test runs on real threads that are parked on a private lock
("baton") and released one at a time; simulated commands are generators advanced inline.  Every choice goes through one
Chooser, so one seed (or one recorded list of choices) is one execution."""
import _thread
import heapq
import random
import signal
import sys
import threading

_alloc = _thread.allocate_lock
_start_new = _thread.start_new_thread
get_ident = _thread.get_ident


class SimKilled(BaseException):
    """Raised in every thread of a simulated process that is being torn down."""


class HarnessError(Exception):
    """Something is wrong with the simulator, not with the code under test."""


class Unsupported(HarnessError):
    """The code under test used something the simulator does not model."""


#: the active kernel (one per simulation run)
K = None


def current():
    """(kernel, thread) when called from a simulated thread, else (None, None)."""
    k = K
    if k is None:
        return None, None
    t = k.by_ident.get(get_ident())
    if t is None:
        return None, None
    return k, t


# --------------------------------------------------------------------------------------------------------------------------
class Chooser:
    """Source of every scheduling decision.  Decision 0 always means "carry on with the current (or first) entity"."""

    def __init__(self, seed=None, script=None, strategy=None):
        self.points = 0
        self.script = {int(k): v for k, v in script.items()} if script is not None else None
        self.taken = {}
        self.rng = random.Random(seed)
        self.strategy = strategy or {}
        s = self.strategy
        self.kind = s.get("kind", "sticky")
        self.p_switch = s.get("p", 0.2)
        self.line_gap = s.get("line_gap", 0)
        self.prio = {}
        self.changes = set()
        if self.script is None:
            if self.kind == "pct":
                span = s.get("span", 2000)
                self.changes = {self.rng.randrange(span) for _ in range(s.get("depth", 3))}
            self.next_line = self._gap()
        self.ncalls = 0

    def _gap(self):
        if not self.line_gap:
            return -1
        return self.points + 1 + int(self.rng.expovariate(1.0 / self.line_gap))

    def line(self):
        """A preemption opportunity between two lines of code; True if a real choice is to be made here."""
        i = self.points
        self.points = i + 1
        if self.script is not None:
            if self.script.get(i):
                self.taken[i] = 1
                return True
            return False
        if i >= self.next_line >= 0:
            self.next_line = self._gap()
            self.taken[i] = 1
            return True
        return False

    def choose(self, cands, staying):
        """Index into cands.  `staying`: cands[0] is the entity that is running now."""
        i = self.points
        self.points = i + 1
        n = len(cands)
        if self.script is not None:
            v = self.script.get(i, 0)
            v = v if 0 <= v < n else 0
        elif n == 1:
            v = 0
        else:
            self.ncalls += 1
            rng = self.rng
            if self.kind == "pct":
                if self.ncalls in self.changes:
                    self.prio[cands[0].eid] = -self.ncalls
                best, v = None, 0
                for j, c in enumerate(cands):
                    p = self.prio.get(c.eid)
                    if p is None:
                        p = self.prio[c.eid] = rng.random()
                    if best is None or p > best:
                        best, v = p, j
            elif self.kind == "fifo":
                v = 0 if staying else min(range(n), key=lambda j: cands[j].since)
            elif staying and rng.random() >= self.p_switch:
                v = 0
            else:
                v = rng.randrange(n)
        if v:
            self.taken[i] = v
        return v

    def number(self, n):
        """A recorded choice of a number below n (0 is the plain one)."""
        i = self.points
        self.points = i + 1
        if self.script is not None:
            v = self.script.get(i, 0)
            v = v if 0 <= v < n else 0
        else:
            v = self.rng.randrange(n)
        if v:
            self.taken[i] = v
        return v


# --------------------------------------------------------------------------------------------------------------------------
class Entity:
    runnable = True
    done = False
    since = 0
    is_thread = False


class SimThread(Entity):
    is_thread = True

    def __init__(self, k, func, args, kwargs, name):
        self.k = k
        self.func, self.args, self.kwargs = func, args, kwargs
        self.eid = k.new_eid()
        self.name = name
        self.baton = _alloc()
        self.baton.acquire()
        self.reason = None
        self.pending_exc = None
        self.timed_out = False
        self.sentinel = None
        self.is_main = False
        self.no_yield = 0
        self.no_int = 0
        self.step = None          # the build step this thread is executing (for attribution)
        self.kills = 0
        self.lock_int = False
        self.ident = None


class Kernel:
    """One simulation run (possibly several simulated processes, one after the other)."""

    MAX_POINTS = 400000
    MAX_LINES = 3000000

    def __init__(self, chooser, cfg=None):
        self.ch = chooser
        self.cfg = cfg or {}
        self.eids = 0
        self.by_ident = {}
        self.threads = []          # live simulated threads
        self.procs = []            # live simulated commands
        self.timers = []
        self.tseq = 0
        self.now_ns = 1_700_000_000_000_000_000
        self.start_ns = self.now_ns
        self.tick = self.cfg.get("tick", 1000)
        self.seq = 0
        self.events = []
        self.stats = {}
        self.killed = False
        self.why_killed = None
        self.controller = _alloc()
        self.controller.acquire()
        self.main = None
        self.crash_at = None       # point index at which the process is killed
        self.interrupt_at = None   # point index at which the user interrupts
        self.crash_mode = None
        self.interrupted = False
        self.on_quiescent = None
        self.listener = None
        self.on_interrupt = None
        self.nlines = 0
        self.kinds = set(self.cfg.get("kinds", ("fs", "proc", "print", "lock", "loop", "user", "sleep")))
        self.line_on = bool(self.cfg.get("line"))
        self.trace_prefix = self.cfg.get("trace_prefix", "")
        self.fault = None          # callable(op, path) -> errno or None
        self.epoch = 0             # number of the simulated process
        self.harness_errors = []
        self.points0 = 0
        self.fs = None
        self.out = None
        self.unsupported = None
        self.cmd_plan = None
        self.prng = random.Random(self.cfg.get("prng", 0))
        self.hash_rng = random.Random(self.cfg.get("hashsalt", 0))
        self.hash_of = {}
        self.names = None
        self.handlers = {}
        self.texit = []
        self.atexit = []
        self.exit_code = None
        self.triggers = []         # [what, mark, remaining count, delay]
        self.exiting = False
        self.pools = []            # thread pools of the running process
        self.pids = {}             # process numbers of threads that stand for processes of their own

    # ---- small things
    def new_eid(self):
        self.eids += 1
        return self.eids

    def count(self, what, n=1):
        self.stats[what] = self.stats.get(what, 0) + n

    def log(self, kind, /, **kw):
        self.seq += 1
        kw["seq"] = self.seq
        kw["t"] = self.now_ns
        kw["ev"] = kind
        self.events.append(kw)
        if self.listener is not None:
            self.listener(kw)
        if self.triggers:
            self.mark(kind)
        return kw

    def mark(self, kind):
        """Something worth aiming a fault at happened."""
        for t in self.triggers:
            if t[1] == kind and t[2] > 0:
                t[2] -= 1
                if t[2] == 0:
                    at = self.ch.points + t[3]
                    if t[0] == "crash":
                        self.crash_at = at
                    else:
                        self.interrupt_at = at

    def next_hash(self):
        return self.hash_rng.getrandbits(60)

    def proc_output(self, data):
        if self.out is not None:
            self.out.relay(data)

    def pool_miscount(self):
        """The standard library's thread pool keeps work waiting although it may still start threads (it takes a busy thread for an
        idle one when a new thread finds its work already taken)."""
        return any(not p._shutdown and p._work_queue.qsize() and len(p._threads) < p._max_workers for p in self.pools)

    # ---- timers
    def add_timer(self, dt_ns, cb):
        self.tseq += 1
        ent = [self.now_ns + max(0, int(dt_ns)), self.tseq, cb]
        heapq.heappush(self.timers, ent)
        return ent

    # ---- scheduling
    def wake(self, ent):
        if not ent.runnable and not ent.done:
            ent.runnable = True
            self.seq += 1
            ent.since = self.seq

    def _candidates(self, me):
        c = []
        staying = False
        if me is not None and me.runnable and not me.done:
            c.append(me)
            staying = True
        for t in self.threads:
            if t.runnable and t is not me:
                c.append(t)
        for p in self.procs:
            if p.runnable:
                c.append(p)
        return c, staying

    def _pick(self, me):
        """Choose who runs next, advancing commands inline; returns a thread, or None when nothing can ever run again."""
        while True:
            cands, staying = self._candidates(me)
            if not cands:
                m = self.main
                if m is not None and m.pending_exc is not None and not m.done and m.reason == "lock" and not m.no_int:
                    # a signal also ends a long wait for a lock
                    m.lock_int = True
                    self.wake(m)
                    continue
                if not self.timers:
                    return None
                if self.on_quiescent is not None:
                    self.on_quiescent()
                at, _, cb = heapq.heappop(self.timers)
                if at > self.now_ns:
                    self.now_ns = at
                cb()
                continue
            if self.ch.points - self.points0 > self.MAX_POINTS:
                self._die("no-progress")
                raise SimKilled
            v = self.ch.choose(cands, staying) if len(cands) > 1 else 0
            ent = cands[v]
            if ent.is_thread:
                if ent is not me:
                    self.count("switches")
                return ent
            self.now_ns += self.tick
            ent.advance()
            self._check_triggers(me)

    def _check_triggers(self, me):
        if self.crash_at is not None and self.ch.points >= self.crash_at:
            self.crash_at = None
            self.count("fault.kill")
            self._die("crash")
            raise SimKilled
        if self.interrupt_at is not None and self.ch.points >= self.interrupt_at:
            self.interrupt_at = None
            self.interrupt()

    def interrupt(self):
        m = self.main
        if m is None or m.done or self.exiting:
            self.log("interrupt_late")
            return
        self.interrupted = True
        self.count("fault.interrupt")
        self.log("interrupt")
        m.pending_exc = KeyboardInterrupt
        if not m.runnable and m.reason in ("select", "wait", "sleep", "join", "pipe"):
            self.wake(m)
        if self.on_interrupt is not None:
            self.on_interrupt()

    def _deliver(self, me):
        me.pending_exc = None
        h = self.handlers.get(2, signal.default_int_handler)
        self.log("interrupt_delivered")
        if callable(h):
            h(2, None)

    def _switch(self, me):
        """Hand over to whoever is chosen; returns when `me` is chosen again."""
        nxt = self._pick(me)
        if nxt is me:
            return
        if nxt is None:
            # nothing runnable, no timer: the simulated process can never proceed
            self.log("deadlock", blocked=[(t.name, t.reason) for t in self.threads])
            self._die("deadlock")
            raise SimKilled
        nxt.baton.release()
        me.baton.acquire()
        if self.killed:
            raise SimKilled

    def _killcheck(self, me):
        if self.killed:
            me.kills += 1
            if me.kills > 5000:
                # swallows everything: park it for ever
                self.harness_errors.append("unkillable thread %s" % me.name)
                self._thread_gone(me)
                _l = _alloc()
                _l.acquire()
                _l.acquire()
            raise SimKilled

    def yield_point(self, kind):
        me = self.by_ident.get(get_ident())
        if me is None:
            return
        if self.killed:
            self._killcheck(me)
        if me.no_yield:
            return
        self.now_ns += self.tick
        if kind in self.kinds:
            self._check_triggers(me)
            self._switch(me)
        if me.pending_exc is not None and kind not in ("lock", "loop") and not me.no_int:
            self._deliver(me)

    def line_point(self):
        me = self.by_ident.get(get_ident())
        if me is None or me.no_yield:
            return
        if self.killed:
            self._killcheck(me)
        self.nlines += 1
        if self.nlines > self.MAX_LINES:
            self._die("no-progress")
            raise SimKilled
        if self.line_on and self.ch.line():
            self.count("line_preemptions")
            self._switch(me)
        if self.crash_at is not None or self.interrupt_at is not None:
            self._check_triggers(me)
        if me.pending_exc is not None and not me.no_int:
            self._deliver(me)

    def block(self, reason, dt_ns=None):
        """Block the calling thread until woken; False when dt_ns passed first."""
        me = self.by_ident[get_ident()]
        if self.killed:
            self._killcheck(me)
        if me.no_yield:
            raise HarnessError("blocking (%s) inside an atomic section" % reason)
        me.runnable = False
        me.reason = reason
        me.timed_out = False
        token = None
        if dt_ns is not None:
            box = [True]

            def fire():
                if box[0]:
                    me.timed_out = True
                    self.wake(me)
            token = box
            self.add_timer(dt_ns, fire)
        if me.pending_exc is not None and reason != "lock" and not me.no_int:
            me.runnable = True
        try:
            self._check_triggers(me)
            self._switch(me)
        finally:
            me.runnable = True
            me.reason = None
            if token is not None:
                token[0] = False
        if me.pending_exc is not None and reason != "lock" and not me.no_int:
            self._deliver(me)
        elif me.lock_int:
            me.lock_int = False
            self._deliver(me)
        return not me.timed_out

    def sleep(self, seconds, reason="sleep"):
        end = self.now_ns + int(seconds * 1e9)
        while self.now_ns < end:
            self.block(reason, end - self.now_ns)

    # ---- threads
    def spawn(self, func, args=(), kwargs=None, name=None, main=False):
        t = SimThread(self, func, args, kwargs or {}, name or "T%d" % (self.eids + 1))
        t.is_main = main
        self.threads.append(t)
        self.seq += 1
        t.since = self.seq
        _start_new(self._bootstrap, (t,))
        return t

    def _bootstrap(self, t):
        t.baton.acquire()
        t.ident = get_ident()
        self.by_ident[t.ident] = t
        threading._active.pop(t.ident, None)      # left by an earlier thread that was torn down
        if t.is_main:
            t.no_yield += 1
            threading.current_thread()
            t.no_yield -= 1
        try:
            if not self.killed:
                t.func(*t.args, **t.kwargs)
        except SimKilled:
            pass
        except SystemExit:
            pass
        except BaseException as e:      # the thread's own problem; threading reports through its excepthook
            if not self.killed:
                self.log("thread_exception", what=repr(e), name=t.name)
            if isinstance(e, HarnessError):
                self.harness_errors.append(repr(e))
        self._thread_gone(t)

    def _thread_gone(self, t):
        """`t` ends: pass the baton on."""
        t.done = True
        t.runnable = False
        self.threads.remove(t)
        if t.sentinel is not None:
            t.sentinel._force_release()
        if not self.killed:
            try:
                nxt = self._pick(None) if self.threads else None
            except SimKilled:
                nxt = None
            except BaseException as e:
                self.harness_errors.append("pick: %r" % (e,))
                self._die("harness")
                nxt = None
            if not self.killed and nxt is None and self.threads:
                self.log("deadlock", blocked=[(x.name, x.reason) for x in self.threads])
                self._die("deadlock")
        if self.killed:
            nxt = self.threads[0] if self.threads else None
        self.by_ident.pop(t.ident, None)
        threading._active.pop(t.ident, None)
        if nxt is None:
            self.controller.release()
        else:
            nxt.baton.release()

    def _die(self, why):
        if not self.killed:
            self.killed = True
            self.why_killed = why
            self.log("process_killed", why=why)

    def run_process(self, func, wall=60.0, name="main"):
        """Run func as the main thread of a new simulated process until all its threads are gone."""
        self.killed = False
        self.why_killed = None
        self.interrupted = False
        self.epoch += 1
        self.points0 = self.ch.points
        self.nlines = 0
        self.handlers = {}
        self.texit, self.atexit = [], []
        self.exit_code = None
        self.exiting = False
        self.names = None
        self.main = self.spawn(func, name=name, main=True)
        self.main.baton.release()
        if not self.controller.acquire(timeout=wall):
            raise WallTimeout("simulated process still running after %.0f s" % wall)
        self.main = None
        self.crash_at = self.interrupt_at = None
        self.triggers = []
        return self.why_killed

    def drain(self, limit=100000):
        """Let surviving commands (and timers) run on with no process alive."""
        while self.procs and limit:
            limit -= 1
            run = [p for p in self.procs if p.runnable]
            if run:
                v = self.ch.choose(run, False) if len(run) > 1 else 0
                self.now_ns += self.tick
                run[v].advance()
            elif self.timers:
                at, _, cb = heapq.heappop(self.timers)
                self.now_ns = max(self.now_ns, at)
                cb()
            else:
                break
        for p in list(self.procs):
            p.kill(13)


class WallTimeout(Exception):
    pass


# --------------------------------------------------------------------------------------------------------------------------
class SimLock:
    """Replacement for _thread.lock.  Outside a simulation it is a plain flag."""

    __slots__ = ("_locked", "_waiters", "__weakref__")

    def __init__(self):
        self._locked = False
        self._waiters = []

    def acquire(self, blocking=True, timeout=-1):
        k, me = current()
        if k is None:
            if self._locked:
                if blocking and timeout == -1:
                    raise HarnessError("blocking acquire of a simulated lock outside the simulation")
                return False
            self._locked = True
            return True
        if blocking:
            k.yield_point("lock")
        elif k.killed:
            k._killcheck(me)
        if not self._locked:
            self._locked = True
            return True
        if not blocking:
            return False
        end = None if timeout is None or timeout < 0 else k.now_ns + int(timeout * 1e9)
        while self._locked:
            dt = None
            if end is not None:
                dt = end - k.now_ns
                if dt <= 0:
                    return False
            k.count("lock_contention")
            self._waiters.append(me)
            try:
                # An event loop's own wait has another reason ("select"): waiting for a lock is not quiescent by itself.
                k.block("lock", dt)
            finally:
                if me in self._waiters:
                    self._waiters.remove(me)
        self._locked = True
        return True

    def release(self):
        if not self._locked:
            k, me = current()
            if k is not None and k.killed:
                return
            raise RuntimeError("release unlocked lock")
        self._force_release()

    def _force_release(self):
        self._locked = False
        if self._waiters:
            k = K
            if k is not None:
                for w in self._waiters:
                    k.wake(w)

    def locked(self):
        return self._locked

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._locked = False
        self._waiters = []

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked
