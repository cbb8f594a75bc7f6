"""The simulator: one real thread per simulated task, exactly one of which runs
at any time; a seeded scheduler decides who, at every intercepted operation.

A simulated *process* (Proc) owns one or more tasks, its own copy of the
mutable module state of the code under test, its own PRNG state, argv, pid,
signal table and standard input.  Crashing a Proc makes every later operation of
it vanish, as after SIGKILL: buffered data is lost, no clean-up code has effect.
"""
import copy
import hashlib
import heapq
import os
import random as _random
import shutil
import sys
import threading
import types

import numpy as np

_Thread = threading.Thread             # the real one: the name is patched later
ROOT_FD = 99
ROOT = f"/proc/self/fd/{ROOT_FD}"     # constant in every process: paths hash alike


class SimCrash(BaseException):
    """the simulated process was killed"""


class Violation(BaseException):
    def __init__(self, kind, message):
        super().__init__(f"{kind}: {message}")
        self.kind = kind
        self.message = message


class HarnessError(BaseException):
    """something is wrong with the check itself"""


class StepLimit(BaseException):
    """the run exceeded its bound on simulated steps"""


class Deadlock(BaseException):
    """every live task is blocked and no timer is pending"""


# --------------------------------------------------------------------------
# per-process copy of the mutable globals of the code under test
# --------------------------------------------------------------------------
_SIMPLE = (int, float, complex, bool, str, bytes, tuple, list, dict, set, frozenset,
           np.ndarray, type(None))
_LOCK = type(threading.Lock())
_RLOCK = type(threading.RLock())


class ModuleState:
    """which globals exist, and their pristine (just imported) values"""

    def __init__(self, prefix="pibronic"):
        self.slots = []           # (owner, name, is_class)
        seen = set()
        for name in sorted(sys.modules):
            mod = sys.modules[name]
            if mod is None or not (name == prefix or name.startswith(prefix + ".")):
                continue
            if not isinstance(mod, types.ModuleType):
                continue
            for key in sorted(vars(mod)):
                if key.startswith("__"):
                    continue
                value = vars(mod)[key]
                if isinstance(value, type) and value.__module__ == name:
                    if id(value) in seen:
                        continue
                    seen.add(id(value))
                    import enum
                    if issubclass(value, enum.Enum):
                        continue
                    for attr in sorted(vars(value)):
                        if attr.startswith("__"):
                            continue
                        v = vars(value)[attr]
                        if isinstance(v, _SIMPLE + (_LOCK, _RLOCK)):
                            self.slots.append((value, attr, True))
                    for attr in sorted(vars(value)):
                        self._defaults(getattr(vars(value)[attr], "__func__", vars(value)[attr]),
                                       name)
                elif isinstance(value, _SIMPLE + (_LOCK, _RLOCK)):
                    self.slots.append((mod, key, False))
                else:
                    self._defaults(value, name)
        self.pristine = self._clone(self.read())

    def _defaults(self, f, name):
        """mutable default arguments and attributes of functions are globals as well"""
        if not isinstance(f, types.FunctionType) or f.__module__ != name:
            return
        if any(isinstance(v, (list, dict, set)) for v in f.__defaults__ or ()):
            self.slots.append((f, "__defaults__", False))
        if any(isinstance(v, (list, dict, set)) for v in (f.__kwdefaults__ or {}).values()):
            self.slots.append((f, "__kwdefaults__", False))
        for attr, v in sorted(vars(f).items()):
            if isinstance(v, _SIMPLE) and not attr.startswith("__"):
                self.slots.append((f, attr, False))

    @staticmethod
    def _clone(values):
        memo = {}
        out = []
        for v in values:
            if isinstance(v, (_LOCK, _RLOCK, SimLock)):
                new = memo.get(id(v))
                if new is None:
                    new = SimLock(reentrant=isinstance(v, _RLOCK)
                                  or getattr(v, "reentrant", False))
                    memo[id(v)] = new
                out.append(new)
                continue
            try:
                out.append(copy.deepcopy(v, memo))
            except Exception:
                out.append(v)
        return out

    def read(self):
        return [getattr(owner, name, None) if name.startswith("__") else vars(owner).get(name)
                for owner, name, _ in self.slots]

    def write(self, values):
        for (owner, name, _), v in zip(self.slots, values):
            if (getattr(owner, name, None) if name.startswith("__")
                    else vars(owner).get(name)) is not v:
                setattr(owner, name, v)

    def fresh(self):
        return self._clone(self.pristine)

    def fork(self, values):
        return self._clone(values)


class SimLock:
    """stands in for the module-level locks of the code under test"""

    def __init__(self, reentrant=False):
        self.reentrant = reentrant
        self.owner = None
        self.depth = 0

    def acquire(self, blocking=True, timeout=-1):
        w = World.active
        t = w.current_task() if w else None
        if t is None:
            self.owner, self.depth = "harness", 1
            return True
        w.point("lock")
        deadline = None if timeout is None or timeout < 0 else w.now + timeout
        while self.owner is not None and not (self.reentrant and self.owner is t):
            if not blocking:
                return False
            if deadline is not None and w.now >= deadline:
                return False
            w.block(lambda: self.owner is None, "lock-wait", deadline)
        self.owner = t
        self.depth += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


# --------------------------------------------------------------------------
class Task:
    def __init__(self, world, proc, name, fn):
        self.world, self.proc, self.name, self.fn = world, proc, name, fn
        self.sem = threading.Semaphore(0)
        self.done = False
        self.exc = None
        self.result = None
        self.blocked = None        # predicate while blocked
        self.why = ""
        self.wake_at = None        # timer while blocked
        self.thread = None
        self.in_handler = 0
        self.sigwait = None

    def runnable(self):
        if self.done:
            return False
        if self.blocked is None:
            return True
        if self.proc.dead:
            return True
        if self.wake_at is not None and self.world.now >= self.wake_at:
            return True
        if self.proc.signal_ready(self):
            return True
        return bool(self.blocked())


class Proc:
    def __init__(self, world, name, parent=None, argv=None, stdin=None):
        self.world = world
        self.name = name
        # two hosts that share the disk number their processes independently: the same pid
        # is met on several of them
        self.uid = world.next_pid()
        if parent is not None:
            self.pid, self.hostname = 10 ** 6 + self.uid, parent.hostname
        elif world.hosts > 1:
            self.pid, self.hostname = 4000 + self.uid // world.hosts, f"simnode{self.uid % world.hosts}"
        else:
            self.pid, self.hostname = self.uid, "simnode"
        self.dead = False
        self.exited = False
        self.crash_reason = None
        self.tasks = []
        self.argv = list(argv) if argv else ["prog"]
        ms = world.modstate
        if parent is None:
            self.values = ms.fresh()
            seed = world.derive_seed(f"np/{name}/{self.uid}")
            fixed = World.import_seed
            self.np_state = np.random.RandomState(seed if fixed is None else fixed).get_state()
            self.py_state = _random.Random(seed).getstate()
        else:
            if world.active_proc is parent:
                parent.save()
            self.values = ms.fork(parent.values)
            self.np_state = parent.np_state       # as after fork(2)
            self.py_state = parent.py_state
        self.handlers = {} if parent is None else dict(parent.handlers)
        self.pending = []
        self.mask = set()
        self.alarm_at = None
        self.stdin = stdin         # callable(prompt) -> str
        self.io_count = 0
        self.crash_at = None       # crash when io_count reaches this
        self.faults = {}           # fault kind -> probability, for this process
        self.group = None
        self.watch = None          # optional callback(proc, label)
        self.rng_log = []
        self.environ = dict(world.base_environ if parent is None else parent.environ)
        self.entropy = 0

    # module state swapping
    def save(self):
        self.values = self.world.modstate.read()
        self.np_state = np.random.get_state()
        self.py_state = _random.getstate()
        self.argv = sys.argv
        self.environ = os.environ._data

    def load(self):
        self.world.modstate.write(self.values)
        np.random.set_state(self.np_state)
        _random.setstate(self.py_state)
        sys.argv = self.argv
        os.environ._data = self.environ

    def signal_ready(self, task):
        if not self.pending:
            return False
        if task.sigwait is not None and any(s in task.sigwait for s in self.pending):
            return True
        return task is self.tasks[0] and any(s not in self.mask for s in self.pending)

    def kill(self, reason):
        """SIGKILL from outside, or the crash of the node it runs on"""
        if self.dead or self.exited:
            return
        self.dead = True
        self.crash_reason = reason
        self.world.note("killed", self, reason)


class World:
    active = None
    modstate = None
    import_seed = None

    def __init__(self, choices, base_dir, max_steps=60000):
        self.c = choices
        self.base_dir = base_dir
        self.max_steps = max_steps
        self.steps = 0
        self.now = 1_000_000.0
        self.t0 = self.now
        self.tasks = []
        self.procs = []
        self._pid = 4000
        self.hosts = 1
        self.current = None
        self.active_proc = None
        self.main_sem = threading.Semaphore(0)
        self.switches = 0
        self.p_switch = 0.2
        self.faults_fired = {}
        self.probes = {}
        self.events = []
        self.trace_hash = hashlib.sha1()
        self.sched_hash = hashlib.sha1()
        self.finished = False
        self.abort = None
        self.timers = []           # (time, seq, fn)
        self._tseq = 0
        self.slurm = None
        self.julia = None
        self.commands = {}         # argv[0] -> handler
        self.flocks = {}
        self.stall_p = 0.0
        self.max_stall = 0.0
        self.seed_tag = 0
        self.exdev = False
        self.base_environ = {k.encode(): v.encode() for k, v in (
            ("PATH", "/usr/bin:/bin"), ("HOME", "/home/sim"), ("USER", "sim"),
            ("LC_ALL", "C.UTF-8"))}
        self._until = None
        self.observers = []        # called at every point with (world, label)

    # ---------------------------------------------------------------- set up
    def __enter__(self):
        if World.active is not None:
            raise HarnessError("worlds do not nest")
        shutil.rmtree(self.base_dir, ignore_errors=True)
        os.makedirs(self.base_dir)
        self.real_dir = os.path.realpath(self.base_dir)
        fd = os.open(self.base_dir, os.O_RDONLY | os.O_DIRECTORY)
        if fd != ROOT_FD:
            os.dup2(fd, ROOT_FD, inheritable=True)
            os.close(fd)
        else:
            os.set_inheritable(fd, True)
        self._saved = (World.modstate.read(), np.random.get_state(), _random.getstate(), sys.argv,
                       os.environ._data)
        np.random.set_state(np.random.RandomState(self.derive_seed("main")).get_state())
        _random.seed(self.derive_seed("main-py"))
        World.active = self
        return self

    def __exit__(self, *a):
        self.finished = True
        try:
            self._reap()
        finally:
            World.active = None
            values, nps, pys, argv, environ = self._saved
            os.environ._data = environ
            World.modstate.write(values)
            np.random.set_state(nps)
            _random.setstate(pys)
            sys.argv = argv
            try:
                os.close(ROOT_FD)
            except OSError:
                pass
            shutil.rmtree(self.base_dir, ignore_errors=True)
        return False

    def _reap(self):
        """end the threads of tasks that are still parked"""
        for p in self.procs:
            if not p.exited:
                p.dead = True
        for t in list(self.tasks):
            while not t.done and t.thread is not None and t.thread.is_alive():
                self.current = t
                t.sem.release()
                self.main_sem.acquire()

    def derive_seed(self, tag):
        h = hashlib.sha256(f"{self.seed_tag}/{tag}".encode()).digest()
        return int.from_bytes(h[:4], "big")

    def next_pid(self):
        self._pid += 1
        return self._pid

    def path(self, *parts):
        return os.path.join(ROOT, *parts)

    # ---------------------------------------------------------------- history
    def note(self, kind, proc=None, detail=""):
        """append to the recorded history; never draws, never reads a clock"""
        name = proc.name if proc is not None else (
            self.current.proc.name if self.current else "-")
        e = (len(self.events), round(self.now - self.t0, 3), name, kind, str(detail))
        self.events.append(e)
        self.trace_hash.update(repr(e).encode())
        return e

    def fired(self, kind):
        self.faults_fired[kind] = self.faults_fired.get(kind, 0) + 1

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    # ---------------------------------------------------------------- tasks
    def proc(self, name, parent=None, argv=None, stdin=None):
        p = Proc(self, name, parent=parent, argv=argv, stdin=stdin)
        self.procs.append(p)
        return p

    def spawn(self, name, fn, proc=None, **kw):
        if proc is None:
            proc = self.proc(name, **kw)
        t = Task(self, proc, name, fn)
        proc.tasks.append(t)
        self.tasks.append(t)
        t.thread = _Thread(target=self._body, args=(t,), daemon=True, name=name)
        t.thread.start()
        return t

    def _body(self, t):
        t.sem.acquire()
        try:
            self._enter(t)
            if t.proc.dead:
                raise SimCrash()
            t.result = t.fn()
        except SimCrash as e:
            t.exc = e
        except SystemExit as e:
            if e.code not in (None, 0):
                t.exc = e
        except BaseException as e:      # noqa - recorded and judged by the scenario
            t.exc = e
            if isinstance(e, (Violation, HarnessError, StepLimit, Deadlock)) and self.abort is None:
                self.abort = e
        finally:
            t.done = True
            if all(x.done for x in t.proc.tasks):
                t.proc.exited = True
            try:
                self._dispatch_next(t)
            except BaseException as e:
                if self.abort is None:
                    self.abort = e
                self.current = None
                self.main_sem.release()

    def _enter(self, t):
        """t now holds the baton"""
        if self.active_proc is not t.proc:
            if self.active_proc is not None:
                self.active_proc.save()
            t.proc.load()
            self.active_proc = t.proc

    def current_task(self):
        t = self.current
        if t is not None and t.thread is threading.current_thread():
            return t
        return None

    def run(self, until=None):
        """run tasks until all are done (or `until()` holds at a switch)"""
        self._until = until
        t = self._pick(None)
        if t is not None:
            self.current = t
            t.sem.release()
            self.main_sem.acquire()
        if self.active_proc is not None:
            self.active_proc.save()
            self.active_proc = None
            os.environ._data = self._saved[4]
        self.current = None
        if self.abort is not None:
            a, self.abort = self.abort, None
            raise a
        return

    def _runnable(self):
        return [t for t in self.tasks if not t.done and t.runnable()]

    def _advance_clock(self):
        """nothing can run: jump to the next timer"""
        while True:
            cand = [t.wake_at for t in self.tasks
                    if not t.done and t.blocked is not None and t.wake_at is not None]
            cand += [p.alarm_at for p in self.procs
                     if p.alarm_at is not None and not p.dead and not p.exited]
            if self.timers:
                cand.append(self.timers[0][0])
            if not cand:
                return False
            nxt = min(cand)
            if nxt > self.now:
                self.now = nxt
            self._fire_timers()
            if self._runnable():
                return True

    def _fire_timers(self):
        while self.timers and self.timers[0][0] <= self.now:
            _, _, fn = heapq.heappop(self.timers)
            fn()
        for p in self.procs:
            if p.alarm_at is not None and p.alarm_at <= self.now:
                p.alarm_at = None
                if not p.dead and not p.exited:
                    p.pending.append(14)
                    self.note("alarm", p)

    def at(self, delay, fn):
        self._tseq += 1
        heapq.heappush(self.timers, (self.now + max(0.0, delay), self._tseq, fn))

    def _pick(self, cur):
        """choose the next task to run, or None when everything is finished"""
        while True:
            self._fire_timers()
            if self._until is not None and self._until():
                return None
            ready = self._runnable()
            if not ready:
                live = [t for t in self.tasks if not t.done]
                if not live:
                    if self.timers and self._until is not None:
                        if self._advance_clock() or self.timers:
                            continue
                        return None
                    return None
                if not self._advance_clock():
                    raise Deadlock("; ".join(f"{t.name} waits: {t.why}" for t in live))
                continue
            if cur is not None and cur in ready:
                if len(ready) == 1:
                    return cur
                v = self.c.sched(len(ready) - 1, self.p_switch)
                if v == 0:
                    return cur
                others = [t for t in ready if t is not cur]
                return others[v - 1]
            if len(ready) == 1:
                return ready[0]
            v = self.c.sched(len(ready), 1.0)
            return ready[max(0, v - 1)]

    def _dispatch_next(self, cur):
        if self.finished or self.abort is not None:
            self.current = None
            self.main_sem.release()
            return
        nxt = self._pick(None)
        if nxt is None:
            self.current = None
            self.main_sem.release()
            return
        self.switches += 1
        self.sched_hash.update(nxt.name.encode())
        self.current = nxt
        nxt.sem.release()

    def _yield(self, t):
        """give up the baton; returns when t is chosen again"""
        if self.finished:
            raise SimCrash()
        if self.abort is not None:
            raise SimCrash()
        nxt = self._pick(t)
        if nxt is t:
            return
        if nxt is None:            # the scenario asked to stop here
            self.current = None
            self.main_sem.release()
        else:
            self.switches += 1
            self.sched_hash.update(f"{nxt.name}@{self.steps}".encode())
            self.current = nxt
            nxt.sem.release()
        t.sem.acquire()
        if self.finished:
            t.proc.dead = True
            raise SimCrash()
        self.current = t
        self._enter(t)

    # ---------------------------------------------------------------- points
    def point(self, label, detail="", io=False):
        """a scheduling point: every intercepted operation passes here first"""
        t = self.current_task()
        if t is None:
            return None
        p = t.proc
        if p.dead or self.finished:
            raise SimCrash()
        self.steps += 1
        if self.steps > self.max_steps:
            raise StepLimit(f"more than {self.max_steps} steps")
        if io:
            p.io_count += 1
            if p.crash_at is not None and p.io_count >= p.crash_at:
                p.crash_at = None
                self.fired("crash")
                self.note("crash", p, f"at {label} {detail}")
                self.crash(p, f"crash at {label}")
        for ob in self.observers:
            ob(self, label)
        if self.stall_p and self.c.fault(self.stall_p):
            d = 1 + self.c.rec["fault"][self.c.counter["fault"] - 1] % max(1, int(self.max_stall))
            self.fired("stall")
            self._sleep(t, float(d))
        self._yield(t)
        if p.dead:
            raise SimCrash()
        self._deliver(t)
        return t

    def crash(self, p, reason):
        p.dead = True
        p.crash_reason = reason
        if p.group:
            for q in p.group:
                q.dead = True
        raise SimCrash()

    def block(self, predicate, why, deadline=None):
        """park the current task until predicate() holds or the deadline passes"""
        t = self.current_task()
        if t is None:
            raise HarnessError("block() outside a task: " + why)
        if t.proc.dead:
            raise SimCrash()
        t.blocked, t.why, t.wake_at = predicate, why, deadline
        try:
            while True:
                self._yield(t)
                if t.proc.dead:
                    raise SimCrash()
                if t.blocked() or (deadline is not None and self.now >= deadline):
                    return
                if t.proc.signal_ready(t):
                    if t.sigwait is not None and any(s in t.sigwait for s in t.proc.pending):
                        return
                    self._deliver(t)
                    if t.blocked() or (deadline is not None and self.now >= deadline):
                        return
        finally:
            t.blocked, t.why, t.wake_at = None, "", None

    def _sleep(self, t, seconds):
        end = self.now + max(0.0, seconds)
        self.block(lambda: self.now >= end, f"sleep until {end - self.t0:.1f}", end)

    def sleep(self, seconds):
        t = self.current_task()
        if t is None:
            return
        self.point("sleep")
        self._sleep(t, seconds)

    # ---------------------------------------------------------------- signals
    def send_signal(self, proc, sig):
        if proc.dead or proc.exited:
            return False
        proc.pending.append(int(sig))
        self.note("signal", proc, int(sig))
        return True

    def _deliver(self, t):
        """run Python-level handlers of pending signals, in the main task"""
        p = t.proc
        if not p.pending or t is not p.tasks[0]:
            return
        while True:
            sig = next((s for s in p.pending if s not in p.mask), None)
            if sig is None:
                return
            p.pending.remove(sig)
            h = p.handlers.get(sig, 0)
            if h == 1:          # SIG_IGN
                continue
            if h == 0:          # SIG_DFL
                if sig in (17, 18, 23, 28):
                    continue
                self.note("terminated-by-signal", p, sig)
                self.crash(p, f"terminated by signal {sig}")
            saved = (t.blocked, t.why, t.wake_at)
            t.blocked, t.why, t.wake_at = None, "", None
            try:
                self.note("handler", p, sig)
                h(sig, None)
            finally:
                t.blocked, t.why, t.wake_at = saved

    # ---------------------------------------------------------------- results
    def check_task(self, t, what):
        """a task that must have succeeded"""
        if isinstance(t.exc, (HarnessError, Violation, StepLimit, Deadlock)):
            raise t.exc
        if t.exc is not None:
            raise Violation("unexpected-failure", f"{what}: {describe(t.exc)}")
        return t.result


def describe(exc):
    import traceback
    tb = exc.__traceback__
    frames = traceback.extract_tb(tb)
    where = ""
    for f in reversed(frames):
        if "/pibronic/" in f.filename:
            where = f" at {os.path.relpath(f.filename, '/repo')}:{f.name}"
            break
    return f"{type(exc).__name__}({str(exc)[:300]}){where}"
