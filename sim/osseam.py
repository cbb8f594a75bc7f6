"""The seam between the code under test and the outside world.

Everything is intercepted at the level of the Python standard library (files,
directories, locks, clocks, signals, randomness, sub-processes, worker pools), so
that the code in /repo runs unmodified and may be rewritten freely.  Outside a
simulated task, or for a path outside the simulated tree, every wrapper passes
straight through.
"""
import builtins
import errno
import fcntl
import io
import multiprocessing
import multiprocessing.pool
import os
import pickle
import random as _random
import shutil
import signal
import subprocess
import sys
import threading
import time

import numpy as np

from .core import World, SimCrash, HarnessError, ROOT

REAL = {}
installed = False
import_phase = False       # True while the code under test is being imported

_IO_ERRORS = ((errno.ENOSPC, "No space left on device"), (errno.EIO, "Input/output error"))


def _w():
    w = World.active
    if w is None:
        return None, None
    t = w.current_task()
    if t is None:
        return None, None
    return w, t


def _inside(path):
    if isinstance(path, int):
        return False
    try:
        p = os.fspath(path)
    except TypeError:
        return False
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if p == ROOT or p.startswith(ROOT + "/"):
        return True
    w = World.active
    return w is not None and (p == w.real_dir or p.startswith(w.real_dir + "/"))


def _rel(path):
    if isinstance(path, int):
        return f"fd"
    p = os.fsdecode(os.fspath(path))
    if p.startswith(ROOT):
        return p[len(ROOT) + 1:]
    w = World.active
    if w is not None and p.startswith(w.real_dir):
        return p[len(w.real_dir) + 1:]
    return p


def _fault(w, t, kind, label):
    """should this fault kind fire here?  0 or a positive integer"""
    p = t.proc.faults.get(kind, 0.0)
    if not p:
        return 0
    v = w.c.fault(p)
    if v:
        w.fired(kind)
        w.note("fault", t.proc, f"{kind} at {label}")
    return v


# --------------------------------------------------------------------------
# files
# --------------------------------------------------------------------------
class SimRaw(io.FileIO):
    """a file of the simulated tree; the real bytes live in the scratch directory"""

    def __init__(self, path, mode, proc, rel=None, **kw):
        super().__init__(path, mode, **kw)
        self.sim_proc = proc
        self.sim_path = _rel(path) if rel is None else rel

    def close(self):
        if not self.closed:
            try:
                _release_fd(self.fileno())
            except (OSError, ValueError):
                pass
        super().close()

    def _enter(self, label):
        w = World.active
        if w is None or self.sim_proc.dead or w.finished:
            return None, None
        t = w.current_task()
        if t is None:
            return None, None
        if t.proc is not self.sim_proc:
            return None, None
        w.point(label, self.sim_path, io=True)
        return w, t

    def write(self, b):
        w = World.active
        if self.sim_proc.dead or w is None or w.finished:
            return len(b) if not isinstance(b, memoryview) else b.nbytes    # lost with the process
        t = w.current_task()
        if t is not None and t.proc is self.sim_proc:
            data = memoryview(b).cast("B")
            crash_here = t.proc.crash_at is not None and t.proc.io_count + 1 >= t.proc.crash_at
            if crash_here and len(data) > 1:
                # a torn write: part of the data reaches the file before the crash
                cut = w.c.fault(0.7, len(data))
                if cut:
                    super().write(bytes(data[:cut % len(data)]))
                    w.fired("torn_write")
            w.point("write", self.sim_path, io=True)
            v = _fault(w, t, "write_error", f"write {self.sim_path}")
            if v:
                keep = (v >> 1) % (len(data) + 1)
                if keep:
                    super().write(bytes(data[:keep]))
                code, text = _IO_ERRORS[v & 1]
                raise OSError(code, text, "/" + self.sim_path)
            v = _fault(w, t, "short_write", f"write {self.sim_path}")
            if v and len(data) > 1:
                return super().write(bytes(data[:1 + v % (len(data) - 1)]))
        return super().write(b)

    def readinto(self, b):
        w, t = self._enter("read")
        if w is not None:
            v = _fault(w, t, "read_error", f"read {self.sim_path}")
            if v:
                raise OSError(errno.EIO, "Input/output error", "/" + self.sim_path)
            v = _fault(w, t, "short_read", f"read {self.sim_path}")
            mv = memoryview(b).cast("B")
            if v and len(mv) > 1:
                return super().readinto(mv[:1 + v % (len(mv) - 1)])
        return super().readinto(b)

    def readall(self):
        w, t = self._enter("read")
        if w is not None:
            v = _fault(w, t, "read_error", f"read {self.sim_path}")
            if v:
                raise OSError(errno.EIO, "Input/output error", "/" + self.sim_path)
        out = bytearray()
        while True:
            chunk = super().read(1 << 20)
            if not chunk:
                break
            out += chunk
            if w is not None:
                w.point("read", self.sim_path, io=True)
        return bytes(out)

    def truncate(self, *a):
        if self.sim_proc.dead:
            return 0
        self._enter("truncate")
        return super().truncate(*a)


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    w, t = _w()
    rel = None
    if w is not None and isinstance(file, int) and file in _fd_owner:
        rel = _fd_owner[file][1]
    elif w is None or isinstance(file, int) or not _inside(file):
        return REAL["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    path = os.fspath(file) if rel is None else file
    name = _rel(path) if rel is None else rel
    w.point("open", f"{mode} {name}", io=True)
    modes = set(mode)
    binary = "b" in modes
    raw_mode = mode.replace("b", "").replace("t", "").replace("U", "")
    writing = bool(modes & set("wax+"))
    if writing:
        v = _fault(w, t, "open_error", f"open {name}")
        if v:
            code, text = _IO_ERRORS[v & 1]
            raise OSError(code, text, path)
    raw = SimRaw(path, raw_mode, t.proc, rel=rel, closefd=closefd, opener=opener)
    try:
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
        if "+" in modes:
            buf = io.BufferedRandom(raw, size)
        elif writing:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
        text.mode = mode
        return text
    except BaseException:
        raw.close()
        raise


def _path_op(name, label, mutating=True, two=False):
    real = getattr(os, name)
    REAL["os." + name] = real

    def wrapper(path, *args, **kw):
        w, t = _w()
        if w is None or not (_inside(path) or (two and args and _inside(args[0]))):
            return real(path, *args, **kw)
        w.point(label, _rel(path) + (" -> " + _rel(args[0]) if two else ""), io=mutating)
        if mutating:
            v = _fault(w, t, "meta_error", f"{label} {_rel(path)}")
            if v:
                code, text = _IO_ERRORS[v & 1]
                raise OSError(code, text, path)
        return real(path, *args, **kw)
    wrapper.__name__ = name
    setattr(os, name, wrapper)


def _listdir(path="."):
    w, t = _w()
    if w is None or not _inside(path):
        return REAL["os.listdir"](path)
    w.point("listdir", _rel(path))
    out = sorted(REAL["os.listdir"](path))
    seed = w.c.order(len(out))
    if seed:
        _random.Random(seed).shuffle(out)
    return out


class _ScanIter:
    def __init__(self, items):
        self._it = iter(items)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def close(self):
        pass


def _scandir(path="."):
    w, t = _w()
    if w is None or isinstance(path, int) or not _inside(path):
        return REAL["os.scandir"](path)
    w.point("scandir", _rel(path))
    with REAL["os.scandir"](path) as it:
        out = sorted(it, key=lambda e: e.name)
    seed = w.c.order(len(out))
    if seed:
        _random.Random(seed).shuffle(out)
    return _ScanIter(out)


# raw descriptors (tempfile.mkstemp, os.open + flock, ...)
_fd_owner = {}


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    w, t = _w()
    if w is None or not _inside(path):
        if dir_fd is not None:
            return REAL["os.open"](path, flags, mode, dir_fd=dir_fd)
        return REAL["os.open"](path, flags, mode)
    w.point("os.open", _rel(path), io=True)
    fd = REAL["os.open"](path, flags, mode)
    _fd_owner[fd] = (t.proc, _rel(path))
    return fd


def _os_write(fd, data):
    w, t = _w()
    owner = _fd_owner.get(fd)
    if w is None or owner is None:
        if owner is not None and owner[0].dead:
            return len(data)
        return REAL["os.write"](fd, data)
    w.point("os.write", owner[1], io=True)
    v = _fault(w, t, "write_error", f"write {owner[1]}")
    if v:
        code, text = _IO_ERRORS[v & 1]
        raise OSError(code, text)
    return REAL["os.write"](fd, data)


def _os_close(fd):
    _release_fd(fd)
    return REAL["os.close"](fd)


def _release_fd(fd):
    _fd_owner.pop(fd, None)
    w = World.active
    if w is not None:
        for ino, holders in list(w.flocks.items()):
            w.flocks[ino] = [h for h in holders if h[0] != ("fd", fd)]


def _os_fsync(fd):
    w, t = _w()
    if w is not None:
        w.point("fsync", io=True)
        return None
    return REAL["os.fsync"](fd)



# --------------------------------------------------------------------------
# advisory locks
# --------------------------------------------------------------------------
def _lock_entry(w, fd):
    n = fd if isinstance(fd, int) else fd.fileno()
    st = os.fstat(n)
    return n, (st.st_dev, st.st_ino)


def _flock(fd, op):
    w, t = _w()
    if w is None:
        return REAL["flock"](fd, op)
    n, key = _lock_entry(w, fd)
    w.point("flock", io=True)
    me = (("fd", n), t.proc)

    def conflicts():
        held = [h for h in w.flocks.get(key, []) if h[0] != me[0] and not h[1].dead
                and not h[1].exited]
        if op & fcntl.LOCK_EX:
            return bool(held)
        return any(h[2] for h in held)
    mine = [h for h in w.flocks.get(key, []) if h[0] == me[0]]
    for h in mine:
        w.flocks[key].remove(h)
    if op & fcntl.LOCK_UN:
        return None
    if conflicts():
        if op & fcntl.LOCK_NB:
            raise BlockingIOError(errno.EWOULDBLOCK, "Resource temporarily unavailable")
        w.probe("flock_contended")
        w.block(lambda: not conflicts(), "flock")
    w.flocks.setdefault(key, []).append((me[0], t.proc, bool(op & fcntl.LOCK_EX)))
    return None


def _lockf(fd, op, len=0, start=0, whence=0):
    return _flock(fd, op)


# --------------------------------------------------------------------------
# clocks, signals, randomness, identity
# --------------------------------------------------------------------------
def _time():
    w = World.active
    return w.now if w is not None and w.current_task() else REAL["time"]()


def _time_ns():
    return int(_time() * 1e9)


def _monotonic():
    w = World.active
    return w.now if w is not None and w.current_task() else REAL["monotonic"]()


def _perf():
    w = World.active
    return w.now if w is not None and w.current_task() else REAL["perf_counter"]()


def _sleep(s):
    w, t = _w()
    if w is None:
        return REAL["sleep"](s)
    w.sleep(float(s))


def _signal(sig, handler):
    w, t = _w()
    if w is None:
        return REAL["signal"](sig, handler)
    p = t.proc
    old = p.handlers.get(int(sig), signal.SIG_DFL)
    if handler in (signal.SIG_DFL, signal.SIG_IGN):
        p.handlers[int(sig)] = int(handler)
    else:
        p.handlers[int(sig)] = handler
    w.note("sigaction", p, int(sig))
    return old


def _getsignal(sig):
    w, t = _w()
    if w is None:
        return REAL["getsignal"](sig)
    return t.proc.handlers.get(int(sig), signal.SIG_DFL)


def _sigtimedwait(sigset, timeout):
    w, t = _w()
    if w is None:
        return REAL["sigtimedwait"](sigset, timeout)
    return _sigwait_common(w, t, sigset, timeout)


class _SigInfo:
    def __init__(self, signo):
        self.si_signo = signo
        self.si_code = 0
        self.si_errno = 0
        self.si_pid = 0
        self.si_uid = 0
        self.si_status = 0
        self.si_band = 0


def _sigwait_common(w, t, sigset, timeout):
    """Real Linux: a signal that is not blocked and has a handler may be taken either
    by the handler or by the waiter; a waiter removes it from the pending set."""
    w.point("sigwait")
    wanted = {int(s) for s in sigset}
    deadline = None if timeout is None else w.now + timeout
    while True:
        t.sigwait = wanted
        try:
            hit = next((s for s in t.proc.pending if s in wanted), None)
            if hit is None:
                w.block(lambda: any(s in wanted for s in t.proc.pending),
                        f"sigwait {sorted(wanted)}", deadline)
                hit = next((s for s in t.proc.pending if s in wanted), None)
        finally:
            t.sigwait = None
        if hit is not None:
            t.proc.pending.remove(hit)
            w.note("sigwait-returns", t.proc, hit)
            return _SigInfo(hit)
        if deadline is not None and w.now >= deadline:
            return None


def _sigwait(sigset):
    w, t = _w()
    if w is None:
        return REAL["sigwait"](sigset)
    return signal.Signals(_sigwait_common(w, t, sigset, None).si_signo)


def _sigwaitinfo(sigset):
    w, t = _w()
    if w is None:
        return REAL["sigwaitinfo"](sigset)
    return _sigwait_common(w, t, sigset, None)


def _alarm(seconds):
    w, t = _w()
    if w is None:
        return REAL["alarm"](seconds)
    p = t.proc
    left = 0 if p.alarm_at is None else max(1, int(p.alarm_at - w.now))
    p.alarm_at = None if seconds == 0 else w.now + seconds
    return left


def _setitimer(which, seconds, interval=0.0):
    w, t = _w()
    if w is None:
        return REAL["setitimer"](which, seconds, interval)
    t.proc.alarm_at = None if seconds == 0 else w.now + seconds
    return (0.0, 0.0)


def _pause():
    w, t = _w()
    if w is None:
        return REAL["pause"]()
    w.point("pause")
    n = len([e for e in w.events if e[3] == "handler" and e[2] == t.proc.name])
    w.block(lambda: len([e for e in w.events if e[3] == "handler"
                         and e[2] == t.proc.name]) > n, "pause")


def _pthread_sigmask(how, mask):
    w, t = _w()
    if w is None:
        return REAL["pthread_sigmask"](how, mask)
    p = t.proc
    old = {signal.Signals(s) for s in p.mask}
    new = {int(s) for s in mask}
    if how == signal.SIG_BLOCK:
        p.mask |= new
    elif how == signal.SIG_UNBLOCK:
        p.mask -= new
    else:
        p.mask = new
    w.point("sigmask")
    return old


def _sigpending():
    w, t = _w()
    if w is None:
        return REAL["sigpending"]()
    return {signal.Signals(s) for s in t.proc.pending if s in t.proc.mask}


def _getpid():
    w, t = _w()
    if w is None:
        return REAL["getpid"]()
    return t.proc.pid


def _getppid():
    w, t = _w()
    return REAL["getppid"]() if w is None else 1


def _urandom(n):
    w, t = _w()
    if w is None:
        return REAL["urandom"](n)
    t.proc.entropy = t.proc.entropy + 1
    return _random.Random(w.derive_seed(f"urandom/{t.proc.uid}/{t.proc.entropy}")).randbytes(n)


def _candidate_names():
    w, t = _w()
    if w is None:
        return REAL["tempnames"]()

    def names():
        while True:
            t.proc.entropy += 1
            yield f"{w.derive_seed(f'tmp/{t.proc.uid}/{t.proc.entropy}'):08x}"
    return names()


def _np_seed(seed=None):
    w, t = _w()
    if import_phase and seed is not None:
        World.import_seed = seed       # every process that imports the code starts from it
    if w is not None and seed is None:
        t.proc.entropy = t.proc.entropy + 1
        seed = w.derive_seed(f"npseed/{t.proc.uid}/{t.proc.entropy}")
    return REAL["np.seed"](seed)


def _default_rng(seed=None):
    w, t = _w()
    if w is not None and seed is None:
        t.proc.entropy = t.proc.entropy + 1
        seed = w.derive_seed(f"nprng/{t.proc.uid}/{t.proc.entropy}")
    return REAL["np.default_rng"](seed)


def _np_choice(*a, **kw):
    out = REAL["np.choice"](*a, **kw)
    w, t = _w()
    if w is not None:
        p = kw.get("p", a[3] if len(a) > 3 else None)
        t.proc.rng_log.append(("choice", np.array(out, copy=True),
                               None if p is None else np.array(p, copy=True)))
    return out


def _np_normal(*a, **kw):
    out = REAL["np.normal"](*a, **kw)
    w, t = _w()
    if w is not None:
        s = kw.get("scale", a[1] if len(a) > 1 else 1.0)
        t.proc.rng_log.append(("normal", np.array(out, copy=True), np.array(s, copy=True)))
    return out


def _input(prompt=""):
    w, t = _w()
    if w is None:
        return REAL["input"](prompt)
    w.point("input")
    if t.proc.stdin is None:
        raise EOFError("EOF when reading a line")
    return t.proc.stdin(prompt)


# --------------------------------------------------------------------------
# sub-processes: handed to the world's stand-ins (scheduler, Julia, ...)
# --------------------------------------------------------------------------
class CompletedCommand:
    def __init__(self, rc, out, err):
        self.rc, self.out, self.err = rc, out, err


def _argv_of(cmd, shell):
    import shlex
    if isinstance(cmd, (list, tuple)):
        if shell:
            return shlex.split(cmd[0])
        return [os.fspath(c) for c in cmd]
    if shell:
        return shlex.split(cmd)
    return [cmd]


def _execute(cmd, shell, env=None, cwd=None, input=None):
    w, t = _w()
    argv = _argv_of(cmd, shell)
    w.point("exec", " ".join(argv)[:200].replace(ROOT, ""), io=True)
    w.note("exec", t.proc, " ".join(argv)[:400].replace(ROOT, ""))
    name = os.path.basename(argv[0]) if argv else ""
    handler = w.commands.get(name)
    if handler is None:
        if shell:
            return CompletedCommand(127, "", f"/bin/sh: 1: {name}: not found\n")
        raise FileNotFoundError(errno.ENOENT, "No such file or directory", name)
    v = _fault(w, t, "spawn_error", f"exec {name}")
    if v:
        raise OSError(errno.EAGAIN, "Resource temporarily unavailable")
    return handler(argv, env=env, cwd=cwd)


def _deliver_output(data, stream, text):
    """where the child's output goes: (captured value or None)"""
    if stream == subprocess.PIPE:
        return data if text else data.encode()
    if stream is None or stream == subprocess.DEVNULL:
        return None
    if hasattr(stream, "write"):
        try:
            stream.write(data)
            stream.flush()
        except TypeError:
            stream.write(data.encode())
            stream.flush()
        return None
    return None


def _is_text(kw):
    return bool(kw.get("text") or kw.get("universal_newlines") or kw.get("encoding")
                or kw.get("errors"))


def sim_run(cmd, *, input=None, capture_output=False, timeout=None, check=False, **kw):
    w, t = _w()
    if w is None:
        return REAL["run"](cmd, input=input, capture_output=capture_output, timeout=timeout,
                           check=check, **kw)
    if capture_output:
        kw["stdout"] = kw["stderr"] = subprocess.PIPE
    shell = kw.get("shell", False)
    text = _is_text(kw)
    r = _execute(cmd, shell, kw.get("env"), kw.get("cwd"), input)
    err = r.err
    out = r.out
    if kw.get("stderr") == subprocess.STDOUT:
        out, err = out + err, ""
    o = _deliver_output(out, kw.get("stdout"), text)
    e = _deliver_output(err, kw.get("stderr"), text)
    done = subprocess.CompletedProcess(cmd, r.rc, o, e)
    if check:
        done.check_returncode()
    return done


def sim_call(cmd, **kw):
    w, t = _w()
    if w is None:
        return REAL["call"](cmd, **kw)
    kw.pop("timeout", None)
    return sim_run(cmd, **kw).returncode


def sim_check_call(cmd, **kw):
    w, t = _w()
    if w is None:
        return REAL["check_call"](cmd, **kw)
    rc = sim_call(cmd, **kw)
    if rc:
        raise subprocess.CalledProcessError(rc, cmd)
    return 0


def sim_check_output(cmd, **kw):
    w, t = _w()
    if w is None:
        return REAL["check_output"](cmd, **kw)
    kw.pop("timeout", None)
    kw.setdefault("stdout", subprocess.PIPE)
    r = sim_run(cmd, check=True, **kw)
    return r.stdout


def sim_getstatusoutput(cmd, **kw):
    w, t = _w()
    if w is None:
        return REAL["getstatusoutput"](cmd, **kw)
    r = sim_run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return r.returncode, r.stdout[:-1] if r.stdout.endswith("\n") else r.stdout


def sim_getoutput(cmd, **kw):
    return sim_getstatusoutput(cmd, **kw)[1]


class SimPopen:
    """The command takes effect when it is waited for (or collected)."""

    def __init__(self, args, **kw):
        w, t = _w()
        self.args = args
        self.kw = kw
        self.text = _is_text(kw)
        self.returncode = None
        self.pid = w.next_pid()
        self.stdin = None
        self._r = _execute(args, kw.get("shell", False), kw.get("env"), kw.get("cwd"))
        out, err = self._r.out, self._r.err
        if kw.get("stderr") == subprocess.STDOUT:
            out, err = out + err, ""
        o = _deliver_output(out, kw.get("stdout"), self.text)
        e = _deliver_output(err, kw.get("stderr"), self.text)
        mk = io.StringIO if self.text else io.BytesIO
        self.stdout = mk(o) if o is not None else None
        self.stderr = mk(e) if e is not None else None

    def communicate(self, input=None, timeout=None):
        self.wait()
        return (self.stdout.read() if self.stdout is not None else None,
                self.stderr.read() if self.stderr is not None else None)

    def wait(self, timeout=None):
        w, t = _w()
        if w is not None:
            w.point("wait")
        self.returncode = self._r.rc
        return self.returncode

    def poll(self):
        self.returncode = self._r.rc
        return self.returncode

    def kill(self):
        pass

    terminate = kill

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()


class _PopenMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, (SimPopen, REAL["Popen"]))


class PopenShim(metaclass=_PopenMeta):
    def __new__(cls, args, *a, **kw):
        w, t = _w()
        if w is None:
            return REAL["Popen"](args, *a, **kw)
        return SimPopen(args, **kw)


def sim_system(cmd):
    w, t = _w()
    if w is None:
        return REAL["system"](cmd)
    r = _execute(cmd, True)
    return r.rc << 8


def sim_popen(cmd, mode="r", buffering=-1):
    w, t = _w()
    if w is None:
        return REAL["popen"](cmd, mode, buffering)
    r = _execute(cmd, True)
    return io.StringIO(r.out)


# --------------------------------------------------------------------------
# worker pools: every worker is a simulated process forked from the caller
# --------------------------------------------------------------------------
def _crossed(obj):
    """what the other side of a pipe receives"""
    return pickle.loads(pickle.dumps(obj))


class SimAsyncResult:
    def __init__(self, pool, n):
        self.pool = pool
        self.values = [None] * n
        self.left = n
        self.error = None
        self.single = False

    def ready(self):
        return self.left == 0

    def successful(self):
        if self.left:
            raise ValueError("not ready")
        return self.error is None

    def wait(self, timeout=None):
        w, t = _w()
        w.point("pool-wait")
        w.block(lambda: self.left == 0, "pool result",
                None if timeout is None else w.now + timeout)

    def get(self, timeout=None):
        self.wait(timeout)
        if self.left:
            raise multiprocessing.TimeoutError
        if self.error is not None:
            raise self.error
        return self.values[0] if self.single else self.values


class SimPool:
    """multiprocessing.Pool: results keep their order, the first error is raised
    after every item has run; leaving the `with` block terminates the workers."""

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None,
                 context=None):
        w, t = _w()
        self.w = w
        self.parent = t.proc
        self.queue = []
        self.closed = False
        self.terminated = False
        n = processes or 8
        if n < 1:
            raise ValueError("Number of processes must be at least 1")
        self.workers = []
        if self.parent.group is None:
            self.parent.group = [self.parent]
        w.point("fork")
        for i in range(n):
            p = w.proc(f"{t.proc.name}.w{i}", parent=t.proc)
            p.faults = dict(t.proc.faults)
            p.group = self.parent.group
            p.group.append(p)
            self.workers.append(p)
            w.spawn(p.name, lambda: self._loop(initializer, initargs), proc=p)

    def _loop(self, initializer, initargs):
        w = self.w
        if initializer is not None:
            initializer(*initargs)
        while True:
            w.block(lambda: bool(self.queue) or self.closed or self.terminated, "pool idle")
            if self.terminated:
                return
            if not self.queue:
                if self.closed:
                    return
                continue
            w.point("pool-take")
            if not self.queue:
                continue
            blob, res, idx = self.queue.pop(0)
            fn, chunk = pickle.loads(blob)
            for k, (args, kwargs) in enumerate(chunk):
                try:
                    v = _crossed(fn(*args, **kwargs))
                    err = None
                except Exception as e:
                    v, err = None, e
                if self.terminated:
                    return
                w.point("pool-done")
                if err is not None and res.error is None:
                    res.error = err
                res.values[idx + k] = v
                res.left -= 1
                if err is not None:       # the rest of the chunk is not attempted
                    res.left -= len(chunk) - k - 1
                    break

    def _submit(self, fn, calls, chunksize=1):
        if self.closed or self.terminated:
            raise ValueError("Pool not running")
        res = SimAsyncResult(self, len(calls))
        chunksize = chunksize or 1
        for i in range(0, len(calls), chunksize):
            self.queue.append((pickle.dumps((fn, calls[i:i + chunksize])), res, i))
        return res

    def starmap(self, fn, it, chunksize=None):
        return self.starmap_async(fn, it, chunksize).get()

    def starmap_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        return self._submit(fn, [(tuple(a), {}) for a in it], self._chunk(it, chunksize))

    def _chunk(self, it, chunksize):
        if chunksize is None:
            try:
                n = len(it)
            except TypeError:
                return 1
            chunksize, extra = divmod(n, len(self.workers) * 4)
            if extra:
                chunksize += 1
        return max(1, chunksize)

    def map(self, fn, it, chunksize=None):
        return self.map_async(fn, it, chunksize).get()

    def map_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        it = list(it)
        return self._submit(fn, [((a,), {}) for a in it], self._chunk(it, chunksize))

    def imap(self, fn, it, chunksize=1):
        return iter(self.map(fn, it, chunksize))

    imap_unordered = imap

    def apply(self, fn, args=(), kwds={}):
        return self.apply_async(fn, args, kwds).get()

    def apply_async(self, fn, args=(), kwds={}, callback=None, error_callback=None):
        res = self._submit(fn, [(tuple(args), dict(kwds))])
        res.single = True
        return res

    def close(self):
        self.closed = True

    def terminate(self):
        self.terminated = True
        self.closed = True
        for p in self.workers:
            if not p.exited:
                p.dead = True

    def join(self):
        w, t = _w()
        w.point("pool-join")
        w.block(lambda: all(p.exited or p.dead for p in self.workers), "pool join")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


def pool_factory(*a, **kw):
    w, t = _w()
    if w is None:
        return REAL["mp.Pool"](*a, **kw)
    return SimPool(*a, **kw)


class SimProcess:
    """multiprocessing.Process"""

    def __init__(self, group=None, target=None, name=None, args=(), kwargs={}, *, daemon=None):
        self._target, self._args, self._kwargs = target, args, kwargs
        self.name = name or "Process"
        self.daemon = daemon
        self.pid = None
        self._task = None

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        w, t = _w()
        w.point("fork")
        p = w.proc(f"{t.proc.name}.{self.name}", parent=t.proc)
        p.faults = dict(t.proc.faults)
        if t.proc.group is None:
            t.proc.group = [t.proc]
        p.group = t.proc.group
        p.group.append(p)
        self.pid = p.pid
        self._proc = p
        self._task = w.spawn(p.name, self.run, proc=p)

    def join(self, timeout=None):
        w, t = _w()
        w.point("join")
        w.block(lambda: self._task.done, "process join",
                None if timeout is None else w.now + timeout)

    def is_alive(self):
        return self._task is not None and not self._task.done

    @property
    def exitcode(self):
        if self._task is None or not self._task.done:
            return None
        return 0 if self._task.exc is None else 1

    def terminate(self):
        self._proc.kill("terminated")

    kill = terminate

    def close(self):
        pass


def process_factory(*a, **kw):
    w, t = _w()
    if w is None:
        return REAL["mp.Process"](*a, **kw)
    return SimProcess(*a, **kw)


class _SimThread(threading.Thread):
    """a Python thread started by the code under test: one more task of its process"""

    def start(self):
        w, t = _w()
        if w is None:
            return super().start()
        w.point("thread-start")
        self._sim_task = w.spawn(f"{t.proc.name}.{self.name}", self.run, proc=t.proc)

    def join(self, timeout=None):
        task = getattr(self, "_sim_task", None)
        if task is None:
            return super().join(timeout)
        w, t = _w()
        if w is None:
            return None
        w.point("thread-join")
        w.block(lambda: task.done, "thread join", None if timeout is None else w.now + timeout)

    def is_alive(self):
        task = getattr(self, "_sim_task", None)
        if task is None:
            return super().is_alive()
        return not task.done


class SimFuture:
    def __init__(self, res):
        self._res = res

    def result(self, timeout=None):
        return self._res.get(timeout)

    def exception(self, timeout=None):
        self._res.wait(timeout)
        return self._res.error

    def done(self):
        return self._res.ready()


class SimExecutor:
    """concurrent.futures.{Process,Thread}PoolExecutor"""

    def __init__(self, max_workers=None, *a, initializer=None, initargs=(), **kw):
        self._pool = SimPool(max_workers or 8, initializer, initargs)

    def submit(self, fn, *args, **kw):
        return SimFuture(self._pool.apply_async(fn, args, kw))

    def map(self, fn, *its, timeout=None, chunksize=1):
        return iter(self._pool._submit(fn, [(tuple(a), {}) for a in zip(*its)]).get())

    def shutdown(self, wait=True, cancel_futures=False):
        self._pool.close()
        if wait:
            self._pool.join()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()


# --------------------------------------------------------------------------
def install():
    global installed
    if installed:
        return
    installed = True
    REAL["open"] = builtins.open
    builtins.open = sim_open
    io.open = sim_open
    try:                    # np.loadtxt, np.savetxt and np.genfromtxt open files with these
        from numpy.lib import _datasource
        _datasource._file_openers._load()
        _datasource._file_openers._file_openers[None] = sim_open
    except (ImportError, AttributeError):
        pass
    REAL["realpath"] = os.path.realpath

    def realpath(*a, **kw):
        """the simulated tree has one name, wherever it lies"""
        p = REAL["realpath"](*a, **kw)
        w = World.active
        if w is not None and isinstance(p, str) and (p + "/").startswith(w.real_dir + "/"):
            return ROOT + p[len(w.real_dir):]
        return p
    os.path.realpath = realpath
    for name, label, mutating in (("remove", "unlink", True), ("unlink", "unlink", True),
                                  ("mkdir", "mkdir", True), ("rmdir", "rmdir", True),
                                  ("stat", "stat", False), ("chmod", "chmod", True),
                                  ("utime", "utime", True), ("truncate", "truncate", True)):
        _path_op(name, label, mutating)
    for name in ("replace", "rename", "link", "symlink"):
        _path_op(name, name, True, two=True)
    REAL["os.listdir"], os.listdir = os.listdir, _listdir
    REAL["os.scandir"], os.scandir = os.scandir, _scandir
    REAL["os.open"], os.open = os.open, _os_open
    REAL["os.write"], os.write = os.write, _os_write
    REAL["os.close"], os.close = os.close, _os_close
    REAL["os.fsync"], os.fsync = os.fsync, _os_fsync
    os.fdatasync = _os_fsync
    # file-to-file copies go through read/write, so that they can be torn
    for flag in ("_USE_CP_SENDFILE", "_HAS_FCOPYFILE", "_USE_CP_COPY_FILE_RANGE"):
        if hasattr(shutil, flag):
            setattr(shutil, flag, False)
    REAL["flock"], fcntl.flock = fcntl.flock, _flock
    REAL["lockf"], fcntl.lockf = fcntl.lockf, _lockf
    for name, fn in (("time", _time), ("monotonic", _monotonic), ("perf_counter", _perf),
                     ("sleep", _sleep), ("time_ns", _time_ns)):
        REAL[name] = getattr(time, name)
        setattr(time, name, fn)
    for name, fn in (("signal", _signal), ("getsignal", _getsignal), ("sigwait", _sigwait),
                     ("sigtimedwait", _sigtimedwait), ("sigwaitinfo", _sigwaitinfo),
                     ("alarm", _alarm), ("setitimer", _setitimer), ("pause", _pause),
                     ("pthread_sigmask", _pthread_sigmask), ("sigpending", _sigpending)):
        REAL[name] = getattr(signal, name)
        setattr(signal, name, fn)
    REAL["getpid"], os.getpid = os.getpid, _getpid
    REAL["getppid"], os.getppid = os.getppid, _getppid
    REAL["urandom"], os.urandom = os.urandom, _urandom
    REAL["np.seed"], np.random.seed = np.random.seed, _np_seed
    REAL["np.default_rng"], np.random.default_rng = np.random.default_rng, _default_rng
    REAL["np.choice"], np.random.choice = np.random.choice, _np_choice
    REAL["np.normal"], np.random.normal = np.random.normal, _np_normal
    REAL["input"], builtins.input = builtins.input, _input
    for name, fn in (("run", sim_run), ("call", sim_call), ("check_call", sim_check_call),
                     ("check_output", sim_check_output), ("getoutput", sim_getoutput),
                     ("getstatusoutput", sim_getstatusoutput), ("Popen", PopenShim)):
        REAL[name] = getattr(subprocess, name)
        setattr(subprocess, name, fn)
    REAL["system"], os.system = os.system, sim_system
    REAL["popen"], os.popen = os.popen, sim_popen
    REAL["mp.Pool"], multiprocessing.Pool = multiprocessing.Pool, pool_factory
    REAL["mp.pool.Pool"] = multiprocessing.pool.Pool
    multiprocessing.pool.Pool = pool_factory
    REAL["mp.Process"], multiprocessing.Process = multiprocessing.Process, process_factory
    import concurrent.futures as cf
    import concurrent.futures.process    # noqa
    import concurrent.futures.thread     # noqa
    for name in ("ProcessPoolExecutor", "ThreadPoolExecutor"):
        real = getattr(cf, name)
        REAL[name] = real

        def make(*a, _real=real, **kw):
            w, t = _w()
            return _real(*a, **kw) if w is None else SimExecutor(*a, **kw)
        setattr(cf, name, make)
    # numpy writes arrays with C stdio when it thinks the file is a plain one
    import numpy.lib.format as nf
    real_is = nf.isfileobj

    def isfileobj(f):
        raw = getattr(f, "raw", f)
        if isinstance(raw, SimRaw):
            return False
        return real_is(f)
    nf.isfileobj = isfileobj
    threading.Thread = _SimThread
    import socket
    REAL["gethostname"] = socket.gethostname
    socket.gethostname = lambda: _w()[1].proc.hostname if _w()[0] else REAL["gethostname"]()
    import tempfile
    REAL["tempnames"] = tempfile._get_candidate_names
    tempfile._get_candidate_names = _candidate_names
    _random._urandom = _urandom
    ctx = multiprocessing.get_context
    REAL["mp.get_context"] = ctx

    def get_context(method=None):
        w, t = _w()
        return ctx(method) if w is None else _Context()
    multiprocessing.get_context = get_context


class _Context:
    Pool = staticmethod(SimPool)
    Process = staticmethod(SimProcess)
