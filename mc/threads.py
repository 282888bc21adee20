"""Controlled execution of multi-threaded code.

The threads of a scenario are real threads running the real code, but only one runs at a time and the
switches are scheduling decisions: before every line of the modules under test, before every simulated
system call beyond the first of a line, and whenever a thread blocks.  Processes, waitpid, pidfd, epoll,
kqueue, pipes, locks and the clock are simulated.
"""

import asyncio
import errno
import gc
import heapq
import logging
import os
import select
import signal
import sys
import threading
import time
import traceback
import types
import weakref
import _thread

from . import world as W

FD0 = 5000  # simulated descriptors
CUR = None
_here = threading.local()

REAL = {
    "Thread": threading.Thread, "Lock": threading.Lock, "RLock": threading.RLock,
    "alloc": threading._allocate_lock, "sleep": time.sleep, "monotonic": time.monotonic,
    "perf": time.perf_counter, "time": time.time,
}


class Kill(BaseException):
    "Ends the threads of a run that is over."


def me():
    "The controlled thread that is running, if any."
    return getattr(_here, "t", None)


class T:
    "A controlled thread."

    def __init__(self, sim, name, fn, daemon=False):
        self.sim = sim
        self.name = name
        self.fn = fn
        self.daemon = daemon
        self.go = _thread.allocate_lock()
        self.go.acquire()
        self.state = "new"  # new, ready, blocked, done
        self.ready = None  # blocked: function, true when it may go on
        self.timer = None
        self.timed_out = False
        self.why = ""
        self.exc = None
        self.calls = 0
        self.faulted = []
        self.owner = None  # PThread


class Proc:
    def __init__(self, sim, pid, raw, stays=False, grace=0.0):
        self.pid = pid
        self.raw = raw
        self.stays = stays
        self.grace = grace  # time between the notification of the exit and the moment it can be waited for
        self.state = "running"  # running, exiting, zombie, reaped
        self.killed_at = None
        self.due = None
        self.linger = 0.0  # how long it takes to die when killed
        self.exit_at = None


class Sim:
    def __init__(self, scenario, policy, prefix, budgets):
        self.scenario = scenario
        self.eager = getattr(policy, "eager", False)
        self.rev = getattr(policy, "rev_actors", False)
        self.prefix = prefix
        self.left = dict(budgets)
        self.trace = []
        self.events = []
        self.mismatch = None
        self.threads = []
        self.procs = {}
        self.all_procs = []
        self.fds = {}  # number -> object
        self.now = 100.0
        self.cur = None
        self.dead = False
        self.over = _thread.allocate_lock()
        self.over.acquire()
        self.outcome = "done"
        self.next_pid = 300
        self.reuse_pids = False
        self.points = 0
        self.bad = []  # misuse seen: closing a descriptor that is not open, ...
        self.critical = []
        self.faults = set(scenario.faults)
        self.clock_first = False

    # -- log and choices ----------------------------------------------------
    def log(self, *ev):
        t = self.cur
        self.events.append((t.name if t else "env",) + tuple(str(e) for e in ev))

    def choose(self, kind, costs):
        n = len(costs)
        i = len(self.trace)
        c = 0
        if i < len(self.prefix):
            pn, pc = self.prefix[i]
            if pn != n:
                self.mismatch = (i, kind, pn, n)
            c = pc if pc < n else 0
        self.trace.append((kind, n, c, costs))
        if c and costs[c] is not None:
            self.left[costs[c]] = self.left.get(costs[c], 0) - 1
        return c

    def fault(self, name):
        "True if the call should fail now."
        if self.dead or name not in self.faults or self.left.get("fault", 0) <= 0:
            return False
        if self.choose("fault " + name, [None, "fault"]):
            self.log("FAULT", name)
            self.cur.faulted.append(name)
            return True
        return False

    # -- environment ---------------------------------------------------------
    def env(self):
        "What processes may do now: list of (label, function)."
        out = []
        for p in self.all_procs:
            if p.state == "running" and (not p.stays or p.killed_at is not None):
                if p.killed_at is not None and self.now < p.killed_at + p.linger:
                    continue
                out.append((f"exit {p.pid}", lambda p=p: self.exits(p)))
            elif p.state == "exiting" and p.grace:
                out.append((f"zombie {p.pid}", lambda p=p: self.becomes_zombie(p)))
        if self.rev:
            out.reverse()
        return out

    def exits(self, p):
        p.state = "exiting"
        p.exit_at = self.now
        self.log("exit", p.pid, p.raw)
        for o in self.pollers():
            o.proc_exits(p)
        if not p.grace:
            self.becomes_zombie(p)

    def becomes_zombie(self, p):
        p.state = "zombie"
        if p.grace:
            self.log("zombie", p.pid)
        for o in self.pollers():
            o.scan()

    def forced_time(self):
        "When an overdue process event has to happen at the latest."
        out = None
        for p in self.all_procs:
            t = None
            if p.state == "exiting" and p.grace:
                t = p.exit_at + p.grace
            elif p.state == "running" and p.killed_at is not None:
                t = p.killed_at + p.linger
            if t is not None and (out is None or t < out):
                out = t
        return out

    # -- scheduling ----------------------------------------------------------
    def options(self, cur):
        "Possible steps: (label, action); the first is the default."
        run = []
        for t in self.threads:
            if t is cur:
                continue
            if t.state == "ready" or (t.state == "blocked" and t.ready and t.ready()):
                run.append((t.name, t))
        if self.rev:
            run.reverse()
        env = self.env()
        me_ = [(cur.name, cur)] if cur is not None else []
        if self.eager:
            opts = env + me_ + run
        else:
            opts = me_ + run + env
        timers = sorted(t.timer for t in self.threads if t.state == "blocked" and t.timer is not None)
        if timers:
            limit = self.forced_time()
            if limit is None or timers[0] <= limit + 1e-9:
                opts.append(("clock", timers[0]))
            elif self.now < limit:
                opts.append(("clock", limit))
        elif not opts:
            limit = self.forced_time()
            if limit is not None and limit > self.now:
                opts.append(("clock", limit))
        return opts

    def decide(self, cur):
        "Returns the thread to run next; performs what the environment does until then."
        while True:
            opts = self.options(cur)
            if not opts:
                return None
            c = 0
            if len(opts) > 1:
                costs = [None] + ["dev"] * (len(opts) - 1)
                c = self.choose("step", costs)
                if c:
                    self.events.append(("CHOICE", opts[c][0]))
            label, act = opts[c]
            if isinstance(act, T):
                return act
            if label == "clock":
                self.now = max(self.now, act)
                for t in self.threads:
                    if t.state == "blocked" and t.timer is not None and t.timer <= self.now:
                        t.timed_out = True
                        t.state = "ready"
                continue
            act()

    def point(self):
        "The running thread may be preempted here."
        t = me()
        if self.dead:
            raise Kill
        self.points += 1
        if self.points > 6000:
            self.finish("livelock")
            raise Kill
        n = self.decide(t)
        if n is not t:
            t.state = "ready"
            self.switch(t, n)

    def switch(self, t, n):
        n.state = "running"
        self.cur = n
        n.go.release()
        t.go.acquire()
        if self.dead:
            raise Kill

    def block(self, why, ready=None, timeout=None):
        """Block the running thread until ready() or until the time-out has passed.
        Returns False if it timed out."""
        t = me()
        if self.dead:
            raise Kill
        if ready is not None and ready():
            return True
        t.state = "blocked"
        t.ready = ready
        t.timer = None if timeout is None else self.now + max(timeout, 0)
        t.timed_out = False
        t.why = why
        n = self.decide(None)
        if n is None:
            self.finish("stuck")
            raise Kill
        if n is not t:
            self.switch(t, n)
        else:
            t.state = "running"
            self.cur = t
        out = not t.timed_out
        t.ready = t.timer = None
        t.timed_out = False
        t.why = ""
        return out

    def finish(self, outcome):
        "End of the run (called by the running thread)."
        self.outcome = outcome
        self.stuck = [(t.name, t.why) for t in self.threads if t.state == "blocked"]
        self.dead = True
        self.over.release()

    def ended(self, t):
        "Thread t has returned."
        t.state = "done"
        if self.dead:
            return
        n = self.decide(None)
        if n is None:
            if any(x.state != "done" for x in self.threads):
                self.finish("stuck")
            else:
                self.finish("done")
            return
        n.state = "running"
        self.cur = n
        n.go.release()

    def settle(self):
        "Block until nothing else can run (without the clock)."
        t = me()
        self.block("settle", lambda: not self.env() and not any(
            x is not t and (x.state in ("ready", "running") or (x.state == "blocked" and x.why != "settle" and x.ready and x.ready()))
            for x in self.threads))

    # -- threads ---------------------------------------------------------------
    def spawn(self, name, fn, daemon=False, owner=None):
        t = T(self, name, fn, daemon)
        t.owner = owner
        self.threads.append(t)
        t.state = "ready"
        t.done = _thread.allocate_lock()
        t.done.acquire()
        _thread.start_new_thread(self.body, (t,))
        return t

    def body(self, t):
        t.go.acquire()
        try:
            if self.dead:
                t.state = "done"
                return
            _here.t = t
            threading._active[_thread.get_ident()] = t.owner or types.SimpleNamespace(name=t.name, daemon=False)
            sys.settrace(tracer)
            try:
                t.fn()
            except Kill:
                pass
            except BaseException as ex:  # pylint: disable=broad-except
                t.exc = ex
                self.log("DIED", repr(ex))
                t.tb = "".join(traceback.format_exception(ex)[-3:])
            finally:
                sys.settrace(None)
                self.ended(t)
        finally:
            threading._active.pop(_thread.get_ident(), None)
            _here.t = None
            t.done.release()

    # -- descriptors -------------------------------------------------------------
    def new_fd(self, obj):
        n = FD0
        while n in self.fds:
            n += 1
        self.fds[n] = obj
        return n

    def pollers(self):
        return [o for o in (h.ref() for h in list(self.fds.values()) if isinstance(h, Handle)) if o is not None]

    def get(self, fd, what):
        o = self.fds.get(fd)
        if o is None:
            self.bad.append(f"{what} on descriptor {fd} which is not open")
            raise OSError(errno.EBADF, "Bad file descriptor")
        return o

    def fork(self, raw, **kw):
        "Start a process that will end with the given wait status."
        if self.reuse_pids:
            pid = 300
            while pid in self.procs:
                pid += 1
        else:
            pid = self.next_pid
            self.next_pid += 1
        p = Proc(self, pid, raw, **kw)
        self.procs[pid] = p
        self.all_procs.append(p)
        self.log("fork", pid)
        return p


# ---------------------------------------------------------------------------
# what the code under test sees
# ---------------------------------------------------------------------------
FILES = set()


def tracer(frame, event, arg):
    if frame.f_code.co_filename in FILES:
        return line_tracer
    return None


def line_tracer(frame, event, arg):
    if event == "line":
        t = _here.t
        if t is not None and not t.sim.dead:
            t.calls = 0
            t.sim.point()
    return line_tracer


def syscall():
    "A simulated system call; the second and later ones of one line are scheduling points too."
    t = me()
    if t is None:
        return None
    s = t.sim
    if s.dead:
        raise Kill
    t.calls += 1
    if t.calls > 1:
        s.point()
    return s


class SimLock:
    def __init__(self, sim, reentrant=False):
        self.sim = sim
        self.owner = None
        self.count = 0
        self.reentrant = reentrant

    def acquire(self, blocking=True, timeout=-1):
        s = self.sim
        t = me()
        if s.dead:
            raise Kill
        if self.reentrant and self.owner is t:
            self.count += 1
            return True
        if self.owner is not None:
            if not blocking:
                return False
            if not s.block("lock", lambda: self.owner is None, None if timeout is None or timeout < 0 else timeout):
                return False
        self.owner = t
        self.count = 1
        return True

    def release(self):
        if self.sim.dead:
            return
        if self.owner is None or (self.reentrant and self.owner is not me()):
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if not self.count:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    # for threading.Condition
    def _is_owned(self):
        return self.owner is me()

    def _release_save(self):
        c, self.count, self.owner = self.count, 0, None
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self.count = c


class PThread(REAL["Thread"]):
    "threading.Thread, under control when it is made by a controlled thread."

    def __init__(self, *a, **k):
        t = me()
        _here.t = None
        try:
            super().__init__(*a, **k)
        finally:
            _here.t = t
        self._sim = t.sim if t else None
        self._t = None

    def start(self):
        if self._sim is None:
            return super().start()
        s = syscall()
        if self._t is not None:
            raise RuntimeError("threads can only be started once")
        if s.fault("thread"):
            raise RuntimeError("can't start new thread")
        k = sum(1 for t in s.threads if t.owner is not None)
        self._t = s.spawn(f"W{k}", self.run, daemon=self.daemon, owner=self)
        s.log("start", self._t.name)
        return None

    def join(self, timeout=None):
        if self._sim is None:
            return super().join(timeout)
        s = syscall()
        if self._t is None:
            raise RuntimeError("cannot join thread before it is started")
        if self._t is me():
            raise RuntimeError("cannot join current thread")
        s.block("join " + self._t.name, lambda: self._t.state == "done", timeout)
        return None

    def is_alive(self):
        if self._sim is None:
            return super().is_alive()
        return self._t is not None and self._t.state != "done"

    @property
    def ident(self):
        if self._sim is None:
            return REAL["Thread"].ident.fget(self)
        return id(self._t) if self._t is not None else None


class PipeEnd:
    def __init__(self, buf, side):
        self.buf = buf
        self.side = side
        self.waiters = []

    def readable(self):
        return self.side == "r" and (self.buf["n"] or not self.buf["w"])


class PidFd:
    def __init__(self, proc):
        self.proc = proc

    def readable(self):
        return self.proc.state in ("zombie", "reaped")


class Handle:
    "The descriptor of an epoll or kqueue object, which closes it when it is freed."

    def __init__(self, obj):
        self.ref = weakref.ref(obj)


def _closed_by_gc(self):
    if getattr(self, "closed", True) or self.sim.dead:
        return
    self.closed = True
    self.sim.fds.pop(self.fd, None)


class SimEpoll:
    "select.epoll, level triggered, with the kernel's first-in first-out list of ready descriptors."

    def __init__(self, *a, **k):
        s = syscall()
        if s.fault("epoll"):
            raise OSError(errno.EMFILE, "Too many open files")
        self.sim = s
        self.reg = {}  # fd -> object
        self.queue = []  # fds, in the order in which they became ready
        self.closed = False
        self.fd = s.new_fd(Handle(self))

    def _check(self, what):
        s = syscall()
        if self.closed:
            s.bad.append(f"epoll.{what} after epoll.close")
            raise ValueError("I/O operation on closed epoll object")
        return s

    def _num(self, fd):
        return fd if isinstance(fd, int) else fd.fileno()

    def register(self, fd, eventmask=None):
        s = self._check("register")
        fd = self._num(fd)
        o = s.get(fd, "epoll.register")
        if s.fault("register pidfd" if isinstance(o, PidFd) else "register"):
            raise OSError(errno.ENOSPC, "No space left on device")
        if self.reg.get(fd) is o:
            raise FileExistsError(errno.EEXIST, "File exists")
        self.reg[fd] = o
        self.scan()

    def modify(self, fd, eventmask):
        s = self._check("modify")
        if self._num(fd) not in self.reg:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory")

    def unregister(self, fd):
        s = self._check("unregister")
        fd = self._num(fd)
        if fd not in s.fds:
            s.bad.append("epoll.unregister of a descriptor that is not open")
            raise OSError(errno.EBADF, "Bad file descriptor")
        if self.reg.get(fd) is not s.fds[fd]:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory")
        del self.reg[fd]

    def scan(self):
        for fd, o in list(self.reg.items()):
            if self.sim.fds.get(fd) is not o:
                del self.reg[fd]  # closed: the kernel forgets it
                continue
            if o.readable() and fd not in self.queue:
                self.queue.append(fd)
        self.queue = [fd for fd in self.queue if fd in self.reg and self.reg[fd].readable()]
        return self.queue

    def proc_exits(self, p):
        pass

    def poll(self, timeout=None, maxevents=-1):
        s = self._check("poll")
        if timeout is not None and timeout < 0:
            timeout = None
        if not self.scan():
            if timeout == 0:
                return []
            s.block("epoll.poll", lambda: bool(self.scan()), timeout)
        ready = self.scan()
        n = len(ready) if maxevents is None or maxevents <= 0 else maxevents
        out = ready[:n]
        self.queue = ready[n:] + out
        return [(fd, select.EPOLLIN) for fd in out]

    def fileno(self):
        return self.fd

    def close(self):
        if self.closed or self.sim.dead:
            return
        syscall()
        self.closed = True
        self.sim.fds.pop(self.fd, None)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    __del__ = _closed_by_gc


class KEvent:
    def __init__(self, ident, filter=0, flags=0, fflags=0, data=0, udata=0):
        self.ident = ident if isinstance(ident, int) else ident.fileno()
        self.filter = filter
        self.flags = flags
        self.fflags = fflags
        self.data = data


KQ = dict(KQ_FILTER_TIMER=-7, KQ_FILTER_PROC=-5, KQ_NOTE_EXIT=0x80000000, KQ_EV_ADD=1, KQ_EV_ONESHOT=0x10,
          KQ_EV_DELETE=2, KQ_EV_ENABLE=4, KQ_FILTER_READ=-1, KQ_EV_CLEAR=0x20, KQ_FILTER_USER=-10)


class SimKqueue:
    "select.kqueue as far as one-shot process and timer events go."

    def __init__(self):
        s = syscall()
        self.sim = s
        self.knotes = set()
        self.pending = []
        self.closed = False
        self.fd = s.new_fd(Handle(self))

    def control(self, changelist, max_events, timeout=None):
        s = syscall()
        if self.closed:
            s.bad.append("kqueue.control after close")
            raise ValueError("I/O operation on closed kqueue object")
        for ev in changelist or ():
            if ev.filter == KQ["KQ_FILTER_TIMER"]:
                self.pending.append(ev)
            elif ev.filter == KQ["KQ_FILTER_PROC"]:
                p = s.procs.get(ev.ident)
                if p is None or p.state != "running":
                    raise ProcessLookupError(errno.ESRCH, "No such process")
                self.knotes.add(ev.ident)
            else:
                raise OSError(errno.EINVAL, "not simulated")
        if max_events <= 0:
            return []
        if not self.pending:
            s.block("kqueue.control", lambda: bool(self.pending), timeout)
        out, self.pending = self.pending[:max_events], self.pending[max_events:]
        return out

    def proc_exits(self, p):
        if p.pid in self.knotes:
            self.knotes.discard(p.pid)
            self.pending.append(KEvent(p.pid, KQ["KQ_FILTER_PROC"], 0, KQ["KQ_NOTE_EXIT"]))

    def scan(self):
        pass

    def fileno(self):
        return self.fd

    def close(self):
        if self.closed or self.sim.dead:
            return
        syscall()
        self.closed = True
        self.sim.fds.pop(self.fd, None)

    __del__ = _closed_by_gc


def _dispatch(orig, fn):
    def call(*a, **k):
        if me() is None:
            return orig(*a, **k)
        return fn(syscall(), *a, **k)
    call.__name__ = getattr(orig, "__name__", "call")
    return call


def s_pidfd_open(s, pid, flags=0):
    if s.fault("pidfd_open"):
        raise OSError(errno.EMFILE, "Too many open files")
    p = s.procs.get(pid)
    if p is None:
        raise ProcessLookupError(errno.ESRCH, "No such process")
    fd = s.new_fd(PidFd(p))
    s.log("pidfd_open", pid, fd)
    return fd


def s_pipe(s):
    if s.fault("pipe"):
        raise OSError(errno.EMFILE, "Too many open files")
    buf = {"n": 0, "r": True, "w": True}
    return s.new_fd(PipeEnd(buf, "r")), s.new_fd(PipeEnd(buf, "w"))


def s_close(s, fd):
    o = s.get(fd, "close")
    del s.fds[fd]
    if isinstance(o, PipeEnd):
        o.buf[o.side] = False
    for e in s.pollers():
        e.scan()


def s_write(s, fd, data):
    o = s.get(fd, "write")
    if not isinstance(o, PipeEnd) or o.side != "w":
        s.bad.append("write on a descriptor that is not the write end of a pipe")
        raise OSError(errno.EBADF, "Bad file descriptor")
    if not o.buf["r"]:
        raise BrokenPipeError(errno.EPIPE, "Broken pipe")
    o.buf["n"] += len(data)
    for e in s.pollers():
        e.scan()
    return len(data)


def s_read(s, fd, n):
    o = s.get(fd, "read")
    if not isinstance(o, PipeEnd) or o.side != "r":
        s.bad.append("read on a descriptor that is not the read end of a pipe")
        raise OSError(errno.EBADF, "Bad file descriptor")
    s.block("read", o.readable)
    k = min(n, o.buf["n"])
    o.buf["n"] -= k
    return b"\x00" * k


def s_kill(s, pid, sig):
    p = s.procs.get(pid)
    if p is None:
        raise ProcessLookupError(errno.ESRCH, "No such process")
    s.log("kill", pid, int(sig))
    if sig == signal.SIGKILL and p.state == "running" and p.killed_at is None:
        p.killed_at = s.now
        p.raw = int(sig)


def s_waitpid(s, pid, options=0):
    def gone():
        p = s.procs.get(pid)
        return p is None or p.state == "zombie"

    if pid not in s.procs:
        s.bad.append(f"waitpid({pid}): no such child")
        raise ChildProcessError(errno.ECHILD, "No child processes")
    if not gone():
        if options & os.WNOHANG:
            return 0, 0
        s.block("waitpid", gone)
    p = s.procs.pop(pid, None)
    if p is None:
        raise ChildProcessError(errno.ECHILD, "No child processes")
    p.state = "reaped"
    s.log("reaped", pid)
    return pid, p.raw


def s_sleep(s, secs):
    s.block("sleep", None, secs)


class SimSelector:
    def __init__(self, sim):
        self.sim = sim
        self.woken = False

    def select(self, timeout=None):
        s = self.sim
        if s.dead:
            raise Kill
        if timeout is None or timeout > 0:
            s.block("loop", lambda: self.woken, timeout)
        self.woken = False
        return []

    def close(self):
        pass


class SimLoop(asyncio.BaseEventLoop):
    "An event loop of a controlled thread."

    def __init__(self, sim):
        super().__init__()
        self.sim = sim
        self._selector = SimSelector(sim)

    def time(self):
        return self.sim.now

    def _process_events(self, event_list):
        pass

    def _write_to_self(self):
        self._selector.woken = True


_logged = []


class _Handler(logging.Handler):
    def emit(self, record):
        if CUR is not None:
            CUR.critical.append((record.levelno, record.getMessage()))


_handler = _Handler()


def patches(sim):
    "Pairs (module, name, replacement) in force during a run."
    out = [
        (threading, "Thread", PThread),
        (threading, "Lock", lambda: SimLock(me().sim) if me() else REAL["Lock"]()),
        (threading, "RLock", lambda *a: SimLock(me().sim, True) if me() else REAL["RLock"]()),
        (threading, "_allocate_lock", lambda: SimLock(me().sim) if me() else REAL["alloc"]()),
        (time, "sleep", _dispatch(REAL["sleep"], s_sleep)),
        (time, "monotonic", lambda: me().sim.now if me() else REAL["monotonic"]()),
        (time, "perf_counter", lambda: me().sim.now if me() else REAL["perf"]()),
        (os, "close", _dispatch(os.close, s_close)),
        (os, "pipe", _dispatch(os.pipe, s_pipe)),
        (os, "write", _dispatch(os.write, s_write)),
        (os, "read", _dispatch(os.read, s_read)),
        (os, "kill", _dispatch(os.kill, s_kill)),
        (os, "waitpid", _dispatch(os.waitpid, s_waitpid)),
        (os, "pidfd_open", _dispatch(os.pidfd_open, s_pidfd_open)),
    ]
    real_epoll = select.epoll
    out.append((select, "epoll", lambda *a, **k: SimEpoll(*a, **k) if me() else real_epoll(*a, **k)))
    if sim.scenario.system == "kqueue":
        out = [x for x in out if x[1] not in ("pidfd_open", "epoll")]
        out += [(os, "pidfd_open", None), (select, "epoll", None), (select, "kqueue", SimKqueue), (select, "kevent", KEvent)]
        out += [(select, k, v) for k, v in KQ.items()]
    return out


_MISSING = object()


class Patched:
    def __init__(self, sim, modules):
        self.sim = sim
        self.modules = modules
        self.undo = []

    def put(self, mod, name, new):
        self.undo.append((mod, name, mod.__dict__.get(name, _MISSING)))
        if new is None:
            if name in mod.__dict__:
                delattr(mod, name)
        else:
            setattr(mod, name, new)

    def __enter__(self):
        swap = {}
        for mod, name, new in patches(self.sim):
            old = mod.__dict__.get(name)
            if old is not None and new is not None:
                swap[id(old)] = new
            self.put(mod, name, new)
        for m in self.modules:  # names imported from those modules
            for k, v in list(vars(m).items()):
                if id(v) in swap and not isinstance(v, (int, str, types.ModuleType)):
                    self.put(m, k, swap[id(v)])
        return self

    def __exit__(self, *a):
        for mod, name, old in reversed(self.undo):
            if old is _MISSING:
                if name in mod.__dict__:
                    delattr(mod, name)
            else:
                setattr(mod, name, old)


def run_one(scenario, policy, prefix, budgets, fingerprints=None):
    "Execute one schedule of a threads scenario."
    global CUR
    import shellous.log
    import shellous.util
    import shellous.watcher

    mods = (shellous.watcher, shellous.util, shellous.log)
    FILES.clear()
    FILES.update((shellous.watcher.__file__, shellous.util.__file__))
    sim = Sim(scenario, policy, prefix, budgets)
    r = W.Run()
    r.world = None
    r.sim = sim
    CUR = sim
    saved = []
    for name in ("shellous", "asyncio"):
        lg = logging.getLogger(name)
        saved.append((lg, lg.level, lg.propagate, list(lg.handlers)))
        lg.handlers[:] = [_handler]
        lg.propagate = False
        lg.setLevel(logging.WARNING)
    gc.disable()
    try:
        with Patched(sim, mods):
            root = sim.spawn("main", lambda: scenario.main(sim))
            sim.cur = root
            root.state = "running"
            root.go.release()
            if not sim.over.acquire(timeout=60):
                raise RuntimeError("the threads do not come to an end: a call that is not simulated?")
            sim.dead = True
            for t in list(sim.threads):
                if t.state != "done" or t.done.locked():
                    try:
                        t.go.release()
                    except RuntimeError:
                        pass
                    if not t.done.acquire(timeout=10):
                        raise RuntimeError("thread does not end: " + t.name)
    finally:
        CUR = None
        gc.enable()
        for lg, level, prop, handlers in saved:
            lg.setLevel(level)
            lg.propagate = prop
            lg.handlers[:] = handlers
    r.mismatch = sim.mismatch
    r.trace = sim.trace
    r.events = sim.events
    r.steps = sim.points
    r.outcome = sim.outcome
    r.exc = None
    r.value = getattr(sim, "result", None)
    return r
