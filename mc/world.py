"""Controlled environment in which the real shellous + asyncio code runs.

* processes are simulated by scripted actors attached to the real pipe / pty ends
* signals, waitpid, pidfds and the clock are simulated
* every non-deterministic decision is taken through `World.choose`

Import this module before importing shellous (it patches os/subprocess).
"""

import asyncio
import builtins
import errno
import fcntl
import gc
import heapq
import io
import logging
import os
import resource
import select
import selectors
import signal
import subprocess
import sys
import termios
import threading
import time
import warnings
from asyncio import events

# ----------------------------------------------------------------------------
# originals
# ----------------------------------------------------------------------------
_pipe = os.pipe
_close = os.close
_kill = os.kill
_killpg = os.killpg
_waitpid = os.waitpid
_pidfd_open = os.pidfd_open
_pidfd_send_signal = signal.pidfd_send_signal
_openpty = os.openpty
_open = builtins.open
_os_open = os.open
_dup = os.dup
_Popen = subprocess.Popen

PID_BASE = 1_000_001  # above the kernel's pid limit here (see check in run)
HIGH_FD = 500  # actor descriptors live at or above this number

CUR = None  # the current World


class HarnessError(Exception):
    "A problem of the checker itself."


class Stop(BaseException):
    "Raised out of the event loop to end an execution (deadlock, horizon)."

    def __init__(self, why):
        super().__init__(why)
        self.why = why


class ReplayMismatch(HarnessError):
    pass


# ----------------------------------------------------------------------------
# actors (simulated processes)
# ----------------------------------------------------------------------------
_FATAL = {
    signal.SIGTERM, signal.SIGINT, signal.SIGHUP, signal.SIGPIPE, signal.SIGQUIT,
    signal.SIGUSR1, signal.SIGUSR2, signal.SIGALRM, signal.SIGABRT,
}


def _highdup(fd):
    return fcntl.fcntl(fd, fcntl.F_DUPFD_CLOEXEC, HIGH_FD)


def _pollfd(fd, ev):
    p = select.poll()
    p.register(fd, ev)
    r = p.poll(0)
    return r[0][1] if r else 0


EBADF_STATUS = 74 << 8  # how a program ends that uses a descriptor it does not have


class Actor:
    """A simulated process.

    `prog(actor)` is a generator yielding operations:
        ("read", fd, n) -> bytes          ("write", fd, data) -> None | "EPIPE"
        ("close", fd)                     ("sleep", seconds)
        ("exit", code)                    ("open", path, "r"|"w") -> fd
        ("fork", prog, fds) -> Actor      ("call", func) -> func()
        ("hang",)                         ("nop",)
    """

    def __init__(self, world, name, prog, parent=None):
        self.w = world
        self.name = name
        self.pid = world.next_pid
        world.next_pid += 1
        self.parent = parent
        self.fds = {}
        self.argv = []
        self.env = None
        self.start_new_session = False
        self.ctty = None
        self.traps = {}
        self.ignore_sigpipe = False
        self.state = "run"  # run -> dying (fds closing) -> zombie -> reaped
        self.status = None  # wait status
        self.pending = []  # pending signals
        self.signals = []  # (time, signal) delivered by kill()
        self.op = None
        self.woff = 0
        self.full = None  # iteration of the loop in which a terminal took nothing more
        self.until = None
        self.pidfds = []
        self.exit_time = None
        self.log = []  # bytes read per fd: list of (fd, data)
        self.got = {}  # fd -> bytearray of everything read
        self.eof = set()
        self.eof_time = {}  # fd -> virtual time at which end-of-file was seen
        self.sent = {}  # fd -> bytes written so far
        self.pc = 0
        self.hup_sent = False
        self.is_child = parent is None
        self.gen = None
        self.prog = prog

    def start(self):
        self.gen = self.prog(self)
        self._advance(None)

    # -- helpers
    def _advance(self, value):
        try:
            self.op = self.gen.send(value)
            self.woff = 0
            self.until = None
            if self.op[0] == "sleep":
                self.until = self.w.now + self.op[1]
        except StopIteration as ex:
            self.op = ("exit", ex.value or 0)

    def alive(self):
        return self.state in ("run", "dying")

    def _fatal_pending(self):
        for sig in self.pending:
            if sig == signal.SIGKILL:
                return sig
        for sig in self.pending:
            return sig
        return None

    def enabled(self):
        if self.state in ("zombie", "reaped"):
            return False
        if self.state == "dying":
            return True
        if self.pending:
            return True
        if self.ctty is not None and not self.hup_sent:
            fd = self.fds.get(self.ctty)
            if fd is not None and _pollfd(fd, 0) & select.POLLHUP:
                return True
        kind = self.op[0]
        if kind == "read":
            fd = self.fds.get(self.op[1])
            return fd is None or _pollfd(fd, select.POLLIN) != 0
        if kind == "write":
            fd = self.fds.get(self.op[1])
            if self.full is not None and self.full == self.w.iterations:
                return False
            return fd is None or _pollfd(fd, select.POLLOUT) != 0
        if kind == "sleep":
            return self.w.now >= self.until - 1e-9
        if kind == "hang":
            return False
        if kind == "wait":
            return bool(self.op[1]())
        return True

    def deadline(self):
        if self.state == "run" and self.op[0] == "sleep" and not self.pending:
            if self.w.now < self.until - 1e-9:
                return self.until
        return None

    def label(self):
        if self.state == "dying":
            return f"{self.name}:exit2"
        if self.pending:
            return f"{self.name}:sig{self._fatal_pending()}"
        return f"{self.name}:{self.op[0]}"

    def step(self):
        self.pc += 1
        if self.state == "dying":
            self._die_step()
            return
        if self.ctty is not None and not self.hup_sent and not self.pending:
            fd = self.fds.get(self.ctty)
            if fd is not None and _pollfd(fd, 0) & select.POLLHUP:
                self.hup_sent = True
                self.w.log("hup", self.name)
                self.pending.append(signal.SIGHUP)
                return
        if self.pending:
            sig = self._fatal_pending()
            self.pending.remove(sig)
            self._signalled(sig)
            return
        op = self.op
        kind = op[0]
        if kind == "read":
            try:
                data = os.read(self.fds[op[1]], op[2])
            except KeyError:
                return self._exit_status(EBADF_STATUS)
            except OSError as ex:
                if ex.errno == errno.EIO:
                    data = b""
                elif ex.errno == errno.EBADF:
                    return self._exit_status(EBADF_STATUS)
                else:
                    raise
            if data:
                self.got.setdefault(op[1], bytearray()).extend(data)
            else:
                self.eof.add(op[1])
                self.eof_time.setdefault(op[1], self.w.now)
            self._advance(data)
        elif kind == "write":
            data = op[2]
            chunk = data[self.woff : self.woff + 4096]
            try:
                h = self.fds[op[1]]
                if os.isatty(h):
                    # a terminal takes what there is room for
                    os.set_blocking(h, False)
                    try:
                        n = os.write(h, chunk) if chunk else 0
                    except BlockingIOError:
                        self.full = self.w.iterations
                        return
                    finally:
                        os.set_blocking(h, True)
                else:
                    n = os.write(h, chunk) if chunk else 0
            except BrokenPipeError:
                if self.ignore_sigpipe:
                    self._advance("EPIPE")
                else:
                    self._exit_status(signal.SIGPIPE)
                return
            except OSError as ex:
                if ex.errno == errno.EIO:
                    self._advance("EPIPE")
                    return
                if ex.errno == errno.EBADF:
                    return self._exit_status(EBADF_STATUS)
                raise
            except KeyError:
                return self._exit_status(EBADF_STATUS)
            self.woff += n
            if n:
                self.sent.setdefault(op[1], bytearray()).extend(chunk[:n])
                self.w.order.append((self.name, op[1], chunk[:n]))
            if self.woff >= len(data):
                self._advance(None)
        elif kind == "close":
            self.closefd(op[1])
            self._advance(None)
        elif kind in ("sleep", "nop", "wait"):
            self._advance(None)
        elif kind == "exit":
            self._exit_status(op[1] << 8)
        elif kind == "kill":
            # raise signal on itself
            self._exit_status(int(op[1]))
        elif kind == "open":
            path, mode = op[1], op[2]
            if path.startswith("/dev/fd/"):
                src = self.fds.get(int(path.rsplit("/", 1)[1]))
                if src is None:
                    self._advance(None)
                    return
                # as in Linux, a new open of the same pipe or file
                tmp = _os_open(f"/proc/self/fd/{src}", os.O_RDONLY if mode == "r" else os.O_WRONLY)
                fd = _highdup(tmp)
                _close(tmp)
            else:
                flags = os.O_RDONLY if mode == "r" else os.O_WRONLY
                tmp = _os_open(path, flags)
                fd = _highdup(tmp)
                _close(tmp)
            n = 3
            while n in self.fds:
                n += 1
            self.fds[n] = fd
            self._advance(n)
        elif kind == "fork":
            sub = self.w.new_actor(self.name + "'", op[1], parent=self)
            for fd in op[2]:
                if fd in self.fds:
                    sub.fds[fd] = _highdup(self.fds[fd])
            sub.argv = self.argv
            sub.start()
            self._advance(sub)
        elif kind == "call":
            self._advance(op[1]())
        else:
            raise HarnessError(f"unknown op {op!r}")

    def _signalled(self, sig):
        action = self.traps.get(sig)
        if sig != signal.SIGKILL and action is not None:
            if action == "ignore":
                return
            self.w.log("trap", self.name, int(sig))
            self.gen = action(self)
            self._advance(None)
            return
        if sig == signal.SIGKILL or sig in _FATAL:
            self._exit_status(int(sig))

    def _exit_status(self, status):
        self.status = int(status)
        self.state = "dying"
        self.dying_fds = sorted(self.fds)
        self.w.log("exiting", self.name, self.status)
        if not self.w.split_exit:
            for fd in list(self.fds):
                self.closefd(fd)
            self.dying_fds = []

    def _die_step(self):
        if self.dying_fds:
            self.closefd(self.dying_fds.pop(0))
            if self.dying_fds:
                return
            if self.w.split_exit:
                return
        for fd in list(self.fds):
            self.closefd(fd)
        self.state = "zombie" if self.is_child else "reaped"
        self.exit_time = self.w.now
        self.w.log("zombie", self.name, self.status)
        if self.ctty is not None:  # the kernel hangs up the session's foreground processes
            for a in self.w.actors:
                p = a.parent
                while p is not None and p is not self:
                    p = p.parent
                if p is self and a.state == "run":
                    a.pending.append(signal.SIGHUP)
        for pfd in self.pidfds:
            try:
                os.eventfd_write(pfd, 1)
            except OSError:
                pass
        self.w.on_exit(self)

    def closefd(self, fd):
        h = self.fds.pop(fd, None)
        if h is not None:
            _close(h)

    def destroy(self):
        for fd in list(self.fds):
            self.closefd(fd)
        if self.gen is not None:
            self.gen.close()
        self.state = "reaped"


# ----------------------------------------------------------------------------
# the world
# ----------------------------------------------------------------------------
class World:
    def __init__(self, scenario, policy, prefix, budgets):
        self.scenario = scenario
        self.policy = policy
        self.prefix = prefix  # list of (n, choice)
        self.trace = []  # list of (kind, n, choice, cost)
        self.budget = dict(budgets)
        self.budget_given = dict(budgets)
        self.now = 1000.0
        self.actors = []
        self.next_pid = PID_BASE
        self.events = []  # readable log
        self.programs = {}
        self.split_exit = getattr(scenario, "split_exit", False)
        self.stall = getattr(scenario, "stall", False)
        self.mid_steps = getattr(scenario, "mid", False)
        self.pipe_size = getattr(scenario, "pipe_size", None)
        self.problems = []  # (category, text)
        self.loop_errors = []
        self.warnings = []
        self.audit = []
        self.execs = []  # successful execs
        self.ptys = []
        self.loop = None
        self.main = None
        self.cancel_target = None
        self.spins = 0  # iterations of the loop since anything else moved
        self.hurried = 0  # times the clock moved although something else could happen
        self.cancels = []
        self.faults = []
        self.frozen = False  # no more choices; deterministic
        self.iterations = 0
        self.handles = 0
        self.task_seq = 0
        self.in_user = 0
        self.logs = []
        self.fingerprints = None
        self.user = {}
        self.signal_log = []
        self.exec_fault_ok = True
        self.cancel_ok = True
        self.opened = []
        self.calls = {}
        self.preexec = []
        self.exit_hooks = []
        self.data_key = ()  # the input values chosen so far
        self.order = []  # (process, fd, data) in the order written
        self.idle_order = 0  # how many of these writes the loop has surely seen
        self.idle_at_kill = None  # the same, when the first signal was sent
        self.observer = None  # called at every scheduling point

    # -- choices
    def choose(self, kind, labels, costs):
        """Choose one of the labelled options. Option 0 is free."""
        n = len(labels)
        if self.frozen or n <= 1:
            return 0
        pos = len(self.trace)
        if pos < len(self.prefix):
            pn, pc = self.prefix[pos]
            if pn != n:
                raise ReplayMismatch(
                    f"at {pos}: expected {pn} options, got {n}: {labels}"
                )
            c = pc
        else:
            c = 0
        self.trace.append((kind, n, c, costs))
        if c:
            b = costs[c]
            if b is not None:
                self.budget[b] = self.budget.get(b, 0) - 1
            self.events.append(("CHOICE", pos, kind, str(labels[c])))
        if self.fingerprints is not None:
            self.fingerprints.add(self.fingerprint(kind))
        return c

    def fingerprint(self, kind):
        loop = self.loop
        return hash((
            kind,
            round(self.now, 6),
            tuple((a.state, a.pc, len(a.pending)) for a in self.actors),
            tuple(_handle_name(h) for h in loop._ready) if loop else (),
            len(loop._scheduled) if loop else 0,
            len(self.cancels), len(self.faults), len(self.signal_log), self.data_key,
        ))

    def data_choice(self, name, options):
        "A free (unbudgeted) choice between input values."
        c = self.choose("data", list(options), [None] * len(options))
        if not self.frozen:
            self.events.append(("DATA", name, repr(options[c])))
            self.data_key += (c,)
        return options[c]

    def log(self, *what):
        self.events.append((round(self.now - 1000.0, 6),) + what)

    def problem(self, category, text):
        self.problems.append((category, text))
        self.log("PROBLEM", category, text)

    # -- actors
    def new_actor(self, name, prog, parent=None):
        a = Actor(self, name, prog, parent)
        self.actors.append(a)
        return a

    def find(self, pid):
        for a in self.actors:
            if a.pid == pid:
                return a
        return None

    def children(self):
        return [a for a in self.actors if a.is_child]

    def live_children(self):
        return [a for a in self.actors if a.is_child and a.state != "reaped"]

    def on_exit(self, actor):
        for h in self.exit_hooks:
            h(actor)

    # -- system calls
    def sys_kill(self, pid, sig, how="kill"):
        a = self.find(abs(pid))
        if a is None:
            self.problem("kill-foreign", f"{how}({pid}, {sig})")
            raise ProcessLookupError(errno.ESRCH, "No such process")
        if a.state == "reaped":
            if sig:
                self.problem("kill-reaped", f"{how}({a.name}, {sig}) after reap")
            raise ProcessLookupError(errno.ESRCH, "No such process")
        if not sig:
            return
        sig = signal.Signals(sig)
        self.log("kill", a.name, sig.name, a.state)
        entry = (round(self.now - 1000.0, 6), sig, a.state)
        if self.idle_at_kill is None:
            self.idle_at_kill = self.idle_order
        a.signals.append(entry)
        self.signal_log.append((a.name,) + entry)
        self.audit.append(("KILL", a.name, sig.name, a.state))
        if a.state == "run":
            if sig not in a.pending:
                a.pending.append(sig)

    def sys_waitpid(self, pid, options):
        if pid == -1:
            for a in self.actors:
                if a.is_child and a.state == "zombie":
                    pid = a.pid
                    break
            else:
                if any(a.is_child and a.alive() for a in self.actors):
                    return (0, 0)
                raise ChildProcessError(errno.ECHILD, "No child processes")
        a = self.find(pid)
        if a is None or not a.is_child or a.state == "reaped":
            raise ChildProcessError(errno.ECHILD, "No child processes")
        if a.state == "zombie":
            a.state = "reaped"
            self.log("reaped", a.name)
            return (pid, a.status)
        if options & os.WNOHANG:
            return (0, 0)
        self.problem("blocking-waitpid", f"waitpid({a.name}) blocks the event loop")
        raise ChildProcessError(errno.ECHILD, "would block")

    def sys_pidfd_open(self, pid, flags=0):
        a = self.find(pid)
        if a is None or a.state == "reaped":
            raise ProcessLookupError(errno.ESRCH, "No such process")
        fd = os.eventfd(0, os.EFD_CLOEXEC | os.EFD_NONBLOCK)
        if a.state == "zombie":
            os.eventfd_write(fd, 1)
        a.pidfds.append(fd)
        return fd

    def fault(self, what, exc):
        "Maybe fail a system call."
        self.calls[what] = self.calls.get(what, 0) + 1
        if self.frozen or self.budget.get("fault", 0) <= 0:
            return
        if self.choose("fault", ["ok", f"fail {what}"], [None, "fault"]):
            self.faults.append(what)
            self.log("FAULT", what)
            raise exc

    def do_exec(self, popen, args, executable, preexec_fn, close_fds, pass_fds, env,
                stdio, start_new_session):
        path = os.fsdecode(executable if executable is not None else args[0])
        argv = [os.fsdecode(a) if not isinstance(a, bytes) else a for a in args]
        self.fault("exec", OSError(errno.EAGAIN, "Resource temporarily unavailable"))
        # a name without a directory is searched for, as by the real subprocess module
        tries = [path] if os.path.dirname(path) else [os.path.join(os.fsdecode(d), path) for d in os.get_exec_path(env)]
        prog = None
        for full in tries:
            prog = self.programs.get(full) or self.programs.get(os.path.abspath(full))
            if prog is not None:
                path = full
                break
        if prog is None:
            err = errno.ENOENT if not os.path.exists(path) else errno.EACCES
            self.log("exec-failed", path, errno.errorcode[err])
            if err == errno.ENOENT:
                raise FileNotFoundError(err, os.strerror(err), path)
            raise PermissionError(err, os.strerror(err), path)
        if isinstance(prog, OSError):
            self.log("exec-failed", path, prog.errno)
            raise type(prog)(*prog.args)
        count = sum(1 for a in self.actors if a.argv and a.argv[0] == argv[0])
        name = os.path.basename(path) + ("" if not count else f"#{count + 1}")
        a = self.new_actor(name, prog)
        a.argv = argv
        a.path = path
        a.env = None if env is None else dict(env)
        a.start_new_session = bool(start_new_session)
        a.close_fds = close_fds
        a.pass_fds = tuple(pass_fds)
        try:
            for i, fd in enumerate(stdio):
                if fd == -1:
                    fd = i  # inherited
                a.fds[i] = _highdup(fd)
            for fd in pass_fds:
                a.fds[fd] = _highdup(fd)
        except OSError as ex:
            # a descriptor to be inherited is not open: the real child fails before exec
            for h in a.fds.values():
                _close(h)
            self.actors.remove(a)
            self.log("exec-failed", path, "bad descriptor", fd)
            self.problem("exec-badfd", f"descriptor {fd} given to {path} is not open")
            raise OSError(ex.errno, os.strerror(ex.errno), path)
        if not close_fds:
            for s in os.listdir("/proc/self/fd"):
                fd = int(s)
                if 3 <= fd < HIGH_FD and fd not in a.fds:
                    try:
                        if os.get_inheritable(fd):
                            a.fds[fd] = _highdup(fd)
                    except OSError:
                        pass
        if self.pipe_size:
            for h in a.fds.values():
                try:
                    fcntl.fcntl(h, fcntl.F_SETPIPE_SZ, self.pipe_size)
                except OSError:
                    pass
        a.preexec = _run_preexec(preexec_fn) if preexec_fn else None
        ttys = [n for n in (0, 1, 2) if os.isatty(a.fds[n])]
        if ttys and a.start_new_session and a.preexec:
            a.ctty = ttys[0]
        self.log("exec", a.name, a.pid, argv[1:])
        self.execs.append(a)
        self.audit.append(("EXEC", a.name))
        a.start()
        return a

    def preexec_of(self, actor):
        "What the child does before exec (None: nothing)."
        return getattr(actor, "preexec", None)

    # -- scheduling
    def settle_ptys(self):
        for m, s in self.ptys:
            # Polling flushes the line discipline's pending work (both directions).
            for a in self.actors:
                for h in a.fds.values():
                    if os.isatty(h):
                        _pollfd(h, select.POLLIN)
            try:
                if _isptmx(m):
                    _pollfd(m, select.POLLIN)
            except OSError:
                pass

    def next_deadline(self, loop):
        best = None
        for a in self.actors:
            d = a.deadline()
            if d is not None and (best is None or d < best):
                best = d
        sched = loop._scheduled
        while sched and sched[0]._cancelled:
            h = heapq.heappop(sched)
            h._scheduled = False
            loop._timer_cancelled_count -= 1
        if sched and (best is None or sched[0]._when < best):
            best = sched[0]._when
        return best

    def can_cancel(self):
        return (
            self.cancel_ok
            and not self.frozen
            and self.budget.get("cancel", 0) > 0
            and self.cancel_target is not None
            and not self.cancel_target.done()
        )

    def do_cancel(self):
        self.log("CANCEL")
        self.cancels.append(self.now)
        self.audit.append(("CANCEL",))
        self.cancel_target.cancel()

    def env_phase(self, loop):
        """Environment moves before the loop polls. Returns the poll result."""
        pol = self.policy
        rounds = pty_waits = 0
        while True:
            rounds += 1
            if self.observer is not None:
                self.observer(self)
            if rounds > 5000:
                raise Stop("livelock")
            if self.ptys:
                self.settle_ptys()
            evs = loop._selector.select(0)
            sched = loop._scheduled
            deadline = self.next_deadline(loop)
            due = bool(sched) and sched[0]._when < self.now + loop._clock_resolution
            can_loop = bool(loop._ready) or bool(evs) or due or loop._stopping
            acts = [] if self.frozen else [a for a in self.actors if a.enabled()]
            if pol.rev_actors:
                acts.reverse()
            opts = []
            if pol.eager:
                opts += [(a.label(), a) for a in acts]
                if can_loop:
                    opts.append(("loop", "loop"))
            else:
                if can_loop:
                    opts.append(("loop", "loop"))
                opts += [(a.label(), a) for a in acts]
            future = deadline is not None and deadline > self.now
            # a process that was sent SIGKILL, or has begun to exit, is gone before time passes
            urgent = any(a.state == "dying" or signal.SIGKILL in a.pending for a in acts)
            if future and not self.frozen and not urgent:
                if not opts or not loop._ready or self.stall:
                    opts.append(("clock", "clock"))
            if can_loop and self.spins > 60 and not self.frozen:
                # fairness: a loop that never comes to rest does not stop the world
                opts.sort(key=lambda o: 0 if o[1] not in ("loop", "clock") else 1 if o[1] == "clock" else 2)
            if not opts:
                if self.can_cancel() and self.choose(
                    "cancel", ["deadlock", "cancel"], [None, "cancel"]
                ):
                    self.do_cancel()
                    continue
                if self.frozen:
                    return evs
                if self.ptys and pty_waits < 3:
                    # the kernel moves terminal data in the background
                    pty_waits += 1
                    time.sleep(0.003)
                    continue
                raise Stop("deadlock")
            labels = [o[0] for o in opts]
            costs = [None] + ["dev"] * (len(opts) - 1)
            if self.budget.get("dev", 0) <= 0:
                labels, costs, opts = labels[:1], costs[:1], opts[:1]
            if self.can_cancel():
                labels = labels + ["cancel"]
                costs = costs + ["cancel"]
                opts = opts + [("cancel", "cancel")]
            c = self.choose("env", labels, costs)
            what = opts[c][1]
            if what == "loop":
                self.spins += 1
                return self.choose_events(evs)
            self.spins = 0
            if what == "cancel":
                self.do_cancel()
            elif what == "clock":
                if not can_loop:
                    self.idle_order = len(self.order)
                self.hurried += bool(acts or can_loop)
                self.now = deadline
                self.log("clock")
            else:
                lab = what.label()
                what.step()
                self.log("step", lab)

    def choose_events(self, evs):
        if len(evs) >= 2 and self.budget.get("dev", 0) > 0 and not self.frozen:
            labels = ["all"] + [f"only fd{i}" for i in range(len(evs))]
            c = self.choose("poll", labels, [None] + ["dev"] * len(evs))
            if c:
                return [evs[c - 1]]
        return evs

    def between_handles(self, loop):
        "Scheduling point between two callbacks of the same iteration."
        if self.observer is not None:
            self.observer(self)
        if self.can_cancel():
            if self.choose("mid", ["go", "cancel"], [None, "cancel"]):
                self.do_cancel()
        if self.mid_steps and self.budget.get("dev", 0) > 0 and not self.frozen:
            acts = [a for a in self.actors if a.enabled()]
            if acts:
                c = self.choose(
                    "midstep", ["go"] + [a.label() for a in acts],
                    [None] + ["dev"] * len(acts),
                )
                if c:
                    self.log("midstep", acts[c - 1].label())
                    acts[c - 1].step()


def _isptmx(fd):
    try:
        return os.readlink(f"/proc/self/fd/{fd}").endswith("/ptmx")
    except OSError:
        return False


def _handle_name(h):
    cb = h._callback
    s = getattr(cb, "__self__", None)
    if isinstance(s, asyncio.Task):
        return ("T", s.mc_seq if hasattr(s, "mc_seq") else 0)
    return getattr(cb, "__qualname__", type(cb).__name__)


def _run_preexec(fn):
    "Run the child's pre-exec hook with its system calls recorded, not done."
    rec = []
    saved = (os.open, os.close, fcntl.ioctl, os.setsid)
    os.open = lambda path, *a, **k: (rec.append(("open", path)), 123456)[1]
    os.close = lambda fd: rec.append(("close", fd))
    fcntl.ioctl = lambda *a: (rec.append(("ioctl",) + a), 0)[1]
    os.setsid = lambda: rec.append(("setsid",))
    try:
        fn()
    finally:
        os.open, os.close, fcntl.ioctl, os.setsid = saved
    return rec


class Policy:
    def __init__(self, name, eager=False, rev_actors=False, rev_hash=False):
        self.name = name
        self.eager = eager
        self.rev_actors = rev_actors
        self.rev_hash = rev_hash


POLICIES = {
    "lazy": Policy("lazy"),
    "eager": Policy("eager", eager=True),
    "lazy-rev": Policy("lazy-rev", rev_actors=True, rev_hash=True),
    "eager-rev": Policy("eager-rev", eager=True, rev_actors=True, rev_hash=True),
}


# ----------------------------------------------------------------------------
# event loop
# ----------------------------------------------------------------------------
class MCSelector(selectors.EpollSelector):
    def __init__(self):
        super().__init__()
        self.order = {}
        self.seq = 0

    def register(self, fileobj, events, data=None):
        key = super().register(fileobj, events, data)
        self.seq += 1
        self.order[key.fd] = self.seq
        return key

    def select(self, timeout=None):
        ready = super().select(0)
        if len(ready) > 1:
            ready.sort(key=lambda kv: self.order[kv[0].fd])
        return ready


class MCTask(asyncio.Task):
    def __hash__(self):
        return self.mc_hash


class MCLoop(asyncio.SelectorEventLoop):
    def __init__(self, world):
        self.world = world
        super().__init__(MCSelector())
        self.set_task_factory(self._mc_task)
        self.set_exception_handler(self._mc_exc)

    def time(self):
        return self.world.now

    @staticmethod
    def _mc_task(loop, coro, **kw):
        w = loop.world
        w.task_seq += 1
        # hash must exist before Task.__init__ (it registers itself in a WeakSet)
        task = MCTask.__new__(MCTask)
        task.mc_seq = w.task_seq
        task.mc_hash = (1 << 20) - w.task_seq if w.policy.rev_hash else w.task_seq
        task.__init__(coro, loop=loop, **kw)
        return task

    @staticmethod
    def _mc_exc(loop, context):
        w = loop.world
        w.loop_errors.append(
            (context.get("message", ""), repr(context.get("exception")))
        )
        w.log("loop-error", context.get("message", ""), repr(context.get("exception")))

    def _run_once(self):
        w = self.world
        w.iterations += 1
        if w.iterations > 4000:
            raise Stop("livelock")
        while self._scheduled and self._scheduled[0]._cancelled:
            h = heapq.heappop(self._scheduled)
            h._scheduled = False
            self._timer_cancelled_count -= 1
        events_ = w.env_phase(self)
        self._process_events(events_)
        events_ = None
        end_time = self.time() + self._clock_resolution
        while self._scheduled:
            h = self._scheduled[0]
            if h._cancelled:
                heapq.heappop(self._scheduled)
                h._scheduled = False
                self._timer_cancelled_count -= 1
                continue
            if h._when >= end_time:
                break
            h = heapq.heappop(self._scheduled)
            h._scheduled = False
            self._ready.append(h)
        ntodo = len(self._ready)
        for i in range(ntodo):
            if i:
                w.between_handles(self)
            if not self._ready:
                break
            h = self._ready.popleft()
            if h._cancelled:
                continue
            w.handles += 1
            h._run()
        h = None


# ----------------------------------------------------------------------------
# patches
# ----------------------------------------------------------------------------
def _p_kill(pid, sig):
    if CUR is None:
        return _kill(pid, sig)
    return CUR.sys_kill(pid, sig)


def _p_killpg(pid, sig):
    if CUR is None:
        return _killpg(pid, sig)
    return CUR.sys_kill(pid, sig, "killpg")


def _p_waitpid(pid, options):
    if CUR is None:
        return _waitpid(pid, options)
    return CUR.sys_waitpid(pid, options)


def _p_pidfd_open(pid, flags=0):
    if CUR is None or pid == os.getpid():
        return _pidfd_open(pid, flags)
    return CUR.sys_pidfd_open(pid, flags)


def _p_pidfd_send_signal(pidfd, sig, *a):
    if CUR is None:
        return _pidfd_send_signal(pidfd, sig, *a)
    for act in CUR.actors:
        if pidfd in act.pidfds:
            return CUR.sys_kill(act.pid, sig, "pidfd_send_signal")
    raise OSError(errno.EBADF, "Bad file descriptor")


def _p_pipe():
    if CUR is not None:
        CUR.fault("pipe", OSError(errno.EMFILE, "Too many open files"))
    return _pipe()


def _p_openpty():
    if CUR is None:
        return _openpty()
    CUR.fault("openpty", OSError(errno.EMFILE, "Too many open files"))
    m, s = _openpty()
    CUR.ptys.append((m, s))
    return m, s


def _p_open(file, *a, **kw):
    w = CUR
    if w is not None and isinstance(file, (str, os.PathLike)) and w.in_user == 0:
        fr = sys._getframe(1)
        if "/shellous/" in fr.f_code.co_filename:
            w.fault("open", OSError(errno.EMFILE, "Too many open files"))
    return _open(file, *a, **kw)


def _p_close(fd):
    w = CUR
    if w is None:
        return _close(fd)
    try:
        return _close(fd)
    except OSError as ex:
        if ex.errno == errno.EBADF:
            w.problem("double-close", f"os.close({fd}): EBADF")
        raise


class FakePopen(_Popen):
    mc_actor = None

    def _execute_child(self, args, executable, preexec_fn, close_fds, pass_fds, cwd, env,
                       startupinfo, creationflags, shell, p2cread, p2cwrite, c2pread,
                       c2pwrite, errread, errwrite, *rest):
        w = CUR
        if w is None:
            return super()._execute_child(
                args, executable, preexec_fn, close_fds, pass_fds, cwd, env, startupinfo,
                creationflags, shell, p2cread, p2cwrite, c2pread, c2pwrite, errread,
                errwrite, *rest)
        restore_signals, gid, gids, uid, umask, start_new_session, process_group = rest
        if isinstance(args, (str, bytes)):
            args = [args]
        args = list(args)
        try:
            self.mc_actor = w.do_exec(
                self, args, executable, preexec_fn, close_fds, pass_fds, env,
                (p2cread, c2pwrite, errwrite), start_new_session)
            # what else the process gets from (or unlike) its parent
            self.mc_actor.attrs = {
                "working directory": os.getcwd() if cwd is None else os.path.realpath(cwd),
                "a shell": bool(shell),
                "default action for SIGPIPE": bool(restore_signals),
                "another user": (uid is not None and uid != os.getuid()) or (gid is not None and gid != os.getgid()) or (
                    gids is not None and set(gids) != set(os.getgroups())),
                "umask": umask,
                "process group": process_group,
            }
        finally:
            self._close_pipe_fds(p2cread, p2cwrite, c2pread, c2pwrite, errread, errwrite)
        self.pid = self.mc_actor.pid
        self._child_created = True

    def _internal_poll(self, *a, **kw):
        if self.mc_actor is None:
            return super()._internal_poll(*a, **kw)
        w = self.mc_actor.w
        if self.returncode is None:
            try:
                pid, sts = w.sys_waitpid(self.pid, os.WNOHANG)
                if pid == self.pid:
                    self.returncode = os.waitstatus_to_exitcode(sts)
            except ChildProcessError:
                # same as CPython: the status is lost
                if a and a[0] is not None:
                    self.returncode = a[0]
                else:
                    self.returncode = 0
        return self.returncode

    def _try_wait(self, wait_flags):
        if self.mc_actor is None:
            return super()._try_wait(wait_flags)
        try:
            return self.mc_actor.w.sys_waitpid(self.pid, wait_flags)
        except ChildProcessError:
            return (self.pid, 0)

    def __del__(self, *a, **kw):
        if getattr(self, "mc_actor", None) is None:
            try:
                super().__del__()
            except AttributeError:
                pass


def install():
    os.kill = _p_kill
    os.killpg = _p_killpg
    os.waitpid = _p_waitpid
    os.pidfd_open = _p_pidfd_open
    signal.pidfd_send_signal = _p_pidfd_send_signal
    os.pipe = _p_pipe
    os.openpty = _p_openpty
    os.close = _p_close
    builtins.open = _p_open
    subprocess.Popen = FakePopen


install()


# ----------------------------------------------------------------------------
# running one execution
# ----------------------------------------------------------------------------
class _LogCapture(logging.Handler):
    def emit(self, record):
        if CUR is not None:
            CUR.logs.append((record.name, record.levelname, record.getMessage()))


_capture = _LogCapture()


def fd_table():
    out = {}
    for s in os.listdir("/proc/self/fd"):
        fd = int(s)
        if fd >= HIGH_FD:
            continue
        try:
            out[fd] = os.readlink(f"/proc/self/fd/{s}")
        except OSError:
            pass
    return out


SURROUNDINGS = False  # compare the caller's process before and after each run
_SIGNALS = sorted(signal.valid_signals())


def surroundings(fds, loop=None):
    "What the calling process looks like from outside of any command."
    d = {
        "environment": dict(os.environ),
        "working directory": os.getcwd(),
        "signal handlers": {n: repr(signal.getsignal(n)) for n in _SIGNALS},
        "signal mask": sorted(signal.pthread_sigmask(signal.SIG_BLOCK, [])),
        "wakeup descriptor": signal.set_wakeup_fd(-1),
        "process group": (os.getpgrp(), os.getsid(0)),
        "priority": os.getpriority(os.PRIO_PROCESS, 0),
        "limits": [resource.getrlimit(n) for n in (resource.RLIMIT_NOFILE, resource.RLIMIT_CORE, resource.RLIMIT_FSIZE)],
        "standard streams": [id(sys.stdin), id(sys.stdout), id(sys.stderr)],
        "recursion limit": sys.getrecursionlimit(),
        "threads": sorted(t.name for t in threading.enumerate()),
    }
    if d["wakeup descriptor"] != -1:
        signal.set_wakeup_fd(d["wakeup descriptor"])
    d["umask"] = os.umask(0)
    os.umask(d["umask"])
    if loop is not None:
        d["loop settings"] = (repr(loop.get_exception_handler()), repr(loop.get_task_factory()), loop.get_debug(), loop.slow_callback_duration,
                              repr(loop._default_executor))
    for fd in fds:
        d[f"descriptor {fd}"] = fd_state(fd)
    return d


def fd_state(fd):
    "Flags and terminal settings of an open descriptor."
    try:
        st = [fcntl.fcntl(fd, fcntl.F_GETFL), fcntl.fcntl(fd, fcntl.F_GETFD)]
    except OSError:
        return None
    if os.isatty(fd):
        t = termios.tcgetattr(fd)
        st += [repr(t), fcntl.ioctl(fd, termios.TIOCGWINSZ, bytes(8))]
    return st


class Run:
    "Result of one execution."
    __slots__ = (
        "trace", "events", "outcome", "value", "exc", "problems", "live_at_return",
        "tasks_at_return", "tasks_after", "timers_after", "fds_before", "fds_after", "around",
        "loop_errors", "warnings", "elapsed", "world", "fingerprints", "steps",
        "registered_after", "stop", "late", "mismatch", "sim",
    )

    def brief(self):
        return (self.outcome, self.exc_name())

    def exc_name(self):
        return type(self.exc).__name__ if self.exc is not None else None


def run_one(scenario, policy, prefix, budgets, fingerprints=None):
    """Execute one schedule of `scenario`."""
    global CUR
    w = World(scenario, policy, prefix, budgets)
    w.fingerprints = fingerprints
    r = Run()
    r.world = w
    r.mismatch = None
    logger_states = []
    for name in ("shellous", "asyncio"):
        lg = logging.getLogger(name)
        logger_states.append((lg, lg.level, lg.propagate, list(lg.handlers)))
        lg.handlers[:] = [_capture]
        lg.propagate = False
        lg.setLevel(getattr(scenario, "log_level", logging.WARNING))
    gc.disable()
    wcm = warnings.catch_warnings(record=True)
    wlist = wcm.__enter__()
    warnings.simplefilter("always")
    loop = MCLoop(w)
    w.loop = loop
    ctx_setup = getattr(scenario, "setup", None)
    if ctx_setup:
        ctx_setup(w)
    before = fd_table()
    r.fds_before = before
    r.around = None
    around = surroundings(before, loop) if SURROUNDINGS else None
    events._set_running_loop(loop)
    loop._thread_id = threading.get_ident()
    old_hooks = sys.get_asyncgen_hooks()
    sys.set_asyncgen_hooks(
        firstiter=loop._asyncgen_firstiter_hook,
        finalizer=loop._asyncgen_finalizer_hook,
    )
    old_unraisable = sys.unraisablehook

    def _unraisable(u):
        w.loop_errors.append(("unraisable", repr(u.exc_value)))

    sys.unraisablehook = _unraisable
    CUR = w
    main = None
    r.stop = None
    r.exc = None
    r.value = None
    try:
        coro = scenario.main(w)
        main = loop.create_task(coro)
        w.main = main
        if w.cancel_target is None:
            w.cancel_target = main
        try:
            while not main.done():
                loop._run_once()
        except Stop as ex:
            r.stop = ex.why
        except ReplayMismatch as ex:
            r.stop = "mismatch"
            r.mismatch = str(ex)
        r.elapsed = w.now - 1000.0
        r.live_at_return = [
            (a.name, a.state) for a in w.actors if a.is_child and a.state != "reaped"
        ]
        r.tasks_at_return = [
            _task_name(t) for t in asyncio.all_tasks(loop) if t is not main
        ]
        if r.stop is None:
            w.log("main-done")
            # settle: run what is already runnable, without moving any process or time
            w.frozen = True
            try:
                for _ in range(60):
                    if not loop._ready and not loop._selector.select(0):
                        break
                    loop._run_once()
            except Stop:
                pass
            r.outcome = "done"
            if main.cancelled():
                r.exc = asyncio.CancelledError()
            else:
                r.exc = main.exception()
                if r.exc is None:
                    r.value = main.result()
        else:
            r.outcome = r.stop
        r.tasks_after = [
            _task_name(t) for t in asyncio.all_tasks(loop) if t is not main
        ]
        r.timers_after = [
            (getattr(h._callback, "__qualname__", repr(h._callback)), h._when - 1000.0)
            for h in loop._scheduled if not h._cancelled
        ]
        r.registered_after = [
            k.fd for k in loop._selector.get_map().values()
            if k.fd != loop._ssock.fileno()
        ]
        r.fds_after = fd_table()
        if around is not None:
            r.around = (around, surroundings([fd for fd in before if r.fds_after.get(fd) == before[fd]], loop))
        if r.exc is not None:
            # drop references from the traceback so that garbage is collected now
            r.exc.__traceback__ = None
            _strip(r.exc)
        post = getattr(scenario, "post", None)
        if post and r.outcome == "done":
            post(w, r)
        # ---- clean up
        w.frozen = True
        w.budget = {}
        n_err = len(w.loop_errors)
        leftovers = [t for t in asyncio.all_tasks(loop) if not t.done()]
        for a in w.actors:
            if a.state != "reaped":
                w.user.setdefault("forced", []).append(a.name)
        if leftovers:
            w.split_exit = False
            for a in w.actors:
                if a.state == "run":
                    a._exit_status(signal.SIGKILL)
                while a.state == "dying":
                    a._die_step()
            for _ in range(12):
                for t in leftovers:
                    if not t.done():
                        t.cancel()
                try:
                    for _ in range(20):
                        if not loop._ready and not loop._selector.select(0):
                            break
                        loop._run_once()
                except BaseException:
                    pass
                if all(t.done() for t in leftovers):
                    break
                d = w.next_deadline(loop)
                if d is not None and d > w.now:
                    w.now = d
        for t in asyncio.all_tasks(loop):
            t._log_destroy_pending = False
        del w.loop_errors[n_err:]
        leftovers = None
        ags = list(loop._asyncgens)
        if ags:
            w.user.setdefault("open_asyncgens", len(ags))
        ags = None
    finally:
        t = main = None
        w.main = None
        w.cancel_target = None
        h = None
        gc.collect()
        CUR = w
        r.loop_errors = list(w.loop_errors)
        sys.set_asyncgen_hooks(*old_hooks)
        events._set_running_loop(None)
        loop._thread_id = None
        for a in w.actors:
            a.destroy()
        td = getattr(scenario, "teardown", None)
        if td:
            td(w)
        loop.close()
        gc.collect()
        CUR = None
        sys.unraisablehook = old_unraisable
        r.warnings = [
            f"{x.category.__name__}: {x.message}" for x in wlist
        ]
        wcm.__exit__(None, None, None)
        after = fd_table()
        for fd in after:
            if fd not in before or (after[fd] != before[fd]):
                if fd not in before:
                    try:
                        _close(fd)
                    except OSError:
                        pass
        for lg, lvl, prop, hs in logger_states:
            lg.setLevel(lvl)
            lg.propagate = prop
            lg.handlers[:] = hs
        gc.enable()
    r.trace = w.trace
    r.events = w.events
    r.problems = w.problems
    r.steps = w.iterations
    r.late = None
    return r


def _strip(ex, depth=0):
    seen = 0
    while ex is not None and seen < 10:
        ex.__traceback__ = None
        ex = ex.__context__ or ex.__cause__
        seen += 1


def _task_name(t):
    coro = t.get_coro()
    return getattr(coro, "__qualname__", repr(coro))
