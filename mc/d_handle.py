"""C29: what the handle of a run says agrees with what its process does, at every moment.

`watch` makes the world compare the handle with the process at every scheduling point.  `handles_true` is the
oracle over the general scenarios, where the audit callback hands out every Runner there is.
"""

import asyncio
import os
import signal

from shellous import ResultError
from shellous.redirect import Redirect
from shellous.runner import Runner, PipeRunner

from . import world as W
from .catalog import A, B, C_, IGNORE_TERM, UserError, cat
from .data import cmp, dscn, pick
from .d_callback import CallbackError
from .d_timeout import outcome_of
from .oracles import done

CAP = Redirect.CAPTURE
EPS = 1e-6


def real(a):
    return -(a.status & 0x7F) if a.status & 0x7F else a.status >> 8


class Watched:
    "What one handle has said so far."

    def __init__(self, run):
        self.run = run
        self.pid = None
        self.code = None
        self.cancelled = False
        self.stop_seen = False

    def look(self, w):
        run = self.run
        bad = []
        pid, code, cancelled = run.pid, run.returncode, run.cancelled
        if self.pid is not None and pid != self.pid:
            bad.append(f"pid changed from {self.pid} to {pid}")
        self.pid = pid
        a = w.find(pid) if pid is not None else None
        if pid is not None and a is None:
            bad.append(f"pid is {pid}, there is no such process")
        if self.code is not None and code != self.code:
            bad.append(f"returncode changed from {self.code} to {code}")
        if code is not None:
            if a is None:
                if not cancelled:
                    bad.append(f"returncode is {code} although nothing was started")
            elif a.state != "reaped":
                bad.append(f"returncode is {code} while the process is {a.state}")
            elif code != real(a):
                bad.append(f"returncode is {code}, the process ended with {real(a)}")
        self.code = code
        if self.cancelled and not cancelled:
            bad.append("cancelled went back to False")
        self.cancelled = cancelled
        try:
            res = run.result(check=False)
        except TypeError:
            res = None
        if (res is None) != (code is None):
            bad.append(f"returncode is {code} and result() gives {res}")
        elif res is not None and (res.exit_code, res.cancelled) != (code, cancelled):
            bad.append(f"result() has {res.exit_code}, {res.cancelled}; the handle has {code}, {cancelled}")
        return bad


def watch(w, run):
    "Look at `run` at every scheduling point from now on."
    w.user.setdefault("watched", {})[id(run)] = Watched(run)
    w.observer = look


def look(w):
    for x in w.user["watched"].values():
        try:
            bad = x.look(w)
        except Exception as ex:
            bad = [f"{type(ex).__name__}: {ex}"]
        for b in bad:
            w.problem("handle", f"{x.run.name}: {b}")


def handles_true(s, r):
    out = []
    for c, t in r.problems:
        if c == "handle" and t not in out:
            out.append(t)
    return out[:4]


def handle_end(s, r):
    "At the end every handle knows how its process ended."
    if not done(r):
        return []
    msgs = []
    for run in r.world.user.get("runners", {}).values():
        a = r.world.find(run.pid) if run.pid is not None else None
        if a is not None and a.state == "reaped" and run.returncode is None:
            msgs.append(f"{run.name}: the call has returned and returncode is still None")
    return msgs


def inside(w, run, cmd, label=""):
    "Within the block."
    watch(w, run)
    cmp(w, f"{label}command", run.command, cmd)
    cmp(w, f"{label}options", run.options, cmd.options)
    cmp(w, f"{label}name", run.name, cmd.name)
    a = w.find(run.pid)
    cmp(w, f"{label}pid", a is not None and a.is_child, True)
    return a


# ---------------------------------------------------------------------------
STDIN = {"default": None, "capture": CAP, "null": Redirect.DEVNULL, "bytes": b"in", "empty": ""}
STDOUT = {"default": None, "capture": CAP, "null": Redirect.DEVNULL, "array": "array", "buffer": Redirect.BUFFER}
STDERR = {"default": None, "capture": CAP, "null": Redirect.DEVNULL, "stdout": Redirect.STDOUT, "buffer": Redirect.BUFFER}


@dscn("handle-streams", "C29", max_time=10.0)
async def _(w, sh):
    "Which streams the handle has, what it says inside the block, after it, and what result() gives."
    i = w.data_choice("stdin", list(STDIN))
    o = pick(w, "stdout", list(STDOUT), ["default", "capture"])
    e = pick(w, "stderr", list(STDERR), ["default", "capture"])
    pty = pick(w, "pty", [False, True], [False])
    end = w.data_choice("end", ["exit", "code", "signal", "raise", "timeout", "cancel"])
    members = w.data_choice("members", [1, 2])
    few = w.budget_given.get("dev")
    if pty and (members == 2 or e not in ("default", "stdout") or o == "null") or members == 2 and few and end == "cancel":
        cmp(w, "not applicable", 0, 0)
        return

    def prog(p):
        yield ("write", 1, b"o")
        yield ("write", 2, b"e")
        if end in ("exit", "code", "signal"):
            yield ("sleep", 0.25)
            if end == "signal":
                yield ("call", lambda: p.pending.append(signal.SIGUSR1))
            return 7 if end == "code" else 0
        yield ("hang",)
    w.programs[A] = prog
    w.programs[B] = cat(8)
    array = bytearray(b"old")
    cmd = sh(A)
    first = cmd if members == 1 else sh(B)
    if i != "default":
        first = first.stdin(STDIN[i])
    if o != "default":
        cmd = cmd.stdout(array if o == "array" else STDOUT[o])
    if e != "default":
        cmd = cmd.stderr(STDERR[e])
    if pty:
        cmd = first = cmd.stdin(STDIN[i]).set(pty=True) if i != "default" else cmd.set(pty=True)
    elif members == 1:
        cmd = first = cmd.stdin(STDIN[i]) if i != "default" else cmd
    if end == "timeout":
        cmd = cmd.set(timeout=0.5)
    whole = cmd if members == 1 else first | cmd
    box = {}

    async def body():
        async with whole as run:
            box["run"] = run
            if members == 1:
                box["a"] = inside(w, run, cmd)
                for check in (True, False):
                    try:
                        res = run.result(check=check)
                    except TypeError:
                        res = "TypeError"
                    cmp(w, f"result(check={check}) inside", res, "TypeError")
                cmp(w, "returncode inside", run.returncode, None)
                cmp(w, "cancelled inside", run.cancelled, False)
            else:
                cmp(w, "name", run.name, whole.name)
                cmp(w, "options", run.options, cmd.options)
                f = w.find(run.pid)
                cmp(w, "pid", f and f.argv[0], B)
            if pty:
                cmp(w, "pty_fd", os.isatty(run.pty_fd), True)
                cmp(w, "pty_eof", run.pty_eof, b"\x04")
            elif members == 1:
                cmp(w, "pty_fd", (run.pty_fd, run.pty_eof), (None, None))
            want_in = i == "capture" or pty and i == "default"
            if not (pty and i == "null"):
                cmp(w, "has stdin", isinstance(run.stdin, asyncio.StreamWriter), want_in)
            cmp(w, "has stdout", isinstance(run.stdout, asyncio.StreamReader), o == "capture")
            only_err = o == "null" and e == "stdout"
            cmp(w, "has stderr", isinstance(run.stderr, asyncio.StreamReader), e == "capture" and not only_err)
            for s, have in ((run.stdin, want_in), (run.stdout, o == "capture"), (run.stderr, e == "capture")):
                if not have and not (pty and s is run.stdin):
                    cmp(w, "no stream", s, None)
            if end == "raise":
                raise UserError()
            if run.stdin is not None and not pty:
                run.stdin.close()
            box["got"] = [await s.read() if s is not None else None for s in (run.stdout, run.stderr)]

    t = asyncio.ensure_future(outcome_of(body()))
    if end == "cancel":
        await asyncio.wait([t], timeout=0.5)
        t.cancel()
    got = await t
    run = box.get("run")
    if run is None:
        return cmp(w, "stopped before the block", got, lambda g: g in ("CancelledError", "TimeoutError"))
    want = {"raise": "UserError", "timeout": "TimeoutError"}.get(end)  # the block suppresses CancelledError
    if members == 2 and end == "timeout":
        want = got  # reported by result()
    slow = bool(w.hurried)
    if not slow:
        if i == "null" or members == 1 or end != "raise":
            cmp(w, "outcome", got, want)
    real_code = None
    if members == 1:
        a = box["a"]
        cmp(w, "state", a.state, "reaped")
        real_code = real(a)
        cmp(w, "returncode", run.returncode, real_code)
        if not slow:
            cmp(w, "real status", real_code, {"exit": 0, "code": 7, "signal": -10}.get(end, -15))
            cmp(w, "cancelled", run.cancelled, end in ("timeout", "cancel"))
        r1, r2 = run.result(check=False), run.result(check=False)
        cmp(w, "result is the same every time", r1, r2)
        cmp(w, "exit code of result", r1.exit_code, real_code)
        cmp(w, "result cancelled", r1.cancelled, run.cancelled)
        checked = [outcome_now(run) for _ in range(2)]
        cmp(w, "result() is the same every time", checked[0], checked[1])
        if not slow and end in ("exit", "code", "signal"):
            cmp(w, "result()", checked[0], "ok" if real_code == 0 else ("ResultError", real_code, False))
        elif not slow and end in ("timeout", "cancel"):
            cmp(w, "result()", checked[0], "CancelledError")
        before = len(a.signals)
        run.send_signal(signal.SIGTERM)
        run.cancel()
        cmp(w, "signals after the end", len(a.signals), before)
        if not slow and end in ("exit", "code", "signal") and not (pty and i == "bytes"):
            buf = o in ("default", "buffer")
            both = pty or e == "stdout"
            out = b"oe" if both else b"o"
            cmp(w, "output", r1.output_bytes, b"e" if o == "null" and e == "stdout" else out if buf else b"")
            cmp(w, "error", r1.error_bytes, b"e" if e in ("default", "buffer") and not pty else b"")
            if o == "array":
                cmp(w, "array", bytes(array), out)
            elif o == "capture":
                cmp(w, "read", box["got"][0], out)
            if e == "capture":
                cmp(w, "read from stderr", box["got"][1], b"e")
    elif not slow and end in ("exit", "code", "signal"):
        r1 = run.result(check=False)
        cmp(w, "result is the same every time", r1, run.result(check=False))
        cmp(w, "result", (r1.exit_code, r1.cancelled), ({"exit": 0, "code": 7, "signal": -10}[end], False))


def outcome_now(run):
    try:
        run.result()
        return "ok"
    except ResultError as ex:
        return ("ResultError", ex.result.exit_code, ex.result.cancelled)
    except asyncio.CancelledError:
        return "CancelledError"
    except asyncio.TimeoutError:
        return "TimeoutError"


# ---------------------------------------------------------------------------
async def value(t):
    if t:
        await asyncio.sleep(t)
    return "value"


async def fails(t):
    if t:
        await asyncio.sleep(t)
    raise CallbackError("task")


async def stubborn():
    try:
        await asyncio.sleep(100)
    except asyncio.CancelledError:
        await asyncio.sleep(0.25)
        raise


async def deaf():
    try:
        await asyncio.sleep(100)
    except asyncio.CancelledError:
        await asyncio.sleep(0.25)
    return "deaf"


async def other_command(sh, code):
    return await sh("/mc/d").set(exit_codes={0, code}).result


TASK = {
    "value": lambda sh: value(0), "late value": lambda sh: value(0.75), "fails": lambda sh: fails(0),
    "fails late": lambda sh: fails(0.75), "forever": lambda sh: asyncio.sleep(100), "stubborn": lambda sh: stubborn(),
    "deaf": lambda sh: deaf(), "command": lambda sh: other_command(sh, 5),
}


@dscn("handle-task", "C29", max_time=20.0)
async def _(w, sh):
    "Background tasks of the user's: they are finished when the block is left, and their failure is reported."
    kinds = w.data_choice("tasks", [(k,) for k in TASK] + [("late value", "fails"), ("forever", "fails late"), ("value", "command"),
                                                           ("fails", "fails late"), ("stubborn", "deaf")])
    members = w.data_choice("members", [1, 2])
    end = w.data_choice("end", ["leave", "raise", "cancel", "timeout"])
    proc = w.data_choice("process", ["exit", "code", "hang", "deaf"])
    pty = pick(w, "pty", [False, True], [False])
    endless = any(k in ("forever", "stubborn", "deaf") for k in kinds)
    bad = any(k.startswith("fails") for k in kinds)
    if end == "timeout" and endless and proc in ("exit", "code") and not bad:
        return cmp(w, "not applicable", 0, 0)  # the process is gone in time, the task is waited for
    if end == "leave" and (endless and not bad or proc in ("hang", "deaf") and not bad) or pty and members == 2:
        return cmp(w, "not applicable", 0, 0)

    def prog(p):
        if proc == "deaf":
            p.traps.update(IGNORE_TERM)
        yield ("write", 1, b"o")
        if proc in ("exit", "code"):
            return 3 if proc == "code" else 0
        yield ("hang",)

    def other(p):
        yield ("sleep", 0.125)
        return 5
    w.programs[A] = prog
    w.programs[B] = cat(8)
    w.programs["/mc/d"] = other
    cmd = sh(A).set(cancel_timeout=1.0, pty=pty)
    if end == "timeout":
        cmd = cmd.set(timeout=0.5)
    whole = cmd if members == 1 else sh(B).set(cancel_timeout=1.0) | cmd
    box = {"tasks": []}

    async def body():
        async with whole as run:
            box["run"] = run
            if members == 1:
                inside(w, run, cmd)
            for k in kinds:
                box["tasks"].append(run.add_task(TASK[k](sh), k))
            if end == "raise":
                await asyncio.sleep(0.25)
                raise UserError()
        return "left"

    t = asyncio.ensure_future(outcome_of(body()))
    if end == "cancel":
        await asyncio.wait([t], timeout=0.5)
        t.cancel()
    got = await t
    run = box.get("run")
    if run is None:
        return cmp(w, "stopped before the block", got, lambda g: g in ("CancelledError", "TimeoutError"))
    states = []
    for k, x in zip(kinds, box["tasks"]):
        cmp(w, f"task {k} is done", x.done(), True)
        if not x.done():
            return None
        states.append("cancelled" if x.cancelled() else "failed" if x.exception() else "ok")
        if states[-1] == "ok" and k in ("value", "late value"):
            cmp(w, f"what {k} returned", x.result(), "value")
    box["tasks"].clear()
    cmp(w, "processes left", [a.name for a in w.live_children()], [])
    if w.hurried:
        return None
    names = ["left"] if end == "leave" else ["UserError"] if end == "raise" else ["CancelledError"] if end == "cancel" else ["TimeoutError"]
    early = proc in ("exit", "code")
    if end == "timeout" and early or end == "cancel" and early and not endless:
        names.append("left")  # it was over before
    if end == "cancel" and run is not None and (members == 2 or run.cancelled):
        names.append("left")  # reported by result()
    if members == 2 and end in ("cancel", "timeout"):
        names.append("left")
        names += ["CancelledError", "TimeoutError"] if end == "timeout" else []
    if "failed" in states:
        # the failure of a task stops the block; it may take the place of the user's own error
        names = [n for n in names if n != "left" or members == 2] + ["CallbackError"]
        if end == "leave" and members == 1:
            names = ["CallbackError"]
    cmp(w, "outcome", got in names or (got, names), True)
    if end == "leave" and not bad and (members == 1 or proc == "exit"):
        for k, s in zip(kinds, states):
            cmp(w, f"task {k}", s, "ok")
    if members == 2:
        want = [0, 3][proc == "code"]
        res = result_of(run)
        if end == "leave" and not bad:
            cmp(w, "result", res, (want, b"o" if not pty else b"o", False))
        elif "failed" in states:
            cmp(w, "result", res if res in ("CallbackError", "TimeoutError") or end != "leave" else (res, states), res)
    elif got == "left" and not run.cancelled:
        cmp(w, "result", result_of(run), (3 if proc == "code" else 0, b"o", False))
    return None


def result_of(run):
    try:
        r = run.result(check=False)
        return (r.exit_code, r.output_bytes, r.cancelled)
    except Exception as ex:
        return type(ex).__name__


# ---------------------------------------------------------------------------
@dscn("handle-prompt", "C29", max_time=10.0)
async def _(w, sh):
    "Prompt.result, at_eof, pending and echo inside and after the block."
    pty = w.data_choice("pty", [False, True])
    end = w.data_choice("end", ["exit", "code", "close", "raise", "timeout"])
    members = pick(w, "members", [1, 2], [1])
    if pty and members == 2:
        return cmp(w, "not applicable", 0, 0)

    def prog(p):
        yield ("write", 1, b"> ")
        if end in ("exit", "code"):
            yield ("sleep", 0.25)
            return 3 if end == "code" else 0
        while True:
            d = yield ("read", 0, 64)
            if not d:
                return 4
    w.programs[A] = prog
    w.programs[B] = cat(8)
    cmd = sh(A).set(pty=pty)
    if end == "timeout":
        cmd = cmd.set(timeout=0.5)
    whole = cmd if members == 1 else sh(B) | cmd
    box = {}

    def result(cli):
        try:
            return cli.result
        except RuntimeError:
            return "RuntimeError"

    async def body():
        async with whole.prompt(">") as cli:
            box["cli"] = cli
            run = getattr(cli, "_runner", None)
            if members == 1 and run is not None:
                watch(w, run)
            cmp(w, "result inside", result(cli), "RuntimeError")
            await cli.expect(">")
            cmp(w, "echo", cli.echo, pty)
            if end == "raise":
                raise UserError()
            if end == "close":
                cli.close()
            text = await cli.read_all()
            cmp(w, "at_eof", cli.at_eof, True)
            cmp(w, "result after the end of the output", result(cli), "RuntimeError")
            box["text"] = text
        return "left"

    got = await outcome_of(body())
    cli = box.get("cli")
    if cli is None:
        return cmp(w, "stopped before the block", got, "TimeoutError")
    a = next(x for x in w.actors if x.argv and x.argv[0] == A)
    cmp(w, "state", a.state, "reaped")
    if not w.hurried:
        cmp(w, "outcome", got in {"raise": ("UserError",), "timeout": ("TimeoutError", "CancelledError")}.get(end, ("left",)) or got, True)
    res = result(cli)
    if got == "left":
        cmp(w, "result", getattr(res, "exit_code", res), real(a))
        cmp(w, "result again", result(cli), res)
    return None
