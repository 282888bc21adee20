"""C14: one member of a pipeline cannot be launched or fails: the others are stopped, the error is reported."""

import asyncio
import io
import os
import signal
from pathlib import Path

import shellous
from shellous import ResultError
from shellous.redirect import Redirect

from . import world as W
from .catalog import A, B, C_, D, MISSING, IGNORE_TERM, cat, hang, nop, out, slow_term
from .data import cmp, dscn, pick, tmpdir
from .d_timeout import outcome_of

EPS = 1e-6
NOWHICH = "shellous-no-such-program"
DENIED = "/bin/denied"
GRACE = 0.5

BAD = {
    "missing": "FileNotFoundError", "which": "FileNotFoundError", "denied": "PermissionError", "nodir": "FileNotFoundError",
    "badtype": "TypeError", "decode": "UnicodeDecodeError", "sub-missing": "FileNotFoundError", "timeout": "TimeoutError",
    "sink": "OSError",
}
FORMS = ["await", "result", "ctx", "ctx-read", "ctx-write", "iter", "prompt", "sub", "nested-timeout"]
OTHERS = ["hang", "deaf", "slow", "cat", "quick", "flood"]


def flood(p):
    for _ in range(100):
        yield ("write", 1, b"f" * 4096)
    yield ("hang",)


def other(kind):
    if kind == "hang":
        return hang()
    if kind == "deaf":
        return hang((), IGNORE_TERM)
    if kind == "slow":
        return hang((), slow_term(0.25))
    if kind == "cat":
        return cat(64)
    if kind == "quick":
        return nop()
    return flood


def junk(p):
    "Not text on standard error, then runs on."
    yield ("write", 2, b"\xff\xfe")
    yield ("close", 2)
    yield ("hang",)


class BadWriter(io.RawIOBase):
    pass


def bad_member(w, sh, bad):
    if bad == "missing":
        return sh(MISSING)
    if bad == "which":
        return sh(NOWHICH)
    if bad == "denied":
        w.programs[DENIED] = PermissionError(13, "Permission denied", DENIED)
        return sh(DENIED)
    w.programs[A] = hang()
    if bad == "nodir":
        return sh(A).stderr(Path(tmpdir(w)) / "none" / "x")
    if bad == "badtype":
        return sh(A).stderr(3.5)
    if bad == "decode":
        w.programs[A] = junk
        return sh(A).stderr(io.StringIO())
    if bad == "sub-missing":
        return sh(A, sh(MISSING))
    if bad == "timeout":
        return sh(A).set(timeout=0.0)
    raise AssertionError(bad)


async def go(w, sh, pipe, form):
    if form == "await":
        return await pipe
    if form == "result":
        return await pipe.result
    if form == "ctx":
        async with pipe as run:
            pass
        return run.result()
    if form == "ctx-read":
        async with pipe.stdout(Redirect.CAPTURE) as run:
            data = await run.stdout.read()
        r = run.result()
        return (data, r)
    if form == "ctx-write":
        async with pipe.stdin(Redirect.CAPTURE).stdout(Redirect.CAPTURE) as run:
            try:
                while True:
                    run.stdin.write(b"x" * 1000)
                    await run.stdin.drain()
            except (BrokenPipeError, ConnectionResetError):
                pass
        return run.result()
    if form == "iter":
        return [x async for x in pipe]
    if form == "prompt":
        async with pipe.prompt("?") as cli:
            await cli.read_all()
        return cli.result
    if form == "sub":
        def parent(p):
            fd = yield ("open", p.argv[1], "r")
            orig = int(p.argv[1].rsplit("/", 1)[1])
            if orig in p.fds:
                yield ("close", orig)
            while True:
                d = yield ("read", fd, 4096)
                if not d:
                    return 0
        w.programs[D] = parent
        return await sh(D, pipe).set(cancel_timeout=GRACE)
    if form == "nested-timeout":
        async with asyncio.timeout(30):
            return await pipe
    raise AssertionError(form)


def check_cancelled(w, r):
    left = [a.name for a in w.live_children()]
    return [f"processes left: {left}"] if left else []


@dscn("launch-matrix", "C14", max_time=5.0, max_time_cancel=5.0, own_errors=tuple(set(BAD.values())), check_cancelled=check_cancelled)
async def _(w, sh):
    "What fails x where x what the others do x how the pipeline is used."
    bad = pick(w, "failure", [b for b in BAD if b != "sink"], ["missing", "nodir", "decode"])
    n = w.data_choice("members", [2, 3])
    pos = w.data_choice("position", list(range(n)))
    kind = pick(w, "others", OTHERS, ["hang", "deaf", "cat"])
    form = pick(w, "use", FORMS, ["await", "ctx", "ctx-read", "iter", "prompt"])
    # Writing to a command that exits, a command that is killed by SIGPIPE and a line without end are failures too.
    if (form == "ctx-write" and kind not in ("hang", "slow")) or (kind == "flood" and (bad == "timeout" or form == "iter")):
        cmp(w, "not applicable", 0, 0)
        return
    w.programs[B] = other(kind)
    cmds = [bad_member(w, sh, bad) if i == pos else sh(B) for i in range(n)]
    cmds = [c.set(cancel_timeout=GRACE) for c in cmds]
    pipe = cmds[0]
    for c in cmds[1:]:
        pipe = pipe | c
    t0 = w.now
    if w.budget_given.get("cancel"):
        try:
            return await go(w, sh, pipe, form)
        except Exception as ex:
            if w.cancels:
                raise
            cmp(w, "outcome", type(ex).__name__, BAD[bad])
            return None
    got = await outcome_of(go(w, sh, pipe, form))
    spent = w.now - t0
    w.user["outcome"] = got
    late = bool(w.hurried)
    cmp(w, "outcome", got, BAD[bad])
    if not late:
        limit = {"deaf": GRACE, "flood": GRACE, "slow": 0.25}.get(kind, 0.0)
        cmp(w, "time", spent <= limit + EPS or spent, True)
    cmp(w, "processes left", [a.name for a in w.live_children()], [])
    for a in w.actors:
        if a.is_child and a.argv and a.argv[0] == B and kind in ("hang", "deaf", "slow"):
            sent = [(round(t - (t0 - 1000.0), 6), s) for t, s, st in a.signals]
            names = [s for t, s in sent]
            if late:
                cmp(w, "signals", names in ([15], [15, 9]) or names, True)
            else:
                want = [(0.0, 15)] + ([(GRACE, 9)] if kind == "deaf" else [])
                cmp(w, "signals", sent, want)
