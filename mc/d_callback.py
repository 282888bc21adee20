"""C01, C02, C03, C04, C11: code of the user's that raises inside a run: audit callbacks, sinks, sources.

The processes are stopped as usual, everything is released, the failure is reported.
"""

import asyncio
import io
import logging
import os
import signal

from shellous.redirect import Redirect

from . import world as W
from .catalog import A, B, C_, IGNORE_TERM, UserError, cat, slow_term
from .data import cmp, dscn, pick
from .d_timeout import outcome_of

GRACE = 3.0
EPS = 1e-6
TAGS = {"C01", "C02", "C03", "C04", "C11"}


class CallbackError(Exception):
    pass


def prog_for(end, react):
    def prog(p):
        traps = {"dies": None, "deaf": IGNORE_TERM, "slow": slow_term(0.25)}[react]
        if traps:
            p.traps.update(traps)
        yield ("write", 1, b"a\n")
        yield ("write", 2, b"e\n")
        if end == "exit":
            return 0
        if end == "fail":
            return 3
        yield ("hang",)
    return prog


def feeder(p):
    "Passes its input on, like cat, then waits to be told to stop."
    yield ("write", 1, b"f\n")
    yield ("hang",)


FORMS = ["await", "ctx", "iter", "prompt", "pipe0", "pipe1", "pipe-ctx0", "pipe-ctx1", "pipe-iter1", "pipe-prompt0",
         "sub-parent", "sub-child", "sink", "pty"]


async def run_form(cmd, other, form, end):
    "Run `cmd` (whose callback raises); `other` is its neighbour where there is one."
    async def block(c):
        async with c as run:
            if end == "raise":
                await asyncio.sleep(0.5)
                raise UserError()
            if run.stdin is not None:
                run.stdin.close()
            if run.stdout is not None:
                await run.stdout.read()
        run.result(check=False)

    async def lines(c):
        it = aiter(c)
        try:
            async for _ in it:
                if end == "raise":
                    raise UserError()
        finally:
            await it.aclose()

    async def talk(c):
        async with c.prompt() as cli:
            if end == "raise":
                await asyncio.sleep(0.5)
                raise UserError()
            await cli.read_all()

    cap = Redirect.CAPTURE
    if form == "await":
        return await cmd
    if form == "pty":
        return await cmd.set(pty=True)
    if form == "sink":
        return await cmd.stdout(bytearray()).stderr(io.StringIO())
    if form == "ctx":
        return await block(cmd.stdout(cap))
    if form == "iter":
        return await lines(cmd)
    if form == "prompt":
        return await talk(cmd)
    if form == "sub-parent":
        return await cmd(other.stdin(cap))
    if form == "sub-child":
        return await other(cmd)
    pipe = cmd | other if form.endswith("0") else other | cmd
    if "ctx" in form:
        return await block(pipe.stdout(cap))
    if "iter" in form:
        return await lines(pipe)
    if "prompt" in form:
        return await talk(pipe)
    return await pipe


@dscn("user-audit", "C01", max_time=10.0, max_time_cancel=10.0, tags=TAGS)
async def _(w, sh):
    "An audit callback raises: which report x usage x how the run ends x how the process reacts."
    phase = w.data_choice("phase", ["start", "signal", "signal2", "stop"])
    form = pick(w, "use", FORMS, ["await", "ctx", "pipe0", "pipe-ctx1", "sub-child"])
    end = w.data_choice("end", ["exit", "fail", "cancel", "timeout", "raise", "missing"])
    react = pick(w, "reaction", ["dies", "deaf", "slow"], ["dies", "deaf"])
    if end == "raise" and not any(x in form for x in ("ctx", "iter", "prompt")) or (
            end == "cancel" and w.budget_given.get("cancel")) or (
            end in ("exit", "fail", "missing") and (phase.startswith("signal") or react != "dies")):
        cmp(w, "not applicable", 0, 0)
        return
    raised = []
    counts = {}

    def callback(ph, info):
        counts[ph] = counts.get(ph, 0) + 1
        if ph == phase or (phase == "signal2" and ph == "signal" and counts[ph] == 2):
            raised.append(ph)
            raise CallbackError(ph)
    w.programs[A] = prog_for(end, react)
    w.programs[B] = feeder if form in ("pipe1", "pipe-ctx1", "pipe-iter1") and end not in ("exit", "fail") else cat(64)
    if form == "sub-parent":
        w.programs[B] = prog_for("exit", "dies")
    if form == "sub-child":
        w.programs[B] = prog_for(end if end in ("exit", "fail") else "hang", "dies")
    name = "missing-program" if end == "missing" else A
    cmd = sh(name).set(audit_callback=callback, cancel_timeout=GRACE)
    if end == "timeout":
        cmd = cmd.set(timeout=0.5)
    other = sh(B).set(cancel_timeout=GRACE)
    if w.budget_given.get("cancel"):
        try:
            await run_form(cmd, other, form, end)
            return cmp(w, "not cancelled", 0, 0)
        except Exception as ex:
            if w.cancels:
                raise
            cmp(w, "not cancelled", 0, 0)
            return None

    async def go():
        t = asyncio.ensure_future(outcome_of(run_form(cmd, other, form, end)))
        if end == "cancel":
            await asyncio.wait([t], timeout=0.5)
            t.cancel()
        return await t
    got = await outcome_of(go())
    if raised:
        own = {"cancel": ["CancelledError"], "timeout": ["TimeoutError"], "raise": ["UserError"],
               "missing": ["FileNotFoundError"]}.get(end, [])
        if "ctx" in form and end == "cancel":
            own.append(None)  # the block suppresses it
        cmp(w, "outcome", got in ["CallbackError", *own] or (isinstance(got, tuple) and got[0] == "ResultError") or got, True)
    check_stop(w, react)


def check_stop(w, react, sure=True):
    cmp(w, "processes left", [a.name for a in w.live_children()], [])
    if w.hurried:
        return
    for a in w.actors:
        if not a.is_child or not a.argv or a.argv[0] != A:
            continue
        sent = [(round(t, 6), s) for t, s, st in a.signals if st == "run"]
        names = [s for t, s in sent]
        if react == "deaf" and len(sent) > 1:
            cmp(w, "signals", names, [15, 9], prop="C04")
            cmp(w, "grace period", round(sent[1][0] - sent[0][0], 6) >= GRACE, True, prop="C04")
        elif react != "deaf":
            cmp(w, "signals", names in ([], [15]) or names, True, prop="C04")


class BadBytesIO(io.BytesIO):
    "Fails when more than `room` bytes are written."
    room = 2

    def write(self, data):
        if self.tell() + len(data) > self.room:
            raise CallbackError("full")
        return super().write(data)


class BadStringIO(io.StringIO):
    def write(self, data):
        raise CallbackError("full")


class BadHandler(logging.Handler):
    def emit(self, record):
        raise CallbackError("log")


SINKS = ["bytesio", "bytesio-late", "stringio", "stringio-closed", "bytearray-pinned", "logger", "writer-broken", "writer-closed"]


@dscn("user-sink", "C01", max_time=10.0, max_time_cancel=10.0, tags=TAGS)
async def _(w, sh):
    "A destination that fails while output is written to it."
    kind = w.data_choice("sink", SINKS)
    which = pick(w, "stream", ["stdout", "stderr", "merged"], ["stdout"])
    form = pick(w, "use", ["await", "ctx", "pipe0", "pipe1", "pipe-ctx1", "pty"], ["await", "ctx", "pipe1"])
    react = pick(w, "reaction", ["dies", "deaf", "slow"], ["dies", "deaf"])
    then = w.data_choice("then", ["exit", "hang", "flood"])
    if w.budget_given.get("cancel") and kind.startswith("writer") or which != "stdout" and form == "pty" or which != "stderr" and form == "pipe0":
        cmp(w, "not applicable", 0, 0)
        return
    if then == "flood" and kind.startswith("stringio"):
        # nothing fails before the end of the output
        cmp(w, "not applicable", 0, 0)
        return
    if then == "hang" and kind.startswith("stringio") or "ctx" in form and kind == "stringio-closed":
        cmp(w, "not applicable", 0, 0)
        return
    fd = 2 if which == "stderr" else 1

    def prog(p):
        traps = {"dies": None, "deaf": IGNORE_TERM, "slow": slow_term(0.25)}[react]
        if traps:
            p.traps.update(traps)
        if which == "merged":
            yield ("write", 2, b"e\n")
        for c in (b"a\n", b"b\n", b"c"):
            yield ("write", fd, c)
        if then == "exit":
            return 0
        if then == "hang":
            yield ("hang",)
        for i in range(60):
            yield ("write", fd, b"x" * 5000)
        return 0
    w.programs[A] = prog
    w.programs[B] = cat(64) if form == "pipe1" else feeder
    pins = []
    rd = None
    if kind == "bytesio":
        dest = BadBytesIO()
    elif kind == "bytesio-late":
        dest = BadBytesIO()
        dest.room = 4
    elif kind == "stringio":
        dest = BadStringIO()
    elif kind == "stringio-closed":
        dest = io.StringIO()
    elif kind == "bytearray-pinned":
        dest = bytearray(b"")
    elif kind == "logger":
        dest = logging.Logger("mc-bad")
        dest.addHandler(BadHandler())
    else:
        from .v_redirect import _make_writer
        dest, rd = await _make_writer(w, "out")
        if kind == "writer-broken":
            os.close(rd)
            rd = None
        else:
            dest.close()
            await asyncio.sleep(0.1)
    opened = dict(W.fd_table())
    w.user["fds_opened_by_user"] = {}
    cmd = sh(A).set(cancel_timeout=GRACE)
    if which == "merged":
        cmd = cmd.stderr(Redirect.STDOUT)
    cmd = cmd.stderr(dest) if which == "stderr" else cmd.stdout(dest)
    if form == "pty":
        cmd = cmd.set(pty=True)
    other = sh(B).set(cancel_timeout=GRACE)
    pipe = {"pipe0": lambda: cmd | other, "pipe1": lambda: other | cmd,
            "pipe-ctx1": lambda: other | cmd}.get(form, lambda: cmd)()

    async def run():
        if "ctx" in form:
            async with pipe as r:
                if r.stdin is not None:
                    r.stdin.close()
                if kind == "bytearray-pinned":
                    pins.append(memoryview(dest))
                if kind == "stringio-closed":
                    dest.close()
            r.result(check=False)
            return
        await pipe

    if kind == "bytearray-pinned":
        dest.extend(b"z")
        pins.append(memoryview(dest))
    if kind == "stringio-closed" and "ctx" not in form:
        dest.close()
    try:
        if w.budget_given.get("cancel"):
            try:
                await run()
                return cmp(w, "not cancelled", 0, 0)
            except Exception:
                if w.cancels:
                    raise
                cmp(w, "not cancelled", 0, 0)
                return None
        got = await outcome_of(run())
        cmp(w, "reported", got is not None or got, True)
        cmp(w, "outcome is a failure", isinstance(got, (tuple, str)), True)
        check_stop(w, react)
    finally:
        for m in pins:
            m.release()
        if rd is not None:
            os.close(rd)
        if kind.startswith("writer"):
            dest.close()
            try:
                await dest.wait_closed()
            except OSError:
                pass


@dscn("user-source", "C01", max_time=20.0, max_time_cancel=20.0, tags=TAGS)
async def _(w, sh):
    "The stream given as standard input fails."
    data = w.data_choice("before", [b"", b"in", b"i" * 200000])
    at = w.data_choice("fails", ["at once", "later", "never"])
    form = pick(w, "use", ["await", "ctx", "pipe0", "pipe-ctx0", "pty"], ["await", "ctx", "pipe0"])
    react = pick(w, "reaction", ["dies", "deaf", "slow"], ["dies", "deaf"])
    reads = w.data_choice("process", ["reads", "hangs"])

    def prog(p):
        traps = {"dies": None, "deaf": IGNORE_TERM, "slow": slow_term(0.25)}[react]
        if traps:
            p.traps.update(traps)
        yield ("write", 1, b"a\n")
        while reads == "reads":
            d = yield ("read", 0, 65536)
            if not d:
                break
        yield ("hang",)
    w.programs[A] = prog
    w.programs[B] = cat(64)
    src = asyncio.StreamReader()
    if data:
        src.feed_data(data)
    if at == "at once":
        src.set_exception(CallbackError("input"))
    cmd = sh(A).set(cancel_timeout=GRACE).stdin(src)
    if form == "pty":
        cmd = cmd.set(pty=True)
    pipe = cmd | sh(B).set(cancel_timeout=GRACE) if "pipe" in form else cmd

    async def run():
        if "ctx" in form:
            async with pipe.stdout(Redirect.CAPTURE) as r:
                await asyncio.wait_for(r.stdout.read(), 15.0)
            r.result(check=False)
            return
        await pipe

    async def go():
        t = asyncio.ensure_future(outcome_of(run()))
        await asyncio.wait([t], timeout=10.0 if at == "at once" else 0.5)
        if at == "later":
            src.set_exception(CallbackError("input"))
            await asyncio.wait([t], timeout=10.0)
        t.cancel()
        return await t
    if w.budget_given.get("cancel"):
        if reads == "hangs" and len(data) > 1000:
            cmp(w, "not applicable", 0, 0)  # the failure is never seen
            return None
        h = asyncio.get_running_loop().call_later(
            0.5, lambda: src.exception() or src.set_exception(CallbackError("input")))
        try:
            await run()
            return cmp(w, "not cancelled", 0, 0)
        except Exception:
            if w.cancels:
                raise
            cmp(w, "not cancelled", 0, 0)
            return None
        finally:
            h.cancel()
    got = await outcome_of(go())
    if "ctx" in form:
        want = ("CallbackError", "CancelledError", "TimeoutError", None)  # the block goes on until it is cancelled
    elif at == "never":
        want = ("CancelledError",)
    elif len(data) > 1000 and reads == "hangs" and at == "later":
        # the exception is only seen when the data before it has been taken
        want = ("CallbackError", "CancelledError")
    else:
        want = ("CallbackError",)
    cmp(w, "outcome", got in want or got, True)
    check_stop(w, react)
