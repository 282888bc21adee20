"""C04: which signals a process that is being stopped receives, and when; signals sent by the user."""

import asyncio
import io
import signal

from shellous import ResultError
from shellous.redirect import Redirect

from . import world as W
from .catalog import A, B, C_, UserError, cat
from .data import cmp, dscn, pick
from .d_timeout import outcome_of

EPS = 1e-6
S = signal.Signals
STOP = 0.5  # when the command is told to stop


def program(how, sigs, junk=b""):
    """Runs until told to stop; `how` is what it does then.

    ("exit", t): exits t seconds after the signal; ("deaf",): ignores it;
    ("close", t): closes its outputs, exits t seconds later; ("own", t): ignores it, exits by itself at time t;
    ("held", t, h): like exit, but a descendant keeps its output open until h seconds after the signal
    """
    kind = how[0]

    def prog(p):
        def handler(q):
            if kind == "held":
                def keeper(_):
                    yield ("sleep", how[2])
                    return 0
                yield ("fork", keeper, [1])
            if kind == "close":
                yield ("close", 1)
                yield ("close", 2)
            if how[1]:
                yield ("sleep", how[1])
            return 9
        for s in sigs:
            p.traps[s] = "ignore" if kind in ("deaf", "own") else handler
        yield ("write", 1, b"x" + junk)
        if kind == "own":
            yield ("sleep", how[1])
            return 4
        yield ("hang",)
    return prog


REACT = [("exit", 0), ("exit", 17.0), ("exit", 0.25), ("exit", 0.75), ("exit", 2.0), ("deaf",), ("close", 0.25), ("close", 2.0),
         ("own", 0.25), ("own", 0.75), ("own", 2.0), ("held", 0.25, 0.4), ("held", 0.25, 2.0)]
CAUSE = ["cancel", "timeout", "raise", "ctx-cancel", "iter-raise", "iter-close", "prompt-raise", "sink-raise",
         "input-cancel", "input-raise", "junk-raise", "junk-cancel", "pty-cancel", "pty-raise", "pipe-cancel", "pipe-raise", "pipe-iter-raise",
         "pipe-member", "sub-cancel", "sub-raise"]


async def stop(w, sh, cmd, cause):
    "Run the command and make it stop STOP seconds after the call."
    async def canceller(t):
        await asyncio.sleep(STOP)
        t.cancel()

    async def with_cancel(coro):
        t = asyncio.ensure_future(coro)
        k = asyncio.ensure_future(canceller(t))
        try:
            await t
        finally:
            k.cancel()

    async def block(c, first=None):
        async with c as run:
            if first:
                await first(run)
            await asyncio.sleep(STOP)
            raise UserError()

    async def lines(c, how):
        it = aiter(c)
        try:
            async for _ in it:
                await asyncio.sleep(STOP)
                if how == "raise":
                    raise UserError()
                break
        finally:
            await it.aclose()

    big = b"i" * 200000
    if cause in ("cancel", "pty-cancel", "pipe-cancel", "sub-cancel"):
        if cause.startswith("pty"):
            cmd = cmd.set(pty=True)
        await with_cancel(cmd.coro())
    elif cause == "input-cancel":
        await with_cancel(cmd.stdin(big).coro())
    elif cause in ("timeout", "pipe-member"):
        await cmd
    elif cause in ("raise", "pipe-raise", "sub-raise"):
        await block(cmd)
    elif cause == "pty-raise":
        await block(cmd.set(pty=True))
    elif cause == "sink-raise":
        await block(cmd.stdout(bytearray()).stderr(io.BytesIO()))
    elif cause == "junk-raise":
        await block(cmd.stdout(io.StringIO()))
    elif cause == "input-raise":
        await block(cmd.stdin(big))
    elif cause in ("ctx-cancel", "junk-cancel"):
        async def hold():
            async with cmd.stdout(Redirect.CAPTURE if cause == "ctx-cancel" else io.StringIO()) as run:
                await asyncio.sleep(60)
            run.result()
        await with_cancel(hold())
    elif cause in ("iter-raise", "pipe-iter-raise"):
        await lines(cmd, "raise")
    elif cause == "iter-close":
        await lines(cmd, "break")
    elif cause == "prompt-raise":
        async with cmd.prompt() as cli:
            await asyncio.sleep(STOP)
            raise UserError()
    else:
        raise AssertionError(cause)


def want_signals(how, first, grace, at):
    "What a process stopped at `at` must receive: (time, signal)."
    kind = how[0]
    if kind == "own":
        gone = how[1]
        if gone < at - EPS:
            return []
        late = gone - at
    elif kind == "deaf":
        late = float("inf")
    else:
        late = how[1]
    if first is None or first == S.SIGKILL:
        return [(at, S.SIGKILL)]
    sigs = [(at, first)]
    if late > grace + EPS:
        sigs.append((at + grace, S.SIGKILL))
    return sigs


def check_audit(w, audit, sent):
    cmp(w, "audit phases", [a[1] for a in audit], ["start", *(["signal"] * (len(audit) - 2)), "stop"], "C12")
    told = [(a[0], a[2]) for a in audit if a[1] == "signal"]
    want = [(t, s.name) for t, s in sent]
    if w.hurried:
        # a signal that is reported may find the process gone
        it = iter(told)
        cmp(w, "audited signals", all(s in it for s in want) or (told, want), True, "C12")
    else:
        cmp(w, "audited signals", told, want, "C12")
    if audit:
        cmp(w, "process when 'stop' is reported", audit[-1][4], "reaped", "C12")
        cmp(w, "failure reported", [a[3] for a in audit if a[3]], [], "C12")


@dscn("stop-proto", "C04", max_time=90.0, tags={"C12"})
async def _(w, sh):
    "Cancel signals and limits x what the process does when told to stop x why it is stopped."
    cause = w.data_choice("cause", CAUSE)
    how = pick(w, "reaction", REACT, [("exit", 0), ("exit", 0.75), ("own", 0.75), ("deaf",)])
    first = pick(w, "cancel_signal", ["default", S.SIGINT, S.SIGUSR1, S.SIGKILL, None], ["default", S.SIGINT])
    grace = pick(w, "cancel_timeout", ["default", 0, 0.5, 1.0, 5.0, 20.0], [0.5])
    opts = {}
    if first != "default":
        opts["cancel_signal"] = first
    if grace != "default":
        opts["cancel_timeout"] = grace
    sig = S.SIGTERM if first == "default" else first
    near = 20.0 if grace == 20.0 else 1.0  # the neighbour's limit
    below = 20.0 if grace == 20.0 else 0.75  # the substitution's limit
    limit = 3.0 if grace == "default" else grace
    # 0.5 + 0.25 is when some reactions end; avoid an exact tie with the kill
    if how[0] in ("exit", "close") and how[1] and abs(how[1] - limit) < EPS:
        raise AssertionError("tie")
    traps = [s for s in {S.SIGTERM, sig} if s is not None and s != S.SIGKILL]
    junk = b"\n" if "iter" in cause else b"\xff" if cause.startswith("junk") else b""
    w.programs[A] = program(how, traps, junk)
    audit = []

    def report(phase, info):
        a = next((x for x in w.actors if x.is_child and x.argv and x.argv[0] == A), None)
        audit.append((round(w.now - 1000.0 - t0, 6), phase, info["signal"], info["failure"], a and a.state))
    opts["audit_callback"] = report
    cmd = sh(A).set(**opts)
    if cause == "timeout":
        cmd = cmd.set(timeout=STOP)
    if cause == "pipe-member":
        # the neighbour stays until it is stopped as well
        w.programs[B] = program(("deaf",), [S.SIGTERM, S.SIGINT])
        cmd = cmd.set(timeout=STOP) | sh(B).set(cancel_timeout=near)
    elif cause.startswith("pipe"):
        w.programs[C_] = cat(16)
        cmd = sh(C_).set(cancel_timeout=7.0).stdin("") | cmd
    elif cause.startswith("sub"):
        w.programs[C_] = program(("deaf",), [S.SIGTERM, S.SIGINT])
        cmd = sh(A, sh(C_).set(cancel_timeout=below)).set(**opts)
    t0 = w.now - 1000.0
    got = await outcome_of(stop(w, sh, cmd, cause))
    w.user["outcome"] = got
    a = next((x for x in w.actors if x.is_child and x.argv and x.argv[0] == A), None)
    if a is None:
        if w.hurried:
            cmp(w, "never started", 0, 0)
        else:
            cmp(w, "started", False, True)
        return
    sent = [(round(t - t0, 6), s) for t, s, st in a.signals]
    check_audit(w, audit, sent)
    if limit == 0:
        # no time to see what the first signal did, even if it was SIGKILL
        sent = [x for i, x in enumerate(sent) if x not in sent[:i]]
        if how == ("exit", 0) and sent[1:] == [(STOP, S.SIGKILL)]:
            sent.pop()
    if w.hurried:
        # somebody was slow: only the order is known
        kinds = [s for t, s in sent]
        if sig is None or sig == S.SIGKILL:
            cmp(w, "signals", kinds in ([], [S.SIGKILL]) or kinds, True)
        else:
            cmp(w, "signals", kinds in ([], [sig], [sig, S.SIGKILL]) or kinds, True)
            if len(kinds) == 2:
                cmp(w, "time to SIGKILL", sent[1][0] - sent[0][0] >= limit - EPS, True)
    elif cause.startswith("sub") and not sent:
        cmp(w, "exited by itself", how[0], "own")
    elif cause.startswith("sub"):
        # the substitution is stopped first, or at the same time
        at = sent[0][0]
        cmp(w, "first signal", at >= STOP - EPS or at, True)
        want = want_signals(how, sig, limit, at)
        gone = at + how[1] if how[0] in ("exit", "close", "held") else how[1] if how[0] == "own" else 1e9
        if want != sent:
            # the limit may be longer, never shorter
            cmp(w, "signals", [s for t, s in sent] in ([sig], [sig, S.SIGKILL]) or sent, True)
            if len(sent) == 2:
                cmp(w, "time to SIGKILL", sent[1][0] - at >= limit - EPS, True)
                cmp(w, "still running", gone > sent[1][0] - EPS, True)
            else:
                cmp(w, "stopped by itself", gone < 1e9, True)
    else:
        cmp(w, "signals", sent, want_signals(how, sig, limit, STOP))
    cmp(w, "gone", a.state, "reaped")
    if cause == "pipe-member":
        b = next((x for x in w.actors if x.is_child and x.argv and x.argv[0] == B), None)
        if b is not None and not w.hurried and b.signals:
            bs = [(t, s) for t, s, st in b.signals]
            cmp(w, "neighbour's signals", [s for t, s in bs], [S.SIGTERM, S.SIGKILL])
            cmp(w, "neighbour's time to SIGKILL", [round(t - bs[0][0], 6) for t, s in bs[1:]], [near])
    if cause.startswith("sub") and not w.hurried:
        c = next((x for x in w.actors if x.is_child and x.argv and x.argv[0] == C_), None)
        if c is not None:
            cs = [(t, s) for t, s, st in c.signals]
            cmp(w, "substitution's signals", [s for t, s in cs], [S.SIGTERM, S.SIGKILL])
            cmp(w, "substitution's time to SIGKILL", [round(t - cs[0][0], 6) for t, s in cs[1:]], [below])
            cmp(w, "substitution", c.state, "reaped")
    want = {"timeout": "TimeoutError", "pipe-member": None, "iter-close": None}.get(
        cause, "UserError" if cause.endswith("raise") else "CancelledError")
    if how[0] == "own" and how[1] < STOP - EPS:
        if cause not in ("raise", "pty-raise", "sink-raise", "input-raise", "prompt-raise", "iter-raise",
                         "ctx-cancel", "junk-raise", "sub-raise", "pipe-raise", "pipe-iter-raise"):
            want = None
    if want is not None and not w.hurried:
        cmp(w, "outcome", got if cause != "junk-raise" or got != "UnicodeDecodeError" else want, want)


@dscn("stop-user", "C04", max_time=10.0, tags={"C12", "C10"})
async def _(w, sh):
    "Signals sent by the user with send_signal() and cancel() while the process runs, has exited, has been reaped."
    end = w.data_choice("exits", [None, 0.0, 0.5])
    trap = w.data_choice("signal does", ["die", "nothing", "later"])
    calls = w.data_choice("calls", [("usr1",), ("cancel",), ("usr1", "usr1"), ("cancel", "usr1"), ("kill",), ("int", "cancel")])
    first = pick(w, "cancel_signal", ["default", S.SIGINT, None], ["default"])
    when = w.data_choice("when", ["at once", "loop", 0.5])
    after = pick(w, "then", ["leave", "raise"], ["leave"])
    sig = S.SIGTERM if first == "default" else first or S.SIGKILL

    def prog(p):
        def later(q):
            yield ("sleep", 0.25)
            return 7
        for s in (S.SIGUSR1, S.SIGTERM, S.SIGINT):
            if trap != "die":
                p.traps[s] = "ignore" if trap == "nothing" else later
        yield ("write", 1, b"x")
        if end is None:
            yield ("sleep", 2.0)
        elif end:
            yield ("sleep", end)
        return 6
    w.programs[A] = prog
    audit = []
    cmd = sh(A).set(audit_callback=lambda ph, info: audit.append((ph, info["signal"])))
    if first != "default":
        cmd = cmd.set(cancel_signal=first)
    sent = []

    def call(run, what):
        alive = run.returncode is None
        if what == "cancel":
            run.cancel()
            s = sig
        else:
            s = {"usr1": S.SIGUSR1, "kill": S.SIGKILL, "int": S.SIGINT}[what]
            run.send_signal(s)
        if alive:
            sent.append(s)

    user = None
    code = None
    try:
        async with cmd as run:
            a = w.find(run.pid)
            if when == "loop":
                for _ in range(3):
                    await asyncio.sleep(0)
            elif when != "at once":
                await asyncio.sleep(when)
            for c in calls:
                call(run, c)
            if after == "raise":
                raise UserError()
    except UserError:
        user = "UserError"
    code = run.returncode
    reports = [s for ph, s in audit if ph == "signal"]
    got = [s for t, s, st in a.signals if st != "reaped"]
    n = len(sent)
    own = sent
    extra = []
    if after == "raise":
        # the block is left with an exception: the process is stopped unless it has exited
        extra = got[len(own):]
        cmp(w, "stop signals", extra in ([], [sig], [sig, S.SIGKILL]) or extra, True)
    # a signal for a process that has just exited need not reach it
    gone = [s for t, s, st in a.signals if st != "run"]
    if not gone and a.exit_time is not None and len(got) == len(own) + len(extra):
        cmp(w, "signals", got, own + extra)
    else:
        it = iter(own + extra)
        cmp(w, "signals in order", all(s in it for s in got), True)
    cmp(w, "audited signals", reports[:n], [("SIGKILL" if s == S.SIGKILL else s.name) for s in own], "C12")
    cmp(w, "all signals audited", len(reports) >= len(got), True, "C12")
    real = -(a.status & 0x7F) if a.status & 0x7F else a.status >> 8
    cmp(w, "exit status", code, real, "C10")
    cmp(w, "outcome", user, "UserError" if after == "raise" else None)
    before = len(a.signals)
    run.send_signal(S.SIGUSR1)
    run.cancel()
    cmp(w, "signals after the exit", len(a.signals), before)
    cmp(w, "state", a.state, "reaped")
