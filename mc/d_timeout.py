"""C06: timeouts against process exit, end of output, the caller's body and enclosing timeout scopes."""

import asyncio

import shellous
from shellous import ResultError

from . import world as W
from .catalog import A, B, C_, IGNORE_TERM, cat, hang, slow_term
from .data import cmp, dscn, pick

INF = float("inf")
EPS = 1e-6


def life(end, hold=None, code=0):
    """Writes "a"; exits at `end` (None: never) after writing "b".  A descendant keeps its output open until `hold`."""
    def prog(p):
        yield ("write", 1, b"a")
        if hold is not None:
            def keeper(q):
                if hold:
                    yield ("sleep", hold)
                yield ("write", 1, b"c")
                return 0
            yield ("fork", keeper, [1])
        if end is None:
            yield ("hang",)
        if end:
            yield ("sleep", end)
        if hold is None:
            yield ("write", 1, b"b")
        return code
    return prog


def live_timers():
    loop = asyncio.get_running_loop()
    return [h for h in getattr(loop, "_scheduled", ()) if not h.cancelled()]


async def outcome_of(coro):
    try:
        return await coro
    except ResultError as ex:
        return ("ResultError", ex.result.exit_code, ex.result.cancelled)
    except asyncio.CancelledError:
        return "CancelledError"
    except Exception as ex:
        return type(ex).__name__


async def use(w, cmd, mode, body):
    "Run the command in one of the ways there are to use it."
    if mode == "await":
        return await cmd
    if mode == "result":
        r = await cmd.result
        return (r.output, r.exit_code)
    if mode == "sink":
        buf = bytearray()
        r = await cmd.stdout(buf)
        return (r, bytes(buf).decode())
    if mode == "null":
        return await cmd.stdout(asyncio.subprocess.DEVNULL)
    if mode == "ctx":
        async with cmd.stdout(_cap()) as run:
            data = await run.stdout.read()
        r = run.result()
        return (data.decode(), r.exit_code)
    if mode == "body":
        async with cmd as run:
            await asyncio.sleep(body)
        return run.result().output
    if mode == "iter":
        return [x async for x in cmd.stdout(_cap())]
    if mode == "prompt":
        async with cmd.prompt() as cli:
            t = await cli.read_all()
        return (t, cli.result.exit_code)
    raise AssertionError(mode)


def _cap():
    from shellous.redirect import Redirect

    return Redirect.CAPTURE


MODES = ["await", "result", "sink", "null", "ctx", "body", "iter", "prompt"]


def plain(mode, code, text):
    "What the same call does without a timeout."
    err = ("ResultError", code, False)
    if mode == "await":
        return err if code else text
    if mode == "result":
        return (text, code)
    if mode == "sink":
        return err if code else ("", text)
    if mode == "null":
        return err if code else ""
    if mode == "ctx":
        return err if code else (text, code)
    if mode == "body":
        return err if code else text
    if mode == "iter":
        return [text]
    return (text, code)


def check_time(w, got, want, end, limit, spent, label, exited=None):
    "`exited`: when the process exits, if its output stays open for longer."
    if w.hurried:
        cmp(w, f"{label} (slow)", want if got == "TimeoutError" else got, want)
        if got == "TimeoutError":
            cmp(w, f"{label}: TimeoutError after {spent}, timeout", spent >= limit - EPS, True)
    elif end < limit - EPS:
        cmp(w, label, got, want)
    elif (end if exited is None else exited) > limit + EPS:
        cmp(w, f"{label} still running at the timeout", got, "TimeoutError")
    else:
        cmp(w, f"{label} ending at the timeout", want if got == "TimeoutError" else got, want)


@dscn("timeout-run", "C06", max_time=10.0)
async def _(w, sh):
    "One command, every way to use it, ending before, at and after its timeout."
    limit = w.data_choice("timeout", [None, -1, 0, 0.5, 1.0])
    end = w.data_choice("exit", [0, 0.25, 0.5, 1.0, 1.5, None])
    hold = pick(w, "output open until", [None, 0, 0.5, 0.75, 2.0], [None, 0.75])
    code = pick(w, "code", [0, 3], [3])
    mode = w.data_choice("use", MODES)
    body = 0.75
    if end is None and limit is None:
        cmp(w, "not applicable", 0, 0)
        return
    w.programs[A] = life(end, hold, code)
    cmd = sh(A).set(timeout=limit)
    t0 = w.now
    got = await outcome_of(use(w, cmd, mode, body))
    spent = w.now - t0
    w.user["outcome"] = got
    e = INF if end is None else end
    opened = hold if hold is not None and mode != "null" else 0.0
    text = "ab" if hold is None else "ac"
    lim = INF if limit is None else max(limit, 0.0)
    finish = max(e, opened)
    want = plain(mode, code, text)
    check_time(w, got, want, finish, lim, spent, mode, e)
    if not w.hurried:
        if got == "TimeoutError":
            # stopping also waits for the output to be closed
            times = [max(lim, opened)] + ([lim] if lim <= 0 or e < lim + EPS else [])
            cmp(w, "time of the TimeoutError", any(abs(spent - x) < EPS for x in times) or spent, True)
        else:
            cmp(w, "time of the end", round(spent, 6), round(max(finish, body if mode == "body" else 0.0), 6))
    cmp(w, "task.cancelling()", asyncio.current_task().cancelling(), 0)
    cmp(w, "timers left", [repr(h) for h in live_timers()], [])
    await asyncio.sleep(0)


@dscn("timeout-stop", "C06", max_time=10.0)
async def _(w, sh):
    "Processes that take their time to stop."
    limit = w.data_choice("timeout", [0, 0.5])
    stop = w.data_choice("after SIGTERM", [0.25, 0.75, 1.0, 2.0, None])
    ct = w.data_choice("cancel_timeout", [0.5, 1.0, 3.0])
    mode = w.data_choice("use", ["await", "result", "ctx", "body", "iter", "prompt"])
    w.programs[A] = hang([b"x"], IGNORE_TERM if stop is None else slow_term(stop))
    t0 = w.now
    got = await outcome_of(use(w, sh(A).set(timeout=limit, cancel_timeout=ct), mode, 5.0))
    spent = w.now - t0
    cmp(w, "outcome", got, "TimeoutError")
    if not w.hurried:
        s = INF if stop is None else stop
        cmp(w, "time", round(spent, 6), round(limit + min(s, ct), 6))
    cmp(w, "task.cancelling()", asyncio.current_task().cancelling(), 0)
    cmp(w, "timers left", [repr(h) for h in live_timers()], [])
    a = w.actors[0]
    if not w.hurried:
        st = a.status
        killed = (st & 0x7F) == 9
        if s < ct - EPS:
            cmp(w, "killed", killed, False)
        elif s > ct + EPS:
            cmp(w, "killed", killed, True)


@dscn("timeout-nested", "C06", max_time=10.0)
async def _(w, sh):
    "A command's timeout within an enclosing timeout scope, both at every order."
    inner = w.data_choice("timeout", [0.5, 1.0])
    outer = w.data_choice("outer", [0, 0.25, 0.5, 0.75, 1.0, 1.5, 5.0])
    end = w.data_choice("exit", [0.25, 0.5, 0.75, None])
    mode = pick(w, "use", ["await", "ctx", "body", "iter", "prompt"], ["await", "ctx"])
    kind = w.data_choice("scope", ["timeout", "wait_for", "timeout_at"])
    after = 0.5
    w.programs[A] = life(end)
    cmd = sh(A).set(timeout=inner)
    t0 = w.now
    body = 0.1
    seen = []

    async def work():
        got = await outcome_or_cancel(use(w, cmd, mode, body))
        seen.append((got, w.now - t0))
        await asyncio.sleep(after)
        return "finished"

    loop = asyncio.get_running_loop()
    try:
        if kind == "wait_for":
            res = await asyncio.wait_for(work(), outer)
        elif kind == "timeout_at":
            async with asyncio.timeout_at(loop.time() + outer) as cm:
                res = await work()
        else:
            async with asyncio.timeout(outer) as cm:
                res = await work()
    except TimeoutError:
        res = "outer TimeoutError"
        if kind != "wait_for":
            cmp(w, "expired", cm.expired(), True)
    spent = w.now - t0
    e = INF if end is None else end
    fin = min(e, inner)
    cmp(w, "task.cancelling()", asyncio.current_task().cancelling(), 0)
    cmp(w, "timers left", [repr(h) for h in live_timers()], [])
    t1 = w.now
    await asyncio.sleep(0.25)
    if not w.hurried:
        cmp(w, "a pause afterwards", round(w.now - t1, 6), 0.25)
        if outer > fin + after + EPS:
            cmp(w, "outcome", res, "finished")
        elif outer < fin + after - EPS:
            cmp(w, "outcome", (res, round(spent, 6)), ("outer TimeoutError", outer))
        if seen:
            got, at = seen[0]
            check_time(w, got, plain(mode, 0, "ab"), e, inner, at, "inner")
            cmp(w, "inner time", round(at, 6), round(fin, 6))
        if outer > fin + EPS:
            cmp(w, "inner outcome known", len(seen), 1)
    elif seen:
        cmp(w, "inner outcome", seen[0][0] in (plain(mode, 0, "ab"), "TimeoutError") or seen, True)
    cmp(w, "result", res in ("finished", "outer TimeoutError"), True)


async def outcome_or_cancel(coro):
    "Like outcome_of, but cancellation passes through."
    try:
        return await coro
    except ResultError as ex:
        return ("ResultError", ex.result.exit_code, ex.result.cancelled)
    except Exception as ex:
        return type(ex).__name__


@dscn("timeout-group", "C06", max_time=10.0)
async def _(w, sh):
    "A timed command among other tasks of a group."
    limit = w.data_choice("timeout", [0.5, 1.0])
    end = w.data_choice("exit", [0.25, 0.5, 0.75, None])
    mode = pick(w, "use", ["await", "ctx", "iter"], ["await"])
    kind = w.data_choice("group", ["TaskGroup", "gather", "same task"])
    w.programs[A] = life(end)
    w.programs[B] = life(None)
    t0 = w.now
    sib = []

    async def sibling():
        try:
            await asyncio.sleep(2.0)
            sib.append("done")
        except asyncio.CancelledError:
            sib.append("cancelled")
            raise

    got = []

    async def timed():
        try:
            got.append(await use(w, sh(A).set(timeout=limit), mode, 0.1))
        except BaseException as ex:
            got.append(type(ex).__name__)
            raise
        return got[0]

    res = None
    try:
        if kind == "TaskGroup":
            async with asyncio.TaskGroup() as tg:
                t = tg.create_task(timed())
                tg.create_task(sibling())
            res = t.result()
        elif kind == "same task":
            async with asyncio.TaskGroup() as tg:
                tg.create_task(sibling())
                res = await timed()
        else:
            res, _ = await asyncio.gather(timed(), sibling())
    except BaseExceptionGroup as eg:
        cmp(w, "group", [type(x).__name__ for x in eg.exceptions], ["TimeoutError"])
        res = "TimeoutError"
    except TimeoutError:
        cmp(w, "kind", kind, "gather")
        res = "TimeoutError"
    spent = w.now - t0
    e = INF if end is None else end
    cmp(w, "inner", [res], got)
    check_time(w, res, plain(mode, 0, "ab"), e, limit, spent, "outcome")
    if kind != "TaskGroup":  # whose own cancellation of its parent is still counted in Python 3.12
        cmp(w, "task.cancelling()", asyncio.current_task().cancelling(), 0)
    if kind != "gather":
        if not w.hurried:
            cmp(w, "sibling", sib, ["cancelled"] if res == "TimeoutError" else ["done"])
        cmp(w, "timers left", [repr(h) for h in live_timers()], [])
    await asyncio.sleep(2.5)


@dscn("timeout-again", "C06", max_time=10.0)
async def _(w, sh):
    "Several timed commands one after the other in one task."
    n = w.data_choice("runs", [2, 3])
    ends = [w.data_choice(f"exit{i}", [0.25, 0.5, None]) for i in range(n)]
    limit = 0.5
    mode = w.data_choice("use", ["await", "ctx", "iter"])
    for i in range(n):
        w.programs[A] = life(ends[i])
        t0 = w.now
        got = await outcome_of(use(w, sh(A).set(timeout=limit), mode, 0.1))
        check_time(w, got, plain(mode, 0, "ab"), INF if ends[i] is None else ends[i], limit, w.now - t0, f"run {i}")
    cmp(w, "task.cancelling()", asyncio.current_task().cancelling(), 0)
    cmp(w, "timers left", [repr(h) for h in live_timers()], [])


@dscn("timeout-pipe", "C06", max_time=10.0)
async def _(w, sh):
    "One member of a pipeline has a timeout."
    which = w.data_choice("member", [0, 1])
    limit = w.data_choice("timeout", [0.5, 1.0])
    end = w.data_choice("exit", [0.25, 0.5, 0.75, 1.5, None])
    mode = pick(w, "use", ["await", "result", "ctx", "iter"], ["await", "ctx"])
    w.programs[A] = life(end)
    w.programs[B] = cat(8)
    cmds = [sh(A), sh(B)]
    cmds[which] = cmds[which].set(timeout=limit)
    pipe = cmds[0] | cmds[1]
    t0 = w.now
    try:
        async with asyncio.timeout(8.0) as cm:
            got = await outcome_or_cancel(use(w, pipe, mode, 0.1))
    except TimeoutError:
        got = "never ends"
    spent = w.now - t0
    e = INF if end is None else end
    if w.hurried and got == "never ends":
        got = "TimeoutError"
    if which == 1 and (w.hurried or e > limit - EPS) and got in (("ResultError", -13, False), ("a", -13)):
        got = "TimeoutError"  # the other command failed as a consequence, and is reported instead
    check_time(w, got, plain(mode, 0, "ab"), e, limit, spent, "pipeline")
    cmp(w, "task.cancelling()", asyncio.current_task().cancelling(), 0)
    cmp(w, "timers left", [repr(h) for h in live_timers()], [])
