"""C28: an iteration that is left without being closed is stopped all the same."""

import asyncio
import gc

from . import world as W  # noqa: F401
from .catalog import A, B, C_, IGNORE_TERM, UserError, cat, slow_term
from .data import cmp, dscn, pick

GRACE = 2.0
HOW = ["break", "del", "cycle", "exception", "other-task", "orphan", "later", "shutdown", "unstarted", "exhausted", "twice", "two"]


class Holder:
    pass


@dscn("drop", "C28", max_time=30.0)
async def _(w, sh):
    "Ways to forget an iteration x lines read x what is iterated x how the process takes it."
    how = w.data_choice("leave", HOW)
    k = pick(w, "lines", [1, 2, 3], [1, 3])
    form = w.data_choice("form", ["command", "pipeline", "sub", "pty", "err"])
    term = pick(w, "term", ["dies", "slow", "ignores"], ["dies", "ignores"])
    if how in ("unstarted", "exhausted") and (k, term) != (1, "dies"):
        return cmp(w, "not applicable", 0, 0)
    traps = {"dies": None, "slow": slow_term(1.0), "ignores": IGNORE_TERM}[term]

    def prog(p):
        if traps:
            p.traps.update(traps)
        for arg in p.argv[1:]:
            while (yield ("read", int(arg.rsplit("/", 1)[1]), 4096)):
                pass
        fd = 2 if form == "err" else 1
        for i in range(k if how == "exhausted" else k + 1):
            yield ("write", fd, b"%d\n" % i)
        if how != "exhausted":
            yield ("hang",)

    w.programs[A] = prog
    w.programs[B] = cat(64)
    w.programs[C_] = cat(64)
    cmd = sh(A)
    if form == "sub":
        cmd = sh(A, sh(C_).stdin(b"x"))
    elif form == "pty":
        cmd = cmd.set(pty=True)
    elif form == "err":
        cmd = cmd.stdout(sh.DEVNULL).stderr(sh.STDOUT)
    cmd = cmd.set(cancel_timeout=GRACE)
    if form == "pipeline":
        cmd = cmd | sh(B).set(cancel_timeout=GRACE)
    eol = "\r\n" if form == "pty" else "\n"
    got, trouble = [], []
    loop = asyncio.get_running_loop()

    async def start(it, n=k):
        for _ in range(n):
            got.append(await anext(it))

    async def user():
        if how == "break":
            async for x in cmd:
                got.append(x)
                if len(got) == k:
                    break
        elif how == "exception":
            try:
                async for x in cmd:
                    got.append(x)
                    if len(got) == k:
                        raise UserError()
            except UserError:
                pass
        elif how == "del":
            it = aiter(cmd)
            await start(it)
            del it
        elif how == "cycle":
            h = Holder()
            h.me, h.it = h, aiter(cmd)
            await start(h.it)
            del h
            gc.collect()
        elif how == "other-task":
            it = aiter(cmd)
            await start(it)
            await asyncio.ensure_future(it.aclose())
        elif how == "orphan":
            it = aiter(cmd)
            await asyncio.ensure_future(start(it))
            await it.aclose()
        elif how == "later":
            it = aiter(cmd)
            await asyncio.ensure_future(start(it))
            await asyncio.sleep(0.5)
            cmp(w, "stopped before it is closed", [a.name for a in w.live_children() if a.argv[0] == A] != [], True)
            await asyncio.ensure_future(it.aclose())
        elif how == "shutdown":
            it = aiter(cmd)
            await start(it)
            await loop.shutdown_asyncgens()
            loop._asyncgens_shutdown_called = False
            w.user["held"] = it
        elif how == "unstarted":
            it = aiter(cmd)
            del it
        elif how == "exhausted":
            got.extend([x async for x in cmd])
        elif how == "twice":
            it = aiter(cmd)
            await start(it)
            await it.aclose()
            await it.aclose()
        elif how == "two":
            one, two = aiter(cmd), aiter(cmd)
            await start(one)
            await start(two, 1)
            got.pop()
            del one
            await asyncio.sleep(GRACE * 3 + 3)
            cmp(w, "the other iteration goes on", len([a for a in w.live_children() if a.argv[0] == A]), 1)
            got.extend([await anext(two)] if k > 1 else [])
            got[k:] = []
            del two

    try:
        await user()
    except BaseException as ex:
        trouble.append(type(ex).__name__)
    if how in ("other-task", "orphan", "later", "twice", "shutdown", "exhausted"):
        cmp(w, "processes left when it is closed", [a.name for a in w.live_children()], [])
    try:
        await asyncio.sleep(GRACE * 3 + 3)
    except BaseException as ex:
        trouble.append("later: " + type(ex).__name__)
    cmp(w, "lines", got, [] if how == "unstarted" else ["%d%s" % (i, eol) for i in range(k)])
    cmp(w, "processes started", len([a for a in w.actors if a.is_child and a.argv[0] == A]), {"unstarted": 0, "two": 2}.get(how, 1))
    cmp(w, "processes left", [a.name for a in w.live_children()], [])
    cmp(w, "trouble", trouble, [])
