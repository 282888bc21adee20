"""C11: a command finishes whatever order its processes read and write in, with data larger than the buffers between them."""

import asyncio
import io
import itertools

from shellous import ResultError
from shellous.redirect import Redirect

from . import world as W
from .catalog import A, B, C_
from .data import cmp, dscn, pick

PIPE = 4096  # capacity of the simulated pipes
OUT = b"0123456789abcde\n" * 640  # 10240 bytes
IN = b"fedcba9876543210" * 16384  # 262144 bytes: more than the socket buffers hold

# r: read a little; R: read to the end; o/e: write to stdout/stderr; i/c/x: close stdin/stdout/stderr
OPS = "rRoeicx"


def scripts(n, ops=OPS):
    "Sequences of operations up to length n that make sense (nothing is used after it was closed or is at its end)."
    res = [""]
    for k in range(1, n + 1):
        for t in itertools.product(ops, repeat=k):
            s = "".join(t)
            if usable(s):
                res.append(s)
    return res


def usable(s):
    inp = out = err = True
    for c in s:
        if c in "rRi":
            if not inp:
                return False
            inp = c == "r"
        elif c in "oc":
            if not out:
                return False
            out = c == "o"
        elif c in "ex":
            if not err:
                return False
            err = c == "e"
    return True


def program(s, code=0):
    def prog(p):
        for c in s:
            if c == "r":
                yield ("read", 0, 3000)
            elif c == "R":
                while (yield ("read", 0, 65536)):
                    pass
            elif c == "o":
                yield ("write", 1, OUT)
            elif c == "e":
                yield ("write", 2, OUT)
            else:
                yield ("close", "icx".index(c))
        return code
    return prog


INPUTS = {"none": None, "empty": b"", "big": IN}
FORMS = ["await", "result", "sink", "stderr", "merged", "ctx", "ctx-err", "ctx-feed", "iter", "iter-early", "prompt"]


async def go(cmd, form):
    if form == "await":
        await cmd
    elif form == "result":
        await cmd.result
    elif form == "sink":
        await cmd.stdout(bytearray())
    elif form == "stderr":
        await cmd.stderr(io.BytesIO()).stdout(bytearray())
    elif form == "merged":
        await cmd.stderr(Redirect.STDOUT)
    elif form == "ctx":
        async with cmd.stdout(Redirect.CAPTURE) as run:
            await run.stdout.read()
        run.result()
    elif form == "ctx-err":
        async with cmd.stdout(Redirect.DEVNULL).stderr(Redirect.CAPTURE) as run:
            await run.stderr.read()
        run.result()
    elif form == "ctx-feed":
        async with cmd.stdin(Redirect.CAPTURE).stdout(Redirect.BUFFER) as run:
            try:
                run.stdin.write(IN)
                await run.stdin.drain()
            except (BrokenPipeError, ConnectionResetError):
                pass
            run.stdin.close()
        run.result()
    elif form == "iter":
        async for _ in cmd:
            pass
    elif form == "iter-early":
        it = aiter(cmd)
        try:
            await anext(it)
        except StopAsyncIteration:
            pass
        await it.aclose()
    elif form == "prompt":
        async with cmd.prompt() as cli:
            cli.close()
            await cli.read_all()
    else:
        raise AssertionError(form)


async def run(w, cmd, form):
    t0 = w.now
    try:
        await go(cmd, form)
        got = "ok"
    except (ResultError, BrokenPipeError, ConnectionResetError) as ex:
        got = type(ex).__name__
    if not w.hurried:
        # leaving early stops the command: nothing here resists that
        cmp(w, "time", round(w.now - t0, 6), 0.0)
    cmp(w, "processes left", [a.name for a in w.live_children()], [])
    return got


@dscn("fill-one", "C11", max_time=1.0, pipe_size=PIPE, check_cancelled=lambda w, r: [])
async def _(w, sh):
    "One command: what it does x its input x how it is used."
    n = 4 if w.budget_given.get("wide") else 3
    s = pick(w, "script", scripts(n), scripts(2, "roe"))
    inp = w.data_choice("input", list(INPUTS))
    form = pick(w, "use", FORMS, ["await", "ctx", "ctx-feed", "iter-early"])
    w.programs[A] = program(s)
    cmd = sh(A)
    if form not in ("ctx-feed", "prompt"):
        if inp != "none":
            cmd = cmd.stdin(INPUTS[inp])
    elif inp != "none":
        cmp(w, "not applicable", 0, 0)
        return
    await run(w, cmd, form)


@dscn("fill-pipe", "C11", max_time=1.0, pipe_size=PIPE, check_cancelled=lambda w, r: [])
async def _(w, sh):
    "Two or three commands in a pipeline: what each does x how it is used."
    ops = "rRoeic" if w.budget_given.get("wide") else "rRoc"
    few = ["", "o", "oo", "R", "ro", "oR", "co"]
    s = pick(w, "first", scripts(2, ops), few)
    t = pick(w, "second", scripts(2, ops), few)
    mid = w.data_choice("between", ["nothing", "cat"])
    inp = pick(w, "input", ["none", "big"], ["big"])
    form = pick(w, "use", ["await", "ctx", "ctx-feed", "iter-early", "prompt"], ["await", "ctx"])
    w.programs[A] = program(s)
    w.programs[B] = program(t)
    from .catalog import cat
    w.programs[C_] = cat()
    first = sh(A)
    if form in ("ctx-feed", "prompt"):
        if inp != "none":
            cmp(w, "not applicable", 0, 0)
            return
    elif inp != "none":
        first = first.stdin(INPUTS[inp])
    pipe = first | sh(B) if mid == "nothing" else first | sh(C_) | sh(B)
    await run(w, pipe, form)


def parent(s):
    "Like program(), with F: read the substitution to its end, f: read a little of it, W: write to it."
    def prog(p):
        path = p.argv[1]
        fd = int(path.rsplit("/", 1)[1])
        for c in s:
            if c == "f":
                yield ("read", fd, 3000)
            elif c == "F":
                while (yield ("read", fd, 65536)):
                    pass
            elif c == "W":
                yield ("write", fd, OUT)
            elif c == "k":
                yield ("close", fd)
            elif c == "R":
                while (yield ("read", 0, 65536)):
                    pass
            elif c == "r":
                yield ("read", 0, 3000)
            elif c == "o":
                yield ("write", 1, OUT)
            elif c == "e":
                yield ("write", 2, OUT)
        return 0
    return prog


def parents(n, ops):
    res = []
    for k in range(n + 1):
        for t in itertools.product(ops, repeat=k):
            s = "".join(t)
            # nothing after the end or the close of the substitution
            if any(c in s and any(x in s[s.index(c) + 1:] for x in "fFWk") for c in "Fk") or s.count("R") > 1 \
                    or ("R" in s and "r" in s[s.index("R"):]):
                continue
            res.append(s)
    return res


@dscn("fill-sub", "C11", max_time=1.0, pipe_size=PIPE, check_cancelled=lambda w, r: [])
async def _(w, sh):
    "A process substitution: what the command and the substituted command do x how it is used."
    write = w.data_choice("direction", ["from", "to"])
    n = 3 if w.budget_given.get("wide") else 2
    p = pick(w, "command", parents(n, "WkRroe" if write == "to" else "fFkRroe"), ["", "o", "W", "We"] if write == "to" else ["", "o", "F", "fo"])
    c = pick(w, "substituted", scripts(2, "rRoec"), ["", "o", "R", "oo", "Ro"])
    inp = pick(w, "input", ["empty", "big"], ["big"])
    form = pick(w, "use", ["await", "ctx", "iter-early"], ["await"])
    w.programs[A] = parent(p)
    w.programs[B] = program(c)
    sub = sh(B)
    if write == "to":
        sub = sub.writable.stdout(bytearray())
    else:
        sub = sub.stdin(INPUTS[inp])
    await run(w, sh(A, sub).stdin(INPUTS[inp]), form)
