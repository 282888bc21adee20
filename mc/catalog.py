"""Scenario catalogue: user programs over the public shellous API."""

import asyncio
import io
import logging
import os
import signal
import sys
from pathlib import Path

from . import world as W

sys.path.insert(0, os.environ.get("SHELLOUS_REPO", "/repo"))

import shellous  # noqa: E402
from shellous import ResultError, sh as _sh  # noqa: E402

SC = {}


# ---------------------------------------------------------------------------
# simulated programs
# ---------------------------------------------------------------------------
def out(*chunks, code=0, fd=1):
    "Write chunks, exit."
    def prog(p):
        for c in chunks:
            if isinstance(c, tuple):
                yield ("write", c[0], c[1])
            elif isinstance(c, (int, float)):
                yield ("sleep", c)
            else:
                yield ("write", fd, c)
        return code
    return prog


def cat(n=65536, code=0, limit=None, tag=b""):
    "Copy stdin to stdout; with `limit`, stop after that many reads."
    def prog(p):
        k = 0
        while limit is None or k < limit:
            data = yield ("read", 0, n)
            if not data:
                break
            k += 1
            yield ("write", 1, tag + data)
        return code
    return prog


def sink(n=65536, code=0, limit=None, close=False, after=0):
    "Read stdin, write nothing."
    def prog(p):
        k = 0
        while limit is None or k < limit:
            data = yield ("read", 0, n)
            if not data:
                break
            k += 1
        if close:
            yield ("close", 0)
        if after:
            yield ("sleep", after)
        return code
    return prog


def nop(code=0):
    def prog(p):
        return code
        yield
    return prog


def hang(first=(), traps=None):
    "Write something, then run forever until a signal arrives."
    def prog(p):
        if traps:
            p.traps.update(traps)
        for c in first:
            yield ("write", 1, c)
        yield ("hang",)
    return prog


def slow_term(delay, code=9):
    def handler(p):
        yield ("sleep", delay)
        return code
    return {signal.SIGTERM: handler, signal.SIGINT: handler}


def note_term(code=9):
    def handler(p):
        yield ("write", 1, b"bye")
        return code
    return {signal.SIGTERM: handler, signal.SIGINT: handler}


IGNORE_TERM = {signal.SIGTERM: "ignore", signal.SIGINT: "ignore"}


def self_kill(sig):
    def prog(p):
        yield ("kill", sig)
    return prog


def detach(delay, code=0, hold=(1,)):
    "Leave a grandchild behind that keeps descriptors open for a while."
    def sub(p):
        yield ("sleep", delay)
    def prog(p):
        yield ("fork", sub, hold)
        return code
    return prog


def close_outputs_then(delay, code=0):
    def prog(p):
        yield ("close", 1)
        yield ("close", 2)
        yield ("sleep", delay)
        return code
    return prog


# ---------------------------------------------------------------------------
class Scn:
    split_exit = False
    pipe_size = None
    stall = False
    mid = False
    log_level = logging.WARNING
    style = "await"  # how a cancellation must show up
    faults = ()
    max_time = 0.0  # virtual time allowed without deviations of the clock
    use_audit = True
    data = False  # True: enumerates input values, only used by the property that names it

    def __init__(self, name, programs, body, *, tags=(), **kw):
        self.name = name
        self.programs = programs
        self.body = body
        self.tags = set(tags)
        for k, v in kw.items():
            setattr(self, k, v)
        assert name not in SC, name
        SC[name] = self

    def setup(self, w):
        w.programs.update(self.programs)
        w.sh = _sh.set(audit_callback=_audit_cb(w)) if self.use_audit else _sh
        if hasattr(self, "prepare"):
            self.prepare(w)

    async def main(self, w):
        return await self.body(w, w.sh)


def _audit_cb(w):
    def cb(phase, info):
        run = info["runner"]
        a = w.find(run.pid) if run.pid else None
        w.audit.append((
            "AUDIT", phase, id(run), run.name, info["failure"], info["signal"],
            a.state if a else None, a.name if a else None,
        ))
        seen = w.user.setdefault("runners", {})
        if id(run) not in seen:
            seen[id(run)] = run  # keep alive: ids stay unique
            from .d_handle import watch
            watch(w, run)
    return cb


def scn(name, programs, **kw):
    def deco(f):
        Scn(name, programs, f, **kw)
        return f
    return deco


A, B, C_, D = "/mc/a", "/mc/b", "/mc/c", "/mc/d"
MISSING = "/mc/missing"

# ---------------------------------------------------------------------------
# single commands, awaited
# ---------------------------------------------------------------------------


@scn("cmd-out", {A: out(b"ab", (2, b"E"), b"cd")}, tags={"cmd"})
async def _(w, sh):
    return await sh(A)


@scn("cmd-fail", {A: out(b"ab", (2, b"E"), code=3)}, tags={"cmd"})
async def _(w, sh):
    return await sh(A)


@scn("cmd-input", {A: cat(2)}, tags={"cmd"})
async def _(w, sh):
    return await sh(A).stdin("hello")


BIG = b"0123456789abcdef" * 4096 * 2  # 128 KiB


@scn("cmd-input-early", {A: sink(3, limit=1)}, tags={"cmd"})
async def _(w, sh):
    return await sh(A).stdin(BIG).result


@scn("cmd-input-close", {A: sink(3, limit=1, close=True, after=1.0, code=4)}, tags={"cmd"},
     max_time=1.0)
async def _(w, sh):
    return (await sh(A).stdin(BIG).result).exit_code


@scn("cmd-hang-term", {A: hang([b"x"])}, tags={"cmd", "hang"}, pipe_size=4096,
     max_time=5.0, max_time_cancel=5.0, raises="TimeoutError")
async def _(w, sh):
    return await sh(A).stdin(BIG).set(timeout=5.0)


@scn("cmd-slow-term", {A: hang([b"x"], slow_term(1.0))}, tags={"cmd", "hang"},
     max_time=6.0, max_time_cancel=6.0, raises="TimeoutError")
async def _(w, sh):
    return await sh(A).set(timeout=5.0)


@scn("cmd-ignore-term", {A: hang([b"x"], IGNORE_TERM)}, tags={"cmd", "hang"},
     max_time=8.0, max_time_cancel=8.0, raises="TimeoutError")
async def _(w, sh):
    return await sh(A).set(timeout=5.0)


@scn("cmd-grandchild", {A: detach(1.0)}, tags={"cmd"}, max_time=1.0)
async def _(w, sh):
    return await sh(A)


@scn("cmd-closed-early", {A: close_outputs_then(1.0, 5)}, tags={"cmd"}, max_time=1.0)
async def _(w, sh):
    return (await sh(A).result).exit_code


@scn("cmd-missing", {}, tags={"cmd", "launch"})
async def _(w, sh):
    return await sh(MISSING)


@scn("cmd-which-missing", {}, tags={"cmd", "launch"})
async def _(w, sh):
    return await sh("shellous-no-such-program")


@scn("cmd-timeout-ok", {A: out(b"a", 1.0, b"b")}, tags={"cmd", "timeout"}, max_time=1.0)
async def _(w, sh):
    return await sh(A).set(timeout=2.0)


@scn("cmd-sinks", {A: out(b"ab", (2, b"E"), b"cd")}, tags={"cmd"})
async def _(w, sh):
    o, e = io.BytesIO(), bytearray()
    r = await sh(A).stdout(o).stderr(e)
    return (r, o.getvalue(), bytes(e))


@scn("cmd-reader-writer", {A: cat(4)}, tags={"cmd"})
async def _(w, sh):
    rd = asyncio.StreamReader()
    rd.feed_data(b"hel")
    rd.feed_data(b"lo")
    rd.feed_eof()
    return await sh(A).stdin(rd)


@scn("cmd-catch-cancel", {A: hang([b"x"])}, tags={"cmd", "hang"}, style="resulterror",
     max_time=5.0, max_time_cancel=5.0, raises="ResultError")
async def _(w, sh):
    return await sh(A).set(timeout=5.0, _catch_cancelled_error=True)


# ---------------------------------------------------------------------------
# async with
# ---------------------------------------------------------------------------


@scn("ctx-read", {A: out(b"ab", b"cd")}, tags={"ctx"}, style="ctx")
async def _(w, sh):
    async with sh(A).stdout(sh.CAPTURE) as run:
        w.user["run"] = run
        data = await run.stdout.read()
    code = run.result().exit_code
    return (data, code)


@scn("ctx-write", {A: cat(3)}, tags={"ctx"}, style="ctx")
async def _(w, sh):
    async with sh(A).stdin(sh.CAPTURE).stdout(sh.CAPTURE) as run:
        w.user["run"] = run
        run.stdin.write(b"xyz")
        got = await run.stdout.readexactly(3)
        run.stdin.close()
        rest = await run.stdout.read()
    code = run.result().exit_code
    return (got + rest, code)


class UserError(Exception):
    pass


@scn("ctx-raise", {A: hang([b"x"])}, tags={"ctx", "hang", "userraise"}, style="ctx",
     raises="UserError")
async def _(w, sh):
    async with sh(A).stdout(sh.CAPTURE) as run:
        w.user["run"] = run
        await run.stdout.readexactly(1)
        raise UserError()
    run.result()


@scn("ctx-raise-ignore", {A: hang([], IGNORE_TERM)}, tags={"ctx", "hang", "userraise"}, style="ctx",
     raises="UserError", max_time=3.0, max_time_cancel=3.0)
async def _(w, sh):
    async with sh(A) as run:
        w.user["run"] = run
        raise UserError()
    run.result()


@scn("ctx-hang", {A: hang([b"x"], slow_term(0.5))}, tags={"ctx", "hang"}, style="ctx",
     raises="TimeoutError", max_time=4.5, max_time_cancel=4.5)
async def _(w, sh):
    async with sh(A).set(timeout=4.0) as run:
        w.user["run"] = run
    return run.result().exit_code


# ---------------------------------------------------------------------------
# iteration
# ---------------------------------------------------------------------------


@scn("iter-all", {A: out(b"a\nb", b"b\nc")}, tags={"iter"})
async def _(w, sh):
    return [line async for line in sh(A)]


@scn("iter-break", {A: hang([b"a\n", b"b\n"])}, tags={"iter", "hang"})
async def _(w, sh):
    it = aiter(sh(A))
    try:
        async for line in it:
            w.user.setdefault("lines", []).append(line)
            break
    finally:
        await it.aclose()
    return w.user.get("lines")


@scn("iter-raise", {A: hang([b"a\n", b"b\n"], slow_term(1.0))}, tags={"iter", "hang", "userraise"},
     raises="UserError", max_time=1.0, max_time_cancel=1.0)
async def _(w, sh):
    it = aiter(sh(A))
    try:
        async for line in it:
            raise UserError()
    finally:
        await it.aclose()


@scn("iter-fail", {A: out(b"a\nb", code=2)}, tags={"iter"})
async def _(w, sh):
    return [line async for line in sh(A)]


# ---------------------------------------------------------------------------
# pipelines
# ---------------------------------------------------------------------------


@scn("pipe2", {A: out(b"ab", b"cd"), B: cat(3, tag=b".")}, tags={"pipe"})
async def _(w, sh):
    return await (sh(A) | sh(B))


@scn("pipe3", {A: out(b"abc"), B: cat(8), C_: cat(8)}, tags={"pipe"})
async def _(w, sh):
    return await (sh(A) | sh(B) | sh(C_))


@scn("pipe2-in", {A: cat(3), B: cat(8)}, tags={"pipe"})
async def _(w, sh):
    return await ("hello" | sh(A) | sh(B))


@scn("pipe-early-reader", {A: out(*[BIG[:4096]] * 6), B: sink(16, limit=1)}, tags={"pipe", "memberfail"},
     pipe_size=4096)
async def _(w, sh):
    return (await (sh(A) | sh(B)).result).exit_code


@scn("pipe-fail-first", {A: out(b"a", (2, b"EA"), code=3), B: cat(8)}, tags={"pipe", "memberfail"})
async def _(w, sh):
    return (await (sh(A) | sh(B)).result).exit_code


@scn("pipe-fail-last", {A: out(b"a"), B: cat(8, code=5)}, tags={"pipe", "memberfail"})
async def _(w, sh):
    return await (sh(A) | sh(B))


@scn("pipe-hang", {A: hang([b"a"]), B: cat(8)}, tags={"pipe", "hang"}, cancel_only=True)
async def _(w, sh):
    return await (sh(A) | sh(B))


@scn("pipe-hang-slow", {A: hang([b"a"], slow_term(1.0)), B: hang([], IGNORE_TERM)},
     tags={"pipe", "hang"}, cancel_only=True, max_time_cancel=3.0)
async def _(w, sh):
    return await (sh(A) | sh(B))


for _pos in range(2):
    @scn(f"pipe2-missing{_pos}", {A: cat(8)}, tags={"pipe", "launch"})
    async def _(w, sh, pos=_pos):
        cmds = [sh(A), sh(A)]
        cmds[pos] = sh(MISSING)
        return await (cmds[0] | cmds[1])

    @scn(f"pipe2-missing{_pos}-ctx", {A: cat(8)}, tags={"pipe", "launch"}, style="ctx")
    async def _(w, sh, pos=_pos):
        cmds = [sh(A), sh(A)]
        cmds[pos] = sh(MISSING)
        pipe = (cmds[0] | cmds[1]).stdin(sh.CAPTURE).stdout(sh.CAPTURE)
        async with pipe as run:
            w.user["run"] = run
            run.stdin.close()
            await run.stdout.read()
        return run.result()

    @scn(f"pipe2-missing{_pos}-iter", {A: hang([b"x\n"])}, tags={"pipe", "launch"})
    async def _(w, sh, pos=_pos):
        cmds = [sh(A), sh(A)]
        cmds[pos] = sh(MISSING)
        return [x async for x in (cmds[0] | cmds[1])]

for _pos in range(3):
    @scn(f"pipe3-missing{_pos}", {A: hang([b"x"])}, tags={"pipe", "launch"})
    async def _(w, sh, pos=_pos):
        cmds = [sh(A), sh(A), sh(A)]
        cmds[pos] = sh(MISSING)
        return await (cmds[0] | cmds[1] | cmds[2])

    @scn(f"pipe3-missing{_pos}-prompt", {A: cat(8)}, tags={"pipe", "launch", "prompt"}, style="prompt")
    async def _(w, sh, pos=_pos):
        cmds = [sh(A), sh(A), sh(A)]
        cmds[pos] = sh(MISSING)
        async with (cmds[0] | cmds[1] | cmds[2]).prompt("?") as cli:
            await cli.send("x")
            return await cli.read_all()


@scn("pipe-ctx", {A: cat(8), B: cat(8)}, tags={"pipe", "ctx"}, style="ctx")
async def _(w, sh):
    pipe = (sh(A) | sh(B)).stdin(sh.CAPTURE).stdout(sh.CAPTURE)
    async with pipe as run:
        w.user["run"] = run
        run.stdin.write(b"abc")
        run.stdin.close()
        data = await run.stdout.read()
    code = run.result().exit_code
    return (data, code)


@scn("pipe-ctx-raise", {A: hang([b"ab"]), B: cat(8)}, tags={"pipe", "ctx", "hang", "userraise"},
     style="ctx")
async def _(w, sh):
    async with (sh(A) | sh(B)).stdout(sh.CAPTURE) as run:
        w.user["run"] = run
        await run.stdout.readexactly(2)
        raise UserError()
    run.result()


@scn("pipe-iter", {A: out(b"a\nb", b"\nc\n"), B: cat(8)}, tags={"pipe", "iter"})
async def _(w, sh):
    return [x async for x in (sh(A) | sh(B))]


@scn("pipe-badredirect", {A: hang([b"x"]), B: cat(8)}, tags={"pipe", "launch"})
async def _(w, sh):
    return await (sh(A) | sh(B).stdout(Path("/proc/no/such/dir/file")))


@scn("pipe-timeout", {A: hang([b"x"]), B: cat(8)}, tags={"pipe", "hang", "timeout"}, max_time=2.0, max_time_cancel=2.0)
async def _(w, sh):
    return await (sh(A).set(timeout=2.0) | sh(B))


# ---------------------------------------------------------------------------
# process substitution
# ---------------------------------------------------------------------------


def reader_prog(p):
    "Open argv[1], copy it to stdout."
    fd = yield ("open", p.argv[1], "r")
    if fd is None:
        return 77
    # the inherited descriptor stays open, as in a real process
    while True:
        data = yield ("read", fd, 8)
        if not data:
            break
        yield ("write", 1, data)
    return 0


def reader2_prog(p):
    "Open argv[1:], copy them to stdout one after the other."
    for path in p.argv[1:]:
        fd = yield ("open", path, "r")
        if fd is None:
            return 77
        while True:
            data = yield ("read", fd, 8)
            if not data:
                break
            yield ("write", 1, data)
    return 0


def writer_prog(p):
    fd = yield ("open", p.argv[1], "w")
    if fd is None:
        return 77
    yield ("write", fd, b"xyz")
    return 0


def ignore_args(p):
    return 0
    yield


@scn("sub-read", {A: reader_prog, B: out(b"ab", b"c")}, tags={"procsub"})
async def _(w, sh):
    return await sh(A, sh(B))


@scn("sub-write", {A: writer_prog, B: sink(8)}, tags={"procsub"})
async def _(w, sh):
    return await sh(A, sh(B).writable)


@scn("sub-pipe", {A: reader_prog, B: out(b"ab"), C_: cat(8)}, tags={"procsub"})
async def _(w, sh):
    return await sh(A, sh(B) | sh(C_))


@scn("sub-two", {A: reader2_prog, B: out(b"ab"), C_: out(b"cd")}, tags={"procsub"})
async def _(w, sh):
    return await sh(A, sh(B), sh(C_))


@scn("sub-parent-early", {A: ignore_args, B: out(*[BIG[:4096]] * 4)}, tags={"procsub"}, pipe_size=4096)
async def _(w, sh):
    return await sh(A, sh(B).set(exit_codes={0, -13}))


@scn("sub-child-missing", {A: reader_prog}, tags={"procsub", "launch"})
async def _(w, sh):
    return await sh(A, sh(MISSING))


@scn("sub-parent-missing", {B: out(b"ab")}, tags={"procsub", "launch"})
async def _(w, sh):
    return await sh(MISSING, sh(B))


@scn("sub-parent-which-missing", {B: out(b"ab")}, tags={"procsub", "launch"})
async def _(w, sh):
    return await sh("shellous-no-such-program", sh(B), sh(B).writable)


@scn("sub-child-fails", {A: reader_prog, B: out(b"ab", code=3)}, tags={"procsub"})
async def _(w, sh):
    return await sh(A, sh(B))


@scn("sub-hang", {A: reader_prog, B: hang([b"ab"], slow_term(1.0))}, tags={"procsub", "hang"},
     cancel_only=True, max_time_cancel=1.0)
async def _(w, sh):
    return await sh(A, sh(B))


# ---------------------------------------------------------------------------
# prompt
# ---------------------------------------------------------------------------


def prompter(p):
    "Print prompt, echo each line back with a marker."
    yield ("write", 1, b"hi\n> ")
    buf = b""
    while True:
        data = yield ("read", 0, 64)
        if not data:
            return 0
        buf += data
        while b"\n" in buf:
            line, buf = buf.split(b"\n", 1)
            if line == b"quit":
                return 0
            yield ("write", 1, b"<" + line + b">\n")
            yield ("write", 1, b"> ")


@scn("prompt", {A: prompter}, tags={"prompt"}, style="prompt")
async def _(w, sh):
    async with sh(A).prompt("> ") as cli:
        g, _m = await cli.expect()
        a = await cli.command("one")
    code = cli.result.exit_code
    return (g, a, code)


@scn("prompt-quit", {A: prompter}, tags={"prompt"}, style="prompt")
async def _(w, sh):
    async with sh(A).prompt("> ") as cli:
        await cli.expect()
        await cli.send("quit")
        rest = await cli.read_all()
    return (rest, cli.at_eof, cli.result.exit_code)


@scn("prompt-timeout", {A: hang([b"hi"])}, tags={"prompt", "hang"}, style="prompt",
     raises="TimeoutError", max_time=2.0, max_time_cancel=2.0)
async def _(w, sh):
    async with sh(A).prompt("> ", timeout=2.0) as cli:
        try:
            await cli.expect()
        except asyncio.TimeoutError:
            w.user["pending"] = cli.pending
            raise


@scn("prompt-raise", {A: prompter}, tags={"prompt", "userraise"}, style="prompt",
     raises="UserError")
async def _(w, sh):
    async with sh(A).prompt("> ") as cli:
        await cli.expect()
        raise UserError()


@scn("prompt-pipe", {A: prompter, B: cat(64)}, tags={"prompt", "pipe"}, style="prompt")
async def _(w, sh):
    async with (sh(A) | sh(B)).prompt("> ") as cli:
        g, _m = await cli.expect()
        a = await cli.command("one")
    code = cli.result.exit_code
    return (g, a, code)


# ---------------------------------------------------------------------------
# pty
# ---------------------------------------------------------------------------


@scn("pty-out", {A: out(b"ab", b"cd\n")}, tags={"pty"})
async def _(w, sh):
    return await sh(A).set(pty=shellous.raw())


@scn("pty-cat", {A: cat(64)}, tags={"pty"})
async def _(w, sh):
    return await sh(A).stdin("abc\n").set(pty=shellous.cooked(echo=False))


@scn("pty-hang", {A: hang([b"x"])}, tags={"pty", "hang"}, cancel_only=True)
async def _(w, sh):
    return await sh(A).set(pty=True)


@scn("pty-missing", {}, tags={"pty", "launch"})
async def _(w, sh):
    return await sh(MISSING).set(pty=True)


@scn("pty-which-missing", {}, tags={"pty", "launch"})
async def _(w, sh):
    return await sh("shellous-no-such-program").set(pty=True)


@scn("pty-prompt", {A: prompter}, tags={"pty", "prompt"}, style="prompt")
async def _(w, sh):
    async with sh(A).set(pty=shellous.cooked(echo=False)).prompt("> ") as cli:
        g, _m = await cli.expect()
        a = await cli.command("one")
    code = cli.result.exit_code
    return (g, a, code)


def by_tags(*tags, exclude=()):
    return [s for s in SC.values()
            if (any(t in s.tags for t in tags) if tags else not s.data)
            and not any(t in s.tags for t in exclude)]


# ---------------------------------------------------------------------------
# functional expectations of the undisturbed runs
# ---------------------------------------------------------------------------
EXPECT = {
    "cmd-out": "abcd",
    "cmd-input": "hello",
    "cmd-closed-early": 5,
    "cmd-grandchild": "",
    "cmd-sinks": ("", b"abcd", b"E"),
    "cmd-reader-writer": "hello",
    "ctx-read": (b"abcd", 0),
    "ctx-write": (b"xyz", 0),
    "iter-all": ["a\n", "bb\n", "c"],
    "iter-break": ["a\n"],
    "iter-fail": ["a\n", "b"],
    "pipe3": "abc",
    "pipe2-in": "hello",
    "pipe-ctx": (b"abc", 0),
    "pipe-iter": ["a\n", "b\n", "c\n"],
    "sub-read": "abc",
    "sub-write": "",
    "sub-pipe": "ab",
    "sub-two": "abcd",
    "sub-parent-early": "",
    "prompt": ("hi\n", "<one>\n", 0),
    "prompt-quit": ("", True, 0),
    "prompt-pipe": ("hi\n", "<one>\n", 0),
    "pty-out": "abcd\n",
    "pty-cat": "abc\r\n",
    "pty-prompt": ("hi\r\n", "<one>\r\n", 0),
}
RAISES = {
    "cmd-fail": "ResultError",
    "pipe-fail-last": "ResultError",
    "sub-child-fails": "ResultError",
    "pipe-ctx-raise": "UserError",
    "cmd-input-early": ("BrokenPipeError",),
    "cmd-input-close": ("BrokenPipeError",),
}
def _check_pipe2(w, r):
    if r.exc is not None or not r.value.startswith(".") or r.value.replace(".", "") != "abcd":
        return [f"expected 'abcd' passed through the second command, got {r.value!r} {r.exc!r}"]


SC["pipe2"].check = _check_pipe2
for _n, _v in EXPECT.items():
    SC[_n].expect = _v
for _n, _v in RAISES.items():
    SC[_n].raises = _v
for _s in SC.values():
    if "launch" in _s.tags:
        _s.own_errors = ("FileNotFoundError",)
        if not hasattr(_s, "raises"):
            _s.raises = ("FileNotFoundError",)
    if _s.name.startswith("cmd-input-"):
        _s.own_errors = ("BrokenPipeError",)

SC["sub-child-fails"].own_errors = ("ResultError",)
