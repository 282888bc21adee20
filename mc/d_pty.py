"""C25: commands on a pseudo-terminal: data, end of input, end of output, controlling terminal, clean-up.

The terminal is a real one (the kernel's line discipline); the process on it is simulated.
"""

import asyncio
import contextlib
import io
import os
import select
import signal
import struct
import termios
import fcntl
from pathlib import Path

import shellous
from shellous import ResultError
from shellous.redirect import Redirect

from . import world as W
from .catalog import A, B, D, MISSING, UserError, cat
from .data import cmp, dscn, pick, tmpdir

NOWHICH = "shellous-no-such-program"
EOT = b"\x04"


def pattern(n):
    line = b"0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ-+"
    return (b"".join(b"%05d" % i + line + b"\n" for i in range(n // 70 + 1)))[:n]


MODES = ["true", "cooked", "noecho", "raw", "cbreak", "size"]


def mode_option(mode):
    return {
        "true": True,
        "cooked": shellous.cooked(),
        "noecho": shellous.cooked(echo=False),
        "raw": shellous.raw(),
        "cbreak": shellous.cbreak(),
        "size": shellous.cooked(rows=7, cols=31, echo=False),
    }[mode]


ECHO = {"true", "cooked"}
CANON = {"true", "cooked", "noecho", "size"}
POST = {"true", "cooked", "noecho", "cbreak", "size"}


def shown(mode, data):
    "What the terminal makes of what the process writes."
    return data.replace(b"\n", b"\r\n") if mode in POST else data


def describe(p):
    "What the program finds on its three standard descriptors."
    res = {}
    for n in (0, 1, 2):
        h = p.fds.get(n)
        res[n] = os.ttyname(h) if h is not None and os.isatty(h) else None
    h = next((p.fds[n] for n in (0, 1, 2) if res[n]), None)
    if h is not None:
        at = termios.tcgetattr(h)
        res["echo"] = bool(at[3] & termios.ECHO)
        res["canon"] = bool(at[3] & termios.ICANON)
        res["post"] = bool(at[1] & termios.OPOST)
        res["size"] = struct.unpack("HHHH", fcntl.ioctl(h, termios.TIOCGWINSZ, b"\0" * 8))[:2]
    res["ctty"] = [path for what, path, *_ in (p.w.preexec_of(p) or []) if what == "open"]
    res["session"] = p.start_new_session
    return res


def check_terminal(w, mode, where=(0, 1, 2)):
    seen = w.user["tty"]
    names = {seen[n] for n in where}
    cmp(w, "streams on one terminal", len(names) == 1 and None not in names or seen, True)
    cmp(w, "streams elsewhere", [n for n in (0, 1, 2) if n not in where and seen[n]], [])
    cmp(w, "controlling terminal", seen["ctty"], sorted(n for n in names if n))
    cmp(w, "own session", seen["session"], True)
    cmp(w, "echo", seen["echo"], mode in ECHO)
    cmp(w, "canonical", seen["canon"], mode in CANON)
    cmp(w, "output processing", seen["post"], mode in POST)
    if mode == "size":
        cmp(w, "size", tuple(seen["size"]), (7, 31))


async def use(w, cmd, how):
    "Run; returns (output, error output, exit status)."
    if how == "result":
        r = await cmd.result
        return r.output_bytes, r.error_bytes, r.exit_code
    if how == "await":
        try:
            return (await cmd.set(encoding="latin-1")).encode("latin-1"), b"", 0
        except ResultError as ex:
            return ex.result.output_bytes, b"", ex.result.exit_code
    if how == "sink":
        buf = bytearray()
        r = await cmd.stdout(buf).result
        return bytes(buf), b"", r.exit_code
    if how == "file":
        path = os.path.join(tmpdir(w), "out")
        r = await cmd.stdout(Path(path)).result
        with open(path, "rb") as f:
            return f.read(), b"", r.exit_code
    if how == "ctx":
        async with cmd.stdout(Redirect.CAPTURE) as run:
            data = await run.stdout.read()
        r = run.result(check=False)
        return data, b"", r.exit_code
    if how == "ctx-n":
        data = b""
        async with cmd.stdout(Redirect.CAPTURE) as run:
            while True:
                d = await run.stdout.read(3)
                if not d:
                    break
                data += d
        return data, b"", run.result(check=False).exit_code
    if how == "iter":
        text = ""
        async for line in cmd.set(encoding="latin-1"):
            text += line
        return text.encode("latin-1"), b"", None
    if how == "prompt":
        async with cmd.set(encoding="latin-1").prompt() as cli:
            data = await cli.read_all()
        return data.encode("latin-1"), b"", cli.result.exit_code
    raise AssertionError(how)


USES = ["await", "result", "sink", "ctx", "ctx-n", "iter", "prompt"]


@dscn("term-out", "C25", max_time=3.0)
async def _(w, sh):
    "Everything written before the exit arrives, in order, whatever the pieces."
    mode = pick(w, "mode", MODES, ["true", "raw"])
    how = pick(w, "use", USES, ["await", "ctx", "iter"])
    parts = pick(w, "writes", [
        [], [(1, b"a")], [(1, b"a\n")], [(1, b"ab"), (1, b"cd\n")], [(1, b"a\n"), (2, b"b\n"), (1, b"c")],
        [(2, b"x")], [(1, b"\r\n\n"), (1, b"\xff\x00z")], [(1, pattern(5000))], [(1, pattern(4095)), (2, b"END")],
        [(1, b"k" * 30000)],
    ], [[(1, b"a\n"), (2, b"b\n"), (1, b"c")], [(1, pattern(5000))]])
    end = pick(w, "end", ["exit", "exit7", "kill", "close-wait"], ["exit", "close-wait"])

    def prog(p):
        w.user["tty"] = describe(p)
        for n, (fd, d) in enumerate(parts):
            yield ("write", fd, d)
        if end == "close-wait":  # gives up the terminal well before it exits
            for fd in (0, 1, 2):
                yield ("close", fd)
            yield ("sleep", 0.3)
        if end == "kill":
            yield ("kill", signal.SIGKILL)
        return 7 if end == "exit7" else 0

    w.programs[A] = prog
    out, err, code = await use(w, sh(A).set(pty=mode_option(mode)), how)
    want = shown(mode, b"".join(d for _, d in parts))
    check_terminal(w, mode)
    cmp(w, "output", out, want)
    cmp(w, "error output", err, b"")
    if code is not None:
        cmp(w, "exit code", code, {"exit7": 7, "kill": -9}.get(end, 0))


def source(w, kind, data):
    if kind == "bytes":
        return data
    if kind == "str":
        return data.decode()
    if kind == "bytearray":
        return bytearray(data)
    if kind == "bytesio":
        return io.BytesIO(data)
    if kind == "stringio":
        return io.StringIO(data.decode())
    rd = asyncio.StreamReader()

    async def feed():
        few = max(1, len(data) // 20)
        step = {"reader": len(data) or 1, "reader1": 1 if len(data) < 200 else 100, "reader-slow": max(2, few)}[kind]
        for i in range(0, len(data), step):
            if kind == "reader-slow":
                await asyncio.sleep(0.1)
            rd.feed_data(data[i:i + step])
            await asyncio.sleep(0)
        rd.feed_eof()

    w.user.setdefault("feeders", []).append(asyncio.create_task(feed()))
    return rd


async def stop_feeders(w):
    for t in w.user.get("feeders", []):
        t.cancel()
    await asyncio.gather(*w.user.get("feeders", []), return_exceptions=True)


@dscn("term-in", "C25", max_time=8.0)
async def _(w, sh):
    "Configured input arrives and is followed by the terminal's end-of-file."
    mode = pick(w, "mode", ["true", "noecho", "raw", "cbreak"], ["true", "noecho", "raw"])
    kind = pick(w, "source", ["bytes", "str", "bytearray", "bytesio", "stringio", "reader", "reader1", "reader-slow"],
                ["bytes", "reader", "reader-slow"])
    text = pick(w, "input", [b"", b"a", b"a\n", b"ab\ncd", b"ab\ncd\n", b"\n", b"\n\n", b"x" * 100 + b"\nyy",
                             (b"l" * 63 + b"\n") * 100, (b"l" * 63 + b"\n") * 90 + b"tail"],
                [b"", b"a", b"ab\ncd\n"])
    if mode in ("raw", "cbreak") and len(text) > 4000:
        text = text[:3000]
    n = pick(w, "read size", [1, 2, 4096], [4096]) if len(text) < 200 else 4096
    slow = w.data_choice("reader starts", [0, 0.5]) if kind in ("bytes", "reader") else 0
    more = pick(w, "after end-of-file", ["exit", "write", "read again"], ["write", "read again"])

    def prog(p):
        w.user["tty"] = describe(p)
        if slow:
            yield ("sleep", slow)
        got = bytearray()
        w.user["read"] = got
        while True:
            if mode in ("raw", "cbreak") and len(got) >= len(text):
                break
            d = yield ("read", 0, n)
            if not d:
                w.user["eof"] = True
                break
            got += d
        if more == "write":
            yield ("write", 1, b"<%d>\n" % len(got))
        if more == "read again":
            yield ("sleep", 1.0)
            w.user["again"] = bool(select.select([p.fds[0]], [], [], 0)[0])
        return 0

    w.programs[A] = prog
    src = source(w, kind, text)
    try:
        out, err, code = await use(w, sh(A).stdin(src).set(pty=mode_option(mode)), "result")
    finally:
        await stop_feeders(w)
    cmp(w, "input read", bytes(w.user["read"]), text)
    cmp(w, "end of file seen", w.user.get("eof", False), mode in CANON)
    if more == "read again":
        cmp(w, "something follows the end of file", w.user["again"], False)
    check_terminal(w, mode)
    echo = shown(mode, text) if mode in ECHO else b""
    tail = shown(mode, b"<%d>\n" % len(text)) if more == "write" else b""
    if len(text) < 4000:
        cmp(w, "output", out, echo + tail)
    else:
        cmp(w, "end of output", out[len(out) - len(tail):], tail)
    cmp(w, "exit code", code, 0)


@dscn("term-early", "C25", max_time=5.0)
async def _(w, sh):
    "The process does not read (all of) its input; its output still arrives and its exit is no error."
    mode = pick(w, "mode", ["true", "noecho", "raw"], ["noecho", "raw"])
    kind = pick(w, "source", ["bytes", "reader", "reader-slow"], ["bytes", "reader-slow"])
    size = pick(w, "input", [0, 1, 3, 2000, 20000, 200000], [3, 20000])
    nread = w.data_choice("reads", [0, 1])
    when = w.data_choice("exit after", [0, 0.25])
    code = pick(w, "code", [0, 4], [4])
    text = (b"q" * 39 + b"\n") * (size // 40) if size >= 40 else b"q\nr"[:size]

    def prog(p):
        w.user["tty"] = describe(p)
        for _ in range(nread if size or mode == "noecho" or mode == "true" else 0):
            yield ("read", 0, 10)
        yield ("write", 1, b"bye\n")
        if when:
            yield ("sleep", when)
        return code

    w.programs[A] = prog
    src = source(w, kind, text)
    try:
        out, err, got = await use(w, sh(A).stdin(src).set(pty=mode_option(mode)), "result")
        w.user["outcome"] = "ok"
        cmp(w, "exit code", got, code)
        tail = shown(mode, b"bye\n")
        if mode in ECHO:
            cmp(w, "output", tail in out or out, True)
        else:
            cmp(w, "output", out, tail)
    except (BrokenPipeError, ConnectionResetError) as ex:
        w.user["outcome"] = type(ex).__name__
        cmp(w, "input was left", size > 0, True)
    finally:
        await stop_feeders(w)


@dscn("term-descendant", "C25", max_time=5.0)
async def _(w, sh):
    "The process exits while a descendant still has the terminal."
    mode = w.data_choice("mode", ["true", "raw"])
    how = w.data_choice("use", ["await", "ctx", "iter", "prompt"])
    hold = w.data_choice("descendant", [0.2, None])
    says = w.data_choice("says", [False, True])
    nohup = w.data_choice("ignores hang-up", [False, True])
    if hold is None and nohup:
        return cmp(w, "not applicable", 0, 0)

    def keeper(q):
        if nohup:
            q.traps[signal.SIGHUP] = "ignore"
        if says:
            yield ("write", 1, b"k")
        if hold is None:
            yield ("hang",)
        yield ("sleep", hold)
        yield ("write", 1, b"z")
        return 0

    def prog(p):
        w.user["tty"] = describe(p)
        yield ("write", 1, b"a\n")
        yield ("fork", keeper, [0, 1, 2])
        yield ("sleep", 0.1)
        yield ("write", 1, b"b\n")
        return 0

    w.programs[A] = prog
    out, err, code = await use(w, sh(A).set(pty=mode_option(mode)), how)
    # what is still to come when the process exits arrives as long as the terminal lives on
    cmp(w, "output", out, shown(mode, b"".join(d for _, _, d in w.order)))
    cmp(w, "written", sorted(b"".join(d for _, _, d in w.order)),
        lambda got: sorted(b"a\nb\n") == sorted(x for x in got if x not in b"kz"))


SINKS = ["default", "null", "buffer", "capture", "path", "stdout"]


@dscn("term-redirect", "C25", max_time=3.0)
async def _(w, sh):
    "Standard streams redirected away from the terminal."
    sin = pick(w, "stdin", ["default", "null", "path", "bytes"], ["default", "bytes"])
    sout = w.data_choice("stdout", ["default", "null", "path", "bytearray"])
    serr = pick(w, "stderr", ["default", "null", "path", "bytearray", "buffer"], ["default", "buffer"])
    big = pick(w, "big", [0, 300000], [0])
    mode = "noecho"
    tmp = tmpdir(w)
    cmd = sh(A).set(pty=mode_option(mode))
    if sin == "null":
        cmd = cmd.stdin(Redirect.DEVNULL)
    elif sin == "path":
        Path(tmp, "in").write_bytes(b"from file\n")
        cmd = cmd.stdin(Path(tmp, "in"))
    elif sin == "bytes":
        cmd = cmd.stdin(b"typed\n")
    obuf, ebuf = bytearray(), bytearray()
    cmd = {"default": lambda c: c, "null": lambda c: c.stdout(Redirect.DEVNULL),
           "path": lambda c: c.stdout(Path(tmp, "out")), "bytearray": lambda c: c.stdout(obuf)}[sout](cmd)
    cmd = {"default": lambda c: c, "null": lambda c: c.stderr(Redirect.DEVNULL),
           "path": lambda c: c.stderr(Path(tmp, "err")), "bytearray": lambda c: c.stderr(ebuf),
           "buffer": lambda c: c.stderr(Redirect.BUFFER)}[serr](cmd)

    def prog(p):
        w.user["tty"] = describe(p)
        got = b""
        if sin != "default":
            while True:
                d = yield ("read", 0, 100)
                if not d:
                    break
                got += d
        w.user["read"] = got
        yield ("write", 1, b"out\n" + b"o" * big)
        yield ("write", 2, b"err\n" + b"e" * big)
        return 0

    w.programs[A] = prog
    r = await cmd.result
    where = [n for n, on in ((0, sin in ("default", "bytes")), (1, sout in ("default", "bytearray")),
                             (2, serr == "default" and sout != "path")) if on]
    if where:
        check_terminal(w, mode, where)
    cmp(w, "input", w.user["read"], {"path": b"from file\n", "bytes": b"typed\n"}.get(sin, b""))
    o, e = b"out\n" + b"o" * big, b"err\n" + b"e" * big
    term = (shown(mode, o) if 1 in where else b"") + (shown(mode, e) if 2 in where else b"")
    if sout == "path":
        cmp(w, "output file", Path(tmp, "out").read_bytes(), o + (e if serr == "default" else b""))
    if sout == "bytearray":
        cmp(w, "output", bytes(obuf), term)
    cmp(w, "output", r.output_bytes, term if sout == "default" or serr == "default" and sout == "null" else b"")
    if serr == "path":
        cmp(w, "error file", Path(tmp, "err").read_bytes(), e)
    if serr == "bytearray":
        cmp(w, "error", bytes(ebuf), e)
    if serr == "buffer":
        cmp(w, "error", r.error_bytes, e[:1024])


@dscn("term-fail", "C25", max_time=3.0)
async def _(w, sh):
    "Runs that do not get started, and bodies that fail."
    how = w.data_choice("failure", ["missing", "which", "adapter", "body", "none"])
    inp = w.data_choice("input", ["none", "bytes", "capture", "stuck"])
    style = w.data_choice("use", ["await", "ctx", "iter", "prompt", "pipe"])
    if style == "prompt" and inp in ("bytes", "stuck"):
        return cmp(w, "not applicable", 0, 0)  # a prompt has its input captured

    def adapter(fd):
        if how == "adapter":
            raise UserError("adapter")

    prog = {"missing": MISSING, "which": NOWHICH}.get(how, A)
    opt = adapter if how.startswith("adapter") else shellous.cooked(echo=False)

    def reader(p):
        yield ("write", 1, b"hello\n")
        if inp == "stuck":
            yield ("hang",)
        if inp != "none":
            while True:
                d = yield ("read", 0, 100)
                if not d:
                    break
        return 0

    w.programs[A] = reader
    w.programs[D] = cat(64)
    cmd = sh(prog).set(pty=opt)
    if inp == "bytes":
        cmd = cmd.stdin(b"abc\n")
    elif inp == "capture":
        cmd = cmd.stdin(Redirect.CAPTURE)
    elif inp == "stuck":  # more than the terminal takes, never read
        cmd = cmd.stdin((b"i" * 63 + b"\n") * 400).set(timeout=0.5)
    if style == "pipe":
        cmd = cmd | sh(D)
    got = "ok"
    try:
        if style in ("await", "pipe"):
            if inp == "capture" and how in ("none", "body"):
                cmp(w, "not applicable", 0, 0)
                return
            await cmd
        elif style == "ctx":
            async with cmd.stdout(Redirect.CAPTURE) as run:
                await run.stdout.readline()
                if how == "body":
                    raise UserError("body")
                if inp == "capture":
                    run.stdin.write(EOT)
        elif style == "iter":
            async with contextlib.aclosing(cmd.__aiter__()) as lines:
                async for line in lines:
                    if how == "body":
                        raise UserError("body")
                    if inp == "capture":
                        break
        else:
            async with cmd.prompt() as cli:
                if how == "body":
                    raise UserError("body")
                if inp == "capture":
                    await cli.send("", end="\x04", no_echo=False)
                await cli.read_all()
    except (UserError, FileNotFoundError) as ex:
        got = type(ex).__name__
        if w.faults and not isinstance(ex, UserError):
            raise
    except asyncio.TimeoutError:
        got = "TimeoutError"
    want = {"missing": "FileNotFoundError", "which": "FileNotFoundError", "adapter": "UserError",
            "none": "ok", "body": "ok" if style in ("await", "pipe") else "UserError"}[how]
    if inp == "stuck" and want == "ok":
        want = "TimeoutError"
    if inp == "stuck" and w.hurried and got == "TimeoutError":
        want = got  # the clock overtook the body
    if not (w.faults and got == "ok"):
        cmp(w, "outcome", got, want)


def exact(s, r):
    "What was compared is equal, unless a fault was injected (then the failure must be reported)."
    from . import oracles as O
    from .data import data_exact

    if r.world.faults and r.world.user.get("cmp"):
        return []  # failed in a way that was to be expected
    return O.faults_reported(s, r) if r.world.faults else data_exact(s, r)


def attributes(fd):
    at = termios.tcgetattr(fd)
    return {"iflag": at[0], "oflag": at[1], "cflag": at[2], "lflag": at[3] & ~termios.ECHO, "cc": tuple(at[6][:3]) + (at[6][termios.VEOF],),
            "echo": bool(at[3] & termios.ECHO), "size": struct.unpack("HHHH", fcntl.ioctl(fd, termios.TIOCGWINSZ, b"\0" * 8))[:2]}


@dscn("term-modes", "C25", max_time=3.0)
async def _(w, sh):
    "Terminal functions x sizes, the caller's own functions, Prompt.echo; another terminal at the same time."
    kind = w.data_choice("function", ["cooked", "noecho", "raw", "cbreak", "own-eof", "own-size", "own-raw"])
    rows, cols = w.data_choice("size", [(0, 0), (7, 0), (0, 31), (7, 31)])
    via = w.data_choice("use", ["await", "prompt", "pipe", "shared"])
    switch = w.data_choice("echo", ["leave", "off", "on", "off-on", "off-off"])
    if kind.startswith("own") and (rows or cols) or switch != "leave" and (via != "prompt" or rows or cols):
        return cmp(w, "not applicable", 0, 0)
    calls = []

    def own(fd):
        calls.append(os.ttyname(fd))
        if kind == "own-eof":
            at = termios.tcgetattr(fd)
            at[6][termios.VEOF] = b"\x18"
            termios.tcsetattr(fd, termios.TCSANOW, at)
        elif kind == "own-size":
            fcntl.ioctl(fd, termios.TIOCSWINSZ, struct.pack("HHHH", 3, 5, 0, 0))
        else:
            shellous.raw()(fd)

    sizes = {k: v for k, v in (("rows", rows), ("cols", cols)) if v}
    option = {"cooked": lambda: shellous.cooked(**sizes), "noecho": lambda: shellous.cooked(echo=False, **sizes),
              "raw": lambda: shellous.raw(**sizes), "cbreak": lambda: shellous.cbreak(**sizes)}.get(kind, lambda: own)()
    seen = w.user.setdefault("seen", {})

    def prog(p):
        w.user.setdefault("tty", {})[p.name] = describe(p)
        seen.setdefault(p.name, []).append(attributes(p.fds[0]))
        yield ("write", 1, b"go\n")
        data = yield ("read", 0, 100)
        seen[p.name].append(attributes(p.fds[0]))
        w.user.setdefault("got", {})[p.name] = data
        return 0

    w.programs[A] = w.programs[B] = prog
    cmd = sh(A).set(pty=option)
    if via == "await":
        out = await cmd.stdin(b"hi\n")
    elif via == "pipe":
        w.programs[D] = cat(64)
        out = await (cmd.stdin(b"hi\n") | sh(D))
    elif via == "shared":  # one function, two terminals
        async with cmd.stdin(b"hi\n").stdout(Redirect.CAPTURE) as one:
            await sh(B).set(pty=option).stdin(b"hi\n")
            out = (await one.stdout.read()).decode()
    else:
        async with cmd.prompt() as cli:
            out, _ = await cli.expect("go")
            first = cli.echo
            marks = [first]
            for word in switch.split("-"):
                if word != "leave":
                    cli.echo = word == "on"
                    marks.append(cli.echo)
            w.user["marks"] = marks
            await cli.send("hi", end="\n")
            out += await cli.read_all()
    canon = kind not in ("raw", "cbreak", "own-raw")
    echo = {"cooked": True, "noecho": False, "raw": False, "cbreak": False, "own-eof": True, "own-size": True, "own-raw": False}[kind]
    size = (3, 5) if kind == "own-size" else (rows, cols)
    names = {n: t[0] for n, t in w.user["tty"].items()}
    cmp(w, "terminals", len(set(names.values())), 2 if via == "shared" else 1)
    for name, at in seen.items():
        d = w.user["tty"][name]
        cmp(w, "echo", at[0]["echo"], echo)
        cmp(w, "size", tuple(at[0]["size"]), size)
        cmp(w, "canonical", d["canon"], canon)
        cmp(w, "output processing", d["post"], kind not in ("raw", "own-raw"))
        cmp(w, "end of file character", at[0]["cc"][3] if canon else b"\x04", b"\x18" if kind == "own-eof" else EOT)
        want = {"off": False, "on": True, "off-on": True, "off-off": False}.get(switch, echo)
        cmp(w, "echo in the end", at[1]["echo"], want)
        cmp(w, "everything else is unchanged", {k: v for k, v in at[1].items() if k != "echo"}, {k: v for k, v in at[0].items() if k != "echo"})
        cmp(w, "input", w.user["got"][name], b"hi\n")
    if kind.startswith("own"):
        cmp(w, "calls of the function", sorted(calls), sorted(names.values()))
    if via == "prompt":
        cmp(w, "Prompt.echo", w.user["marks"], [echo] + {"off": [False], "on": [True], "off-on": [False, True], "off-off": [False, False]}.get(switch, []))


@dscn("term-own-eof", "C25", max_time=5.0)
async def _(w, sh):
    "The end-of-file character is the terminal's own, whatever it is and whatever the source."
    char = w.data_choice("character", [b"\x18", b"e"])
    kind = w.data_choice("source", ["bytes", "bytesio", "stringio", "reader", "reader1"])
    text = w.data_choice("input", [b"", b"a", b"a\n", b"ab\ncd", b"ab\ncd\n"])

    def own(fd):
        at = termios.tcgetattr(fd)
        at[6][termios.VEOF] = char
        at[3] &= ~termios.ECHO
        termios.tcsetattr(fd, termios.TCSANOW, at)

    def prog(p):
        got = b""
        while True:
            d = yield ("read", 0, 100)
            if not d:
                break
            got += d
        w.user["read"] = got
        yield ("sleep", 1.0)
        w.user["again"] = bool(select.select([p.fds[0]], [], [], 0)[0])
        return 0

    w.programs[A] = prog
    src = source(w, kind, text)
    try:
        out = await sh(A).stdin(src).set(pty=own)
    finally:
        await stop_feeders(w)
    cmp(w, "input read", w.user["read"], text)
    cmp(w, "something follows the end of file", w.user["again"], False)
    cmp(w, "output", out, "")


@dscn("term-prompt", "C25", max_time=5.0)
async def _(w, sh):
    "A Prompt on a terminal: whatever was sent arrives and closing it (or leaving the block) ends the input."
    mode = w.data_choice("mode", ["noecho", "true", "size"])
    sends = pick(w, "send", [[], [("", "\n")], [("abc", "")], [("abc", "\n")], [("abc", "\n"), ("d", "")], [("a", ""), ("b", "")],
                             [("abc", "\n"), ("", "\n")], [("x" * 3000, "")], [("x" * 100, "\n")] * 30],
                 [[], [("abc", "")], [("abc", "\n")]])
    close = w.data_choice("end", ["close, read", "read", "close", "leave"])
    n = w.data_choice("read size", [2, 4096])
    pause = w.data_choice("process pauses", [0, 0.2])
    if close == "read":  # reads everything there is without closing: the process ends by itself
        want_eof = False
    else:
        want_eof = True
    total = sum(len(a) + len(b) for a, b in sends)
    lines = all(b for _, b in sends)
    if not want_eof and not lines:
        return cmp(w, "not applicable", 0, 0)

    def prog(p):
        got = b""
        w.user["read"] = got
        if pause:
            yield ("sleep", pause)
        while want_eof or len(got) < total:
            d = yield ("read", 0, n)
            if not d:
                w.user["eof"] = True
                break
            got += d
            w.user["read"] = got
        yield ("write", 1, b"<%d>" % len(got))
        return 3

    w.programs[A] = prog
    out = ""
    async with sh(A).set(pty=mode_option(mode)).prompt() as cli:
        for a, b in sends:
            await cli.send(a, end=b)
        if close != "read" and close != "leave":
            cli.close()
        if "read" in close:
            out = await cli.read_all()
    text = "".join(a + b for a, b in sends)
    cmp(w, "read", w.user["read"], text.encode())
    cmp(w, "end of file seen", w.user.get("eof", False), want_eof)
    cmp(w, "exit code", cli.result.exit_code, 3)
    if "read" in close:
        tail = "<%d>" % total
        cmp(w, "output", out if mode != "true" else out[-len(tail):], tail)
