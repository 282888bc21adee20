"""C19: secrets.  A real pseudo-terminal whose echo is switched off (and on) at chosen moments."""

import asyncio
import logging
import os
import termios

import shellous

from . import world as W
from .catalog import A, B, cat
from .data import cmp, dscn, pick

SECRET = "s3cr3t-\u00fc!"
LIMIT = 30.0
POLL = 0.25


class Records(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.text = []

    def emit(self, rec):
        t = rec.getMessage()
        if rec.exc_info:
            t += logging.Formatter().formatException(rec.exc_info)
        self.text.append(t)


def echo(p, on, fd=0):
    def f():
        a = termios.tcgetattr(p.fds[fd])
        a[3] = a[3] | termios.ECHO if on else a[3] & ~termios.ECHO
        termios.tcsetattr(p.fds[fd], termios.TCSANOW, a)
    return ("call", f)


def switching(times, ends, n=1, say=b"Password: "):
    """Echo is switched at `times` (off, on, off ...); then one line is read up to `ends`, after `n` - 1 lines."""
    def prog(p):
        yield ("write", 1, say)
        got = b""
        while n > 1 and not got.endswith(b"\n"):
            # read now: the kernel processes new input without delay only while none is waiting
            got += yield ("read", 0, 4096)
        t, on = 0.0, True
        for at in times:
            if at > t:
                yield ("sleep", at - t)
                t = at
            on = not on
            echo(p, on)[1]()  # in the same step as the end of the pause
        buf = b""
        while buf.count(ends) < 1:
            d = yield ("read", 0, 4096)
            if not d:
                return 3
            buf += d
        if not on:
            yield echo(p, True)
        yield ("write", 1, b"ok>")
        while True:
            d = yield ("read", 0, 4096)
            if not d:
                return 0
            buf += d
    return prog


def cbreak_echo(fd):
    shellous.cbreak()(fd)
    a = termios.tcgetattr(fd)
    a[3] |= termios.ECHO
    termios.tcsetattr(fd, termios.TCSANOW, a)


class Watch:
    "Everything shellous logs, and everything seen on the terminal."

    def __init__(self, w):
        self.w = w
        self.h = Records()
        self.seen = ""

    def __enter__(self):
        self.lv = {}
        for n in (None, "shellous", "asyncio"):
            lg = logging.getLogger(n)
            self.lv[n] = (lg.level, lg.disabled)
            lg.setLevel(1)
            lg.disabled = False
            lg.addHandler(self.h)
        self.mgr = logging.root.manager.disable
        logging.disable(logging.NOTSET)
        return self

    def __exit__(self, *_):
        for n, (lv, dis) in self.lv.items():
            lg = logging.getLogger(n)
            lg.removeHandler(self.h)
            lg.setLevel(lv)
            lg.disabled = dis
        logging.disable(self.mgr)
        w = self.w
        for part in ("s3cr3t", repr(SECRET.encode())[2:-1], "czNjcjN0"):
            cmp(w, "log records containing the secret", [t for t in self.h.text if part in t], [])
        cmp(w, "secret on the terminal", [self.seen] if "s3cr3t" in self.seen else [], [])


def first_poll(times):
    "(earliest, latest) time at which a poll finds the echo off, or None."
    k = 0
    lo = None
    while k < 120:
        t = k * POLL
        before = sum(1 for x in times if x < t - 1e-9) % 2  # switched strictly earlier
        upto = [before]
        n = sum(1 for x in times if x < t - 1e-9)
        for x in times:
            if abs(x - t) < 1e-9:
                n += 1
                upto.append(n % 2)
        if any(upto) and lo is None:
            lo = t
        if all(upto):
            return lo, t
        k += 1
    return (lo, None) if lo is not None else None


TIMES = [(0.0,), (0.1,), (0.25,), (0.26,), (1.0,), (29.6,), (29.75,), (29.8,), (31.0,), (),
         (0.1, 0.2), (0.1, 0.2, 0.6), (0.3, 0.45, 0.55), (0.25, 0.26, 31.0), (0.25, 0.5, 1.0), (0.25, 0.25, 0.6), (0.1, 0.25, 0.6)]
FEW = [(0.0,), (0.1,), (0.25,), (0.1, 0.2, 0.6), (0.25, 0.26, 0.6), (0.25, 0.25, 0.6), (0.1, 0.25, 0.6)]


@dscn("noecho", "C19", max_time=100.0, max_steps=200000)
async def _(w, sh):
    "send(no_echo=True) against echo switched off at every relevant moment."
    times = pick(w, "switch", TIMES, FEW)
    how = w.data_choice("call", ["send", "send-bytes", "command", "no end"])
    trace = pick(w, "trace", [True, False], [True])
    before = pick(w, "line before", [False, True], [False])
    tmo = w.data_choice("timeout", [None, 1.0])
    import shellous.prompt as SP
    old = getattr(SP, "LOG_PROMPT", False)
    SP.LOG_PROMPT = trace
    ends = b"\n" if how != "no end" else b"!"
    if how == "no end":
        base = cbreak_echo
    else:
        base = True
    w.programs[A] = switching(times, ends, 1 + before)
    u = w.user
    w.cancel_ok = False
    try:
        with Watch(w) as watch:
            async with sh(A).set(pty=base).prompt(">", timeout=tmo if how == "command" else None) as cli:
                if before:
                    await cli.send("hello")
                t0 = w.now

                async def work():
                    if how == "send":
                        await cli.send(SECRET, no_echo=True)
                    elif how == "send-bytes":
                        await cli.send(SECRET.encode(), no_echo=True, timeout=tmo)
                    elif how == "no end":
                        await cli.send(SECRET, no_echo=True, end=None, timeout=tmo)
                    else:
                        u["answer"] = await cli.command(SECRET, no_echo=True)

                t = asyncio.ensure_future(work())
                w.cancel_target = t
                w.cancel_ok = True
                await asyncio.wait([t])
                w.cancel_ok = False
                u["spent"] = round(w.now - t0, 6)
                u["out"] = "cancelled" if t.cancelled() else type(t.exception()).__name__
                watch.seen += u.get("answer", "") + cli.pending
                if u["out"] == "NoneType" and how != "command":
                    try:
                        x, m = await cli.expect("ok>", timeout=40.0)
                        watch.seen += x + m.group(0)
                    except (asyncio.TimeoutError, EOFError) as ex:
                        u["out"] = f"no answer: {type(ex).__name__}"
                try:
                    watch.seen += await cli.read_all(timeout=0.25)
                except asyncio.TimeoutError:
                    watch.seen += cli.read_pending()
    finally:
        SP.LOG_PROMPT = old
    got, out = bytes(w.actors[0].got.get(0, b"")), u["out"]
    enc = SECRET.encode()
    hello = b"hello\n" if before else b""
    full = hello + enc + (b"" if how == "no end" else b"\n")
    fp = first_poll(times)
    if out == "TimeoutError" and how == "command" and tmo and times[-1:] > (1.0,):
        pass
    elif out not in ("RuntimeError", "NoneType") and not (out == "cancelled" and w.cancels):
        if not w.hurried:
            cmp(w, "outcome", out, "RuntimeError or None")
    if out == "RuntimeError":
        cmp(w, "written after the error", enc in got, False)
        cmp(w, "waited", u["spent"], LIMIT)
        if not w.hurried:
            cmp(w, "error although echo was off at a poll", fp is None or fp[1] is None, True)
    elif out == "NoneType":
        cmp(w, "received", got if not w.hurried else full.startswith(got) or got, full if not w.hurried else True)
        if not w.hurried:
            cmp(w, "written although echo was on at every poll", fp is not None, True)
            if fp and how != "command":
                cmp(w, "time", fp[0] - 1e-6 <= u["spent"] <= (fp[1] if fp[1] is not None else 1e9) + 1e-6 or u["spent"], True)
    cmp(w, "times received", got.count(enc) <= 1, True)


@dscn("noecho-other", "C19", max_time=100.0)
async def _(w, sh):
    "Without a terminal, or with echo switched off by the caller, the text is sent at once; it is not logged."
    who = w.data_choice("use", ["pipe", "pipeline", "pty-noecho", "pty-set", "pty-raw"])
    how = w.data_choice("call", ["send", "command"])
    size = w.data_choice("size", [1, 400])  # longer than what a log line shows in full
    lines = w.data_choice("lines", [1, 2])

    def prog(p):
        buf = b""
        while buf.count(b"\n") < lines:
            d = yield ("read", 0, 4096)
            if not d:
                return 3
            if buf.count(b"\n") < (buf + d).count(b"\n"):
                yield ("write", 1, b"ok>" * ((buf + d).count(b"\n") - buf.count(b"\n")))
            buf += d
        while (yield ("read", 0, 4096)):
            pass
        return 0

    w.programs[A] = prog
    w.programs[B] = cat()
    cmd = sh(A)
    pty = {"pty-noecho": shellous.cooked(echo=False), "pty-set": True, "pty-raw": shellous.raw()}.get(who)
    if pty:
        cmd = cmd.set(pty=pty)
    elif who == "pipeline":
        cmd = cmd | sh(B)
    secret = SECRET * size
    w.cancel_ok = False
    with Watch(w) as watch:
        async with cmd.prompt(">") as cli:
            if who == "pty-set":
                cli.echo = False
            cmp(w, "echo", cli.echo, False)
            for i in range(lines):
                t0 = w.now
                if how == "send":
                    await cli.send(secret, no_echo=True)
                    if not w.hurried:
                        cmp(w, "waited", w.now - t0, 0.0)
                    x, m = await cli.expect()
                    watch.seen += x
                else:
                    x = await cli.command(secret, no_echo=True)
                    watch.seen += x
                cmp(w, "answer", x, "ok")
            cli.close()
            try:
                watch.seen += await cli.read_all(timeout=5.0) if who != "pty-raw" else cli.pending
            except asyncio.TimeoutError:
                cmp(w, "slow end", bool(w.hurried), True)
            if who == "pty-set":
                cli.echo = True
                cmp(w, "echo", cli.echo, True)
    a = [x for x in w.actors if x.name == "a"][0]
    cmp(w, "input", bytes(a.got.get(0, b"")) == (secret + "\n").encode() * lines, True)
