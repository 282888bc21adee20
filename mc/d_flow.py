"""C34: a consumer that is slow slows the producer down; nothing grows without bound in between."""

import asyncio

from shellous.redirect import Redirect

from . import world as W
from .catalog import A, B, C_
from .data import cmp, dscn, pick
from .d_timeout import outcome_of

LINE = b"0123456789abcde\n" * 4
BLOCK = LINE.replace(b"\n", b"-")[:-1] + b"\n"
CHUNK = BLOCK * 1024  # 65536
# stream buffers, transport buffers and kernel pipes together are far smaller
BOUND = {"chain": 24 << 16}
SMALL = 16 << 16
MORE = 4  # chunks the producer would like to write beyond the bound

VIA = ["ctx", "ctx-err", "ctx-pipe", "ctx-pty", "iter", "iter-err", "iter-pipe", "prompt", "prompt-pty", "writer", "err-writer", "pipe-writer",
       "reader", "reader-pipe", "reader-pty", "chain", "pipe", "pipe-3", "sub-r", "sub-w"]


def producer(w):
    def prog(p):
        fds = [int(a.rsplit("/", 1)[1]) for a in p.argv[1:] if a.startswith("/dev/fd/")]
        fd = fds[0] if fds else 2 if "err" in w.user["via"] else 1
        w.user["sent"] = 0
        for _ in range(w.user["chunks"]):
            yield ("write", fd, CHUNK)
            w.user["sent"] += len(CHUNK)
        yield ("close", fd)
    return prog


def consumer(w):
    "Reads a little, waits, and reads the rest."
    def prog(p):
        fds = [int(a.rsplit("/", 1)[1]) for a in p.argv[1:] if a.startswith("/dev/fd/")]
        fd = fds[0] if fds else 0
        got = 0
        for _ in range(w.user["k"]):
            got += len((yield ("read", fd, 100)))
        yield ("sleep", 3.0)
        w.user["seen"] = w.user["sent"]
        while True:
            d = yield ("read", fd, 65536)
            if not d:
                break
            got += len(d)
        w.user["got"] = got
    return prog


def copier(p):
    while True:
        d = yield ("read", 0, 65536)
        if not d:
            break
        yield ("write", 1, d)


@dscn("flow", "C34", max_time=30.0, check_cancelled=lambda w, r: [])
async def _(w, sh):
    "Ways to consume a stream x how much is read before the consumer stops for a while."
    via = w.user["via"] = w.data_choice("via", VIA)
    k = w.user["k"] = pick(w, "read", [0, 1, 5], [1])
    w.programs[A] = producer(w)
    w.programs[B] = consumer(w)
    w.programs[C_] = copier
    w.user["sent"] = 0
    bound = BOUND.get(via, SMALL)
    w.user["chunks"] = bound // len(CHUNK) + MORE
    whole = w.user["chunks"] * len(CHUNK)
    CAP, NULL = Redirect.CAPTURE, Redirect.DEVNULL

    async def pause():
        await asyncio.sleep(3.0)
        w.user["seen"] = w.user["sent"]

    async def rest(stream):
        got = 0
        for _ in range(k):
            got += len(await stream.readline())
        await pause()
        while True:
            d = await stream.read(65536)
            if not d:
                break
            got += len(d)
        w.user["got"] = got

    async def loop(it):
        got = n = 0
        if not k:
            # nothing is started before the first line is asked for
            got += len(await anext(it))
            await pause()
        async for x in it:
            got += len(x)
            n += 1
            if n == k:
                await pause()
        w.user["got"] = got

    async def sink():
        "A StreamWriter whose other end is read late."
        rfd, wfd = W._pipe()
        lp = asyncio.get_running_loop()
        rd = asyncio.StreamReader()
        tr, proto = await lp.connect_write_pipe(lambda: asyncio.StreamReaderProtocol(asyncio.StreamReader()), open(wfd, "wb", buffering=0))
        wr = asyncio.StreamWriter(tr, proto, None, lp)
        await lp.connect_read_pipe(lambda: asyncio.StreamReaderProtocol(rd), open(rfd, "rb", buffering=0))
        return rd, wr, rd._transport

    async def body():
        cmd = sh(A)
        if via in ("ctx", "ctx-err", "ctx-pipe", "ctx-pty"):
            if via == "ctx-err":
                cmd = cmd.stdout(NULL).stderr(CAP)
            elif via == "ctx-pipe":
                cmd = cmd | sh(C_).stdout(CAP)
            else:
                cmd = cmd.stdout(CAP)
            if via == "ctx-pty":
                cmd = cmd.set(pty=True)
            async with cmd as run:
                await rest(run.stderr if via == "ctx-err" else run.stdout)
        elif via.startswith("iter"):
            if via == "iter-err":
                cmd = cmd.stdout(NULL).stderr(CAP)
            elif via == "iter-pipe":
                cmd = cmd | sh(C_)
            await loop(aiter(cmd))
        elif via.startswith("prompt"):
            if via == "prompt-pty":
                cmd = cmd.set(pty=True)
            async with cmd.prompt() as cli:
                n = 0
                for _ in range(k):
                    text, m = await cli.expect("e\r\n" if via == "prompt-pty" else "e\n")
                    n += len(text) + len(m.group())
                await pause()
                w.user["got"] = n + len(await cli.read_all())
        elif "writer" in via:
            rd, wr, rtr = await sink()
            if via == "writer":
                cmd = cmd.stdout(wr)
            elif via == "err-writer":
                cmd = cmd.stdout(NULL).stderr(wr)
            else:
                cmd = cmd | sh(C_).stdout(wr)
            task = asyncio.ensure_future(rest(rd))
            try:
                await cmd
            finally:
                wr.close()
                try:
                    await wr.wait_closed()
                except OSError:
                    pass
                await asyncio.wait([task])
                rtr.close()
            await task
        elif via.startswith("reader"):
            if via == "reader-pipe":
                cmd = cmd | sh(C_).stdout(CAP)
            else:
                cmd = cmd.stdout(CAP)
            if via == "reader-pty":
                cmd = cmd.set(pty=True)
            async with cmd as run:
                await sh(B).stdin(run.stdout)
        elif via == "chain":
            rd, wr, rtr = await sink()
            async with cmd.stdout(CAP) as run:
                task = asyncio.ensure_future(rest(rd))
                try:
                    await sh(C_).stdin(run.stdout).stdout(wr)
                finally:
                    wr.close()
                    try:
                        await wr.wait_closed()
                    except OSError:
                        pass
                    await asyncio.wait([task])
                    rtr.close()
            await task
        elif via == "pipe":
            await (cmd | sh(B))
        elif via == "pipe-3":
            await (cmd | sh(C_) | sh(B))
        elif via == "sub-r":
            await sh(B, cmd)
        elif via == "sub-w":
            await sh(A, sh(B).writable)

    got = await outcome_of(body())
    cmp(w, "outcome", got, None)
    cmp(w, "producer was ahead by more than the buffers hold", w.user.get("seen", whole) <= bound or w.user.get("seen"), True)
    cmp(w, "consumed", w.user.get("got"), whole + whole // len(BLOCK) if "pty" in via else whole)
