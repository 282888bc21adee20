"""Scenarios that enumerate data: every chunking of the bytes, every kind of source and sink.

Each scenario draws its inputs with `w.data_choice` (free, exhaustively enumerated), runs the
command, and leaves (observed, expected) pairs in `w.user["cmp"]` for the oracle `data_exact`.
"""

import asyncio
import io
import itertools
import logging
import os
import signal
import socket
import tempfile
from pathlib import Path

import shellous
from shellous import ResultError
from shellous.redirect import Redirect

from . import world as W
from .catalog import A, B, C_, D, MISSING, Scn, hang, out, cat, sink, scn, slow_term, UserError, IGNORE_TERM


def chunkings(data, most=None):
    "Every way to cut `data` into consecutive non-empty pieces (at most `most` pieces)."
    n = len(data)
    res = []
    for k in range(n if n else 1):
        for cuts in itertools.combinations(range(1, n), k):
            pts = [0, *cuts, n]
            res.append([data[a:b] for a, b in zip(pts, pts[1:])])
        if most is not None and k + 1 >= most:
            break
    return res if n else [[]]


def dscn(name, prop, **kw):
    def deco(f):
        Scn(name, {}, f, tags={prop} | set(kw.pop("tags", ())), data=True, use_audit=False, prop=prop, **kw)
        return f
    return deco


def pick(w, name, options, few):
    "A data choice that is narrowed to `few` options when schedules are enumerated as well."
    b = w.budget_given
    narrow = b.get("dev", 0) + b.get("cancel", 0) + b.get("fault", 0) + b.get("narrow", 0) > 0 and not b.get("wide")
    return w.data_choice(name, few if narrow else options)


def cmp(w, what, got, want, prop=None):
    "A comparison; `prop` names the property it belongs to if that is not the scenario's own."
    w.user.setdefault("cmp", []).append((what, got, want, prop))


def data_exact_for(pid):
    return lambda s, r: data_exact(s, r, pid)


def data_exact(s, r, pid=None):
    "Everything the scenario compared is equal."
    w = r.world
    mine = pid is None or pid == s.prop
    if r.outcome != "done":
        return []
    if w.cancels:
        chk = getattr(s, "check_cancelled", None) if mine else None
        return list(chk(w, r) or []) if chk else []
    msgs = []
    if mine and r.exc is not None and not getattr(s, "may_raise", False):
        msgs.append(f"{_inputs(r)}: unexpected {type(r.exc).__name__}: {str(r.exc)[:200]}")
    for what, got, want, prop in w.user.get("cmp", ()):
        if prop != (None if mine else pid):
            continue
        ok = want(got) if callable(want) else got == want
        if not ok:
            msgs.append(f"{_inputs(r)}: {what} is {_short(got)}, expected {_short(want)}")
    if mine and r.exc is None and not w.user.get("cmp"):
        msgs.append("nothing was compared")
    return msgs


def _short(x):
    if callable(x):
        return x.__doc__ or "something else"
    t = repr(x)
    return t if len(t) < 160 else t[:100] + f"...({len(x) if hasattr(x, '__len__') else ''})"


def _inputs(r):
    return ",".join(f"{e[1]}={e[2][:60]}" for e in r.events if e[0] == "DATA")


def tmpdir(w):
    d = w.user.get("tmp")
    if d is None:
        d = w.user["tmp"] = tempfile.mkdtemp(prefix="mc-data-")
        w.user.setdefault("cleanup", []).append(lambda: _rmtree(d))
    return d


def _rmtree(d):
    for f in os.listdir(d):
        os.unlink(os.path.join(d, f))
    os.rmdir(d)


def _teardown(self, w):
    for f in w.user.get("cleanup", []):
        try:
            f()
        except OSError:
            pass


Scn.teardown = _teardown


# ---------------------------------------------------------------------------
# sinks
# ---------------------------------------------------------------------------
class Sink:
    "A destination for one output stream; get(result) returns what arrived there."

    def __init__(self, w, kind, enc):
        self.w = w
        self.kind = kind
        self.enc = enc
        self.append = kind.endswith("+")
        self.pre = b"PRE" if self.append else b""
        self.obj = None

    async def make(self):
        k = self.kind.rstrip("+")
        w = self.w
        if k == "bytearray":
            self.obj = bytearray(b"PRE")
        elif k == "bytesio":
            self.obj = io.BytesIO(b"PRE")
        elif k == "stringio":
            self.obj = io.StringIO("PRE")
        elif k in ("path", "fd", "fdclose", "file"):
            p = Path(tmpdir(w)) / f"f{id(self)}"
            p.write_bytes(b"PRE" if k in ("path", "file") else b"")
            self.path = p
            self.obj = p
            if k in ("fd", "fdclose"):
                self.obj = os.open(p, os.O_WRONLY)
                if k == "fd":
                    w.user.setdefault("cleanup", []).append(lambda fd=self.obj: os.close(fd))
            elif k == "file":
                self.obj = open(p, "r+b")
                w.user.setdefault("cleanup", []).append(self.obj.close)
        elif k == "writer":
            a, b = socket.socketpair()
            a.setblocking(False)
            self.sock = b
            b.setblocking(False)
            b.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 1 << 20)
            a.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 1 << 20)
            w.user.setdefault("cleanup", []).append(b.close)
            w.user.setdefault("cleanup", []).append(a.close)
            _r, self.obj = await asyncio.open_connection(sock=a)
        elif k == "logger":
            self.obj = logging.getLogger(f"mcsink{id(self)}")
            self.obj.propagate = False
            self.lines = []
            h = logging.Handler()
            h.emit = lambda rec: self.lines.append((rec.levelname, rec.getMessage()))
            self.obj.handlers[:] = [h]
        return self

    def apply(self, cmd, fd):
        k = self.kind.rstrip("+")
        m = cmd.stdout if fd == 1 else cmd.stderr
        if k in ("value", "result"):
            return cmd
        if k == "buffer":
            return m(Redirect.BUFFER)
        if k == "merge":
            return m(Redirect.STDOUT)
        if k == "null":
            return m(Redirect.DEVNULL)
        if k == "fdclose":
            return m(self.obj, close=True)
        return m(self.obj, append=self.append) if self.append else m(self.obj)

    def got(self):
        k = self.kind.rstrip("+")
        if k == "bytearray":
            return bytes(self.obj)
        if k == "bytesio":
            return self.obj.getvalue()
        if k == "stringio":
            return self.obj.getvalue()
        if k in ("path", "fd", "fdclose", "file"):
            return self.path.read_bytes()
        if k == "writer":
            data = bytearray()
            while True:
                try:
                    d = self.sock.recv(1 << 20)
                except BlockingIOError:
                    data += b"<open>"
                    break
                if not d:
                    break
                data += d
            return bytes(data)
        if k == "logger":
            return list(self.lines)
        return None

    def want(self, data):
        k = self.kind.rstrip("+")
        if k == "stringio":
            return self.pre.decode() + data.decode(*self.enc.split())
        if k == "logger":
            lines = data.split(b"\n")
            tail = lines.pop()
            lines = [x + b"\n" for x in lines] + ([tail] if tail else [])
            return [("ERROR", x.decode(*self.enc.split()).rstrip()) for x in lines]
        return self.pre + data


PAYLOADS = {
    "utf-8": "a\u20ac\n".encode(),
    "utf-8 replace": b"a\xe2\x82\n\xff",
    "latin-1": b"\xe9\r\n\xff\n",
    "utf-16-le": "\u20aca".encode("utf-16-le"),
    "utf-8-sig": b"\xef\xbb\xbfa\n",
}
OUT_SINKS = ["value", "result", "bytearray", "bytearray+", "bytesio", "bytesio+", "stringio", "stringio+",
             "path", "path+", "fd", "fdclose", "file", "writer", "logger", "null"]
ERR_SINKS = ["buffer", "bytearray", "bytearray+", "bytesio", "bytesio+", "stringio", "stringio+", "path", "path+",
             "fd", "file", "writer", "logger", "null", "merge"]


def interleave(chunks, extra, at):
    "stdout chunks with stderr chunks inserted at position `at`."
    x = [(1, c) for c in chunks]
    e = [(2, c) for c in extra]
    return x[:at] + e + x[at:]


async def run_capture(w, sh, prog, outs, errs, enc, code, opts=None):
    w.programs[A] = prog
    so = await Sink(w, outs, enc).make()
    se = await Sink(w, errs, enc).make()
    cmd = sh(A).set(encoding=enc, **(opts or {}))
    cmd = se.apply(so.apply(cmd, 1), 2)
    res = None
    val = None
    try:
        if outs == "result":
            res = await cmd.result
        elif outs == "value":
            val = await cmd
        else:
            val = await cmd
    except ResultError as ex:
        res = ex.result
        cmp(w, "ResultError", True, code != 0)
        cmp(w, "exit code", res.exit_code, code)
    else:
        cmp(w, "no error", True, code == 0 or outs == "result")
    return so, se, res, val


def compare(w, so, se, res, val, order, enc, code):
    data = b"".join(c for f, c in order if f == 1)
    err = b"".join(c for f, c in order if f == 2)
    if se.kind == "merge":
        data, err = b"".join(c for f, c in order), b""
    k = so.kind
    if k in ("value", "result"):
        if res is not None:
            cmp(w, "output_bytes", res.output_bytes, data)
            cmp(w, "output", _dec(lambda: res.output), data.decode(*enc.split()))
        else:
            cmp(w, "value", val, data.decode(*enc.split()))
    else:
        if val is not None:
            cmp(w, "value", val, "")
        if k != "null":
            cmp(w, f"stdout sink {k}", so.got(), so.want(data))
    if se.kind == "buffer":
        if res is not None:
            cmp(w, "error_bytes", res.error_bytes, err)
    elif se.kind not in ("merge", "null"):
        cmp(w, f"stderr sink {se.kind}", se.got(), se.want(err))


def _dec(f):
    try:
        return f()
    except UnicodeDecodeError as ex:
        return ex


def order_prog(order, code):
    def prog(p):
        for fd, data in order:
            yield ("write", fd, data)
        return code
    return prog


def codec_ok(kind, enc):
    return not (kind == "logger" and enc == "utf-16-le")


# -- C07 --------------------------------------------------------------------
@dscn("out-sinks", "C07")
async def _(w, sh):
    enc = pick(w, "encoding", list(PAYLOADS), ["utf-8"])
    outs = pick(w, "stdout", [k for k in OUT_SINKS if codec_ok(k, enc)], ["value", "bytearray+", "stringio", "writer", "logger"])
    chunks = pick(w, "chunks", chunkings(PAYLOADS[enc]), chunkings(PAYLOADS[enc], 2))
    errs = pick(w, "stderr", ["buffer", "merge", "bytearray+"] if outs != "null" else ["buffer", "bytearray+"],
                ["buffer", "merge"])
    code = pick(w, "code", [0, 3], [0])
    order = interleave(chunks, [PAYLOADS[enc][:2], PAYLOADS[enc][2:]], len(chunks) // 2)
    if enc == "utf-16-le" and errs == "merge" and len(chunks) // 2 % 2:
        order = interleave(chunks, [PAYLOADS[enc]], len(chunks))
    try:
        b"".join(c for _, c in order).decode(*enc.split())
        b"".join(c for f, c in order if f == 1).decode(*enc.split())
    except UnicodeDecodeError:
        order = interleave(chunks, [PAYLOADS[enc]], len(chunks))
    got = await run_capture(w, sh, order_prog(order, code), outs, errs, enc, code)
    compare(w, *got, order, enc, code)


@dscn("err-sinks", "C07")
async def _(w, sh):
    enc = w.data_choice("encoding", ["utf-8", "latin-1"])
    errs = w.data_choice("stderr", ERR_SINKS)
    chunks = w.data_choice("chunks", chunkings(PAYLOADS[enc]))
    outs = w.data_choice("stdout", ["result", "bytearray", "null", "path"])
    code = w.data_choice("code", [0, 3])
    order = [(3 - f, c) for f, c in interleave(chunks, [PAYLOADS[enc]], len(chunks) // 2)]
    try:
        b"".join(c for _, c in order).decode(*enc.split())
    except UnicodeDecodeError:
        order = order[-1:] + order[:-1] if order[-1][0] == 1 else order
        order = [o for o in order if o[0] == 1] + [o for o in order if o[0] == 2]
    if outs == "null" and errs == "merge":
        # "stderr only": standard error takes the place of standard output
        w.programs[A] = order_prog(order, code)
        cmd = sh(A).set(encoding=enc).stdout(Redirect.DEVNULL).stderr(Redirect.STDOUT)
        res = await cmd.set(exit_codes={0, 3}).result
        cmp(w, "output_bytes", res.output_bytes, b"".join(c for f, c in order if f == 2))
        return
    got = await run_capture(w, sh, order_prog(order, code), outs, errs, enc, code)
    compare(w, *got, order, enc, code)


SIZES = [0, 1, 4095, 8191, 8192, 8193, 16384, 65535, 65536, 65537, 131073, 300001]


def pattern(n):
    return (bytes(range(251)) * (n // 251 + 1))[:n]


@dscn("out-sizes", "C07")
async def _(w, sh):
    outs = w.data_choice("stdout", ["result", "value", "bytearray", "bytearray+", "bytesio", "bytesio+", "stringio",
                                    "stringio+", "path", "fd", "writer"])
    n = w.data_choice("size", SIZES)
    errs = w.data_choice("stderr", ["bytearray", "merge", "stringio", "path+"])
    m = w.data_choice("err size", [0, 5, 8193, 70000])
    order = interleave([pattern(n)], [pattern(m)], 1)
    if w.data_choice("cut", [0, 1]):
        order = [(f, d[i:i + 5000]) for f, d in order for i in range(0, len(d), 5000)]
    w.pipe_size = None
    got = await run_capture(w, sh, order_prog(order, 0), outs, errs, "latin-1", 0)
    compare(w, *got, order, "latin-1", 0)


@dscn("out-pipeline-sinks", "C07")
async def _(w, sh):
    "The last command's output goes to the sink; earlier commands' errors to theirs."
    enc = "utf-8"
    outs = w.data_choice("stdout", [k for k in OUT_SINKS])
    chunks = w.data_choice("chunks", chunkings(PAYLOADS[enc], 3))
    n = w.data_choice("members", [2, 3])
    so = await Sink(w, outs, enc).make()
    errs = [await Sink(w, "bytearray", enc).make() for _ in range(n)]
    w.programs[A] = order_prog([(2, b"e0")] + [(1, c) for c in chunks], 0)

    def mid(k):
        def prog(p):
            yield ("write", 2, b"e%d" % k)
            while True:
                d = yield ("read", 0, 2)
                if not d:
                    return 0
                yield ("write", 1, d)
        return prog

    cmds = [sh(A)]
    for i in range(1, n):
        w.programs[f"/mc/m{i}"] = mid(i)
        cmds.append(sh(f"/mc/m{i}"))
    cmds = [e.apply(c, 2) for c, e in zip(cmds, errs)]
    cmds[-1] = so.apply(cmds[-1], 1)
    pipe = cmds[0]
    for c in cmds[1:]:
        pipe = pipe | c
    data = b"".join(chunks)
    if outs == "result":
        res = await pipe.result
        cmp(w, "output_bytes", res.output_bytes, data)
    else:
        val = await pipe
        if outs == "value":
            cmp(w, "value", val, data.decode())
        elif outs != "null":
            cmp(w, "sink", so.got(), so.want(data))
            cmp(w, "value", val, "")
    for i, e in enumerate(errs):
        cmp(w, f"stderr of member {i}", e.got(), b"e%d" % i)


STOP_SINKS = ["result", "bytearray", "bytearray+", "bytesio", "stringio+", "path", "fd"]


@dscn("out-stopped", "C07", max_time=10.0, stall=True)
async def _(w, sh):
    """Output written before a cancellation or timeout is kept."""
    enc = "utf-8"
    outs = pick(w, "stdout", STOP_SINKS, ["result", "stringio+"])
    errs = pick(w, "stderr", ["bytearray", "merge", "buffer"], ["buffer"])
    how = w.data_choice("stop", ["timeout", "cancel", "raise"])
    k = pick(w, "cut", [1, 2, 4, 5], [1])
    data = PAYLOADS[enc]
    order = [(1, data[:k]), (2, b"E"), (1, data[k:])]
    ignore = w.data_choice("term", ["dies", "ignores"])

    def prog(p):
        if ignore == "ignores":
            p.traps.update(IGNORE_TERM)
        for fd, d in order[:2]:
            yield ("write", fd, d)
        yield ("sleep", 1.0)
        for fd, d in order[2:]:
            yield ("write", fd, d)
        yield ("hang",)

    w.programs[A] = prog
    so = await Sink(w, outs, enc).make()
    se = await Sink(w, errs, enc).make()
    cmd = se.apply(so.apply(sh(A), 1), 2)
    after = w.data_choice("after", [0.5, 1.5])
    if how == "timeout":
        cmd = cmd.set(timeout=after)
    box = {}
    w.user["chk"] = (so, se, box)

    async def user():
        try:
            async with cmd as run:
                box["run"] = run
                if how == "raise":
                    await asyncio.sleep(after)
                    raise UserError()
        finally:
            if "run" in box:
                box["res"] = box["run"].result(check=False)

    t = asyncio.ensure_future(user())
    w.cancel_target = t
    if how == "cancel":
        await asyncio.sleep(after)
        w.log("CANCEL")
        t.cancel()
    try:
        await t
    except BaseException as ex:
        box["exc"] = ex
        w.user["exc"] = type(ex).__name__
    check_stopped(w, so, se, box, order, how, after)


def check_stopped(w, so, se, box, order, how, after):
    # surely kept: what was written before the loop was last idle before the stop
    res = box.get("res")
    if res is None:
        cmp(w, "processes left", w.live_children(), [])  # cancelled while starting
        return
    done = w.idle_order if w.idle_at_kill is None else w.idle_at_kill
    sure = [(f, d) for _, f, d in w.order[:done]]
    full = order
    if se.kind == "merge":
        lo = b"".join(d for f, d in sure)
        hi = b"".join(d for f, d in full)
    else:
        lo = b"".join(d for f, d in sure if f == 1)
        hi = b"".join(d for f, d in full if f == 1)

    def within(got):
        "what was written before the stop, at least"
        if isinstance(got, str):
            got = got.encode()
        got = bytes(got)
        if so.append:
            if not got.startswith(b"PRE"):
                return False
            got = got[3:]
        return got.startswith(lo) and hi.startswith(got)

    if so.kind == "result":
        cmp(w, "output_bytes", res.output_bytes, within)
    elif so.kind == "stringio+":
        def text(got):
            "the decodable output before the stop"
            return got.startswith("PRE") and within(got) or not _decodable(lo)
        cmp(w, "stringio", so.got(), text)
    else:
        cmp(w, "sink " + so.kind, so.got(), within)
    if se.kind == "buffer":
        cmp(w, "error_bytes", res.error_bytes in (b"E", b"E" if (2, b"E") in sure else b""), True)
    elif se.kind == "bytearray":
        cmp(w, "stderr", se.got() in (b"E", b"E" if (2, b"E") in sure else b""), True)
    cmp(w, "exit code", res.exit_code in (-15, -9), True)
    want = {"timeout": "TimeoutError", "cancel": "NoneType", "raise": "UserError"}[how]
    # a cancellation inside the block shows in the result
    got = type(box.get("exc")).__name__
    if so.kind == "stringio+" and not _decodable(lo) and got == "UnicodeDecodeError":
        got = want  # the text that arrived has no decoding
    cmp(w, "outcome", got, want)
    if how == "cancel":
        cmp(w, "cancelled", res.cancelled, True)


def _decodable(b):
    try:
        b.decode()
        return True
    except UnicodeDecodeError:
        return False


# -- C08 --------------------------------------------------------------------
def gather(n, pace=0, code=0):
    "Read stdin to its end in pieces of n bytes."
    def prog(p):
        k = 0
        while True:
            data = yield ("read", 0, n)
            if not data:
                break
            k += 1
            if pace and k % pace == 0:
                yield ("sleep", 0.25)
        yield ("write", 1, b"done")
        return code
    return prog


IN_KINDS = ["str", "bytes", "bytearray", "path", "fd", "fdclose", "bytesio", "stringio", "reader", "feeder",
            "default", "devnull", "capture", "capture-eof"]


class Source:
    def __init__(self, w, kind, data, enc="utf-8", chunks=None):
        self.w, self.kind, self.data, self.enc = w, kind, data, enc
        self.chunks = chunks or [data]
        self.task = None

    def make(self):
        w, k, data = self.w, self.kind, self.data
        if k in ("str", "stringio"):
            t = data.decode(*self.enc.split())
            return t if k == "str" else io.StringIO(t)
        if k == "bytes":
            return data
        if k == "bytearray":
            return bytearray(data)
        if k == "bytesio":
            return io.BytesIO(data)
        if k in ("path", "file", "fd", "fdclose"):
            p = Path(tmpdir(w)) / "in"
            p.write_bytes(data)
            if k == "path":
                return p
            if k == "file":
                f = open(p, "rb")
                w.user.setdefault("cleanup", []).append(f.close)
                return f
            fd = os.open(p, os.O_RDONLY)
            if k == "fd":
                w.user.setdefault("cleanup", []).append(lambda: os.close(fd))
            return fd
        if k in ("reader", "feeder", "slowfeeder"):
            rd = asyncio.StreamReader()
            if k == "reader":
                for c in self.chunks:
                    rd.feed_data(c)
                rd.feed_eof()
            else:
                async def feed():
                    for c in self.chunks:
                        await asyncio.sleep(0.2 if k == "slowfeeder" else 0)
                        rd.feed_data(c)
                    rd.feed_eof()
                self.task = asyncio.ensure_future(feed())
            return rd

    def apply(self, cmd):
        k = self.kind
        if k == "default":
            return cmd
        if k == "devnull":
            return cmd.stdin(Redirect.DEVNULL)
        if k.startswith("capture"):
            return cmd.stdin(Redirect.CAPTURE)
        if k == "fdclose":
            return cmd.stdin(self.make(), close=True)
        return cmd.stdin(self.make())

    async def run(self, cmd):
        "Run to the end; return the Result."
        if not self.kind.startswith("capture"):
            r = await self.apply(cmd).result
            if self.task:
                await self.task
            return r
        async with self.apply(cmd) as run:
            for c in self.chunks:
                run.stdin.write(c)
                await run.stdin.drain()
            if self.kind == "capture-eof":
                run.stdin.write_eof()
            else:
                run.stdin.close()
        return run.result()


@dscn("in-kinds", "C08", max_time=60.0, stall=False)
async def _(w, sh):
    kind = w.data_choice("kind", IN_KINDS)
    enc = "utf-8"
    if kind in ("default", "devnull"):
        data = b""
    elif kind in ("str", "stringio"):
        enc = w.data_choice("encoding", ["utf-8", "latin-1", "utf-16-le", "utf-16", "utf-8-sig"])
        data = w.data_choice("text", ["", "a\n", "a\u00e9\r\n", "\u00e9", "x" * 70000 + "\u00e9\n"]).encode(enc)
    else:
        data = pattern(w.data_choice("size", [0, 1, 5, 65535, 65536, 65537, 131073, 250001]))
    n = w.data_choice("read size", [1 if len(data) < 100 else 1000, 7 if len(data) < 100 else 4096, 65536])
    pace = w.data_choice("pace", [0, 3] if len(data) / n < 100 else [0])
    who = w.data_choice("use", ["command", "pipeline"])
    cut = w.data_choice("cut", [len(data) or 1, 1 if len(data) < 10 else 10000])
    chunks = [data[i:i + cut] for i in range(0, len(data), cut)]
    w.programs[A] = gather(n, pace)
    w.programs[B] = cat()
    cmd = sh(A).set(encoding=enc)
    src = Source(w, kind, data, enc, chunks)
    if who == "pipeline":
        if kind.startswith("capture"):
            cmd = cmd | sh(B)
        else:
            cmd = src.apply(cmd) | sh(B)
            src.apply = lambda c: c
    res = await src.run(cmd)
    cmp(w, "exit code", res.exit_code, 0)
    cmp(w, "output", res.output_bytes, b"done")
    a = w.actors[0] if w.actors[0].name == "a" else w.actors[1]
    cmp(w, "input read", bytes(a.got.get(0, b"")), data)
    cmp(w, "end-of-file", 0 in a.eof, True)


@dscn("in-chunks", "C08", max_time=10.0)
async def _(w, sh):
    "Every split of a stream reader's data, fed concurrently."
    kind = w.data_choice("kind", ["feeder", "capture", "capture-eof"])
    data = b"ab\ncd"
    chunks = w.data_choice("chunks", chunkings(data))
    n = w.data_choice("read size", [1, 2, 8])
    w.programs[A] = gather(n)
    res = await Source(w, kind, data, chunks=chunks).run(sh(A))
    cmp(w, "exit code", res.exit_code, 0)
    cmp(w, "input read", bytes(w.actors[0].got.get(0, b"")), data)
    cmp(w, "end-of-file", 0 in w.actors[0].eof, True)


@dscn("in-early", "C08", max_time=3.0)
async def _(w, sh):
    "The process stops reading or exits early: the command completes all the same."
    kind = pick(w, "kind", [k for k in IN_KINDS if k not in ("default", "devnull", "fdclose")] + ["slowfeeder"],
                ["bytes", "feeder", "slowfeeder", "capture"])
    data = pattern(pick(w, "size", [3, 200001], [3, 70000]))
    take = pick(w, "take", [0, 1, 3], [0, 1])
    how = pick(w, "then", ["exit", "close+exit", "close+wait"], ["exit", "close+wait"])
    code = pick(w, "code", [0, 3], [3])
    who = pick(w, "use", ["command", "pipeline"], ["command"])
    enc = "latin-1"

    def prog(p):
        if take:
            yield ("read", 0, take)
        if how != "exit":
            yield ("close", 0)
        if how == "close+wait":
            yield ("sleep", 1.0)
        return code

    w.programs[A] = prog
    w.programs[B] = sink()
    cmd = sh(A).set(encoding=enc)
    part = len(data) // 3
    src = Source(w, kind, data, enc, [data[:part], data[part:-1], data[-1:]] if kind == "slowfeeder" else None)
    if who == "pipeline":
        cmd = (cmd if kind.startswith("capture") else src.apply(cmd)) | sh(B)
        if not kind.startswith("capture"):
            src.apply = lambda c: c
    raised = False
    try:
        res = await src.run(cmd)
    except (BrokenPipeError, ConnectionResetError) as ex:
        raised = True
        big = len(data) > 65536 or how != "exit" or take < len(data)
        cmp(w, "broken pipe although all input fits", big or take == 0, True)
        if src.task:
            src.task.cancel()
            await asyncio.wait([src.task])
    except ResultError as ex:
        res = ex.result
        cmp(w, "exit code", res.exit_code, code)
        cmp(w, "failed", code != 0, True)
    else:
        cmp(w, "exit code", res.exit_code, code)
    a = [x for x in w.actors if x.name == "a"][0]
    if kind in ("reader", "feeder", "slowfeeder"):
        # input that is no longer wanted is dropped quietly while the process goes on
        cmp(w, "signals sent", [x for x in a.signals if x[2] == "run"], [])
    if not raised:  # a broken pipe stops the process
        cmp(w, "process status", a.status, code << 8)
    got = bytes(a.got.get(0, b""))
    cmp(w, "input prefix", data.startswith(got), True)


# -- C09 --------------------------------------------------------------------
def limit_model(data, limit):
    return data if limit is None else data[:limit]


@dscn("err-limit", "C09", max_time=1.0)
async def _(w, sh):
    "Every chunking of a few bytes of stderr against every limit around its length."
    data = b"abcde"[:pick(w, "length", [0, 1, 3, 5], [3])]
    limit = pick(w, "limit", [0, 1, 2, 3, 4, 5, 6, None], [0, 1, 2, 3, None])
    chunks = w.data_choice("chunks", chunkings(data))
    code = pick(w, "code", [0, 3], [3])
    tail = pick(w, "after", [0, 1], [1])
    order = [(2, c) for c in chunks]
    order = order[:1] + [(1, b"o")] + order[1:] + ([(1, b"end")] if tail else [])
    w.programs[A] = order_prog(order, code)
    res = await sh(A).set(error_limit=limit, exit_codes={0, 3}).result
    cmp(w, "error_bytes", res.error_bytes, limit_model(data, limit))
    cmp(w, "error", res.error, limit_model(data, limit).decode())
    cmp(w, "output_bytes", res.output_bytes, b"o" + (b"end" if tail else b""))
    cmp(w, "exit code", res.exit_code, code)


@dscn("err-limit-big", "C09", max_time=1.0)
async def _(w, sh):
    "A lot of stderr, also more than any pipe holds, does not block or break the process."
    limit = w.data_choice("limit", ["default", 0, 1, 1023, 1024, 8191, 8192, 8193, 16384, 100000, None])
    n = w.data_choice("size", [0, 1023, 1024, 1025, 8192, 8193, 16384, 70000, 300000])
    w.pipe_size = w.data_choice("pipe", [4096, None])
    code = w.data_choice("code", [0, 3])
    step = w.data_choice("write", [300000, 1024, 999])
    data = pattern(n)
    order = [(2, data[i:i + step]) for i in range(0, n, step)]
    order = order + [(1, pattern(9000))]
    who = w.data_choice("use", ["command", "pipeline", "ctx", "stopped"])
    use = {} if limit == "default" else {"error_limit": limit}

    def prog(p):
        for fd, d in order:
            yield ("write", fd, d)
        if who == "stopped":
            yield ("hang",)
        return code

    w.programs[A] = prog
    w.programs[B] = cat(65536)
    want = limit_model(data, 1024 if limit == "default" else limit)
    cmd = sh(A).set(exit_codes={0, 3}, encoding="latin-1", **use)
    if who == "command":
        res = await cmd.result
    elif who == "pipeline":
        res = await (cmd | sh(B).set(exit_codes={0, 3}, encoding="latin-1")).result
        if code == 0:
            want = b""  # of the last command
    elif who == "ctx":
        async with cmd.stdout(Redirect.CAPTURE) as run:
            data1 = await run.stdout.read()
        res = run.result()
        cmp(w, "stdout", data1, pattern(9000))
        cmp(w, "error_bytes", res.error_bytes, want)
        return
    else:
        try:
            await cmd.set(timeout=1.0, _catch_cancelled_error=True)
        except ResultError as ex:
            res = ex.result
        cmp(w, "exit code", res.exit_code, -15)
        cmp(w, "error_bytes", res.error_bytes, want)
        cmp(w, "output_bytes", res.output_bytes, pattern(9000))
        return
    cmp(w, "error_bytes", res.error_bytes, want)
    cmp(w, "output_bytes", res.output_bytes, pattern(9000))
    cmp(w, "exit code", res.exit_code, code)


# -- C13 --------------------------------------------------------------------
def member(i, code, after=0.0, first=False):
    "Writes its number to stderr, copies stdin to stdout adding its number, exits."
    def prog(p):
        yield ("write", 2, b"e%d" % i)
        buf = b""
        while True:
            d = yield ("read", 0, 4)
            if not d:
                break
            buf += d
            yield ("write", 1, d)
        yield ("write", 1, b"%d" % i)
        if after:
            yield ("sleep", after)
        if code < 0:
            yield ("kill", -code)
        return code
    return prog


def real(a):
    return -(a.status & 0x7F) if a.status & 0x7F else a.status >> 8


def pipe_result(w, n, ok):
    """Compare the pipeline's result with what the processes did."""
    ms = []

    def check(res):
        "the status and error text of the first command that failed on its own account"
        acts = {a.name: a for a in w.actors}
        ms[:] = [acts.get(f"m{i}") for i in range(n)]
        own = [i for i, a in enumerate(ms)
               if a is not None and real(a) != 0 and not any(st == "run" for _, _, st in a.signals)]
        if not own:
            return res.exit_code == 0 and res.error_bytes == b"e%d" % (n - 1)
        for i in own:
            if res.exit_code == real(ms[i]) and res.error_bytes == b"e%d" % i:
                # an earlier member may be passed over only if this one failed first, or at the same
                # moment, and made the pipeline stop
                raising = real(ms[i]) not in ok[i]
                return all(raising and ms[j].exit_time >= ms[i].exit_time for j in own if j < i)
        return False
    return ms, check


@dscn("pipe-status", "C13", max_time=3.0)
async def _(w, sh):
    n = pick(w, "members", [2, 3], [2])
    codes = [pick(w, f"code{i}", [0, 10 + i, -9], [0, 10 + i]) for i in range(n)]
    delay = [pick(w, f"delay{i}", [0.0, 1.0], [0.0]) for i in range(n)]
    allowed = pick(w, "allowed", ["default", "all", "last", "members"], ["default", "members"])
    form = pick(w, "form", ["result", "value", "ctx"], ["result", "value"])
    mods = {"default": None, "all": {0, 10, 11, 12, -9}, "last": {0, 10 + n - 1}, "members": None}[allowed]
    cmds = []
    for i in range(n):
        w.programs[f"/mc/m{i}"] = member(i, codes[i], delay[i])
        c = sh(f"/mc/m{i}")
        if allowed in ("all", "members") and i < n - 1:
            c = c.set(exit_codes={0, 10 + i, -9})
        if mods and i == n - 1:
            c = c.set(exit_codes=mods)
        cmds.append(c)
    pipe = cmds[0].stdin(b"in.")
    for c in cmds[1:]:
        pipe = pipe | c
    okset = set(range(-20, 20)) if form == "result" else mods or {0}
    ok = [{0} for _ in range(n)]
    for i in range(n):
        if allowed in ("all", "members") and i < n - 1:
            ok[i] = {0, 10 + i, -9}
        elif i == n - 1:
            ok[i] = okset
    ms, check = pipe_result(w, n, ok)
    val = None
    try:
        if form == "result":
            res = await pipe.result
        elif form == "value":
            val = await pipe
            res = None
        else:
            async with pipe as run:
                pass
            res = run.result()
    except ResultError as ex:
        res = ex.result
        cmp(w, "result", res, check)
        cmp(w, "error for an allowed status", res.exit_code in okset, False)
    else:
        if res is not None:
            cmp(w, "result", res, check)
            cmp(w, "no error for status", res.exit_code in okset, True)
        else:
            # all members succeeded, or their statuses are allowed
            cmp(w, "no error", [c for c in codes if c not in okset], [])
    if all(c == 0 for c in codes):
        want = b"in." + b"".join(b"%d" % i for i in range(n))
        if res is not None:
            cmp(w, "output", res.output_bytes, want)
        else:
            cmp(w, "value", val, want.decode())
        cmp(w, "cancelled", res.cancelled if res else False, False)


@dscn("pipe-links", "C13", max_time=3.0)
async def _(w, sh):
    """Each command reads exactly what its left neighbour wrote, and sees its end at once."""
    n = pick(w, "members", [2, 3, 4], [2, 3])
    shape = pick(w, "grouping", {2: ["l"], 3: ["l", "r"], 4: ["l", "r", "m"]}[n], ["l"])
    form = w.data_choice("form", ["await", "ctx", "iter", "run"])
    src = pick(w, "input", ["bytes", "default", "path", "pipe-op"], ["bytes"])
    slow = pick(w, "slow", list(range(n)) + [-1], [-1])
    closes = pick(w, "close_fds", [True, False], [True])
    for i in range(n):
        w.programs[f"/mc/m{i}"] = member(i, 0, 1.0 if i == slow else 0.0)
    cmds = [sh(f"/mc/m{i}").set(close_fds=closes) for i in range(n)]
    if shape == "l":
        pipe = cmds[0]
        for c in cmds[1:]:
            pipe = pipe | c
    elif shape == "r":
        pipe = cmds[-1]
        for c in reversed(cmds[:-1]):
            pipe = c | pipe
    else:
        pipe = (cmds[0] | cmds[1]) | (cmds[2] | cmds[3])
    data = b"hello"
    if src == "bytes":
        pipe = pipe.stdin(data)
    elif src == "path":
        p = Path(tmpdir(w)) / "in"
        p.write_bytes(data)
        pipe = pipe.stdin(p)
    elif src == "pipe-op":
        pipe = data | pipe
    else:
        data = b""
    want = data + b"".join(b"%d" % i for i in range(n))
    if form == "await":
        got = (await pipe).encode()
    elif form == "run":
        async with pipe as run:
            pass
        got = run.result().output_bytes
    elif form == "ctx":
        async with pipe.stdout(Redirect.CAPTURE) as run:
            got = await run.stdout.read()
        cmp(w, "exit code", run.result().exit_code, 0)
    else:
        got = "".join([x async for x in pipe]).encode()
    cmp(w, "output", got, want)
    acts = {a.name: a for a in w.actors}
    for i in range(1, n):
        a, b = acts[f"m{i - 1}"], acts[f"m{i}"]
        cmp(w, f"input of member {i}", bytes(b.got.get(0, b"")), bytes(a.sent.get(1, b"")))
        cmp(w, f"end-of-file of member {i}", b.eof_time.get(0), a.exit_time)


# -- C28 --------------------------------------------------------------------
def lines_of(data):
    parts = data.split(b"\n")
    tail = parts.pop()
    return [x + b"\n" for x in parts] + ([tail] if tail else [])


ITER_DATA = [b"", b"a", b"\n", b"a\n", b"\n\nb", b"a\r\nb", "\u20ac\nx\x0by".encode(), b"a\x0c\n\x1eb\n"]


@dscn("iter-lines", "C28", max_time=3.0)
async def _(w, sh):
    "Every chunking of short outputs, through every iteration form."
    form = w.data_choice("form", ["command", "pipeline", "run", "stderr", "pipe-run", "merged", "capture"])
    data = pick(w, "data", ITER_DATA, [b"a\n", b"\n\nb"])
    chunks = w.data_choice("chunks", chunkings(data))
    code = pick(w, "code", [0, 3], [3])
    fd = 2 if form == "stderr" else 1
    order = [(fd, c) for c in chunks]
    if form == "merged":
        order = [(1 if i % 2 else 2, c) for i, c in enumerate(chunks)]
    w.programs[A] = order_prog(order, code)
    w.programs[B] = cat(64)
    got = []
    cmd = sh(A)
    if form == "command":
        got = [x async for x in cmd]
    elif form == "capture":
        got = [x async for x in cmd.stdout(Redirect.CAPTURE)]
    elif form == "merged":
        got = [x async for x in cmd.stderr(Redirect.STDOUT)]
    elif form == "stderr":
        got = [x async for x in cmd.stdout(Redirect.DEVNULL).stderr(Redirect.STDOUT)]
    elif form == "run":
        async with cmd.stdout(Redirect.CAPTURE) as run:
            async for x in run:
                got.append(x)
        cmp(w, "exit code", run.result(check=False).exit_code, code)
    elif form == "pipeline":
        got = [x async for x in (cmd.set(exit_codes={0, 3}) | sh(B))]
    else:
        async with (cmd.set(exit_codes={0, 3}) | sh(B)).stdout(Redirect.CAPTURE) as run:
            async for x in run:
                got.append(x)
        cmp(w, "exit code", run.result(check=False).exit_code, code)
    cmp(w, "lines", got, [x.decode() for x in lines_of(data)])


@dscn("iter-long", "C28", max_time=1.0)
async def _(w, sh):
    n = w.data_choice("lines", [1, 3, 40000])
    size = w.data_choice("size", [1, 8191, 8192, 60000])
    if n * size > 500000:
        size = 7
    end = w.data_choice("end", [b"\n", b""])
    form = w.data_choice("form", ["command", "pipeline"])
    line = b"x" * size + b"\n"
    data = (line * n)[:-1] + end
    w.programs[A] = order_prog([(1, data)], 0)
    w.programs[B] = cat(65536)
    cmd = sh(A) if form == "command" else sh(A) | sh(B)
    got = [x async for x in cmd]
    cmp(w, "lines", got == [x.decode() for x in lines_of(data)], True)


@dscn("iter-abandon", "C28", max_time=5.0)
async def _(w, sh):
    "Leave the loop after every number of lines, in every way: the process is stopped."
    k = pick(w, "after", [1, 2, 3], [1, 2])
    how = w.data_choice("leave", ["aclose", "raise", "cancel", "timeout", "timeout-in-body"])
    form = w.data_choice("form", ["command", "pipeline", "run"] if "time" not in how else ["command", "run"])
    term = pick(w, "term", ["dies", "slow", "ignores"], ["dies", "slow"])
    traps = {"dies": None, "slow": slow_term(1.0), "ignores": IGNORE_TERM}[term]

    def prog(p):
        if traps:
            p.traps.update(traps)
        i = 0
        while True:
            yield ("write", 1, b"%d\n" % i)
            i += 1
            if i == (k if how == "timeout" else 4):
                yield ("hang",)

    w.programs[A] = prog
    w.programs[B] = cat(64)
    cmd = sh(A)
    if "timeout" in how:
        cmd = cmd.set(timeout=0.5)
    if form == "pipeline":
        cmd = cmd | sh(B)
    got = []
    hold = asyncio.Event()
    reached = asyncio.Event()

    async def body(it):
        async for x in it:
            got.append(x)
            if len(got) == k:
                reached.set()
                if how == "aclose":
                    break
                if how == "raise":
                    raise UserError()
                if how != "timeout":
                    await hold.wait()

    async def user():
        if form == "run":
            async with cmd.stdout(Redirect.CAPTURE) as run:
                await body(run)
                if how == "aclose":
                    run.send_signal(signal.SIGKILL)
            run.result()
            return
        it = aiter(cmd)
        try:
            await body(it)
        finally:
            await it.aclose()

    t = asyncio.ensure_future(user())
    if how == "cancel":
        await reached.wait()
        t.cancel()
    try:
        await t
        exc = None
    except BaseException as ex:
        exc = type(ex).__name__
    all_lines = ["%d\n" % i for i in range(k)]
    # a timeout may come before the lines do
    cmp(w, "lines", got, all_lines[:len(got)] if "timeout" in how and w.budget_given.get("dev") else all_lines)
    cmp(w, "processes left", [a.name for a in w.live_children()], [])
    want = {"aclose": (None,), "raise": ("UserError",), "cancel": ("CancelledError",),
            "timeout": ("TimeoutError",), "timeout-in-body": ("TimeoutError",)}[how]
    if form == "run" and how in ("aclose", "break+aclose"):
        want = ("ResultError",)
    cmp(w, "outcome", exc in want or exc, True)


ITER_OUT = ["default", "CAPTURE", "DEVNULL", "bytearray", "path"]
ITER_ERR = ["default", "BUFFER", "DEVNULL", "CAPTURE", "STDOUT", "bytearray", "path"]


@dscn("iter-redirect", "C28", max_time=3.0)
async def _(w, sh):
    "Which stream is iterated, for every pair of settings; the other one goes where it was sent."
    o = w.data_choice("stdout", ITER_OUT)
    e = w.data_choice("stderr", ITER_ERR)
    form = w.data_choice("form", ["command", "pipeline", "run", "pipe-run", "context"])
    order = pick(w, "order", [[(1, b"o1\no"), (2, b"e1\n"), (1, b"2\n"), (2, b"e2")], [(2, b"e1\ne"), (1, b"o1\n"), (2, b"2\n")]],
                 [[(1, b"o1\no"), (2, b"e1\n"), (1, b"2\n"), (2, b"e2")]])
    w.programs[A] = order_prog(order, 0) if "pipe" not in form else cat(8)
    w.programs[B] = order_prog(order, 0)
    places = {}

    def place(kind, tag):
        if kind == "bytearray":
            places[tag] = bytearray()
            return places[tag]
        if kind == "path":
            places[tag] = Path(tmpdir(w)) / tag
            return places[tag]
        return getattr(Redirect, kind)

    ctx = sh
    if form == "context":
        if o != "default":
            ctx = ctx.stdout(place(o, "out"))
        if e != "default":
            ctx = ctx.stderr(place(e, "err"))
        cmd = ctx(A)
    else:
        cmd = sh(A) if "pipe" not in form else sh(A) | sh(B)
        if o != "default":
            cmd = cmd.stdout(place(o, "out"))
        if e != "default":
            cmd = cmd.stderr(place(e, "err"))
    text = {n: b"".join(d for f, d in order if f == n) for n in (1, 2)}
    both = b"".join(d for f, d in order)
    out_cap = o in ("default", "CAPTURE")
    want, wout, werr = None, text[1], text[2]
    if out_cap and e == "CAPTURE":
        want = "RuntimeError"
    elif out_cap:
        want = both if e == "STDOUT" else text[1]
    elif e == "CAPTURE" or (o, e) == ("DEVNULL", "STDOUT"):
        want = text[2]
    else:
        want = b""
        if e == "STDOUT":
            wout = both
    if "run" in form and (want == "RuntimeError" or o == "default" or (o, e) == ("DEVNULL", "STDOUT")):
        cmp(w, "not applicable", 0, 0)  # the block has to name the stream it captures
        return
    got = []
    try:
        if "run" in form:
            async with cmd as run:
                async for x in run:
                    got.append(x)
        else:
            async for x in cmd:
                got.append(x)
    except RuntimeError as ex:
        got = type(ex).__name__
    cmp(w, "lines", got, want if isinstance(want, str) else [x.decode() for x in lines_of(want)])
    if want != "RuntimeError":
        for tag, data in (("out", wout), ("err", werr)):
            if tag in places:
                p = places[tag]
                cmp(w, f"std{tag}", bytes(p) if isinstance(p, bytearray) else p.read_bytes(), data)
    else:
        cmp(w, "processes", len(w.actors), 0)


@dscn("iter-error", "C28", max_time=5.0)
async def _(w, sh):
    "What cannot be iterated raises after the lines before it, and the process is stopped."
    kind = w.data_choice("kind", ["undecodable", "undecodable-end", "long", "long-end", "missing", "exit"])
    before = w.data_choice("before", [0, 1, 2])
    form = w.data_choice("form", ["command", "pipeline", "run", "pipe-run"])
    then = pick(w, "then", ["exit", "hang", "more"], ["exit", "hang"])
    encoding = pick(w, "encoding", ["utf-8", "utf-8 replace", "ascii"], ["utf-8"])
    bad = {"undecodable": b"x\xff\n", "undecodable-end": b"\xe2\x82", "long": b"y" * 70000 + b"\n",
           "long-end": b"z" * 70000, "missing": b"", "exit": b"last"}[kind]
    at_end = kind in ("undecodable-end", "long-end", "exit", "missing")

    def prog(p):
        for i in range(before):
            yield ("write", 1, b"%d\n" % i)
        yield ("write", 1, bad)
        if at_end:
            return 4 if kind == "exit" else 0
        if then == "hang":
            yield ("hang",)
        if then == "more":
            for i in range(3):
                yield ("write", 1, b"more\n")
    if (then == "hang" and kind == "undecodable" and encoding == "utf-8 replace") or (at_end and then != "exit"):
        cmp(w, "not applicable", 0, 0)  # would rightly wait for ever / nothing follows
        return
    name = MISSING if kind == "missing" else A
    w.programs[A] = prog
    w.programs[B] = cat(65536)
    cmd = sh(name).set(encoding=encoding, exit_codes={0, 4, -15})
    if "pipe" in form:
        cmd = cmd | sh(B).set(encoding=encoding)
    got = []
    try:
        if "run" in form:
            async with cmd.stdout(Redirect.CAPTURE) as run:
                async for x in run:
                    got.append(x)
        else:
            async for x in cmd:
                got.append(x)
        exc = None
    except Exception as ex:
        exc = type(ex).__name__
    lines = ["%d\n" % i for i in range(before)]
    if kind in ("undecodable", "undecodable-end") and encoding != "utf-8 replace":
        want = "UnicodeDecodeError"
    elif kind in ("long", "long-end"):
        want = "ValueError"
    elif kind == "missing":
        want, lines = "FileNotFoundError", []
    else:
        want = None
        if kind == "exit":
            lines.append("last")
        else:
            lines += ["x\ufffd\n"] if kind == "undecodable" else ["\ufffd"]
            if then == "more" and not at_end:
                lines += ["more\n"] * 3
    cmp(w, "lines", got, lines)
    cmp(w, "outcome", exc, want)
    cmp(w, "processes left", [a.name for a in w.live_children()], [])
