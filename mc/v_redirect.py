"""C23: the full product of stdin x stdout x stderr settings, observed at every destination."""

import asyncio
import io
import itertools
import logging
import os
import shutil
import sys
import tempfile
from pathlib import Path

from . import catalog as K
from . import world as W
from .v_args import _S
from shellous import sh

STDIN = ("default", "str", "emptystr", "bytes", "bytearray", "path", "path-missing", "fd", "fd-close", "DEVNULL", "INHERIT",
         "bytesio", "stringio", "reader", "CAPTURE", "BUFFER", "object", "STDOUT", "None")
OUT = ("default", "BUFFER", "CAPTURE", "DEVNULL", "INHERIT", "path", "path-append", "path-nodir", "fd", "fd-close",
       "fd-append", "bytearray", "bytearray-append", "bytesio", "bytesio-append", "stringio", "stringio-append",
       "file", "file-append", "logger", "writer", "object", "None", "str")
MID = ("bytesio-mid", "bytesio-mid-append", "stringio-mid", "stringio-mid-append", "file-mid", "file-mid-append",
       "bytesio-end", "stringio-end-append")
PIPES = ("pipefile", "pipefile-append")
ERR = OUT + ("STDOUT", "same-path-append", "same-fd")
BAD = {"object": TypeError, "None": TypeError, "str": TypeError}
IN_DATA = {"default": b"", "str": "in\u00e9".encode(), "emptystr": b"", "bytes": b"by", "bytearray": b"ba",
           "path": b"pathdata", "fd": b"fddata", "fd-close": b"fddata", "DEVNULL": b"", "INHERIT": b"inherited",
           "bytesio": b"bio", "stringio": b"sio", "reader": b"rd", "CAPTURE": b"cap"}


def child(p):
    "Reads its input to the end, writes tagged bytes to both outputs."
    while True:
        d = yield ("read", 0, 64)
        if not d:
            break
    yield ("write", 1, b"o1\n")
    yield ("write", 2, b"e1\n")
    yield ("write", 1, b"o2\n")
    yield ("write", 2, b"e2\n")
    return 0


def silent_child(p):
    "Reads its input to the end and writes nothing."
    while True:
        d = yield ("read", 0, 64)
        if not d:
            break
    return 0


O_ONLY, E_ONLY, BOTH = b"o1\no2\n", b"e1\ne2\n", b"o1\ne1\no2\ne2\n"


def cases(tier):
    for i, o, e in itertools.product(STDIN, OUT, ERR):
        bad = sum((i in ("path-missing", "BUFFER", "object", "STDOUT", "None"), o in ("path-nodir", "object", "None", "str"),
                   e in ("path-nodir", "object", "None", "str")))
        if bad > 1 and tier != "thorough":
            continue
        if e == "same-path-append" and o != "path-append" or e == "same-fd" and o not in ("fd", "fd-append"):
            continue
        for form in ("await", "with"):
            yield (i, o, e, form)
    # file objects handed over with their position in the middle or at the end
    for i in ("default", "str", "path"):
        for m in MID:
            for other in OUT[:8] + MID:
                if "nodir" in other:
                    continue
                for form in ("await", "with"):
                    yield (i, m, other, form)
                    if other not in MID:
                        yield (i, other, m, form)
    # file objects that cannot be positioned
    for i in ("default", "str", "path"):
        for m in PIPES:
            for other in OUT[:8] + ("file", "file-append") + PIPES:
                if "nodir" in other:
                    continue
                for form in ("await", "with"):
                    yield (i, m, other, form)
                    yield (i, other, m, form)
    # a program that writes nothing: what was there is still replaced, or kept
    for i in ("default", "str", "path"):
        for o, e in itertools.product(OUT + MID + PIPES, repeat=2):
            if {o, e} & {"path-nodir", "object", "None", "str"}:
                continue
            for form in ("await", "with"):
                yield (i, o, e, form, "silent")


def name(case):
    return "redirect"


class Place:
    "One destination: how to give it to the command, and what it holds afterwards."

    def __init__(self, kind, root, tag):
        self.kind, self.tag = kind, tag
        self.append = kind.endswith("-append")
        self.close = kind == "fd-close"
        self.path = os.path.join(root, tag)
        self.fd = None
        self.lines = []
        k = kind.replace("-append", "").replace("-close", "").replace("-mid", "").replace("-end", "")
        self.k = k
        if k == "pipefile":
            os.mkfifo(self.path)
            self.rd = os.open(self.path, os.O_RDONLY | os.O_NONBLOCK)
            self.obj = W._open(self.path, "wb")
        if k in ("path", "file", "fd"):
            with W._open(self.path, "wb") as f:
                f.write(b"OLD")
        if k == "path":
            self.obj = Path(self.path)
        elif k == "path-nodir":
            self.obj = Path(root) / "no-such-dir" / "f"
        elif k == "fd":
            flags = os.O_WRONLY | (os.O_APPEND if self.append else os.O_TRUNC)
            self.obj = self.fd = os.open(self.path, flags)
            self.append = False
        elif k == "bytearray":
            self.obj = bytearray(b"OLD")
        elif k == "bytesio":
            self.obj = io.BytesIO(b"OLD")
        elif k == "stringio":
            self.obj = io.StringIO("OLD")
        elif k == "file":
            self.obj = W._open(self.path, "r+b")
        elif k == "logger":
            self.obj = logging.Logger("mc-" + tag)
            self.obj.addHandler(_H(self.lines))
        elif k == "object":
            self.obj = object()
        elif k == "None":
            self.obj = None
        elif k == "str":
            self.obj = "a string"
        elif k == "writer":
            self.obj = None  # made inside the loop
        elif k == "default":
            self.obj = None
        elif k == "pipefile":
            pass
        else:
            self.obj = getattr(sh, k)
        if "-mid" in kind or "-end" in kind:
            self.obj.seek(1 if "-mid" in kind else 3)

    def content(self, w):
        k = self.k
        if k in ("path", "fd"):
            return W._open(self.path, "rb").read()
        if k == "file":
            if self.obj.closed:
                return "closed"
            return W._open(self.path, "rb").read()
        if k == "pipefile":
            try:
                return "closed" if self.obj.closed else os.read(self.rd, 4096)
            except BlockingIOError:
                return b""
        if k == "bytearray":
            return bytes(self.obj)
        if k == "bytesio":
            return self.obj.getvalue()
        if k == "stringio":
            return self.obj.getvalue().encode()
        if k == "logger":
            return ("".join(x + "\n" for x in self.lines)).encode()
        if k == "writer":
            return w.user["writer-" + self.tag]
        return None

    def expect(self, data):
        k = self.k
        if k in ("path", "file", "bytearray", "bytesio", "stringio"):
            return (b"OLD" if self.append else b"") + data
        if k == "fd":
            return (b"OLD" if self.kind == "fd-append" else b"") + data
        if k in ("logger", "writer", "pipefile"):
            return data
        return None


class _H(logging.Handler):
    def __init__(self, lines):
        super().__init__()
        self.lines = lines

    def emit(self, record):
        self.lines.append(record.getMessage() if record.levelno == logging.ERROR else f"LEVEL {record.levelno}")


async def _make_writer(w, tag):
    "A stream writer on a pipe; the other end is collected afterwards."
    r, wr = os.pipe()
    loop = asyncio.get_running_loop()
    tr, proto = await loop.connect_write_pipe(
        lambda: asyncio.StreamReaderProtocol(asyncio.StreamReader(), loop=loop), os.fdopen(wr, "wb"))
    return asyncio.StreamWriter(tr, proto, None, loop), r


def make_input(kind, root):
    """Return (object or None for default, close, fd, expected error of the builder, expected error of the run)."""
    p = os.path.join(root, "input")
    with W._open(p, "wb") as f:
        f.write(b"pathdata" if kind == "path" else b"fddata")
    if kind in ("fd", "fd-close"):
        fd = os.open(p, os.O_RDONLY)
        return fd, kind == "fd-close", fd
    obj = {"str": "in\u00e9", "emptystr": "", "bytes": b"by", "bytearray": bytearray(b"ba"), "path": Path(p),
           "path-missing": Path(root) / "missing", "bytesio": io.BytesIO(b"bio"), "stringio": io.StringIO("sio"),
           "object": object(), "None": None}.get(kind)
    if kind in ("DEVNULL", "INHERIT", "CAPTURE", "BUFFER", "STDOUT"):
        obj = getattr(sh, kind)
    return obj, False, None


def check(case):
    ikind, okind, ekind, form = case[:4]
    silent = len(case) > 4
    o_only, e_only, both = (b"", b"", b"") if silent else (O_ONLY, E_ONLY, BOTH)
    root = tempfile.mkdtemp(prefix="mc-redir-")
    saved = sys.stdin, sys.stdout
    saved_err = sys.stderr
    opened = []
    try:
        inh_in = W._open(os.path.join(root, "sys-in"), "w+b")
        inh_in.write(b"inherited")
        inh_in.flush()
        inh_in.seek(0)
        inh_out = W._open(os.path.join(root, "sys-out"), "wb")
        inh_err = W._open(os.path.join(root, "sys-err"), "wb")
        opened += [inh_in, inh_out, inh_err]
        iobj, iclose, ifd = make_input(ikind, root)
        out = Place(okind, root, "out")
        if ekind == "STDOUT":
            err = None
        elif ekind == "same-path-append":
            err = Place("path-append", root, "out2")
            err.obj = out.obj
        elif ekind == "same-fd":
            err = Place("fd", root, "out2")
            os.close(err.fd)
            err.fd = None
            err.obj = out.obj
        else:
            err = Place(ekind, root, "err")
        for pl in (out, err):
            if pl is not None and pl.k in ("file", "pipefile"):
                opened.append(pl.obj)
        built_error = None

        def build(i, o, e):
            cmd = sh(K.A)
            if ikind != "default":
                cmd = cmd.stdin(i, close=iclose)
            if okind != "default":
                cmd = cmd.stdout(o, append=out.append, close=out.close)
            if ekind == "STDOUT":
                cmd = cmd.stderr(sh.STDOUT)
            elif ekind != "default":
                cmd = cmd.stderr(e, append=err.append, close=err.close)
            return cmd.set(_return_result=True)

        async def fn(w):
            i, o, e = iobj, out.obj, err.obj if err else None
            rds = {}
            if ikind == "reader":
                i = asyncio.StreamReader()
                i.feed_data(b"rd")
                i.feed_eof()
            if okind == "writer":
                o, rds["out"] = await _make_writer(w, "out")
            if ekind == "writer":
                e, rds["err"] = await _make_writer(w, "err")
            w.user["fds0"] = W.fd_table()
            try:
                try:
                    cmd = build(i, o, e)
                except Exception as ex:
                    w.user["builder"] = ex
                    raise
                if form == "await":
                    return await cmd
                cap = {}
                async with cmd as run:
                    if run.stdin is not None:
                        if ikind == "CAPTURE":
                            run.stdin.write(b"cap")
                        run.stdin.close()
                    jobs = {n: asyncio.ensure_future(s.read()) for n, s in
                            (("out", run.stdout), ("err", run.stderr)) if s is not None}
                    for n, j in jobs.items():
                        cap[n] = await j
                w.user["cap"] = cap
                return run.result()
            finally:
                w.user["fds1"] = W.fd_table()
                for n, wr in (("out", o), ("err", e)):
                    if n in rds:
                        wr.close()
                        try:
                            await wr.wait_closed()
                        except OSError:
                            pass
                        data = b""
                        while True:
                            d = os.read(rds[n], 4096)
                            if not d:
                                break
                            data += d
                        os.close(rds[n])
                        w.user["writer-" + n] = data

        scn = _S(fn, {K.A: silent_child if silent else child})
        if form == "await" and ikind == "CAPTURE":
            # nobody can write to or close the captured stdin in this form: the child must not wait for it
            def no_read(p):
                g = (silent_child if silent else child)(p)
                next(g)
                try:
                    op = g.send(b"")
                except StopIteration as ex:
                    return ex.value
                while True:
                    v = yield op
                    try:
                        op = g.send(v)
                    except StopIteration as ex:
                        return ex.value
            scn = _S(fn, {K.A: no_read})
        sys.stdin, sys.stdout, sys.stderr = inh_in, inh_out, inh_err
        try:
            r = W.run_one(scn, W.POLICIES["lazy"], [], {})
        finally:
            sys.stdin, sys.stdout = saved
            sys.stderr = saved_err
        w = r.world
        # ---- model ----
        msgs = []
        want_err = None
        if ikind in ("None", "object", "BUFFER") or okind in BAD or ekind in BAD:
            want_err = (TypeError,)
        if ikind == "STDOUT":
            want_err = (ValueError,) if not (okind in BAD or ekind in BAD) else (ValueError, TypeError)
        paths_bad = ikind == "path-missing" or okind == "path-nodir" or ekind == "path-nodir"
        if paths_bad:
            want_err = (want_err or ()) + (FileNotFoundError,)
        merged_cap = okind == "CAPTURE" and ekind == "CAPTURE"
        if form == "await" and merged_cap:
            want_err = (want_err or ()) + (ValueError,)
        if form == "await" and "CAPTURE" in (okind, ekind) and not want_err:
            # output captured but never read: allowed, but nothing to compare for that stream
            pass
        key = (ikind, okind, ekind, form, type(r.exc).__name__, r.outcome)
        if want_err:
            if not isinstance(r.exc, want_err):
                msgs.append(f"{case}: expected {[x.__name__ for x in want_err]}, got {r.exc!r} {r.value!r}")
            if w.execs:
                msgs.append(f"{case}: rejected, but the program was started")
            return _fds(case, w, ifd, iclose, out, err, msgs), True, key
        if r.outcome != "done" or r.exc is not None:
            return [f"{case}: {r.outcome} {r.exc!r}"], True, key
        res = r.value
        a = w.execs[0]
        if ikind != "CAPTURE" or form == "with":
            got_in = bytes(a.got.get(0, b""))
            if got_in != IN_DATA[ikind] or 0 not in a.eof:
                msgs.append(f"{case}: the program read {got_in!r} eof={0 in a.eof}, expected {IN_DATA[ikind]!r}")
        # where each stream goes: collect expected data per destination
        errk = ekind
        only_err = okind == "DEVNULL" and ekind == "STDOUT"
        o_data, e_data = o_only, e_only
        if ekind == "STDOUT" and not only_err:
            o_data, e_data = both, None
        if ekind in ("same-path-append", "same-fd"):
            o_data, e_data, errk = both, None, None
        want_output = o_data if okind in ("default", "BUFFER") else b""
        want_error = e_data if ekind in ("default", "BUFFER") else b""
        if only_err:
            want_output, o_data, e_data = e_only, b"", None
        if (res.output_bytes, res.error_bytes) != (want_output, want_error):
            msgs.append(f"{case}: result has output {res.output_bytes!r} error {res.error_bytes!r}, "
                        f"expected {want_output!r} {want_error!r}")
        sysout = sysin_err = b""
        if okind == "INHERIT":
            sysout = o_data
        if ekind == "INHERIT":
            sysin_err = e_data
        got = W._open(inh_out.name, "rb").read(), W._open(inh_err.name, "rb").read()
        if got != (sysout, sysin_err):
            msgs.append(f"{case}: inherited streams got {got!r}, expected {(sysout, sysin_err)!r}")
        if okind not in ("CAPTURE",):
            want = out.expect(o_data)
            if want is not None and out.content(w) != want:
                msgs.append(f"{case}: stdout destination holds {out.content(w)!r}, expected {want!r}")
        if err is not None and e_data is not None and ekind != "CAPTURE":
            want = err.expect(e_data)
            if want is not None and err.content(w) != want:
                msgs.append(f"{case}: stderr destination holds {err.content(w)!r}, expected {want!r}")
        if form == "with":
            cap = w.user["cap"]
            want = {}
            if okind == "CAPTURE":
                want["out"] = o_data
            if ekind == "CAPTURE":
                want["err"] = e_data
            if cap != want:
                msgs.append(f"{case}: captured {cap!r}, expected {want!r}")
        return _fds(case, w, ifd, iclose, out, err, msgs), True, key
    finally:
        sys.stdin, sys.stdout = saved
        sys.stderr = saved_err
        for f in opened:
            f.close()
        for pl in ("out", "err"):
            o = locals().get(pl)
            if isinstance(o, Place) and hasattr(o, "rd"):
                os.close(o.rd)
            if isinstance(o, Place) and o.fd is not None and _is(o.fd, o.path):
                os.close(o.fd)
        fd = locals().get("ifd")
        if fd is not None and _is(fd, os.path.join(root, "input")):
            os.close(fd)
        shutil.rmtree(root, ignore_errors=True)


def _is(fd, path):
    try:
        return os.readlink(f"/proc/self/fd/{fd}") == path
    except OSError:
        return False


def _fds(case, w, ifd, iclose, out, err, msgs):
    "Descriptors handed over are closed, the others stay open, nothing else remains."
    if "builder" in w.user:
        return msgs
    b, a = dict(w.user["fds0"]), dict(w.user["fds1"])
    given = [(ifd, iclose)] + [(pl.fd, pl.close) for pl in (out, err) if pl is not None]
    for fd, close in given:
        if fd is None:
            continue
        b.pop(fd, None)
        is_open = a.pop(fd, None) is not None
        if is_open == close:
            msgs.append(f"{case}: descriptor given with close={close} is {'open' if is_open else 'closed'} afterwards")
    if "writer" in (case[1], case[2]):
        # a stream writer used as a sink is closed at the end of the copy
        a = {k: v for k, v in a.items() if not v.startswith("pipe:")}
        b = {k: v for k, v in b.items() if not v.startswith("pipe:")}
    if a != b:
        msgs.append(f"{case}: descriptors changed: {sorted(set(a.items()) ^ set(b.items()))}")
    if w.problems:
        msgs.append(f"{case}: {w.problems}")
    return msgs
