"""C32: a command can be run again, whatever became of its earlier runs.

The same object is used twice (one after the other, or the second while the first is running); the
second run must look exactly like the run of an equal object that was never used before.
"""

import asyncio
import io
import os
import signal
from pathlib import Path

from shellous.redirect import Redirect

from . import world as W
from .catalog import A, B, C_, D, UserError
from .data import cmp, dscn, pick, tmpdir
from .d_inherit import snapshot
from .d_timeout import outcome_of

KINDS = ["plain", "args", "bytes", "text", "array-in", "path-in", "path-out", "path-append", "err-out", "array-out", "array-append", "bytesio-out",
         "stringio-err", "env", "no-inherit", "codes", "timeout", "limit", "pass", "pass-list", "pty", "pty-size", "encoding", "alt", "audit",
         "coerce", "sub-r", "sub-w", "sub-2", "sub-nested", "capture", "signal", "result", "nested", "unread"]
SHAPES = ["alone", "first", "last", "only", "in-sub"]
FIRST = ["await", "result", "ctx", "iter", "pipe-in"]
ENDS = ["zero", "code", "killed", "missing", "timeout", "raise", "leave", "abandon", "cancelled", "overlap", "twice"]
SECOND = ["await", "result", "ctx", "iter"]


def program(w):
    def prog(p):
        p.seen = snapshot(p)
        p.heard = b""
        p.seen_env = {k: v for k, v in (os.environ if p.env is None else p.env).items() if k.startswith("MC_") or p.env is not None and len(p.env) < 3}
        mode = w.user["mode"]
        if "tty" not in w.user:
            yield ("write", 1, b"%s one\n" % p.argv[0].encode())
        if mode != "leave":
            if "tty" not in w.user or p.argv[0] != A:
                while True:
                    d = yield ("read", 0, 4096)
                    if not d:
                        break
                    p.heard += d
            else:
                d = yield ("read", 0, 4096)
                p.heard += d
        for arg in p.argv[1:]:
            if arg.startswith("/dev/fd/"):
                fd = int(arg.rsplit("/", 1)[1])
                if p.seen[fd][3] == os.O_RDONLY:
                    while True:
                        d = yield ("read", fd, 4096)
                        if not d:
                            break
                        p.heard += b"+" + d
                else:
                    yield ("write", fd, b"to the substitution\n")
                yield ("close", fd)
        yield ("write", 2, b"error\n")
        if mode == "hang" and p.argv[0] == A:
            yield ("hang",)
        if mode == "killed" and p.argv[0] == A:
            yield ("kill", signal.SIGABRT)
        yield ("write", 1, b"two\n")
        return 3 if mode == "code" and p.argv[0] == A else 0
    return prog


class Build:
    "Makes equal commands; what they redirect to can be looked at."

    def __init__(self, w, sh, kind, shape):
        self.w, self.sh, self.kind, self.shape = w, sh, kind, shape
        tmp = tmpdir(w)
        self.path = os.path.join(tmp, "file")
        self.fd = None
        self.store = bytearray()
        self.obj = None
        if kind == "bytesio-out":
            self.obj = io.BytesIO()
        elif kind == "stringio-err":
            self.obj = io.StringIO()
        if kind.startswith("pass"):
            self.fd = W._os_open(self.path + ".fd", os.O_CREAT | os.O_RDWR, 0o600)
            w.user.setdefault("keep", []).append(self.fd)
        self.reset()

    def reset(self):
        "The world outside the command as it is before each run that is looked at."
        with W._open(self.path, "wb") as f:
            f.write(b"before\n")
        self.store[:] = b"before\n"
        if self.obj is not None:
            self.obj.seek(0)
            self.obj.truncate()
            self.obj.write("before\n" if isinstance(self.obj, io.StringIO) else b"before\n")
        self.w.user["audited"] = []

    def outside(self):
        with W._open(self.path, "rb") as f:
            return [f.read(), bytes(self.store), self.obj and self.obj.getvalue(), list(self.w.user["audited"])]

    def command(self):
        sh, k = self.sh, self.kind
        cmd = sh(A)
        if k == "args":
            cmd = sh(A, ["x", ("y", 2)], 1.5)
        elif k == "bytes":
            cmd = cmd.stdin(b"input\n")
        elif k == "text":
            cmd = cmd.stdin("input\n")
        elif k == "array-in":
            cmd = cmd.stdin(bytearray(b"input\n"))
        elif k == "path-in":
            cmd = cmd.stdin(Path(self.path))
        elif k == "path-out":
            cmd = cmd.stdout(Path(self.path))
        elif k == "path-append":
            cmd = cmd.stdout(Path(self.path), append=True)
        elif k == "err-out":
            cmd = cmd.stderr(Redirect.STDOUT)
        elif k == "array-out":
            cmd = cmd.stdout(self.store)
        elif k == "array-append":
            cmd = cmd.stdout(self.store, append=True)
        elif k == "bytesio-out":
            cmd = cmd.stdout(self.obj)
        elif k == "stringio-err":
            cmd = cmd.stderr(self.obj)
        elif k == "env":
            cmd = cmd.env(MC_X="1")
        elif k == "no-inherit":
            cmd = cmd.env(MC_X="1").set(inherit_env=False)
        elif k == "codes":
            cmd = cmd.set(exit_codes={3, 0})
        elif k == "timeout":
            cmd = cmd.set(timeout=5.0)
        elif k == "limit":
            cmd = cmd.set(error_limit=3)
        elif k == "pass":
            cmd = cmd.set(pass_fds=(self.fd,))
        elif k == "pass-list":
            cmd = cmd.set(pass_fds=[self.fd])(sh(B))
        elif k == "pty":
            cmd = cmd.set(pty=True).stdin(b"line\n")
        elif k == "pty-size":
            from shellous.pty_util import raw
            cmd = cmd.set(pty=raw(10, 20)).stdin(b"q\n")
        elif k == "encoding":
            cmd = cmd.set(encoding="latin-1").stdin("\xe9\n")
        elif k == "alt":
            cmd = cmd.set(alt_name="other")
        elif k == "audit":
            cmd = cmd.set(audit_callback=lambda phase, info: self.w.user["audited"].append(
                (phase, info["failure"], info["signal"], info["runner"].name)))
        elif k == "coerce":
            cmd = sh.set(coerce_arg=lambda x: ["c", str(x)] if isinstance(x, complex) else x)(A, 1j, 5)
        elif k == "sub-r":
            cmd = cmd(sh(B))
        elif k == "sub-w":
            cmd = cmd(sh(B).writable)
        elif k == "sub-2":
            cmd = cmd(sh(B), "x", sh(D).writable)
        elif k == "sub-nested":
            cmd = cmd(sh(B, sh(D)))
        elif k == "capture":
            cmd = cmd.stderr(Redirect.CAPTURE)
        elif k == "signal":
            cmd = cmd.set(cancel_signal=signal.SIGINT, cancel_timeout=0.25)
        elif k == "result":
            cmd = cmd.result
        elif k == "unread":
            cmd = cmd.stdin(b"x" * 100_000)
        if self.shape == "first":
            return cmd | sh(C_)
        if self.shape == "last":
            return sh(C_) | cmd
        if self.shape == "only":
            return sh(C_) | cmd | sh(D)
        if self.shape == "in-sub":
            return sh(C_, cmd)
        if self.kind == "nested":
            return (sh(C_) | cmd) | (sh(D) | sh(D))
        return cmd


async def use(w, cmd, form, leave=None):
    if form == "await":
        return await cmd
    if form == "result":
        r = await cmd.result
        return [(x.exit_code, x.output_bytes, x.error_bytes, x.cancelled) for x in (r if isinstance(r, tuple) else [r])]
    if form == "ctx":
        async with cmd as run:
            jobs = [asyncio.ensure_future(s.read()) for s in (run.stdout, run.stderr) if s is not None]
            if run.stdin is not None:
                run.stdin.close()
            if leave == "raise":
                for j in jobs:
                    j.cancel()
                raise UserError("mine")
            if leave == "leave":
                for j in jobs:
                    j.cancel()
                return "left"
            got = [await j for j in jobs]
        r = run.result()
        return [got, r if isinstance(r, str) else (r.exit_code, r.output_bytes, r.error_bytes)]
    if form == "iter":
        got = []
        it = cmd.__aiter__()
        try:
            async for x in it:
                if leave == "raise":
                    raise UserError("mine")
                if leave in ("leave", "abandon"):
                    break
                got.append(x)
        finally:
            await it.aclose()
        return got
    if form == "pipe-in":
        return await (w.user["sh"](C_) | cmd)
    raise AssertionError(form)


def observed(w, since, around):
    "Every process started since: what it was given and what it read."
    res = []
    ends = {}
    for a in w.actors[since:]:
        if not a.is_child:
            continue
        fds = {}
        for fd, x in a.seen.items():
            if fd in around or fd <= 2:
                fds[fd if fd <= 2 else "given"] = x[2:]
            else:
                fds.setdefault("more", []).append(x[2:])
        argv = [("/dev/fd/" if isinstance(s, str) and s.startswith("/dev/fd/") else s) for s in a.argv]
        res.append((argv, sorted((a.seen_env).items()), a.heard, sorted(fds.items(), key=repr), a.start_new_session,
                    a.status, sorted({sig for _, sig, _ in a.signals}), bool(a.preexec)))
    return sorted(res, key=repr)


@dscn("rerun", "C32", max_time=20.0)
async def _(w, sh):
    "Kinds of command x shape x how the first run goes x how the second is done."
    wide = w.budget_given.get("wide")
    kind = pick(w, "kind", KINDS, ["sub-2", "pty", "timeout"])
    shape = pick(w, "shape", SHAPES, ["alone", "last"])
    first = pick(w, "first", FIRST if wide else [x for x in FIRST if x != "result"], ["await", "iter"])
    end = w.data_choice("end", ENDS)
    second = pick(w, "second", SECOND if wide else [x for x in SECOND if x != "result"], ["result"])
    if (kind == "nested" and shape != "alone" or kind == "result" and (shape != "alone" or first in ("iter", "ctx", "pipe-in", "result"))
            or kind == "result" and second != "await" or end == "raise" and first not in ("ctx", "iter") or end == "leave" and first != "ctx"
            or end == "abandon" and first != "iter" or kind in ("path-out", "path-append", "array-out", "array-append", "bytesio-out")
            and (shape in ("first", "only", "in-sub") or "iter" in (first, second)) or kind in ("bytes", "text", "array-in", "path-in", "unread", "encoding",
            "pty-size") and (shape in ("last", "only") or first == "pipe-in") or kind in ("pty", "pty-size") and (shape != "alone" or first == "pipe-in")
            or shape == "in-sub" and kind in ("array-out", "pty") or kind == "unread" and shape != "alone"
            or first == "pipe-in" and (shape != "alone" or kind in ("nested",)) or kind == "capture" and (first in ("await", "result", "pipe-in")
                                                                                   or shape != "alone" or second != "ctx")
            or end == "timeout" and kind != "timeout"
            or shape == "in-sub" and (kind in ("capture", "err-out") or end in ("timeout", "code", "killed", "missing"))):
        return cmp(w, "not applicable", 0, 0)
    if kind in ("pty", "pty-size"):
        w.user["tty"] = True
    w.user["sh"] = sh
    prog = program(w)
    for path in (A, B, C_, D):
        w.programs[path] = prog
    w.user["mode"] = "zero"
    if kind == "unread":
        w.user["mode"] = "leave"
    plain = w.user["mode"]
    b = Build(w, sh, kind, shape)
    cmd = b.command()
    before = repr(cmd)
    fresh = b.command()
    around = {b.fd} if b.fd is not None else set()
    cmp(w, "equal before", cmd == fresh or kind in ("audit", "coerce", "pty-size"), True)
    # ---- the first run
    mode = {"code": "code", "killed": "killed", "timeout": "hang", "cancelled": "hang", "overlap": plain, "raise": "hang", "leave": "leave",
            "abandon": "hang"}.get(end, plain)
    w.user["mode"] = mode
    if end == "missing":
        del w.programs[A]
    job = None
    if end == "cancelled":
        t = asyncio.ensure_future(outcome_of(use(w, cmd, first)))
        await asyncio.sleep(0.5)
        t.cancel()
        await asyncio.wait([t])
    elif end == "overlap":
        job = asyncio.ensure_future(outcome_of(use(w, cmd, first)))
        await asyncio.sleep(0)
        await asyncio.sleep(0)
    else:
        await outcome_of(use(w, cmd, first, end))
        if end == "twice":
            await outcome_of(use(w, cmd, first, end))
    w.programs[A] = prog
    os.environ["MC_LATE"] = "late"  # only later runs see this
    w.user.setdefault("cleanup", []).append(lambda: os.environ.pop("MC_LATE", None))
    if job is not None:
        # the streams of the two runs are the same objects: they are looked at one after the other
        if kind in ("array-out", "array-append", "bytesio-out", "stringio-err", "path-out", "path-append", "audit"):
            await job
            job = None
    w.user["mode"] = plain
    # ---- the second run of the same object
    n = len(w.actors)
    b.reset()
    out2 = await outcome_of(use(w, cmd, second))
    if job is not None:
        await job
    seen2 = observed(w, n, around)
    outside2 = b.outside()
    # ---- the run of an object that was not used before
    n = len(w.actors)
    b.reset()
    if job is not None:
        job = asyncio.ensure_future(outcome_of(use(w, fresh2(b), first)))
        await asyncio.sleep(0)
        await asyncio.sleep(0)
    out3 = await outcome_of(use(w, fresh, second))
    if job is not None:
        await job
    seen3 = observed(w, n, around)
    outside3 = b.outside()
    if not (w.hurried and kind == "timeout"):
        cmp(w, "outcome of the second run", out2, out3)
    if w.hurried and kind == "timeout":
        pass
    elif end == "overlap":
        seen2 = [x for x in seen2 if x in seen3] if len(seen2) > len(seen3) else seen2
    else:
        cmp(w, "processes of the second run", seen2, seen3)
    cmp(w, "what it was redirected to", outside2, outside3)
    b.reset()
    cmp(w, "text of the object is the same", repr(cmd) == before or (repr(cmd), before), True)
    cmp(w, "equal afterwards", cmd == fresh or kind in ("audit", "coerce", "pty-size"), True)
    cmp(w, "the second run succeeds", out3, lambda x: not isinstance(x, str) or x[-5:] != "Error" or kind == "unread" and x == "BrokenPipeError" or w.hurried and x == "TimeoutError")
    for fd in w.user.pop("keep", ()):
        os.close(fd)
    return None


def fresh2(b):
    return b.command()
