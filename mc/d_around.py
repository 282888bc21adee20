"""C31: running a command changes nothing in the calling process."""

import asyncio
import copy
import contextvars
import os
import signal
import sys
from pathlib import Path

from shellous.redirect import Redirect

from . import world as W
from .catalog import A, B, C_, MISSING, UserError
from .data import cmp, dscn, pick, tmpdir
from .d_timeout import outcome_of

GIVEN = ["pipe-in", "pipe-in-nonblock", "pipe-out", "pipe-err", "pass", "pass-inheritable", "pass-list", "file-in", "file-out", "append", "object-out", "tty-all",
         "tty-in", "inherit-pipes", "inherit-tty", "args", "env", "buffer-in", "options", "pty", "stdin-text"]
USES = ["await", "ctx", "iter", "prompt", "pipe-first", "pipe-last", "pipe-iter", "sub-r", "sub-w", "in-sub"]
ENDS = ["zero", "code", "missing", "timeout", "raise", "signal"]
VAR = contextvars.ContextVar("mc_around", default=None)


def program(p):
    for arg in p.argv[1:]:
        if arg.startswith("/dev/fd/"):
            yield ("close", int(arg.rsplit("/", 1)[1]))
    if "hang" in p.argv:
        yield ("hang",)
    if "die" in p.argv:
        yield ("kill", signal.SIGABRT)
    yield ("write", 1, b"out\n")
    yield ("write", 2, b"err\n")
    return 3 if "three" in p.argv else 0


def file_state(path):
    st = os.stat(path)
    return st.st_mode, st.st_dev, st.st_ino, st.st_uid


def surroundings_same(s, r):
    "Process-wide state, and the descriptors that were open before, are as they were."
    if r.around is None or r.outcome != "done":
        return []
    b, a = r.around
    return [f"{k} of the calling process changed from {b[k]!r:.200} to {a[k]!r:.200}" for k in a if k in b and a[k] != b[k]]


@dscn("around", "C31", max_time=10.0)
async def _(w, sh):
    "What the command is given x ways to use it x endings: flags of descriptors, modes of files and terminals, the caller's objects."
    given = w.data_choice("given", GIVEN)
    use = w.data_choice("use", USES)
    end = pick(w, "end", ENDS, ["zero", "timeout", "raise"])
    if (given in ("tty-all", "pty") and use not in ("await", "ctx") or given in ("tty-in", "pipe-in", "pipe-in-nonblock", "file-in", "buffer-in", "stdin-text")
            and use in ("pipe-last", "pipe-iter", "prompt", "sub-w") or given in ("pipe-out", "file-out", "append", "object-out")
            and use in ("pipe-first", "iter", "pipe-iter", "prompt", "in-sub") or end == "raise" and use not in ("ctx", "iter", "pipe-iter", "prompt")):
        return cmp(w, "not applicable", 0, 0)
    for path in (A, B, C_):
        w.programs[path] = program
    tmp = tmpdir(w)
    fds, files, own = {}, {}, {}

    def keep(name, fd):
        fds[name] = fd
        return fd

    def mkpipe(name, nonblock=False):
        r, wr = W._pipe()
        if nonblock:
            os.set_blocking(r, False)
            os.set_blocking(wr, False)
        return keep(name + "-r", r), keep(name + "-w", wr)

    def mkfile(name, mode=0o640):
        path = os.path.join(tmp, name)
        with W._open(path, "wb") as f:
            f.write(b"content\n")
        os.chmod(path, mode)
        files[name] = path
        return Path(path)

    arg = {"timeout": ["hang"], "code": ["three"], "signal": ["die"]}.get(end, [])
    cmd = sh(MISSING if end == "missing" else A, *arg)
    if end == "timeout":
        cmd = cmd.set(timeout=0.5, cancel_timeout=0.5)
    saved = sys.stdin, sys.stdout, sys.stderr
    opened = []
    if given.startswith("pipe-in"):
        r, wr = mkpipe("in", "nonblock" in given)
        os.write(wr, b"data\n")
        cmd = cmd.stdin(r)
    elif given in ("pipe-out", "pipe-err"):
        r, wr = mkpipe("out")
        cmd = cmd.stdout(wr) if given == "pipe-out" else cmd.stderr(wr)
    elif given.startswith("pass"):
        r, wr = mkpipe("passed")
        os.set_inheritable(r, given != "pass")
        os.set_blocking(wr, False)
        if given == "pass-list":
            own["fds"] = [r, wr]
        cmd = cmd.set(pass_fds=own.get("fds", (r, wr)))
    elif given == "file-in":
        cmd = cmd.stdin(mkfile("input", 0o400))
    elif given in ("file-out", "append"):
        cmd = cmd.stdout(mkfile("output"), append=given == "append")
    elif given == "object-out":
        f = W._open(mkfile("object"), "r+b")
        opened.append(f)
        keep("object", f.fileno())
        cmd = cmd.stdout(f)
    elif given.startswith("tty"):
        m, s = W._openpty()
        keep("master", m)
        keep("slave", s)
        cmd = cmd.stdin(s)
        if given == "tty-all":
            cmd = cmd.stdout(s).stderr(s)
    elif given.startswith("inherit"):
        if given == "inherit-tty":
            m, s = W._openpty()
            keep("master", m)
            ends = [keep(f"std{i}", os.dup(s)) for i in range(3)]
            keep("slave", s)
        else:
            a, b, c = mkpipe("si"), mkpipe("so"), mkpipe("se", True)
            ends = [a[0], b[1], c[1]]
        objs = [os.fdopen(ends[0], "r", closefd=False), os.fdopen(ends[1], "w", closefd=False), os.fdopen(ends[2], "w", closefd=False)]
        opened += objs
        cmd = cmd.stdin(Redirect.INHERIT).stderr(Redirect.INHERIT)
        if use not in ("iter", "pipe-iter", "prompt", "in-sub", "pipe-first"):
            cmd = cmd.stdout(Redirect.INHERIT)
        sys.stdin, sys.stdout, sys.stderr = objs
    elif given == "args":
        own["list"] = ["a", ["b", 1], ("c", 2.5)]
        cmd = cmd(own["list"])
    elif given == "env":
        own["env"] = {"MC_ONE": "1", "MC_TWO": 2}
        cmd = cmd.env(**own["env"]).set(inherit_env=True)
    elif given == "buffer-in":
        own["input"] = bytearray(b"some input\n")
        cmd = cmd.stdin(own["input"])
    elif given == "options":
        own["codes"] = {0, 7}
        own["fds"] = []
        cmd = cmd.set(exit_codes=own["codes"], pass_fds=own["fds"])
    elif given == "pty":
        cmd = cmd.set(pty=True)
    elif given == "stdin-text":
        cmd = cmd.stdin("text\n")
    copies = copy.deepcopy(own)
    VAR.set("mine")
    ctx = dict(contextvars.copy_context())
    flags = {n: W.fd_state(fd) for n, fd in fds.items()}
    modes = {n: file_state(p) for n, p in files.items()}
    contents = {n: Path(p).read_bytes() for n, p in files.items() if n == "input"}
    around = W.surroundings((), asyncio.get_running_loop()) if W.SURROUNDINGS else {}
    text = repr(cmd), hash(cmd) if given not in ("buffer-in", "options", "pass-list") else 0

    def look(when):
        for n, fd in fds.items():
            cmp(w, f"{when}: state of {n}", W.fd_state(fd), flags[n])
        cmp(w, f"{when}: objects", own, copies)

    async def body():
        if use == "await":
            return await cmd
        if use == "ctx":
            async with cmd as run:
                if run.stdin is not None:
                    run.stdin.close()
                look("inside")
                if end == "raise":
                    raise UserError("mine")
            return run.result()
        if use == "iter":
            async for _ in cmd:
                look("inside")
                if end == "raise":
                    raise UserError("mine")
        if use == "prompt":
            async with cmd.prompt() as cli:
                await cli.read_all()
                look("inside")
                if end == "raise":
                    raise UserError("mine")
        if use == "pipe-first":
            return await (cmd | sh(B))
        if use == "pipe-last":
            return await (sh(B) | cmd)
        if use == "pipe-iter":
            async for _ in sh(B) | cmd:
                look("inside")
                if end == "raise":
                    raise UserError("mine")
        if use == "sub-r":
            return await cmd(sh(B))
        if use == "sub-w":
            return await cmd(sh(B).writable)
        if use == "in-sub":
            return await sh(B)(cmd)
    try:
        try:
            await outcome_of(body())
        finally:
            look("afterwards")
            cmp(w, "standard streams", [sys.stdin, sys.stdout, sys.stderr] == (opened if given.startswith("inherit") else list(saved)), True)
            cmp(w, "standard streams closed", [x.closed for x in opened], [False] * len(opened))
            now = W.surroundings((), asyncio.get_running_loop()) if W.SURROUNDINGS else {}
            for k in now:
                cmp(w, f"{k}: changed", None if now[k] == around[k] else (around[k], now[k]), None)
            cmp(w, "context variables", {k.name: v for k, v in contextvars.copy_context().items() if v and ctx.get(k) != v}, {})
            cmp(w, "context variable of the caller", VAR.get(), "mine")
            cmp(w, "files whose kind or mode changed", [n for n, p in files.items() if file_state(p) != modes[n]], [])
            for n, c in contents.items():
                cmp(w, "input file", Path(files[n]).read_bytes(), c)
            cmp(w, "the command is the same", (repr(cmd), hash(cmd) if given not in ("buffer-in", "options", "pass-list") else 0) == text, True)
    finally:
        sys.stdin, sys.stdout, sys.stderr = saved
        for f in opened:
            try:
                f.close()
            except OSError:
                pass
        for n, fd in fds.items():
            if n != "object":
                os.close(fd)
    return None
