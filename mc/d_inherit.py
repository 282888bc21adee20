"""C30: a process inherits its three streams, what it was given, and nothing else."""

import asyncio
import fcntl
import os
import stat

from shellous.redirect import Redirect

from . import world as W
from .catalog import A, B, C_, D, UserError
from .data import cmp, dscn, pick, tmpdir
from .d_timeout import outcome_of

E_ = "/mc/e"
USES = ["await", "ctx", "iter", "prompt", "pipe", "pipe-ctx", "pipe-iter", "sub-r", "sub-w", "sub-2", "sub-nested", "sub-pipe",
        "pipe-sub", "pty", "two", "many", "nested-blocks", "in-sub-r", "in-sub-w", "in-pipe"]
PASS = [(), ("a",), ("a", "b"), ("b", "a"), ("a", "a"), "list", "close"]
IN = ["default", "bytes", "null", "file", "fd", "inherit", "capture"]
OUT = ["default", "null", "file", "fd", "inherit", "array"]
ERR = ["default", "null", "file", "stdout", "inherit", "array"]


def snapshot(p):
    res = {}
    for fd, h in p.fds.items():
        st = os.fstat(h)
        res[fd] = (st.st_dev, st.st_ino, stat.S_IFMT(st.st_mode), fcntl.fcntl(h, fcntl.F_GETFL) & os.O_ACCMODE)
    return res


def program(p):
    p.seen = snapshot(p)
    p.flags = {fd: fcntl.fcntl(h, fcntl.F_GETFL) & os.O_NONBLOCK for fd, h in p.fds.items()}
    for arg in p.argv[1:]:
        if arg.startswith("/dev/fd/"):
            fd = int(arg.rsplit("/", 1)[1])
            if fd in p.seen and p.seen[fd][3] == os.O_RDONLY:
                while True:
                    d = yield ("read", fd, 4096)
                    if not d:
                        break
            yield ("close", fd)
    return 0
    yield


def is_inheritable(fd):
    try:
        return os.get_inheritable(fd)
    except OSError:
        return False


def ident(fd):
    st = os.fstat(fd)
    return (st.st_dev, st.st_ino)


@dscn("inherit", "C30", max_time=10.0)
async def _(w, sh):
    "Ways to use a command x descriptors given x close_fds x redirections."
    use = w.data_choice("use", USES)
    given = pick(w, "pass_fds", PASS, [("a", "b"), "close"])
    closing = w.data_choice("close_fds", [True, False])
    redir = w.data_choice("redirection", [("stdin", x) for x in IN] + [("stdout", x) for x in OUT[1:]] + [("stderr", x) for x in ERR[1:]])
    if use in ("iter", "pipe-iter", "in-sub-r", "prompt") and redir[0] == "stdout" or use in ("in-sub-w", "in-pipe", "prompt") and redir[0] == "stdin" \
            or use == "pty" and redir[0] != "stdin" or use in ("pipe", "pipe-ctx", "pipe-iter", "pipe-sub", "nested-blocks") and redir[1] == "capture" \
            or redir == ("stdin", "capture") and use not in ("ctx",) or use == "in-pipe" and redir[0] == "stdout":
        return cmp(w, "not applicable", 0, 0)
    for path in (A, B, C_, D, E_):
        w.programs[path] = program
    tmp = tmpdir(w)
    mine = {}
    # inheritable descriptors of the process the checks run in are not shellous's doing
    around = {fd for fd in map(int, os.listdir("/proc/self/fd")) if fd > 2 and is_inheritable(fd)}

    def user_fd(name, inheritable=False):
        fd = os.open(os.path.join(tmp, name), os.O_CREAT | os.O_RDWR, 0o600)
        os.set_inheritable(fd, inheritable)
        mine[name] = (fd, ident(fd))
        return fd
    keep = user_fd("keep")
    loose = user_fd("loose", True)
    a, b = user_fd("a"), user_fd("b")
    names = ("a", "b") if given in ("list", "close") else given
    fds = [mine[n][0] for n in names]
    cmd = sh(A)
    opts = {"close_fds": closing}
    if names:
        opts["pass_fds"] = list(fds) if given == "list" else tuple(fds)
    if given == "close":
        opts["pass_fds_close"] = True
    cmd = cmd.set(**opts)
    what, kind = redir
    target = None
    if kind == "bytes":
        target = b"in"
    elif kind == "null":
        target = Redirect.DEVNULL
    elif kind == "inherit":
        target = Redirect.INHERIT
    elif kind == "capture":
        target = Redirect.CAPTURE
    elif kind == "stdout":
        target = Redirect.STDOUT
    elif kind == "array":
        target = bytearray()
    elif kind in ("file", "fd"):
        from pathlib import Path
        path = os.path.join(tmp, "redirect")
        open(path, "wb").close()
        target = Path(path) if kind == "file" else os.open(path, os.O_RDWR)
    if target is not None:
        cmd = getattr(cmd, what)(target)
    umask = os.umask(0)
    os.umask(umask)
    theirs = {ident(fd) for fd in (0, 1, 2) if not os.get_blocking(fd)}

    async def body():
        if use == "await":
            await cmd
        elif use == "ctx":
            async with cmd as run:
                if run.stdin is not None:
                    run.stdin.close()
        elif use == "iter":
            [x async for x in cmd]
        elif use == "prompt":
            async with cmd.prompt() as cli:
                await cli.read_all()
        elif use == "pty":
            await cmd.set(pty=True)
        elif use == "pipe":
            await (cmd | sh(B) | sh(C_)) if what != "stdout" else await (sh(B) | sh(C_) | cmd) if what != "stdin" else None
        elif use == "pipe-ctx":
            async with (sh(B) | cmd if what != "stdin" else cmd | sh(B)) as run:
                if run.stdin is not None:
                    run.stdin.close()
        elif use == "pipe-iter":
            [x async for x in (sh(B) | cmd if what != "stdin" else cmd | sh(B))]
        elif use == "sub-r":
            await cmd(sh(B))
        elif use == "sub-w":
            await cmd(sh(B).writable)
        elif use == "sub-2":
            await cmd(sh(B), "x", sh(C_).writable)
        elif use == "sub-nested":
            await cmd(sh(B, sh(C_)))
        elif use == "sub-pipe":
            await cmd(sh(B) | sh(C_), (sh(D) | sh(E_)).writable)
        elif use == "pipe-sub":
            await (sh(B, sh(C_)) | cmd(sh(D)) if what != "stdin" else cmd(sh(D)) | sh(B, sh(C_)))
        elif use == "in-sub-r":
            await sh(B, cmd)
        elif use == "in-sub-w":
            await sh(B, cmd.writable)
        elif use == "in-pipe":
            await (sh(B) | cmd | sh(C_))
        elif use == "two":
            for res in await asyncio.gather(cmd.coro(), sh(B).coro(), sh(C_).set(pty=True).coro(), return_exceptions=True):
                if isinstance(res, BaseException):
                    raise res
        elif use == "many":
            for res in await asyncio.gather(cmd.coro(), sh(B, sh(C_), sh(D).writable).coro(), (sh(E_) | sh(E_)).coro(), return_exceptions=True):
                if isinstance(res, BaseException):
                    raise res
        elif use == "nested-blocks":
            async with sh(B).stdout(Redirect.CAPTURE).stdin(Redirect.CAPTURE) as outer:
                async with sh(C_).set(pty=True).stdin(Redirect.CAPTURE):
                    await cmd
                outer.stdin.close()
    try:
        got = await outcome_of(body())
        w.user["outcome"] = got
        # input nobody reads may be reported
        cmp(w, "outcome", got, lambda g: not g or g == "BrokenPipeError" and kind in ("bytes", "capture"))
        if w.hurried:
            return None
        n = 0
        for p in w.actors:
            if not p.is_child:
                continue
            n += 1
            seen = p.seen
            extra = {fd: x[:2] for fd, x in seen.items() if fd > 2 and fd not in around}
            want = {}
            if p.argv[0] == A:
                for x in names:
                    want[mine[x][0]] = mine[x][1]
            subs = [int(s.rsplit("/", 1)[1]) for s in p.argv[1:] if s.startswith("/dev/fd/")]
            for fd in subs:
                if fd in extra:
                    cmp(w, f"{p.name} substitution is a pipe", stat.S_ISFIFO(seen[fd][2]), True)
                    want[fd] = extra[fd]
                else:
                    cmp(w, f"{p.name} has its substitution", sorted(extra), fd)
            if p.argv[0] == A and not closing and not names and not subs:
                want[loose] = mine["loose"][1]
            cmp(w, f"{p.name}: inherited besides its streams", sorted(set(extra) - set(want)), [])
            cmp(w, f"{p.name}: not inherited", sorted(set(want) - set(extra)), [])
            cmp(w, f"{p.name}: descriptors that are not the ones given", sorted(k for k, v in extra.items() if k in want and v != want[k]), [])
            if not os.path.exists("/proc/self/fd/0") or seen[0][3] == os.O_WRONLY:
                cmp(w, f"{p.name}: stdin can be read", seen[0][3] != os.O_WRONLY, True)
            for s in (1, 2):
                if seen[s][2] == stat.S_IFIFO:
                    cmp(w, f"{p.name}: {s} can be written", seen[s][3] != os.O_RDONLY, True)
            for what_, got_ in p.attrs.items():
                want_ = {"working directory": os.getcwd(), "default action for SIGPIPE": True,
                         "umask": lambda g: g in (-1, umask), "process group": lambda g: g in (-1, os.getpgrp())}.get(what_, False)
                cmp(w, f"{p.name}: {what_}", got_, want_)
            for s in (0, 1, 2):
                # streams made by shellous are blocking; those of the caller are left as they are
                cmp(w, f"{p.name}: stream {s} is blocking", not p.flags[s] or seen[s][:2] in theirs, True)
            cmp(w, f"{p.name}: own session", p.start_new_session, any(os.isatty(h) for f, h in p.fds.items()) or (
                use in ("two", "nested-blocks") and p.argv[0] == C_) or (use == "pty" and p.argv[0] == A))
        want_n = {"await": 1, "ctx": 1, "iter": 1, "prompt": 1, "pty": 1, "pipe": 3, "pipe-ctx": 2, "pipe-iter": 2, "sub-r": 2,
                  "sub-w": 2, "sub-2": 3, "sub-nested": 3, "sub-pipe": 5, "pipe-sub": 4, "in-sub-r": 2, "in-sub-w": 2, "in-pipe": 3,
                  "two": 3, "many": 6, "nested-blocks": 3}[use]
        cmp(w, "processes", n, want_n)
        # pipes between processes are shared by exactly the two (or the streams of one) they connect
        ends = {}
        for p in w.actors:
            if p.is_child:
                for fd, x in p.seen.items():
                    if x[2] == stat.S_IFIFO and x[:2] != ident(0):
                        ends.setdefault(x[:2], set()).add((p.name, "r" if x[3] == os.O_RDONLY else "w"))
        for k, v in ends.items():
            cmp(w, "readers of a pipe", sum(1 for n_, m in v if m == "r") <= 1 or v, True)
            cmp(w, "writers of a pipe", sum(1 for n_, m in v if m == "w") <= 1 or v, True)
        return None
    finally:
        if kind == "fd":
            os.close(target)
        for name, (fd, i) in mine.items():
            try:
                if ident(fd) == i:
                    os.close(fd)
            except OSError:
                pass
