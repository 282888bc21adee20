"""C02: descriptors the user hands over are closed, the others are left alone, however the run ends."""

import asyncio
import os

import shellous
from shellous import ResultError
from shellous.redirect import Redirect

from . import world as W
from .catalog import A, B, C_, D, MISSING, UserError
from .data import cmp, dscn, pick, tmpdir
from .d_timeout import outcome_of

NOWHICH = "shellous-no-such-program"
GIVE = ["stdin", "stdout", "stderr", "out-file", "err-file", "pass", "stdin-keep", "stdout-keep", "pass-keep", "out+err-same",
        "stdin+stdout", "stdout+pass-same", "pass-twice", "all"]
FORM = ["await", "ctx", "ctx-raise", "iter", "prompt", "pipe-first", "pipe-last", "pipe-middle", "pipe-ctx-first", "pipe-ctx-last",
        "pipe-iter-last", "sub-read", "sub-write", "sub-second", "sub-nested", "sub-pipe", "pipe-sub", "pty"]
END = ["ok", "missing", "which", "other-missing", "nodir", "badtype", "multi"]


def quick(code=0):
    def prog(p):
        if p.argv[0] in (B, D):
            for a in p.argv[1:]:
                yield ("open", a, "r")
        return code
        yield
    return prog


class Handed:
    "The descriptors given to one command."

    def __init__(self, w):
        self.w = w
        self.closed = []  # must be closed afterwards
        self.kept = []  # must stay open
        self.files = []

    def fd(self, close, mode=os.O_RDWR):
        path = os.path.join(tmpdir(self.w), f"h{len(self.closed) + len(self.kept)}")
        fd = os.open(path, os.O_CREAT | mode, 0o600)
        (self.closed if close else self.kept).append((fd, os.fstat(fd).st_ino))
        return fd

    def file(self, close):
        path = os.path.join(tmpdir(self.w), f"g{len(self.closed) + len(self.kept)}")
        f = open(path, "wb")
        self.files.append(f)
        (self.closed if close else self.kept).append((f.fileno(), os.fstat(f.fileno()).st_ino))
        return f

    def give(self, cmd, what):
        if what == "stdin":
            return cmd.stdin(self.fd(True), close=True)
        if what == "stdout":
            return cmd.stdout(self.fd(True), close=True)
        if what == "stderr":
            return cmd.stderr(self.fd(True), close=True)
        if what == "out-file":
            return cmd.stdout(self.file(True), close=True)
        if what == "err-file":
            return cmd.stderr(self.file(True), close=True)
        if what == "pass":
            return cmd.set(pass_fds=(self.fd(True), self.fd(True)), pass_fds_close=True)
        if what == "pass-twice":
            f = self.fd(True)
            return cmd.set(pass_fds=(f, f), pass_fds_close=True)
        if what == "stdin-keep":
            return cmd.stdin(self.fd(False))
        if what == "stdout-keep":
            return cmd.stdout(self.fd(False))
        if what == "pass-keep":
            return cmd.set(pass_fds=(self.fd(False),))
        if what == "out+err-same":
            f = self.fd(True)
            return cmd.stdout(f, close=True).stderr(f, close=True)
        if what == "stdin+stdout":
            return cmd.stdin(self.fd(True), close=True).stdout(self.fd(True), close=True)
        if what == "stdout+pass-same":
            f = self.fd(True)
            return cmd.stdout(f, close=True).set(pass_fds=(f,), pass_fds_close=True)
        if what == "all":
            return cmd.stdin(self.fd(True), close=True).stdout(self.fd(True), close=True).stderr(self.fd(True), close=True).set(
                pass_fds=(self.fd(True),), pass_fds_close=True)
        raise AssertionError(what)

    def finish(self):
        w = self.w
        is_open = []
        for fd, ino in self.closed:
            try:
                if os.fstat(fd).st_ino == ino:
                    is_open.append(fd)
                    os.close(fd)
            except OSError:
                pass
        gone = []
        for fd, ino in self.kept:
            try:
                if os.fstat(fd).st_ino != ino:
                    gone.append(fd)
                else:
                    os.close(fd)
            except OSError:
                gone.append(fd)
        for f in self.files:
            try:
                f.close()
            except OSError:
                pass
        cmp(w, "descriptors handed over that are still open", len(is_open), 0)
        cmp(w, "descriptors of the user that were closed", len(gone), 0)


def uses(what):
    s = set()
    if what in ("stdin", "stdin-keep", "stdin+stdout", "all"):
        s.add(0)
    if what in ("stdout", "stdout-keep", "out-file", "out+err-same", "stdin+stdout", "stdout+pass-same", "all"):
        s.add(1)
    if what in ("stderr", "err-file", "out+err-same", "all"):
        s.add(2)
    return s


def possible(form, end, u):
    if form in ("iter", "prompt", "pipe-iter-last") and 1 in u:
        return False
    if form in ("prompt", "sub-write") and 0 in u:
        return False
    if form in ("pipe-first", "pipe-middle", "pipe-ctx-first", "sub-read", "sub-second", "sub-nested", "sub-pipe",
                "pipe-sub") and 1 in u:
        return False
    if form in ("pipe-last", "pipe-middle", "pipe-ctx-last", "pipe-iter-last", "sub-pipe") and 0 in u:
        return False
    if form == "pty" and u:
        return False
    if end in ("nodir", "badtype") and 2 in u:
        return False
    if end == "multi" and (1 in u or 2 in u or form not in ("await", "pipe-last")):
        return False
    if end == "other-missing" and not (form.startswith("pipe") or form.startswith("sub")):
        return False
    return True


def check_cmp(w, r):
    return [f"{a}: {b}, expected {c}" for a, b, c, _ in w.user.get("cmp", ()) if b != c]


@dscn("fds-handed", "C02", max_time=10.0, check_cancelled=check_cmp)
async def _(w, sh):
    "What is handed over x how the command is used x how it ends."
    what = pick(w, "handed", GIVE, ["stdin", "stdout", "stdin+stdout", "pass", "all", "pass-keep"])
    form = pick(w, "use", FORM, [f for f in FORM if f not in ("pipe-ctx-first", "pipe-iter-last", "sub-pipe", "sub-second")])
    end = pick(w, "end", END, ["ok", "missing", "other-missing", "nodir"])
    if not possible(form, end, uses(what)):
        cmp(w, "not applicable", 0, 0)
        return
    for p in (A, B, C_, D):
        w.programs[p] = quick()
    prog = {"missing": MISSING, "which": NOWHICH}.get(end, A)
    other = MISSING if end == "other-missing" else B
    h = Handed(w)
    cmd = h.give(sh(prog), what)
    if end == "nodir":
        cmd = cmd.stderr(_path(w, "none", "x"))
    elif end == "badtype":
        cmd = cmd.stderr(3.5)
    elif end == "multi":
        cmd = cmd.stdout(Redirect.CAPTURE).stderr(Redirect.CAPTURE)
    w.user["faultable"] = True
    try:
        got = await outcome_of(go(sh, cmd, other, form))
        w.user["outcome"] = got
    finally:
        h.finish()


def _path(w, *parts):
    from pathlib import Path

    return Path(tmpdir(w)).joinpath(*parts)


async def go(sh, cmd, other, form):
    if form == "await":
        return await cmd
    if form == "pty":
        return await cmd.set(pty=True)
    if form in ("ctx", "ctx-raise"):
        async with cmd as run:
            if form == "ctx-raise":
                raise UserError()
        return run.returncode
    if form == "iter":
        return [x async for x in cmd]
    if form == "prompt":
        async with cmd.prompt() as cli:
            await cli.read_all()
        return 0
    if form == "pipe-first":
        return await (cmd | sh(other))
    if form == "pipe-last":
        return await (sh(other) | cmd)
    if form == "pipe-middle":
        return await (sh(B) | cmd | sh(other))
    if form == "pipe-ctx-first":
        async with (cmd | sh(other)) as run:
            pass
        return run.result().output
    if form == "pipe-ctx-last":
        async with (sh(other) | cmd) as run:
            pass
        return run.result().output
    if form == "pipe-iter-last":
        return [x async for x in (sh(other) | cmd)]
    if form == "sub-read":
        return await sh(other, cmd)
    if form == "sub-write":
        return await sh(other, cmd.writable)
    if form == "sub-second":
        return await sh(other, sh(C_), cmd)
    if form == "sub-nested":
        return await sh(other, sh(D, cmd))
    if form == "sub-pipe":
        return await sh(other, sh(C_) | cmd | sh(D))
    if form == "pipe-sub":
        return await (sh(B) | sh(other, cmd) | sh(D))
    raise AssertionError(form)
