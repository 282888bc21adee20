"""C33: which program is started, against a model of the search path."""

import itertools
import os
import shutil
import tempfile
from pathlib import Path

from . import catalog as K
from . import world as W
from .v_args import _S
from shellous import sh

STATES = ("absent", "program", "data", "directory")  # what is called "prog" in a directory
DIRS = ("d1", "d2", "d3")
# (search path of the command or None, PATH of the calling process or None); the letters are directories
PATHS = [
    (None, "123"), (None, "21"), (None, "3"), (None, "12"), ("123", "3"), ("21", "12"), ("3", "12"), ("2", None), (None, ""), ("", "1"),
    ("1x2", "3"), ("r2", "1"), (None, "r1"), (".2", "1"), (None, ".1"), ("12", "12"), ("e2", "1"), (None, "e1"), ("1e", "2"),
]
NAMES = ("str", "bytes", "Path", "relative", "absolute", "absolute-bytes", "absolute-Path", "dot", "missing-absolute")
PLACES = ("alone", "ctx", "first", "last", "sub", "in-sub", "iter")
WHERE = ("context", "command", "late")


def cases(tier):
    for st in itertools.product(STATES, repeat=3):
        for p in PATHS:
            for n in NAMES[:3]:
                yield ("path", st, p, n, "alone", "command")
    few = [("absent", "program", "program"), ("program", "absent", "program"), ("data", "program", "directory"), ("absent",) * 3,
           ("directory", "data", "program"), ("program",) * 3]
    for st in itertools.product(STATES, repeat=3) if tier == "thorough" else few:
        for p in PATHS:
            for n in NAMES:
                for place in PLACES:
                    for where in WHERE:
                        yield ("path", st, p, n, place, where)
    # run twice: in between, the directories or the PATH of the calling process change
    for st in few:
        for st2 in few:
            for p, p2 in (((None, "123"), None), (("123", "3"), None), ((None, "123"), "21"), ((None, "21"), "3"), (("21", "1"), "3"), ((None, "1"), None)):
                for place in PLACES:
                    yield ("path", st, p, "str", place, "command", st2, p2)
    for n in itertools.chain(range(1, 40), (64, 200)):
        for alt in (None, "", "other", "o" * 40):
            for kind in ("str", "bytes", "Path"):
                for place in ("alone", "last"):
                    yield ("name", n, alt, kind, place)


def name(case):
    return "program-" + case[0]


def check(case):
    return check_name(case) if case[0] == "name" else check_path(case)


def spell(letters, root):
    if letters is None:
        return None
    one = {"1": os.path.join(root, "d1"), "2": os.path.join(root, "d2"), "3": os.path.join(root, "d3"), "x": os.path.join(root, "no-such"),
           "r": "rel", ".": ".", "e": ""}
    return ":".join(one[x] for x in letters)


def runnable(path):
    return os.path.isfile(path) and os.stat(path).st_mode & 0o111 != 0


def model(path, prog):
    "The program a search path leads to."
    if os.path.dirname(prog):
        return prog if runnable(prog) else None
    if not path:
        return None
    for d in path.split(":"):
        full = os.path.join(d or ".", prog)
        if runnable(full):
            return full
    return None


def same(a, b):
    return a is not None and b is not None and os.path.realpath(os.fsdecode(a)) == os.path.realpath(os.fsdecode(b))


def fill(dirs, states):
    for d, st in zip(dirs, states):
        p = os.path.join(d, "prog")
        if os.path.isdir(p):
            os.rmdir(p)
        elif os.path.exists(p):
            os.unlink(p)
        if st == "directory":
            os.mkdir(p)
        elif st != "absent":
            with W._open(p, "w") as f:
                f.write("#!/bin/false\n")
            os.chmod(p, 0o755 if st == "program" else 0o644)


def check_path(case):
    _, states, (own, env), kind, place, where, *change = case
    root = tempfile.mkdtemp(prefix="mc-path-")
    root = os.path.realpath(root)
    old_cwd, old_path = os.getcwd(), os.environ.get("PATH")
    msgs = []
    try:
        work = os.path.join(root, "cwd")
        every = [os.path.join(root, d) for d in DIRS] + [work, os.path.join(work, "rel")]
        for d in every:
            os.mkdir(d)
        fill(every, states + ("program", "program"))
        os.chdir(work)
        mypath = spell(own, root)
        if env is None:
            os.environ.pop("PATH", None)
        else:
            os.environ["PATH"] = spell(env, root)
        plain = {"relative": "rel/prog", "dot": "./prog", "missing-absolute": os.path.join(root, "no-such", "prog")}.get(
            kind, os.path.join(root, "d2", "prog") if kind.startswith("absolute") else "prog")
        arg = plain.encode() if "bytes" in kind else Path(plain) if "Path" in kind else plain
        if kind == "dot":
            arg = "./prog"
        ctx = sh
        if where == "context" and own is not None:
            ctx = sh.set(path=mypath)
        cmd = ctx(arg)
        if where == "late" and own is not None:
            cmd = cmd.env(PATH=os.path.join(root, "d3")).set(path="/nowhere").set(path=mypath)
        elif where == "command":
            cmd = cmd.env(PATH=os.path.join(root, "d3"))  # the program's own: not searched
            if own is not None:
                cmd = cmd.set(path=mypath)
        finder = sh.set(path=mypath) if own is not None else sh

        async def fn(w):
            if place == "alone":
                return await cmd
            if place == "ctx":
                async with cmd as run:
                    pass
                return run.result()
            if place == "iter":
                return [x async for x in cmd]
            if place == "first":
                return await (cmd | sh(K.B))
            if place == "last":
                return await (sh(K.B) | cmd)
            if place == "sub":
                return await sh(K.B)(cmd)
            return await cmd(sh(K.B))
        for turn in range(2 if change else 1):
            if turn:
                fill(every, change[0] + ("program", "program"))
                if change[1] is not None:
                    os.environ["PATH"] = spell(change[1], root)
            want = model(mypath if own is not None else os.environ.get("PATH", os.defpath), plain)
            found = finder.find_command(plain)
            if (found is None) != (want is None) or want is not None and not same(found, want):
                msgs.append(f"{case}: find_command says {found!r}, expected {want!r}")

            progs = {K.B: taker}
            for d in every:
                if runnable(os.path.join(d, "prog")):
                    progs[os.path.realpath(os.path.join(d, "prog"))] = taker
            scn = _S(fn, progs)
            r = W.run_one(scn, W.POLICIES["lazy"], [], {})
            execs = [a for a in r.world.execs if a.argv[0] != K.B]
            key = (case[1:], type(r.exc).__name__, len(execs))
            if want is None:
                if not isinstance(r.exc, (FileNotFoundError, PermissionError)):
                    msgs.append(f"{case}: no such program, but the outcome is {r.exc!r} {r.value!r}")
                if execs:
                    msgs.append(f"{case}: no such program, but {execs[0].argv} was started")
            else:
                if r.exc is not None or r.outcome != "done":
                    msgs.append(f"{case}: {r.outcome} {r.exc!r}, expected {want} to be started")
                elif len(execs) != 1 or not same(execs[0].path, want):
                    msgs.append(f"{case}: started {[a.path for a in execs]}, expected {want}")
        return msgs, own is not None or kind != "str", key
    finally:
        os.chdir(old_cwd)
        if old_path is None:
            os.environ.pop("PATH", None)
        else:
            os.environ["PATH"] = old_path
        shutil.rmtree(root, ignore_errors=True)


def taker(p):
    "Uses up its input and what it is connected to."
    for arg in p.argv[1:]:
        if isinstance(arg, str) and arg.startswith("/dev/fd/"):
            while True:
                d = yield ("read", int(arg.rsplit("/", 1)[1]), 4096)
                if not d:
                    break
    return 0


def check_name(case):
    _, n, alt, kind, place = case
    path = "/" + "abcdefghij" * 30
    path = path[:n - 5] + "/prog" if n > 6 else path[:n]
    arg = path.encode() if kind == "bytes" else Path(path) if kind == "Path" else path
    reports = []
    cmd = sh(arg).set(alt_name=alt, audit_callback=lambda phase, info: reports.append((phase, info["runner"].name)))
    text = str(arg)
    want = alt or (text if len(text) <= 31 else "..." + text[-31:])
    msgs = []
    if cmd.name != want:
        msgs.append(f"{case}: name is {cmd.name!r}, expected {want!r}")
    names = []

    async def fn(w):
        async with (cmd if place == "alone" else sh(K.B) | cmd) as run:
            names.append(run.name)
        return run.result()

    r = W.run_one(_S(fn, {os.fsdecode(arg): taker, K.B: taker}), W.POLICIES["lazy"], [], {})
    if r.exc is not None:
        if os.path.dirname(path) not in ("", "/") or path == "/":
            msgs.append(f"{case}: {r.exc!r}")
    full = want if place == "alone" else f"{K.B}|{want}"
    if names and names != [full]:
        msgs.append(f"{case}: the run is called {names}, expected {full!r}")
    if [p for p, _ in reports] != ["start", "stop"] or {x for _, x in reports} != {want}:
        msgs.append(f"{case}: audited as {reports}, expected {want!r}")
    return msgs, True, case[1:]
