"""C15: process substitution."""

import os

import shellous
from shellous import ResultError
from shellous.redirect import Redirect

from . import world as W
from .catalog import A, B, C_, D, MISSING, cat
from .data import cmp, dscn, pick

NOWHICH = "shellous-no-such-program"
READ = ["r", "r-list", "r-pipe", "r-nested", "r-stdin", "r-result"]
WRITE = ["w", "w-pipe", "w-buffer"]


def parent(kinds, how, code, big):
    "Uses its /dev/fd arguments in order: reads readable ones (copying to stdout), writes to the others."
    def prog(p):
        if how == "ignore":
            return code
        i = 0
        for a in p.argv[1:]:
            if not a.startswith("/dev/fd/"):
                yield ("write", 1, a.encode())
                continue
            k = kinds[i]
            i += 1
            fd = yield ("open", a, "w" if k.startswith("w") else "r")
            if fd is None:
                return 77
            orig = int(a.rsplit("/", 1)[1])
            if orig in p.fds:
                yield ("close", orig)
            if k.startswith("w"):
                if how != "close":
                    yield ("write", fd, b"to%d." % i)
                if big:
                    yield ("write", fd, b"z" * big)
            else:
                while how != "close":
                    d = yield ("read", fd, 4096)
                    if not d:
                        break
                    yield ("write", 1, d)
            yield ("close", fd)
        return code
    return prog


def child(w, big):
    "B: writes, copies its standard input, or both.  What it does is told by its arguments."
    def prog(p):
        what = p.argv[1]
        if what == "early":
            return 0
        if what == "copyarg":  # of a nested substitution
            fd = yield ("open", p.argv[2], "r")
            while True:
                d = yield ("read", fd, 4096)
                if not d:
                    return 0
                yield ("write", 1, d)
        if what in ("say", "fail"):
            yield ("write", 1, p.argv[2].encode())
            if big:
                yield ("write", 1, (b"y" * 69 + b"\n") * (big // 70))
        if what in ("take", "takefail", "copy"):
            while True:
                d = yield ("read", 0, 4096)
                if not d:
                    break
                w.user.setdefault("taken", {}).setdefault(p.name, bytearray()).extend(d)
                if what == "copy":
                    yield ("write", 1, d)
        return 3 if what.endswith("fail") else 0
    return prog


def is_gone(a):
    return a.state in ("zombie", "reaped")


@dscn("subst", "C15", max_time=3.0)
async def _(w, sh):
    "Kinds of substitutions x what the children do x what the parent does."
    wide = w.budget_given.get("wide")
    many = w.data_choice("number", [1, 2])
    all_kinds = READ + WRITE
    few = ["r", "w", "r-pipe", "w-buffer"]
    first = pick(w, "first", all_kinds, few)
    kinds = [first]
    if many == 2:
        kinds.append(pick(w, "second", all_kinds, ["r", "w"]))
    acts = ["ok", "fail", "missing", "which", "early"]
    act = [pick(w, "child", acts, ["ok", "fail", "missing", "early"])]
    if many == 2:
        two = ["ok", "fail", "missing"] if act[0] == "ok" or wide else ["ok"]
        act.append(pick(w, "child2", two, [x for x in two if x != "fail"]))
    how = pick(w, "parent", ["use", "ignore", "close", "missing", "which"], ["use", "ignore", "missing"])
    code = pick(w, "code", [0, 5], [0]) if how == "use" else 0
    use = pick(w, "use", ["await", "ctx", "iter", "pipe-first", "pipe-last"], ["await", "ctx"])
    big = pick(w, "big", [0, 70000], [0]) if many == 1 and code == 0 else 0
    w.programs[A] = parent(kinds, how, code, big)
    w.programs[B] = child(w, big)
    w.programs[C_] = cat(4096)
    w.programs[D] = cat(4096)
    subs, bufs, texts = [], {}, []
    tail = ("y" * 69 + "\n") * (big // 70)
    for i, (k, ac) in enumerate(zip(kinds, act), 1):
        prog = {"missing": MISSING, "which": NOWHICH}.get(ac, B)
        text = f"from{i}."
        if k.startswith("r"):
            b = sh(prog, {"fail": "fail", "early": "early"}.get(ac, "say"), text)
            if k == "r-pipe":
                b = b | sh(C_)
            elif k == "r-nested":
                b = sh(prog, "early") if ac == "early" else sh(B, "copyarg", b)
            elif k == "r-stdin":
                b = sh(prog, {"early": "early", "fail": "copyfail"}.get(ac, "copy")).stdin(text + tail)
                if ac == "fail":
                    b = sh(prog, "fail", text).stdin("")
            elif k == "r-result":
                b = b.result
            texts.append("" if ac == "early" else text + tail)
        else:
            b = sh(prog, {"fail": "takefail", "early": "early"}.get(ac, "copy"))
            buf = bytearray()
            if k == "w-pipe":
                b = (b.writable | sh(C_)).stdout(buf)
            else:
                b = b.writable.stdout(buf)
            if k == "w":
                b = sh(prog, {"fail": "takefail", "early": "early"}.get(ac, "take")).writable
            else:
                bufs[i] = buf
            texts.append("")
        subs.append([b] if k == "r-list" else b)
    prog = {"missing": MISSING, "which": NOWHICH}.get(how, A)
    args = ["p"] + subs + ["q"]
    cmd = sh(prog, *args)
    if use == "pipe-first":
        cmd = cmd | sh(D)
    elif use == "pipe-last":
        cmd = sh(D).stdin("") | cmd
    out = None
    try:
        if use == "ctx":
            async with cmd.stdout(Redirect.CAPTURE) as run:
                out = (await run.stdout.read()).decode()
            run.result()
        elif use == "iter":
            out = ""
            async for line in cmd:
                out += line
        else:
            out = await cmd
        got = "ok"
    except ResultError as ex:
        got = ("ResultError", ex.result.exit_code)
    except Exception as ex:
        got = type(ex).__name__
    # when the parent's call returns, every substitution has ended
    cmp(w, "processes still there", [a.name for a in w.actors if a.state == "run" or a.state == "dying"], [])
    w.user["outcome"] = got
    count = {}
    for a in w.execs:
        nm = a[0] if isinstance(a, tuple) else a
        count[str(nm)] = count.get(str(nm), 0) + 1
    execs = len([a for a in w.actors if os.path.basename(a.argv[0]) == os.path.basename(B)]) if w.actors else 0
    want = 0
    for k, ac in zip(kinds, act):
        if ac in ("missing", "which"):
            want += 1 if k == "r-nested" else 0
        else:
            want += 2 if k == "r-nested" and ac != "early" else 1
    launched = how not in ("missing", "which")
    bad = [ac for ac in act if ac in ("missing", "which")]
    fails = [ac for k, ac in zip(kinds, act) if ac == "fail" and k != "r-result"]
    if not launched:
        cmp(w, "substitutions run without a parent", len(w.actors) - (use.startswith("pipe")) <= 0 or execs, True)
        cmp(w, "run without a parent", execs, 0)
        cmp(w, "outcome", got, "FileNotFoundError")
        return
    # a child with input of its own that does not read it
    unread = ("BrokenPipeError", "ConnectionResetError") if any(
        k == "r-stdin" and (ac == "early" or how != "use") for k, ac in zip(kinds, act)) else ()
    nested = any(k == "r-nested" for k in kinds)
    if bad:
        # the others may be stopped before they were started
        cmp(w, "times run", execs <= want or execs, True)
        ok = ("FileNotFoundError",)
        if len(act) > len(bad) and fails or code:
            ok += (("ResultError", 3), ("ResultError", 5))
        broken = ("ResultError", -13)  # whoever wrote to the one that did not start
        if code:
            ok += (("ResultError", 5),)
        if nested or how != "use" or any(k.startswith("w") for k in kinds):
            ok += (broken,)
        ok += unread
        cmp(w, "outcome", got in ok or got, True)
        return
    if not nested or not fails:
        if not (nested and how != "use"):
            cmp(w, "times run", execs if not (fails or code or how != "use" or "early" in act) else min(execs, want), want)
    if fails:
        ok = [("ResultError", 3), ("ResultError", -13)] + ([("ResultError", 5)] if code else []) + list(unread)
        cmp(w, "outcome with a failing substitution", got in ok or got, True)
        return
    piped = [-13] if (how != "use" and any(k.startswith("r") for k in kinds)) or "early" in act else []
    if how == "use" and "early" not in act:
        full = "p" + "".join(texts) + "q"
        if code:
            cmp(w, "outcome", got, "ok" if use == "iter" else ("ResultError", 5))
        else:
            cmp(w, "outcome", got, "ok")
            cmp(w, "output", (out or "") == full or out, True)
        if code == 0:
            for i, buf in bufs.items():
                cmp(w, f"received by {i}", bytes(buf), b"to%d." % i + b"z" * big)
    else:
        ok = ["ok"] + [("ResultError", c) for c in piped] + ([("ResultError", 5)] if code else []) + list(unread)
        cmp(w, "outcome", got in ok or got, True)


@dscn("subst-same", "C15", max_time=3.0)
async def _(w, sh):
    "One substitution object used twice; the command run more than once; descriptors the user passes."
    twice = w.data_choice("times given", [1, 2])
    runs = w.data_choice("runs", [1, 2])
    passed = w.data_choice("pass_fds", [False, True])
    w.programs[B] = child(w, 0)
    fds = []
    pfd = None
    if passed:
        r, wr = os.pipe()
        os.write(wr, b"mine.")
        os.close(wr)
        pfd = r
        fds = [r]

    def prog(p):
        if passed and pfd in p.fds:
            d = yield ("read", pfd, 100)
            yield ("write", 1, d)
        for a in p.argv[1:]:
            fd = yield ("open", a, "r")
            n = int(a.rsplit("/", 1)[1])
            while True:
                d = yield ("read", fd, 2)
                if not d:
                    break
                yield ("write", 1, d)
            if n in p.fds:
                yield ("close", n)
        return 0

    w.programs[A] = prog
    s = sh(B, "say", "hey.")
    cmd = sh(A, *([s] * twice))
    if passed:
        cmd = cmd.set(pass_fds=fds)
    try:
        for i in range(runs):
            got = await cmd
            cmp(w, f"output {i}", got, ("mine." if passed and i == 0 else "") + "hey." * twice)
            cmp(w, f"children after {i}", len([a for a in w.actors if a.argv[0] == B]), twice * (i + 1))
    finally:
        for fd in fds:
            os.close(fd)
