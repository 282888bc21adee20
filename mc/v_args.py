"""C21: argument coercion against a reference model, and the vector that reaches exec."""

import asyncio
import io
import ipaddress
import itertools
import os
import shutil
import tempfile
from fractions import Fraction
from pathlib import Path, PurePosixPath

from . import catalog as K
from . import world as W
from shellous import sh

ATOM = {"str": "a b", "emptystr": "", "uni": "é", "bytes": b"x\xff", "path": Path("/mc/p"), "pure": PurePosixPath("q"),
        "int": 7, "neg": -1, "float": 1.5, "true": True, "bytearray": bytearray(b"ba"),
        "mview": memoryview(b"mv"), "frac": Fraction(1, 3), "ip": ipaddress.ip_network("10.0.0.0/30"),
        "complex": 2j}
# name -> (factory, model: list of results or TypeError)
LEAF = {}
for n, v in ATOM.items():
    if isinstance(v, (str, bytes, os.PathLike)):
        LEAF[n] = (lambda v=v: v, [v])
    elif isinstance(v, (bytearray, memoryview)):
        LEAF[n] = (lambda v=v: v, [bytes(v)])
    else:
        LEAF[n] = (lambda v=v: v, [str(v)])


def _read_stringio():
    s = io.StringIO("abc")
    s.read(1)
    return s


LEAF["stringio"] = (_read_stringio, ["abc"])
LEAF["bytesio"] = (lambda: io.BytesIO(b"bio"), [b"bio"])
for n, f in {"none": lambda: None, "ellipsis": lambda: ..., "dict": lambda: {"a": 1}, "set": lambda: {1},
             "fset": lambda: frozenset({1}), "keys": lambda: {"k": 1}.keys(), "gen": lambda: (x for x in "ab"),
             "range": lambda: range(3), "env": lambda: os.environ}.items():
    LEAF[n] = (f, TypeError)
LEAF["emptydict"] = (dict, TypeError)

CONT = ("list", "tuple", "reversed", "zip", "enumerate")
SMALL = ("str", "int", "bytes", "none", "stringio")


def build(t):
    "Tree -> (object, model)."
    if t[0] == "leaf":
        f, m = LEAF[t[1]]
        return f(), m
    kids = [build(x) for x in t[1]]
    objs = [k[0] for k in kids]
    if t[0] == "zip":
        objs2 = [build(x)[0] for x in t[1]]
        flat = [m for k in kids for m in (k[1], k[1])]
        return zip(objs, objs2), join(flat)
    if t[0] == "enumerate":
        flat = []
        for i, k in enumerate(kids):
            flat += [[str(i)], k[1]]
        return enumerate(objs), join(flat)
    if t[0] == "reversed":
        return reversed(tuple(objs)), join([k[1] for k in kids][::-1])
    return (list if t[0] == "list" else tuple)(objs), join([k[1] for k in kids])


def join(ms):
    if any(m is TypeError for m in ms):
        return TypeError
    return [x for m in ms for x in m]


def trees(tier):
    leaves = [("leaf", n) for n in LEAF]
    yield from leaves
    small = [("leaf", n) for n in SMALL]
    level1 = [(c, kids) for c in CONT for k in range(0, 3) for kids in itertools.product(leaves, repeat=k)]
    yield from level1
    l1small = [(c, kids) for c in CONT for k in range(0, 3) for kids in itertools.product(small, repeat=k)]
    for c in CONT:
        for a in l1small:
            yield (c, (a,))
            for b in small:
                yield (c, (a, b))
                yield (c, (b, a))
    for c in CONT:
        for a, b in itertools.product(l1small, repeat=2):
            yield (c, (a, b))
    if True:
        tiny = [(c, (s,)) for c in CONT for s in small]
        l2 = [(c, (a,)) for c in CONT for a in tiny] + [(c, (a, b)) for c in CONT for a in tiny for b in tiny]
        for c in CONT:
            for a in l2:
                yield (c, (a,))


COERCERS = ("none", "dict", "wrap", "tolist", "count")


def cases(tier):
    for t in trees(tier):
        yield ("tree", t)
    small = [("leaf", n) for n in LEAF] + [("list", (("leaf", "str"), ("leaf", "int"))), ("list", ()),
                                           ("tuple", (("leaf", "dict"),))]
    for a, b in itertools.product(small, repeat=2):
        yield ("two", (a, b))
    for how in ("ctx", "cmd", "both"):
        for co in COERCERS[1:]:
            for a, b in itertools.product(small, repeat=2):
                yield ("coerce", how, co, (a, b))
    for c in exec_cases(tier):
        yield c


def model_coerce(co, tree):
    "Model of one top-level argument under a custom coercion function."
    n = tree[1] if tree[0] == "leaf" else None
    if co == "dict" and n in ("dict", "emptydict", "env"):
        return ["DICT"]
    if co == "wrap":
        return ["<", "W", ">"]
    if co == "tolist" and n == "int":
        # the result of the function is coerced, but the function is not applied to its parts
        return ["7", "7"]
    return build(tree)[1]


def make_coercer(co, calls):
    def f(x):
        calls.append(x)
        if co == "dict" and hasattr(x, "keys") and not isinstance(x, str):
            return "DICT"
        if co == "wrap":
            return ["<", ("W",), ">"]
        if co == "tolist" and type(x) is int and x == 7:
            return [x, x]
        return x
    return f


def same(got, want):
    return len(got) == len(want) and all(type(g) is type(w) or (isinstance(g, type(w))) for g, w in zip(got, want)) \
        and list(got) == list(want)


def name(case):
    return "args-" + case[0]


def check(case):
    kind = case[0]
    if kind in ("exec", "path"):
        return check_exec(case)
    calls = []
    how = "ctx"
    if kind == "tree":
        trees_ = [case[1]]
    elif kind == "two":
        trees_ = list(case[1])
    else:
        _, how, co, trees_ = case
        trees_ = list(trees_)
    if kind == "coerce":
        model = join([model_coerce(co, t) for t in trees_])
        ctx = sh.set(coerce_arg=make_coercer(co, calls))
    else:
        model = join([build(t)[1] for t in trees_])
        ctx = sh
    objs = [build(t)[0] for t in trees_]
    pre = ["<", "W", ">"] if kind == "coerce" and co == "wrap" else ["prog"]
    try:
        if how == "ctx":
            cmd = ctx("prog", *objs)
        elif how == "cmd":
            cmd = ctx("prog")(*objs)
        else:
            cmd = ctx("prog", *objs[:1])(*objs[1:])
        got = list(cmd.args)
        err = None
    except Exception as ex:
        got, err = None, ex
    msgs = []
    if model is TypeError:
        if not isinstance(err, TypeError):
            msgs.append(f"{case}: expected TypeError, got {err!r} {got!r}")
    elif err is not None:
        msgs.append(f"{case}: raised {err!r}")
    elif not same(got, pre + model):
        msgs.append(f"{case}: got {got!r}, expected {pre + model!r}")
    if kind == "coerce" and err is None:
        want = ["prog"] + objs
        if len(calls) != len(want) or any(a is not b for a, b in zip(calls, want)):
            msgs.append(f"{case}: coercion function called with {calls!r}, expected {want!r}")
    return msgs, model is not TypeError or kind != "tree", (kind, how, repr(got)[:200], type(err).__name__, case)


# ---- what reaches exec --------------------------------------------------------
def exec_cases(tier):
    for a in LEAF:
        yield ("exec", ("leaf", a))
    for t in (("list", (("leaf", "str"), ("leaf", "bytes"))), ("tuple", (("list", (("leaf", "path"),)), ("leaf", "float"))),
              ("list", ())):
        yield ("exec", t)
    # search path: which of two directories holds the program, executable or not
    for d1, d2 in itertools.product(("none", "exe", "plain"), repeat=2):
        for how in ("option", "option-rev", "environ", "absolute", "relative-missing", "bytes", "path-object",
                    "env-arg", "second-set"):
            yield ("path", d1, d2, how)


class _S:
    name = "args-exec"
    tags = {"cmd"}
    use_audit = False

    def __init__(self, fn, progs):
        self.fn, self.progs = fn, progs

    def setup(self, w):
        w.programs.update(self.progs)

    async def main(self, w):
        return await self.fn(w)


def check_exec(case):
    msgs = []
    if case[0] == "exec":
        obj, model = build(case[1])

        async def fn(w):
            return await sh(K.A, obj)
        try:
            r = W.run_one(_S(fn, {K.A: K.nop()}), W.POLICIES["lazy"], [], {})
        except Exception as ex:
            return [f"{case}: {ex!r}"], True, case
        if model is TypeError:
            if not isinstance(r.exc, TypeError) or r.world.execs:
                msgs.append(f"{case}: expected TypeError before anything runs, got {r.exc!r}, started {len(r.world.execs)}")
            return msgs, True, (case, "TypeError")
        want = [K.A] + [os.fspath(x) for x in model]
        if r.exc is not None or len(r.world.execs) != 1:
            msgs.append(f"{case}: {r.exc!r}")
        else:
            got = r.world.execs[0].argv
            if [os.fsencode(x) for x in got] != [os.fsencode(x) for x in want]:
                msgs.append(f"{case}: argv {got!r}, expected {want!r}")
        return msgs, True, (case, repr(want))
    _, d1, d2, how = case
    root = tempfile.mkdtemp(prefix="mc-args-")
    try:
        dirs = []
        for i, d in enumerate((d1, d2)):
            p = os.path.join(root, f"d{i}")
            os.mkdir(p)
            dirs.append(p)
            if d != "none":
                f = os.path.join(p, "mcprog")
                open(f, "w").close()
                os.chmod(f, 0o755 if d == "exe" else 0o644)
        found = [os.path.join(p, "mcprog") for p, d in zip(dirs, (d1, d2)) if d == "exe"]
        progs = {os.path.join(p, "mcprog"): K.nop() for p in dirs}
        path = ":".join(dirs)
        want = found[0] if found else None
        extra = {}
        prog = "mcprog"
        ctx = sh
        if how == "option":
            ctx = sh.set(path=path)
        elif how == "option-rev":
            ctx = sh.set(path=":".join(dirs[::-1]))
            want = found[-1] if found else None
        elif how == "environ":
            extra["PATH"] = path
        elif how == "absolute":
            prog = os.path.join(dirs[1], "mcprog")
            ctx = sh.set(path=dirs[0])
            want = prog if d2 == "exe" else None
            if d2 != "exe":
                progs.pop(prog)
        elif how == "relative-missing":
            ctx = sh.set(path=path)
            prog = "mcprog-other"
            want = None
        elif how == "bytes":
            prog = b"mcprog"
            extra["PATH"] = path
        elif how == "path-object":
            prog = Path("mcprog")
            ctx = sh.set(path=path)
        elif how == "env-arg":
            # the command's own environment does not influence where the program is found
            ctx = sh.set(path=path, env={"PATH": "/nonexistent"}, inherit_env=False)
        elif how == "second-set":
            ctx = sh.set(path="/nonexistent").set(path=path)

        async def fn(w):
            return await ctx(prog, "arg")
        old = {k: os.environ.get(k) for k in extra}
        os.environ.update(extra)
        try:
            r = W.run_one(_S(fn, progs), W.POLICIES["lazy"], [], {})
        finally:
            for k, v in old.items():
                if v is None:
                    os.environ.pop(k, None)
                else:
                    os.environ[k] = v
        if want is None:
            if not isinstance(r.exc, (FileNotFoundError, PermissionError)) or r.world.execs:
                msgs.append(f"{case}: expected a launch failure, got {r.exc!r}")
        elif r.exc is not None or not r.world.execs:
            msgs.append(f"{case}: {r.exc!r}")
        else:
            got = [os.fsdecode(x) for x in r.world.execs[0].argv]
            if got != [want, "arg"]:
                msgs.append(f"{case}: executed {got!r}, expected {[want, 'arg']!r}")
        return msgs, True, (case, bool(want))
    finally:
        shutil.rmtree(root, ignore_errors=True)
