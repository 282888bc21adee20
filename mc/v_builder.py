"""C20: builder algebra of contexts, commands and pipelines against a reference model."""

import dataclasses
import itertools
import signal
from pathlib import Path

from . import catalog  # noqa: F401  (sets up the import path)
import shellous
from shellous import Pipeline, sh
from shellous.redirect import Redirect

P1, P2 = Path("/mc/p1"), Path("/mc/p2")
R255 = range(-255, 256)


def _cb(*a):
    return None


def _co(x):
    return x


SETTINGS = {
    "path": "/x:/y", "inherit_env": False, "encoding": "latin-1", "exit_codes": frozenset({0, 3}),
    "timeout": 2.5, "cancel_timeout": 0.5, "cancel_signal": signal.SIGINT, "alt_name": "nick",
    "pass_fds": (9, 10), "pass_fds_close": True, "_writable": True, "_start_new_session": True,
    "_preexec_fn": _cb, "pty": True, "close_fds": False, "audit_callback": _cb, "coerce_arg": _co,
    "error_limit": None, "_return_result": True, "_catch_cancelled_error": True,
}
SECOND = {"timeout": None, "exit_codes": None, "inherit_env": True, "error_limit": 5, "_writable": False,
          "cancel_signal": None, "path": None}


def fields(opts):
    d = {f.name: getattr(opts, f.name) for f in dataclasses.fields(opts)}
    d["env"] = dict(d["env"]) if d["env"] is not None else None
    return d


def dump(x):
    if isinstance(x, shellous.CmdContext):
        return ("ctx", fields(x.options))
    if isinstance(x, shellous.Command):
        return ("cmd", tuple(x.args), fields(x.options))
    if isinstance(x, Pipeline):
        return ("pipe", tuple(dump(c) for c in x.commands))
    return ("other", repr(x))


def canon(d):
    "Hashable form of a dump (types matter: 1, 1.0 and True differ)."
    if isinstance(d, dict):
        return tuple(sorted((k, canon(v)) for k, v in d.items()))
    if isinstance(d, tuple):
        return tuple(canon(x) for x in d)
    return f"{type(d).__name__}:{d!r}"


# model operations on ("ctx", opts) / ("cmd", args, opts) / ("pipe", (cmd...))
def upd(state, where, **kw):
    if state[0] == "ctx":
        return ("ctx", {**state[1], **kw})
    if state[0] == "cmd":
        return ("cmd", state[1], {**state[2], **kw})
    cmds = list(state[1])
    cmds[where] = upd(cmds[where], where, **kw)
    return ("pipe", tuple(cmds))


def opts_of(state):
    return state[1] if state[0] == "ctx" else state[2]


def add_env(state, **kw):
    cur = dict(opts_of(state)["env"] or {})
    cur.update(kw)
    return upd(state, -1, env=cur)


OPS = []  # (name, kinds, real, model or exception type)


def op(name, kinds, real, model):
    OPS.append((name, kinds, real, model))


ALL = ("ctx", "cmd", "pipe")
CC = ("ctx", "cmd")
for v, close in (("in", False), (5, True), (Redirect.DEVNULL, False), (P1, True)):
    op(f"stdin({v!r},{close})", ALL, lambda o, v=v, c=close: o.stdin(v, close=c),
       lambda s, v=v, c=close: upd(s, 0, input=v, input_close=c))
for v, app, close in ((P1, False, False), (P2, True, False), (7, False, True), (Redirect.INHERIT, True, True)):
    op(f"stdout({v!r},{app},{close})", ALL, lambda o, v=v, a=app, c=close: o.stdout(v, append=a, close=c),
       lambda s, v=v, a=app, c=close: upd(s, -1, output=v, output_append=a, output_close=c))
for v, app, close in ((Redirect.STDOUT, False, False), (P1, True, False), (8, False, True)):
    op(f"stderr({v!r},{app},{close})", ALL, lambda o, v=v, a=app, c=close: o.stderr(v, append=a, close=c),
       lambda s, v=v, a=app, c=close: upd(s, -1, error=v, error_append=a, error_close=c))
# what is not given is off, also when it was on before
op("stdin(path)", ALL, lambda o: o.stdin(P2), lambda s: upd(s, 0, input=P2, input_close=False))
op("stdout(path)", ALL, lambda o: o.stdout(P1), lambda s: upd(s, -1, output=P1, output_append=False, output_close=False))
op("stdout(9,close)", ALL, lambda o: o.stdout(9, close=True), lambda s: upd(s, -1, output=9, output_append=False, output_close=True))
op("stdout(path,append)", ALL, lambda o: o.stdout(P1, append=True), lambda s: upd(s, -1, output=P1, output_append=True, output_close=False))
op("stderr(path)", ALL, lambda o: o.stderr(P2), lambda s: upd(s, -1, error=P2, error_append=False, error_close=False))
op("stderr(9,close)", ALL, lambda o: o.stderr(9, close=True), lambda s: upd(s, -1, error=9, error_append=False, error_close=True))
op("stderr(path,append)", ALL, lambda o: o.stderr(P2, append=True), lambda s: upd(s, -1, error=P2, error_append=True, error_close=False))
op("stdin(None)", ALL, lambda o: o.stdin(None), TypeError)
op("stdin(STDOUT)", ALL, lambda o: o.stdin(Redirect.STDOUT), ValueError)
op("stdout(None)", ALL, lambda o: o.stdout(None), TypeError)
op("stdout(STDOUT)", ALL, lambda o: o.stdout(Redirect.STDOUT), ValueError)
op("stderr(None)", ALL, lambda o: o.stderr(None), TypeError)
op("env(A=1)", CC, lambda o: o.env(A=1), lambda s: add_env(s, A="1"))
op("env(A='2')", CC, lambda o: o.env(A="2"), lambda s: add_env(s, A="2"))
op("env(B=3)", CC, lambda o: o.env(B=3), lambda s: add_env(s, B="3"))
op("env(B=3,A=1)", CC, lambda o: o.env(B=3, A=1), lambda s: add_env(s, B="3", A="1"))


def _set_env(o):
    d = {"A": "9", "C": 4}
    new = o.set(env=d)
    d["A"] = "changed"
    d["D"] = "added"
    return new


op("set(env={A,C})", CC, _set_env, lambda s: upd(s, -1, env={"A": "9", "C": "4"}))
op("set(env={})", CC, lambda o: o.set(env={}), lambda s: upd(s, -1, env=None))
for k, v in SETTINGS.items():
    op(f"set({k}={v!r})", CC, lambda o, k=k, v=v: o.set(**{k: v}), lambda s, k=k, v=v: upd(s, -1, **{k: v}))
for k, v in SECOND.items():
    op(f"set({k}={v!r})", CC, lambda o, k=k, v=v: o.set(**{k: v}), lambda s, k=k, v=v: upd(s, -1, **{k: v}))
op("set()", CC, lambda o: o.set(), lambda s: s)
op("set(timeout,encoding)", CC, lambda o: o.set(timeout=1, encoding="ascii"),
   lambda s: upd(s, -1, timeout=1, encoding="ascii"))
op("set(encoding='')", CC, lambda o: o.set(encoding=""), TypeError)
op("result", ALL, lambda o: o.result, lambda s: upd(s, -1, _return_result=True, exit_codes=R255))
op("writable", ("cmd", "pipe"), lambda o: o.writable, lambda s: upd(s, -1, _writable=True))


def _call_list(o):
    arg = ["y", 1]
    new = o(arg)
    arg.append("later")
    return new


op("call(x)", ("cmd",), lambda o: o("x"), lambda s: ("cmd", s[1] + ("x",), s[2]))
op("call([y,1])", ("cmd",), _call_list, lambda s: ("cmd", s[1] + ("y", "1"), s[2]))
op("call()", ("cmd", "pipe"), lambda o: o(), lambda s: s)
op("ctx(p,x)", ("ctx",), lambda o: o("p", "x"), lambda s: ("cmd", ("p", "x"), s[1]))
op("ctx()", ("ctx",), lambda o: o(), ValueError)
op("call({})", ("cmd",), lambda o: o({}), TypeError)
op("pipe(x)", ("pipe",), lambda o: o("x"), TypeError)

Q = sh("q").set(timeout=7.0)
QQ = sh("r").env(A=5) | sh("s").stdout(P2)
mQ, mQQ = dump(Q), dump(QQ)


def cmds_of(s):
    return (s,) if s[0] == "cmd" else s[1]


CP = ("cmd", "pipe")
op("|q", CP, lambda o: o | Q, lambda s: ("pipe", cmds_of(s) + (mQ,)))
op("|(r|s)", CP, lambda o: o | QQ, lambda s: ("pipe", cmds_of(s) + mQQ[1]))
op("q|", CP, lambda o: Q | o, lambda s: ("pipe", (mQ,) + cmds_of(s)))
op("(r|s)|", CP, lambda o: QQ | o, lambda s: ("pipe", mQQ[1] + cmds_of(s)))
op("|path", CP, lambda o: o | P1,
   lambda s: upd(s, -1, output=P1, output_append=False, output_close=False))
op("|DEVNULL", CP, lambda o: o | Redirect.DEVNULL,
   lambda s: upd(s, -1, output=Redirect.DEVNULL, output_append=False, output_close=False))
op(">>path", CP, lambda o: o >> P2,
   lambda s: upd(s, -1, output=P2, output_append=True, output_close=False))
op(">>DEVNULL", CP, lambda o: o >> Redirect.DEVNULL,
   lambda s: upd(s, -1, output=Redirect.DEVNULL, output_append=True, output_close=False))
op("b'in'|", CP, lambda o: b"in" | o, lambda s: upd(s, 0, input=b"in", input_close=False))
op("'in'|", CP, lambda o: "in" | o, lambda s: upd(s, 0, input="in", input_close=False))
op("path|", CP, lambda o: P1 | o, lambda s: upd(s, 0, input=P1, input_close=False))
op("|'str'", CP, lambda o: o | "str", TypeError)
op(">>'str'", CP, lambda o: o >> "str", TypeError)
op("|None", CP, lambda o: o | None, TypeError)

STARTS = [sh, sh("p", "a"), sh("p") | sh("q", "b")]
KINDS = ["ctx", "cmd", "pipe"]
# one representative of each group of similar operations
REDUCED = [i for i, o in enumerate(OPS) if o[0] in (
    "stdin('in',False)", "stdin(5,True)", f"stdout({P2!r},True,False)", "stdout(7,False,True)",
    f"stderr({P1!r},True,False)", "env(A=1)", "env(B=3)", "set(env={A,C})", "set(env={})",
    "set(timeout=2.5)", "set(_writable=True)", "set(coerce_arg=%r)" % _co, "result", "writable", "call(x)",
    "ctx(p,x)", "|q", "(r|s)|", "|path", ">>path", "'in'|")]


def _walk(kind, i):
    "Kind after operation i on an object of this kind, or None."
    name, kinds, real, model = OPS[i]
    if kind not in kinds:
        return None
    if isinstance(model, type):
        return kind
    if name == "ctx(p,x)":
        return "cmd"
    if name in ("|q", "|(r|s)", "q|", "(r|s)|"):
        return "pipe"
    return kind


def seqs(start, depth, alphabet):
    def rec(kind, seq):
        if seq:
            yield (start, seq)
        if len(seq) == depth:
            return
        for i in alphabet:
            k = _walk(kind, i)
            if k is not None:
                yield from rec(k, seq + (i,))
    yield from rec(KINDS[start], ())


def cases(tier):
    full = range(len(OPS))
    for s in range(3):
        yield from seqs(s, 3 if tier == "thorough" else 2, full)
    for s in range(3):
        yield from seqs(s, 5 if tier == "thorough" else 4, REDUCED)
    n = len(PARTS)
    for ijk in itertools.product(range(n), repeat=3):
        yield ("assoc", ijk)
    for ij in itertools.product(range(n), repeat=4):
        yield ("assoc", ij)
    yield from perms()


PARTS = [sh("a"), sh("b", "x").set(timeout=3.0), "in" | sh("c"), sh("d") | P1, sh("e").stderr(8, close=True)]
# settings that commute: applied in every order they must give equal objects
COMMUTE = [i for i, o in enumerate(OPS) if o[0] in (
    "stdin('in',False)", "stdout(7,False,True)", f"stderr({P1!r},True,False)", "env(A=1)", "env(B=3)",
    "set(timeout=2.5)", "set(path='/x:/y')")]


def perms():
    for sub in itertools.combinations(COMMUTE, 4):
        yield ("perm", sub)
    for sub in itertools.combinations(COMMUTE, 2):
        yield ("perm", sub)


def name(case):
    return "builder"


_canon = {}


def _eq_checks(obj, d, msgs, hist):
    key = canon(d)
    try:
        h = hash(obj)
    except TypeError as ex:
        msgs.append(f"{hist}: not hashable: {ex}")
        return
    seen = _canon.get(key)
    if seen is None:
        last = _canon.get("last")
        if last is not None and last[2] != key:
            if (last[0] == obj) and type(last[0]) is type(obj) and last[3] != d:
                msgs.append(f"{hist}: equal to a different object {last[0]!r}")
        _canon["last"] = (obj, h, key, d)
        if len(_canon) < 60000:
            _canon[key] = (obj, h)
        return
    if not (seen[0] == obj and obj == seen[0]) or seen[0] != obj:
        msgs.append(f"{hist}: not equal to an object built from equal parts")
    if seen[1] != h:
        msgs.append(f"{hist}: hash differs from an equal object's")


def _frozen(obj, msgs, hist):
    for attr in ("options", "args", "commands"):
        if attr in getattr(obj, "__dict__", {}):
            old = getattr(obj, attr)
            try:
                setattr(obj, attr, None)
            except AttributeError:
                continue
            object.__setattr__(obj, attr, old)
            msgs.append(f"{hist}: attribute {attr} can be rebound")


def check(case):
    start, seq = case[0], case[1]
    msgs = []
    if start == "assoc":
        parts = [PARTS[i] for i in seq]
        flat = Pipeline(tuple(parts))
        for obj in _groupings(parts):
            if dump(obj) != dump(flat) or obj != flat or hash(obj) != hash(flat):
                msgs.append(f"grouping of {seq} gives a different pipeline")
        return msgs, True, ("assoc", seq)
    if start == "perm":
        ref = None
        for perm in itertools.permutations(seq):
            o = sh("p")
            for i in perm:
                o = OPS[i][2](o)
            if ref is None:
                ref = o
            elif o != ref or hash(o) != hash(ref):
                msgs.append(f"order of {[OPS[i][0] for i in perm]} changes equality or hash")
                break
        return msgs, True, ("perm", seq)
    obj = STARTS[start]
    state = dump(obj)
    hist = KINDS[start]
    for i in seq:
        nm, kinds, real, model = OPS[i]
        hist += " ." + nm
        before = (dump(Q), dump(QQ))
        try:
            new = real(obj)
            err = None
        except Exception as ex:
            new, err = None, ex
        if dump(obj) != state:
            msgs.append(f"{hist}: the operand was modified")
            return msgs, True, hist
        if (dump(Q), dump(QQ)) != before:
            msgs.append(f"{hist}: the other operand was modified")
        if isinstance(model, type):
            if not isinstance(err, model):
                msgs.append(f"{hist}: expected {model.__name__}, got {err!r} {new!r}")
            continue
        if err is not None:
            msgs.append(f"{hist}: raised {err!r}")
            return msgs, True, hist
        state = model(state)
        got = dump(new)
        if got != state or canon(got) != canon(state):
            msgs.append(f"{hist}: expected {_diff(state, got)}")
            return msgs, True, hist
        obj = new
    _eq_checks(obj, state, msgs, hist)
    _frozen(obj, msgs, hist)
    return msgs, len(seq) > 1, hist


def _groupings(parts):
    if len(parts) == 1:
        return [parts[0]]
    out = []
    for k in range(1, len(parts)):
        for a in _groupings(parts[:k]):
            for b in _groupings(parts[k:]):
                out.append(a | b)
    return out


def _diff(a, b):
    fa, fb = canon(a), canon(b)
    def leaves(x, path=()):
        if isinstance(x, tuple):
            for i, y in enumerate(x):
                yield from leaves(y, path + (i,))
        else:
            yield path, x
    da, db = dict(leaves(fa)), dict(leaves(fb))
    return {k: (da.get(k), db.get(k)) for k in set(da) | set(db) if da.get(k) != db.get(k)}
