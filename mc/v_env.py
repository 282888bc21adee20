"""C22: the environment that reaches exec against a dictionary model."""

import itertools
import os

from . import catalog as K
from . import world as W
from .v_args import _S
from shellous import sh

PARENT = {"MC_A": "pa", "MC_B": "pb"}
# name, real, model(state=(dict, inherit))
OPS = [
    ("env(A=1)", lambda o, u: o.env(MC_A=1), lambda d, i: ({**d, "MC_A": "1"}, i)),
    ("env(A='2')", lambda o, u: o.env(MC_A="2"), lambda d, i: ({**d, "MC_A": "2"}, i)),
    ("env(B=x,C='')", lambda o, u: o.env(MC_B="x", MC_C=""), lambda d, i: ({**d, "MC_B": "x", "MC_C": ""}, i)),
    ("env()", lambda o, u: o.env(), lambda d, i: (d, i)),
    ("set(env={A:3})", lambda o, u: o.set(env=_dict(u, {"MC_A": 3})), lambda d, i: ({"MC_A": "3"}, i)),
    ("set(env={B:4,D:5})", lambda o, u: o.set(env=_dict(u, {"MC_B": "4", "MC_D": 5.5})),
     lambda d, i: ({"MC_B": "4", "MC_D": "5.5"}, i)),
    ("set(env={})", lambda o, u: o.set(env={}), lambda d, i: ({}, i)),
    ("set(env=None)", lambda o, u: o.set(env=None), lambda d, i: ({}, i)),
    ("inherit(False)", lambda o, u: o.set(inherit_env=False), lambda d, i: (d, False)),
    ("inherit(True)", lambda o, u: o.set(inherit_env=True), lambda d, i: (d, True)),
    ("set(env={A:6},inherit=False)", lambda o, u: o.set(env=_dict(u, {"MC_A": 6}), inherit_env=False),
     lambda d, i: ({"MC_A": "6"}, False)),
    ("set(timeout)", lambda o, u: o.set(timeout=9.0), lambda d, i: (d, i)),
    ("->cmd", None, None),
]
CMD = len(OPS) - 1


def _dict(u, d):
    u.append((d, dict(d)))
    return d


def cases(tier):
    n = 4 if tier == "thorough" else 3
    for k in range(n + 1):
        for seq in itertools.product(range(CMD), repeat=k):
            for pos in range(k + 1):
                yield ("seq", seq[:pos] + (CMD,) + seq[pos:])
    for seq in itertools.product(range(CMD), repeat=2):
        yield ("pipe", (CMD,) + seq)
        yield ("reuse", (CMD,) + seq)
        yield ("parent-change", (CMD,) + seq)


def name(case):
    return "env-" + case[0]


def _in_user(fn):
    return fn()


def check(case):
    kind, seq = case
    msgs = []
    used = []
    d, inh = {}, True
    o = sh
    siblings = []
    for i in seq:
        if i == CMD:
            o = o(K.A)
            continue
        siblings.append((o, dict(d), inh))
        nm, real, model = OPS[i]
        o = real(o, used)
        d, inh = model(d, inh)
    for u, orig in used:
        if u != orig:
            msgs.append(f"{case}: the user's dictionary was modified")
        u["MC_LATE"] = "late"  # must have no effect any more
    runs = []
    if kind == "pipe":
        async def fn(w):
            await (sh(K.B) | o)
        runs.append((fn, d, inh, "a"))
    elif kind == "reuse":
        for so, sd, si in siblings:
            async def fn(w, so=so):
                await so
            runs.append((fn, sd, si, "a"))
        async def fn2(w):
            await o
        runs += [(fn2, d, inh, "a"), (fn2, d, inh, "a")]
    else:
        async def fn3(w):
            if kind == "parent-change":
                os.environ["MC_B"] = "late-parent"
            await o
        runs.append((fn3, d, inh, "a"))
    key = []
    for fn, d, inh, who in runs:
        saved = dict(os.environ)
        os.environ.update(PARENT)
        for k in ("MC_C", "MC_D", "MC_LATE"):
            os.environ.pop(k, None)
        try:
            before = dict(os.environ)
            r = W.run_one(_S(fn, {K.A: K.nop(), K.B: K.nop()}), W.POLICIES["lazy"], [], {})
            if kind == "parent-change":
                before["MC_B"] = "late-parent"
            if dict(os.environ) != before:
                msgs.append(f"{case}: the parent environment was modified")
        finally:
            os.environ.clear()
            os.environ.update(saved)
        a = [x for x in r.world.execs if x.name == who]
        if r.exc is not None or len(a) != 1:
            msgs.append(f"{case}: {r.exc!r}")
            continue
        env = before if a[0].env is None else a[0].env
        want = {**before, **d} if inh else dict(d)
        if env != want:
            diff = {k: (want.get(k), env.get(k)) for k in set(env) | set(want) if env.get(k) != want.get(k)}
            msgs.append(f"{case} {[OPS[i][0] for i in seq]}: wrong (expected, got) {diff}"[:600])
        key.append(tuple(sorted((k, v) for k, v in env.items() if k.startswith("MC_"))) + (len(env) < 10,))
    return msgs, len(seq) > 2, (kind, seq, tuple(key))
