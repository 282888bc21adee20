"""C27: every scenario is explored with each trace setting, in separate processes (the setting is read when
shellous is imported), and what can be observed is compared with the runs without tracing."""

import json
import logging
import os
import re
import subprocess
import sys
import tempfile
import time

from . import catalog as K
from . import explore as X
from . import oracles as O
from . import pool
from . import world as W
from .props_base import COMMON, Result

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LE = ("lazy", "eager")


def plan(tier, setting, small):
    """(scenarios, budgets, policies)"""
    allscn = [s for s in K.SC.values() if not s.name.startswith("watch-")]
    if setting == "prompt":
        allscn = [s for s in allscn if {"C17", "C18", "C19"} & set(s.tags) or "prompt" in s.name]
    sm = [s for s in allscn if s.name in small or "prompt" in s.name or s.name in EXTRA]
    still = [s for s in sm if not terminal(s)]
    if tier != "thorough":
        allscn = [s for s in allscn if s.name not in BIG]
        if setting == "detail":  # the rest is covered by "all"
            allscn, sm = sm, [s for s in sm if s.name in small]
            still = [s for s in still if s.name in small]
        return [(allscn, {"narrow": 1}, ("lazy",)), (still, {"cancel": 1}, ("lazy",)), (sm, {"fault": 1}, ("lazy",))]
    return [(allscn, {"narrow": 1}, LE), ([s for s in allscn if not terminal(s)], {"cancel": 1}, ("lazy",)), (allscn, {"fault": 1}, ("lazy",)),
            (still, {"dev": 1}, ("lazy",))]


BIG = {"reentry", "harvest2", "harvest3", "err-limit-big", "out-sizes", "in-kinds", "err-sinks"}
EXTRA = {"timeout-pipe", "term-out", "term-early", "subst-write", "iter-abandon", "harvest1"}


def norm(x):
    "Without what differs from process to process."
    return re.sub(r"0x[0-9a-f]{6,}|Task-\d+|/tmp/[^\s'\"]+|/dev/(fd|pts)/\d+|descriptor \d+|f\d{9,}|fd=\d+", "#", x)


def terminal(s):
    "Scenarios with a real terminal, whose data may arrive an iteration of the loop later."
    return bool({"C25", "C19", "pty"} & set(s.tags)) or "pty" in s.name or "term" in s.name


def key(s, r):
    "What can be observed of a run, apart from the log."
    bits = [r.outcome]
    if r.exc is not None:
        bits.append(f"raises {type(r.exc).__name__} {r.exc}"[:300])
    else:
        bits.append(f"returns {r.value!r}"[:300])
    for o in (O.loop_clean, O.fds_conserved, O.no_process_left):
        bits += o(s, r)[:3]
    for what, got, want, _ in r.world.user.get("cmp", []):
        bits.append(f"{what}: {got!r}"[:200])
    bits.append("alive at return: " + " ".join(sorted(map(str, r.live_at_return))))
    side = [" ".join(map(str, e)) for e in r.events if e[0] != "CHOICE"]
    if not terminal(s):
        bits.append("history " + str(hash(norm(chr(10).join(side))) % 10**12))
    return norm(" | ".join(bits))


def part(argv):
    "Explores in this process; writes what was observed."
    setting, tier, out, seconds = argv[0], argv[1], argv[2], float(argv[3])
    if setting:
        for s in K.SC.values():
            s.log_level = logging.DEBUG
    from .props import SMALL

    X.KEY = key
    t_end = time.monotonic() + seconds
    total = X.Stats()
    rows, errors = [], []
    for scns, bud, pols in plan(tier, setting, SMALL):
        left = t_end - time.monotonic()
        st, err = pool.run_jobs([(s, p, bud) for s in scns for p in pols], lambda s, r: [], max(left, 1))
        rows.append({"budgets": bud, "policies": list(pols), "scenarios": len(scns), "schedules": st.runs,
                     "unexplored_subtrees": st.truncated})
        errors += err
        total.merge(st)
    with open(out, "w") as f:
        json.dump({"rows": rows, "errors": errors[:3], "runs": total.runs, "steps": total.choices, "states": len(total.fps),
                   "outcomes": {json.dumps(k): v for k, v in total.outcomes.items()},
                   "example": [[k, v] for k, v in total.examples.items()], "mismatch": total.mismatch}, f)


def spawn(setting, tier, seconds, extra=()):
    fd, path = tempfile.mkstemp(prefix="c27-", suffix=".json")
    os.close(fd)
    env = dict(os.environ, SHELLOUS_TRACE=setting, PYTHONHASHSEED="0")
    args = [sys.executable, "-B", "-X", "pycache_prefix=/nonexistent/mc", "-m", "mc.check", "trace-part", setting, tier, path, str(seconds), *extra]
    return subprocess.Popen(args, env=env, cwd=HERE, stdout=subprocess.DEVNULL), path


def collect(proc, path):
    try:
        proc.wait()
        with open(path) as f:
            return json.load(f)
    except ValueError as ex:
        return {"errors": [f"part ended with status {proc.returncode}: {ex}"], "runs": 0, "steps": 0, "states": 0,
                "outcomes": {}, "example": [], "rows": [], "mismatch": 0}
    finally:
        os.unlink(path)


class TraceCmp:
    level = "model_checking"
    technique = ("stateless model checking of the real code: the same schedules are explored with each trace setting "
                 "and the sets of observable outcomes are compared")

    def __init__(self, pid):
        self.pid = pid
        self.assumptions = COMMON + ["the log level is DEBUG when tracing is on, WARNING otherwise"]

    def run(self, tier, known):
        res = Result()
        seconds = 60 if tier != "thorough" else 170
        data = {}
        for setting in ("", "detail", "prompt", "all"):
            data[setting] = collect(*spawn(setting, tier, seconds))
        base = data[""]
        runs = sum(d["runs"] for d in data.values())
        cut = any(r["unexplored_subtrees"] for d in data.values() for r in d["rows"])
        samples = []
        unconfirmed = 0
        stop = time.monotonic() + 120
        for setting, d in data.items():
            res.errors += d["errors"]
            if not setting:
                continue
            ex = {json.dumps(k): v for k, v in d["example"]}
            done = set()
            tried = {}
            for k in d["outcomes"]:
                kk = json.loads(k)
                if len(samples) < 4 and ex.get(k):
                    samples.append({"setting": setting, "observed": str(kk)[:400]})
                if k in base["outcomes"]:
                    continue
                scn = kk[0]
                same = {x for x in base["outcomes"] if json.loads(x)[0] == scn}
                if (scn, setting) in done or len(res.violations) >= 6 or time.monotonic() > stop:
                    continue
                if tried.get((scn, setting), 0) >= 3:
                    continue
                tried[scn, setting] = tried.get((scn, setting), 0) + 1
                if not self.confirmed(setting, scn, ex[k]):
                    unconfirmed += 1
                    continue
                done.add((scn, setting))
                near = max(same, key=lambda x: _common(x, k), default="")
                v = dict(ex[k], scenario=scn, setting=setting,
                         messages=[f"with SHELLOUS_TRACE={setting}: {kk[1][:300]}",
                                   f"without tracing, e.g.: {json.loads(near)[1][:300] if near else 'never run'}"])
                kf = next((q for q in known if q[1] == scn and re.search(q[2], v["messages"][0])), None)
                if kf:
                    res.known[kf] = res.known.get(kf, 0) + 1
                else:
                    res.violations.append(v)
        res.coverage = {
            "states": sum(d["states"] for d in data.values()),
            "transitions": sum(d["steps"] for d in data.values()),
            "traces_validated_against_impl": runs,
            "distinct_outcomes_without_tracing": len(base["outcomes"]),
            "samples": samples,
            "settings": {k or "none": {"schedules": d["runs"], "phases": d["rows"]} for k, d in data.items()},
            "differences_not_confirmed": unconfirmed,
            "exhaustive": not cut and not res.violations,
        }
        return res

    def confirmed(self, setting, scn, ex):
        "The same schedule differs whenever it is run with and without tracing (real terminals are not quite deterministic)."
        def keys(x):
            return {one(x, scn, ex["policy"], ex["prefix"], ex["budgets"]) for _ in range(3)}

        plain = keys("")
        return len(plain) == 1 and not plain & keys(setting)

    def replay(self, v):
        a = one("", v["scenario"], v["policy"], v["prefix"], v["budgets"])
        b = one(v["setting"], v["scenario"], v["policy"], v["prefix"], v["budgets"])
        return ([f"without tracing: {a}", f"with {v['setting']}: {b}"] if a != b else []), []


def _common(a, b):
    n = 0
    for x, y in zip(a, b):
        if x != y:
            break
        n += 1
    return n


def one(setting, scn, policy, prefix, budgets):
    spec = json.dumps([scn, policy, prefix, budgets])
    d = collect(*spawn(setting, "one", 60, (spec,)))
    return d.get("key")


def part_one(argv):
    scn, policy, prefix, budgets = json.loads(argv[4])
    s = K.SC[scn]
    if argv[0]:
        s.log_level = logging.DEBUG
    r = W.run_one(s, W.POLICIES[policy], [tuple(x) for x in prefix], budgets)
    with open(argv[2], "w") as f:
        json.dump({"key": key(s, r)}, f)
