"""Properties decided by enumerating every case of a bounded space (no scheduling)."""

import gc
import multiprocessing as mp
import os
import re
import time
import traceback

from .props_base import Result, VALUE_ASSUME


_MOD = None


def guarded(mod, case):
    "An exception that escapes from the code under test is a finding, not an error of the check."
    try:
        return mod.check(case)
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        if tb and "/shellous/" in tb[-1].filename and "/verif/" not in tb[-1].filename:
            return [f"{case}: unexpected {ex!r} from {tb[-1].name}"], True, repr(ex)
        raise


def _work(args):
    mod = _MOD
    _, tier, k, n, deadline = args
    cnt = nontriv = 0
    keys = set()
    viol = []
    samples = []
    truncated = False
    err = None
    try:
        for i, case in enumerate(mod.cases(tier)):
            if i % n != k:
                continue
            if not i % 64 and time.monotonic() > deadline:
                truncated = True
                break
            msgs, nt, key = guarded(mod, case)
            cnt += 1
            if nt:
                nontriv += 1
                keys.add(hash(key))
                if len(samples) < 2 and i > 50:
                    samples.append({"case": repr(case)[:300], "observed": repr(key)[:300]})
            if msgs:
                viol.append({"scenario": mod.name(case) if hasattr(mod, "name") else "case",
                             "case": case, "messages": msgs})
                if len(viol) >= 4:
                    break
    except Exception:
        err = traceback.format_exc()
    return cnt, nontriv, keys, viol, samples, truncated, err


class Value:
    level = "exploration"
    technique = ("bounded model checking by explicit enumeration: every operation sequence / configuration up to a "
                 "bound executed on the real code and compared step by step with a reference model")
    note = "Exhaustive over the finite space described by coverage.rule; nothing outside it is claimed."

    def __init__(self, pid, mod, rule, cap=(120, 1500), assumptions=()):
        self.pid = pid
        self.mod = mod
        self.rule = rule
        self.cap = cap
        self.assumptions = VALUE_ASSUME + list(assumptions)

    def run(self, tier, known):
        res = Result()
        deadline = time.monotonic() + self.cap[0 if tier != "thorough" else 1]
        n = min(8, os.cpu_count() or 1)
        cnt = 0
        keys = set()
        samples = []
        truncated = False
        gc.freeze()
        global _MOD
        _MOD = self.mod
        with mp.get_context("fork").Pool(n) as pool:
            for c, nt, ks, viol, smp, tr, err in pool.imap_unordered(
                    _work, [(0, tier, k, n, deadline) for k in range(n)]):
                cnt += c
                keys |= ks
                truncated |= tr
                samples += smp
                if err:
                    res.errors.append(err)
                for v in viol:
                    kf = None
                    for k in known:
                        if k[1] == v["scenario"] and all(re.search(k[2], m) for m in v["messages"]):
                            kf = k
                    if kf:
                        res.known[kf] = res.known.get(kf, 0) + 1
                    else:
                        res.violations.append(v)
        res.coverage = {
            "evaluations": cnt, "distinct_nontrivial": len(keys), "rule": self.rule,
            "samples": samples[:5], "exhaustive": not truncated and not res.violations,
        }
        return res

    def replay(self, v):
        return guarded(self.mod, _tup(v["case"]))[0], [repr(v["case"])]


def _tup(x):
    return tuple(_tup(i) for i in x) if isinstance(x, (list, tuple)) else x


class Both:
    "A property decided by several parts (schedules and/or values)."

    def __init__(self, pid, *parts):
        self.pid = pid
        self.parts = parts
        self.level = parts[0].level
        self.technique = parts[0].technique
        self.assumptions = []
        for p in parts:
            for a in p.assumptions:
                if a not in self.assumptions:
                    self.assumptions.append(a)

    def run(self, tier, known):
        res = None
        for i, p in enumerate(self.parts):
            r = p.run(tier, known)
            for v in r.violations:
                v["part"] = i
            if res is None:
                res = r
                continue
            res.violations += r.violations
            res.errors += r.errors
            for k, n in r.known.items():
                res.known[k] = res.known.get(k, 0) + n
            res.coverage[f"part{i + 1}"] = r.coverage
            res.coverage["exhaustive"] = bool(res.coverage.get("exhaustive") and r.coverage.get("exhaustive"))
        return res

    def replay(self, v):
        return self.parts[v.get("part", 0)].replay(v)
