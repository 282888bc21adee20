"""Depth-first, deviation-bounded enumeration of schedules."""

import gc
import json
import os
import sys
import time

from . import world as W


def children(trace, start, budgets):
    "All one-step deviations of a trace at positions >= start."
    left = dict(budgets)
    for kind, n, c, costs in trace[:start]:
        if c and costs[c] is not None:
            left[costs[c]] = left.get(costs[c], 0) - 1
    out = []
    for i in range(start, len(trace)):
        kind, n, c, costs = trace[i]
        for alt in range(1, n):
            b = costs[alt]
            if b is None or left.get(b, 0) > 0:
                out.append([(t[1], t[2]) for t in trace[:i]] + [(n, alt)])
    return out


KEY = None  # function (scenario, run) -> what to count instead of the outcome
KNOWN = None  # function (scenario name, message) -> id of a listed known finding, or None


def _safe(v):
    return repr(v)[:400]


class Stats:
    def __init__(self):
        self.runs = 0
        self.choices = 0
        self.steps = 0
        self.fps = set()
        self.outcomes = {}
        self.violations = []  # dicts
        self.mismatch = 0
        self.samples = []
        self.truncated = 0
        self.known = {}
        self.examples = {}
        self.nontrivial = 0
        self.histories = set()  # hashes of distinct observable histories of non-default runs

    def merge(self, o):
        self.runs += o.runs
        self.choices += o.choices
        self.steps += o.steps
        self.fps |= o.fps
        for k, v in o.outcomes.items():
            self.outcomes[k] = self.outcomes.get(k, 0) + v
        self.violations += o.violations
        self.mismatch += o.mismatch
        for k, v in o.examples.items():
            self.examples.setdefault(k, v)
        self.truncated += o.truncated
        self.nontrivial += o.nontrivial
        self.histories |= o.histories
        for k, v in o.known.items():
            self.known[k] = self.known.get(k, 0) + v
        if len(self.samples) < 6:
            self.samples += o.samples[: 6 - len(self.samples)]


def outcome_key(r):
    e = r.exc
    if r.outcome != "done":
        return r.outcome
    if e is None:
        return "value " + repr(r.value)[:60]
    return type(e).__name__


def explore(job, prefixes, oracle, deadline, stats, yield_at=None, max_viol=int(os.environ.get("MC_PER_JOB", "3"))):
    """Explore the subtrees below `prefixes`, depth first. Returns the prefixes left over when
    `yield_at` has passed."""
    scenario, policy, budgets = job
    pol = W.POLICIES[policy]
    st = stats
    gc.collect()
    gc.freeze()  # the collections after each run look only at what the run made
    stack = [p for p in reversed(prefixes)]
    first = True
    while stack:
        if not first and yield_at is not None and time.monotonic() > yield_at:
            return stack[::-1]
        first = False
        if time.monotonic() > deadline:
            st.truncated += len(stack)
            break
        pre = stack.pop()
        r = getattr(scenario, "run_one", W.run_one)(scenario, pol, pre, budgets, st.fps)
        st.runs += 1
        st.choices += len(r.trace)
        st.steps += r.steps
        if scenario.data:
            # the situation after each event, identified by the history that led to it
            h = hash(scenario.name)
            for e in r.events:
                h = hash((h, str(e)))
                st.fps.add(h)
            st.choices += len(r.events)
        if r.mismatch:
            st.mismatch += 1
            continue
        if any(t[2] for t in r.trace):
            st.nontrivial += 1
            st.histories.add(hash((scenario.name, r.outcome, repr(r.exc) if r.exc else _safe(r.value),
                                   tuple(str(e) for e in r.events if e[0] != "CHOICE"))))
        if KEY is not None:
            key = (scenario.name, KEY(scenario, r))
            if key not in st.examples:
                st.examples[key] = {"policy": policy, "budgets": budgets, "prefix": [(t[1], t[2]) for t in r.trace]}
        else:
            key = scenario.name + ": " + outcome_key(r)
        st.outcomes[key] = st.outcomes.get(key, 0) + 1
        if len(st.samples) < 2 and any(t[2] for t in r.trace):
            st.samples.append({
                "scenario": scenario.name, "policy": policy,
                "events": [" ".join(map(str, e)) for e in r.events][:60],
                "outcome": outcome_key(r),
            })
        bad = oracle(scenario, r)
        if bad and KNOWN is not None:
            rest = []
            for m in bad:
                k = KNOWN(scenario.name, m)
                if k is None:
                    rest.append(m)
                else:
                    st.known[k] = st.known.get(k, 0) + 1
            bad = rest
        if bad:
            st.violations.append({
                "scenario": scenario.name, "policy": policy, "budgets": budgets,
                "prefix": [(t[1], t[2]) for t in r.trace], "messages": bad,
                "events": [" ".join(map(str, e)) for e in r.events],
            })
            if len(st.violations) >= max_viol:
                st.truncated += len(stack)
                break
        stack.extend(reversed(children(r.trace, len(pre), budgets)))
    return []
