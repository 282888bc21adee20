"""Which scenarios, bounds and oracles decide each property."""

import os
import re
import time

from . import world as W
from . import catalog as K
from . import explore as X
from . import oracles as O
from . import pool

from .props_base import COMMON, Result
from .value import Both, Value


class Phase:
    def __init__(self, scenarios, budgets, policies=("lazy", "eager-rev"), share=None):
        self.scenarios = scenarios
        self.budgets = budgets
        self.policies = policies
        self.share = share  # seconds, at most


class Sched:
    "A property decided by exploring schedules of scenarios."
    level = "model_checking"
    technique = ("stateless model checking of the real code: deviation-bounded exhaustive enumeration of "
                 "schedules, cancellation points and faults under a controlled event loop")

    def __init__(self, pid, oracles, quick, thorough, cap=(150, 780), assumptions=()):
        self.pid = pid
        self.oracles = oracles
        self.quick = quick
        self.thorough = thorough
        self.cap = cap
        self.assumptions = COMMON + list(assumptions)

    def oracle(self, s, r):
        out = []
        for o in self.oracles:
            out += o(s, r)
        return out

    def run(self, tier, known):
        res = Result()
        quick = tier != "thorough"
        phases = (self.quick if quick else self.thorough)()
        deadline = time.monotonic() + (self.cap[0] if quick else self.cap[1])

        def is_known(scn, msg):
            for k in known:
                if k[1] == scn and re.search(k[2], msg):
                    return k
            return None

        X.KNOWN = is_known
        total = X.Stats()
        rows = []
        names = set()
        for k, ph in enumerate(phases):
            scs = [s for s in ph.scenarios]
            if not scs:
                continue
            left = deadline - time.monotonic()
            if left <= 1:
                rows.append({"budgets": ph.budgets, "skipped": len(scs)})
                total.truncated += 1
                continue
            jobs = [(s, p, ph.budgets) for s in scs for p in ph.policies]
            share = ph.share or left
            if not quick:  # leave something for the later phases
                share = min(share, 1.7 * left / (len(phases) - k))
            st, errs = pool.run_jobs(jobs, self.oracle, min(left, share))
            names.update(s.name for s in scs)
            rows.append({"budgets": ph.budgets, "policies": list(ph.policies),
                         "scenarios": len(scs), "schedules": st.runs,
                         "unexplored_subtrees": st.truncated})
            res.errors += errs
            if st.mismatch:
                rows[-1]["replay_mismatches"] = st.mismatch
            total.merge(st)
            if len(total.violations) >= 6:
                break
        unconfirmed = 0
        res_unconf = []
        for v in total.violations:
            ok = False
            for _ in range(2):
                msgs, _ev = self.replay(v)
                if msgs:
                    ok = True
                    break
            if ok:
                res.violations.append(v)
            else:
                unconfirmed += 1
                res_unconf.append([v["scenario"], v["policy"]] + v["messages"][:2])
        res.known = total.known
        res.coverage = {
            "states": len(total.fps),
            "transitions": total.choices,
            "traces_validated_against_impl": total.runs,
            "samples": total.samples[:4],
            "distinct_histories": len(total.histories),
            "scenarios": sorted(names),
            "phases": rows,
            "outcomes": dict(sorted(total.outcomes.items())[:150]),
            "exhaustive": total.truncated == 0 and not total.violations,
            "note": "states = distinct (process, ready-queue, timer, fault) situations at scheduling points; "
                    "transitions = scheduling decisions taken; every trace is an execution of the real code",
        }
        if not quick and self.pid == "C02":
            from . import conform
            n, sc, diff, runs, errs = conform.conform()
            res.coverage["environment_conformance"] = {
                "real_runs": n, "scenarios": len(sc), "simulated_runs": runs,
                "real_outcomes_never_simulated": [list(d) for d in diff], "errors": errs[:2],
            }
        if unconfirmed:
            res.coverage["unconfirmed"] = unconfirmed
            res.coverage["unconfirmed_samples"] = res_unconf[:5]
        if total.mismatch > total.runs // 50 + 5:
            res.errors.append(f"{total.mismatch} replay mismatches in {total.runs} runs")
        return res

    def replay(self, v):
        s = K.SC[v["scenario"]]
        r = getattr(s, "run_one", W.run_one)(s, W.POLICIES[v["policy"]], [tuple(x) for x in v["prefix"]], v["budgets"])
        msgs = self.oracle(s, r)
        if X.KNOWN is not None:
            msgs = [m for m in msgs if X.KNOWN(s.name, m) is None]
        return msgs, [" ".join(map(str, e)) for e in r.events]


def scs(*tags, exclude=(), names=(), but=()):
    out = K.by_tags(*tags, exclude=exclude)
    if names:
        out = [s for s in out if any(re.fullmatch(n, s.name) for n in names)]
    return [s for s in out if s.name not in but]


def broad(*tags, exclude=(), extra_quick=(), extra_thorough=()):
    """Standard exploration of every scenario with one of the tags."""
    def quick():
        base = scs(*tags, exclude=exclude)
        small = [s for s in base if s.name in SMALL]
        return [
            Phase(base, {"cancel": 1}),
            Phase(base, {"fault": 1, "cancel": 1}),
            Phase(base, {"dev": 1, "fault": 1}),
            Phase(base, {"dev": 1}, ("lazy-rev", "eager")),
            Phase(small, {"dev": 1, "cancel": 1}),
        ] + [Phase(*a) for a in extra_quick]

    def thorough():
        base = scs(*tags, exclude=exclude)
        return [
            Phase(base, {"fault": 1, "cancel": 1}, tuple(W.POLICIES)),
            Phase(base, {"dev": 1, "fault": 1}, tuple(W.POLICIES)),
            Phase(base, {"dev": 1, "cancel": 1}, tuple(W.POLICIES)),
            Phase(base, {"cancel": 2}),
            Phase(base, {"dev": 2}, tuple(W.POLICIES)),
            Phase(base, {"dev": 2, "cancel": 1}, share=900),
            Phase(base, {"dev": 1, "cancel": 2}, share=900),
            Phase(base, {"dev": 3}, share=900),
        ] + [Phase(*a) for a in extra_thorough]
    return quick, thorough


# scenarios that get the deeper quick exploration
SMALL = {"cmd-out", "cmd-input", "cmd-ignore-term", "cmd-slow-term", "ctx-raise-ignore", "iter-all",
         "pipe2-missing0", "pipe2-missing1-ctx", "sub-child-missing", "pty-out", "pipe-badredirect"}

PROPS = {}


def sched(pid, oracles, tags, exclude=(), **kw):
    q, t = broad(*tags, exclude=exclude)
    PROPS[pid] = Sched(pid, oracles, q, t, **kw)


sched("C01", [O.no_process_left], ())
sched("C02", [O.fds_conserved], ())
sched("C03", [O.loop_clean], ())
sched("C04", [O.cancel_protocol], ())
sched("C05", [O.cancel_visible], ())
sched("C10", [O.exit_truth], ("cmd", "ctx", "pipe"))
sched("C11", [O.terminates], ())
sched("C12", [O.audit_brackets], ())
sched("C14", [O.expected, O.faults_reported, O.terminates, O.cancel_visible], ("launch", "memberfail"))

from . import v_builder  # noqa: E402

PROPS["C20"] = Value(
    "C20", v_builder,
    "every sequence of builder operations up to the depth (2 over all operations, 4 over one representative per "
    "group; thorough 3 and 5) from a context, a command and a pipeline, compared with a reference model after each "
    "step; all groupings of 3-4 pipeline parts; all orders of commuting settings. Non-trivial: at least two operations.")

from . import v_args, v_env  # noqa: E402

PROPS["C21"] = Value(
    "C21", v_args,
    "every argument tree up to depth 2 / width 2 over the leaf catalogue (depth 3 over a smaller one) and every pair of top-level arguments, "
    "with and without four coercion functions, via context call, command call and both, against a reference model; "
    "plus the vector and program path observed at exec for every leaf and every placement of the program on the "
    "search path. Non-trivial: everything except single rejected leaves.")
PROPS["C22"] = Value(
    "C22", v_env,
    "every sequence of up to 3 (thorough 4) environment operations with the context-to-command step at every position, "
    "run to exec and compared with a dictionary model. Non-trivial: at least two operations.")

from . import v_redirect  # noqa: E402

PROPS["C23"] = Value(
    "C23", v_redirect,
    "the full product of 19 stdin, 24 stdout and 27 stderr settings in the await and async-with forms (quick: at most "
    "one invalid setting at a time), with pre-filled destinations and a child writing tagged bytes to both outputs; "
    "every destination, the child's input, the result and the descriptor table are compared with the model. "
    "Non-trivial: all.")

from . import v_exit  # noqa: E402

PROPS["C10"] = Both("C10", PROPS["C10"], Value(
    "C10", v_exit,
    "all exit codes 0..255 and fatal signals x 10 allowed-set options x 6 result modes; 8 statuses x 10 allowed sets x "
    "{cancel, timeout, exception} x 3 modes for a child that traps the signal. Non-trivial: all."))

from . import data as DT  # noqa: E402


def data_prop(pid, quick, thorough, oracles=(), **kw):
    """quick/thorough: lists of (scenario names regex, budgets, policies)"""
    def mk(spec):
        def f():
            return [Phase(scs(pid, names=[n]), b, p) for n, b, p in spec]
        return f
    PROPS[pid] = Sched(pid, [DT.data_exact, O.terminates, *oracles], mk(quick), mk(thorough), **kw)


LE = ("lazy", "eager")
ALLP = tuple(W.POLICIES)
data_prop("C07",
          [(".*", {}, LE), ("out-sinks|out-stopped", {"dev": 1}, ("lazy",))],
          [(".*", {}, ALLP), ("out-sinks|out-stopped", {"dev": 2}, LE),
           ("out-sinks|err-sinks|out-stopped", {"dev": 1, "wide": 1}, ("lazy", "eager-rev"))])
data_prop("C08",
          [("in-.*", {}, LE), ("in-chunks", {"dev": 1}, LE), ("in-early", {"dev": 1}, ("lazy",))],
          [("in-.*", {}, ALLP), ("in-chunks|in-early", {"dev": 1, "wide": 1}, ALLP), ("in-chunks|in-early", {"dev": 2}, LE)])
data_prop("C09",
          [("err-limit.*", {}, LE), ("err-limit", {"dev": 1}, LE)],
          [("err-limit.*", {}, ALLP), ("err-limit", {"dev": 1, "wide": 1}, ALLP), ("err-limit", {"dev": 2}, ALLP)])
data_prop("C13",
          [("pipe-.*", {}, LE), ("pipe-.*", {"dev": 1}, ("lazy", "eager-rev"))],
          [("pipe-.*", {}, ALLP), ("pipe-.*", {"dev": 2}, ALLP), ("pipe-.*", {"dev": 1, "wide": 1}, ALLP)])
data_prop("C28",
          [("iter-.*", {}, ALLP), ("iter-lines|iter-abandon|iter-error", {"dev": 1}, ("lazy",))],
          [("iter-.*", {}, ALLP), ("iter-lines|iter-abandon|iter-error|iter-redirect", {"dev": 1, "wide": 1}, ALLP), ("iter-abandon", {"dev": 2}, LE)])

from . import d_flow  # noqa: E402,F401

data_prop("C34", [("flow", {}, ALLP), ("flow", {"dev": 1}, ("lazy",))],
          [("flow", {}, ALLP), ("flow", {"dev": 1}, LE), ("flow", {"dev": 1, "wide": 1}, LE)], cap=(75, 780))
from . import d_forget  # noqa: E402,F401

data_prop("C35", [("forget", {}, ("lazy",)), ("forget", {"dev": 1}, ("lazy",))],
          [("forget", {}, ALLP), ("forget", {"dev": 1}, LE), ("forget", {"cancel": 1}, LE)], cap=(90, 780))
from . import d_harvest as DH  # noqa: E402


def phases(pid, spec):
    return lambda: [Phase(scs(pid, names=[n]), b, p) for n, b, p in spec]


PROPS["C16"] = Sched("C16", [DH.harvest_oracle, O.loop_clean],
                     phases("C16", [("harvest[12]", {}, ("lazy",)), ("harvest3", {}, ("lazy",)),
                                    ("harvest[12]", {"cancel": 1}, ("lazy",)), ("harvest1", {"cancel": 2}, ("lazy",))]),
                     phases("C16", [("harvest.*", {}, LE), ("harvest.*", {"cancel": 1, "wide": 1}, LE),
                                    ("harvest[12]", {"cancel": 2}, ("lazy",)), ("harvest1", {"cancel": 3}, ("lazy",))]))

from . import d_prompt  # noqa: E402,F401

data_prop("C17",
          [("talk-(split|chat|big|undecodable)", {}, ("lazy",)), ("talk-(split|chat|undecodable)", {"dev": 1}, ("lazy",))],
          [("talk-(split|chat|big|undecodable)", {"wide": 1}, ALLP), ("talk-(split|chat)", {"dev": 1, "wide": 1}, LE),
           ("talk-split", {"dev": 2}, ("lazy",))])

PROPS["C18"] = Sched("C18", [DT.data_exact, d_prompt.check_cancel, O.loop_clean, O.fds_conserved, O.no_process_left, O.terminates],
                     phases("C18", [("talk-(timeout|full|broken)", {}, LE), ("talk-cancel", {"cancel": 1}, LE),
                                    ("talk-(timeout|broken)", {"dev": 1}, ("lazy",))]),
                     phases("C18", [("talk-(timeout|full|broken)", {}, ALLP), ("talk-cancel", {"cancel": 2}, LE),
                                    ("talk-cancel", {"cancel": 1, "dev": 1}, LE),
                                    ("talk-(timeout|full|broken)", {"dev": 1, "wide": 1}, LE)]))

from . import d_noecho  # noqa: E402,F401

PROPS["C19"] = Sched("C19", [DT.data_exact, O.loop_clean, O.fds_conserved, O.no_process_left, O.terminates],
                     phases("C19", [("noecho.*", {}, LE), ("noecho", {"cancel": 1}, ("lazy",)), ("noecho.*", {"dev": 1}, ("lazy",))]),
                     phases("C19", [("noecho.*", {"wide": 1}, ALLP), ("noecho", {"cancel": 1, "wide": 1}, LE),
                                    ("noecho.*", {"dev": 1, "wide": 1}, LE), ("noecho", {"cancel": 1, "dev": 1}, ("lazy",)),
                                    ("noecho", {"dev": 2}, ("lazy",))]))

from . import d_timeout  # noqa: E402,F401

PROPS["C06"] = Sched("C06", [DT.data_exact, O.loop_clean, O.fds_conserved, O.no_process_left, O.terminates],
                     phases("C06", [("timeout-.*", {}, LE), ("timeout-.*", {"dev": 1}, ("lazy",)),
                                    ("timeout-(run|nested|pipe)", {"cancel": 1}, ("lazy",))]),
                     phases("C06", [("timeout-.*", {"wide": 1}, ALLP), ("timeout-.*", {"dev": 1, "wide": 1}, LE),
                                    ("timeout-.*", {"cancel": 1, "wide": 1}, LE), ("timeout-.*", {"dev": 2}, ("lazy",)),
                                    ("timeout-(stop|nested|pipe)", {"cancel": 1, "dev": 1}, ("lazy",))]))

from . import d_stop  # noqa: E402,F401


def extend(pid, quick, thorough, oracles=()):
    "Adds phases over data scenarios of its own to a schedule property (put first)."
    p = PROPS[pid]
    p = p.parts[0] if isinstance(p, Both) else p
    if not hasattr(p, "data_oracles"):
        plain = list(p.oracles)
        p.data_oracles = [DT.data_exact_for(pid)]
        p.oracles = [lambda s, r: [m for o in (p.data_oracles if s.data else plain) for m in o(s, r)]]
    p.data_oracles += [o for o in oracles if o not in p.data_oracles]
    q, t = p.quick, p.thorough
    p.quick = lambda: phases(pid, quick)() + q()
    p.thorough = lambda: phases(pid, thorough)() + t()


from . import d_drop  # noqa: E402,F401

extend("C28", [("drop", {}, ALLP), ("drop", {"dev": 1}, ("lazy",))],
       [("drop", {}, ALLP), ("drop", {"dev": 1, "wide": 1}, LE), ("drop", {"dev": 2}, ("lazy",))],
       [O.fds_conserved, O.loop_clean])
extend("C04", [("stop-.*", {}, LE), ("stop-.*", {"dev": 1}, ("lazy",))],
       [("stop-.*", {"wide": 1}, ALLP), ("stop-.*", {"dev": 1, "wide": 1}, LE), ("stop-.*", {"dev": 2}, ("lazy",))],
       [O.no_process_left, O.terminates])
# the same scenarios compare the audit reports and the exit status as well
extend("C12", [("stop-.*", {}, LE), ("stop-user", {"dev": 1}, ("lazy",))],
       [("stop-.*", {"wide": 1}, ALLP), ("stop-.*", {"dev": 1, "wide": 1}, LE)])
extend("C10", [("stop-user", {}, ("lazy",))], [("stop-user", {"wide": 1}, ALLP), ("stop-user", {"dev": 1, "wide": 1}, LE)])

from . import d_launch  # noqa: E402,F401

extend("C14", [("launch-.*", {}, LE), ("launch-.*", {"dev": 1}, ("lazy",)), ("launch-.*", {"cancel": 1}, ("lazy",))],
       [("launch-.*", {"wide": 1}, ALLP), ("launch-.*", {"cancel": 1, "wide": 1}, LE), ("launch-.*", {"dev": 1, "wide": 1}, LE),
        ("launch-.*", {"dev": 2}, ("lazy",)), ("launch-.*", {"dev": 1, "cancel": 1}, ("lazy",))],
       [O.cancel_visible, O.no_process_left, O.terminates])

from . import d_fill  # noqa: E402,F401

extend("C11", [("fill-.*", {}, LE), ("fill-.*", {"dev": 1}, ("lazy",))],
       [("fill-.*", {"wide": 1}, ALLP), ("fill-.*", {"dev": 1, "wide": 1}, ("lazy",)), ("fill-.*", {"dev": 2}, LE),
        ("fill-.*", {"cancel": 1}, LE)], [O.terminates])

from . import d_fds  # noqa: E402,F401

extend("C02", [("fds-.*", {}, LE), ("fds-.*", {"cancel": 1}, ("lazy",)), ("fds-.*", {"fault": 1}, ("lazy",))],
       [("fds-.*", {"wide": 1}, ALLP), ("fds-.*", {"cancel": 1, "wide": 1}, LE), ("fds-.*", {"fault": 1, "wide": 1}, LE),
        ("fds-.*", {"dev": 1, "fault": 1, "wide": 1}, ("lazy",)), ("fds-.*", {"dev": 1, "cancel": 1}, ("lazy",))],
       [O.fds_conserved])

from . import d_callback  # noqa: E402,F401

# user code that raises inside a run
for _pid, _or in (("C01", [O.no_process_left]), ("C02", [O.fds_conserved]), ("C03", [O.loop_clean]), ("C04", []),
                  ("C11", [O.terminates])):
    extend(_pid, [("user-.*", {}, ("lazy",)), ("user-.*", {"dev": 1}, ("lazy",))],
           [("user-.*", {"wide": 1}, ALLP), ("user-.*", {"dev": 1, "wide": 1}, LE), ("user-.*", {"cancel": 1}, LE)], _or)

from . import d_handle  # noqa: E402

sched("C29", [d_handle.handles_true, d_handle.handle_end], ())
extend("C29", [("handle-.*", {}, ("lazy",)), ("handle-(streams|prompt)", {"dev": 1}, ("lazy",))],
       [("handle-.*", {}, ALLP), ("handle-(streams|prompt)", {"dev": 1}, ALLP), ("handle-task", {"dev": 1}, LE)],
       [d_handle.handles_true, O.terminates])

from . import d_around  # noqa: E402


class Around(Sched):
    "Looks at the calling process before and after each run."

    def run(self, tier, known):
        W.SURROUNDINGS = True
        return super().run(tier, known)

    def replay(self, v):
        W.SURROUNDINGS = True
        return super().replay(v)


sched("C31", [d_around.surroundings_same], ())
PROPS["C31"].__class__ = Around
extend("C31", [("around", {}, LE), ("around", {"dev": 1}, ("lazy",)), ("around", {"cancel": 1}, ("lazy",)), ("around", {"fault": 1}, ("lazy",))],
       [("around", {"wide": 1}, ALLP), ("around", {"dev": 1, "wide": 1}, LE), ("around", {"cancel": 1, "wide": 1}, ALLP),
        ("around", {"fault": 1, "wide": 1}, ALLP)],
       [d_around.surroundings_same])

from . import v_path  # noqa: E402

PROPS["C33"] = Value(
    "C33", v_path,
    "every content of three directories (nothing, a program, a file that is not executable, a directory of that name) x 19 search "
    "paths (of the command, of the calling process, empty, unset, relative, with empty and missing entries) x 9 ways to name the program x "
    "7 ways to use the command x 3 ways to set the path. Non-trivial: the path is the command's or the name is not a plain string.")

from . import d_rerun  # noqa: E402,F401

data_prop("C32", [("rerun", {}, ("lazy",)), ("rerun", {"dev": 1}, ("lazy",))],
          [("rerun", {"wide": 1}, ALLP), ("rerun", {"dev": 1, "wide": 1}, LE), ("rerun", {"dev": 2}, ("lazy",))],
          [O.fds_conserved, O.no_process_left, O.loop_clean])

from . import d_inherit  # noqa: E402,F401

data_prop("C30", [("inherit", {}, LE), ("inherit", {"dev": 1}, ("lazy",))],
          [("inherit", {"wide": 1}, ALLP), ("inherit", {"dev": 1, "wide": 1}, ALLP), ("inherit", {"dev": 2}, ("lazy",))],
          [O.fds_conserved, O.no_process_left])

from . import d_subst  # noqa: E402,F401

PROPS["C15"] = Sched("C15", [DT.data_exact, O.loop_clean, O.fds_conserved, O.no_process_left, O.terminates],
                     phases("C15", [("subst.*", {}, LE), ("subst.*", {"dev": 1}, ("lazy",)), ("subst.*", {"cancel": 1}, ("lazy",))]),
                     phases("C15", [("subst.*", {"wide": 1}, ALLP), ("subst.*", {"cancel": 1, "wide": 1}, LE),
                                    ("subst.*", {"dev": 1, "wide": 1}, LE), ("subst.*", {"dev": 2}, ("lazy",)),
                                    ("subst.*", {"cancel": 1, "dev": 1}, ("lazy",))]))

from . import d_reentry  # noqa: E402

PROPS["C24"] = Sched("C24", [DT.data_exact, d_reentry.reentry_cancel, O.loop_clean, O.fds_conserved, O.no_process_left, O.terminates],
                     phases("C24", [("reentry.*", {}, ("lazy",)), ("reentry-race", {}, LE), ("reentry-race", {"dev": 1}, ("lazy",)),
                                    ("reentry-race", {"cancel": 1}, ("lazy",))]),
                     phases("C24", [("reentry.*", {"wide": 1}, LE), ("reentry-race", {"dev": 1, "wide": 1}, LE),
                                    ("reentry-race", {"cancel": 1, "wide": 1}, LE), ("reentry", {"dev": 1}, ("lazy",)),
                                    ("reentry-race", {"dev": 2}, ("lazy",))]))

from . import d_pty  # noqa: E402

PROPS["C25"] = Sched("C25", [d_pty.exact, O.loop_clean, O.fds_conserved, O.no_process_left, O.terminates],
                     phases("C25", [("term-.*", {}, LE), ("term-.*", {"dev": 1}, ("lazy",)), ("term-.*", {"cancel": 1}, ("lazy",)),
                                    ("term-.*", {"fault": 1}, ("lazy",))]),
                     phases("C25", [("term-.*", {"wide": 1}, ALLP), ("term-.*", {"cancel": 1, "wide": 1}, LE),
                                    ("term-.*", {"dev": 1, "wide": 1}, LE), ("term-.*", {"fault": 1, "wide": 1}, LE),
                                    ("term-.*", {"dev": 2}, ("lazy",)), ("term-.*", {"cancel": 1, "dev": 1}, ("lazy",))]))

from . import t_watch  # noqa: E402

PROPS["C26"] = Sched("C26", [t_watch.exact],
                     phases("C26", [("watch-.*", {"fault": 1}, ALLP), ("watch-.*", {"dev": 1, "fault": 1}, LE),
                                    ("watch-(two-epoll|two-thread|reopen-epoll|loop-gone-epoll|fault-slow)", {"dev": 2}, ("lazy",))]),
                     phases("C26", [("watch-.*", {"fault": 2, "dev": 1}, ALLP), ("watch-.*", {"dev": 2}, ALLP),
                                    ("watch-.*fault.*", {"dev": 2, "fault": 1}, ALLP),
                                    ("watch-(two|close|reopen|fault-slow|loop-gone).*", {"dev": 3}, ("lazy",))]))

from .trace_cmp import TraceCmp  # noqa: E402

PROPS["C27"] = TraceCmp("C27")
