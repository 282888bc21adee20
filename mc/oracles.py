"""Oracles: each takes (scenario, run) and returns a list of messages (empty = property holds).

They look only at what a user or the operating system can observe: the outcome of the await,
processes, signals, descriptors, the loop's tasks/timers/error handler, audit reports, data.
"""

import asyncio
import signal

CANCEL = "CancelledError"


def done(r):
    return r.outcome == "done"


# -- C01 -----------------------------------------------------------------------
def no_process_left(s, r):
    if not done(r):
        return []
    return [f"process {n} is still {st} when the call returned" for n, st in r.live_at_return]


# -- C02 -----------------------------------------------------------------------
def fds_conserved(s, r):
    msgs = [f"{c}: {t}" for c, t in r.problems if c == "double-close"]
    if done(r):
        given = r.world.user.get("fds_closed_by_contract", {})
        b, a = dict(r.fds_before), dict(r.fds_after)
        b.update(r.world.user.get("fds_opened_by_user", {}))
        for fd in given:
            b.pop(fd, None)
        for fd in sorted(set(a) - set(b)):
            msgs.append(f"descriptor {fd} -> {kind(a[fd])} leaked")
        for fd in sorted(set(b) - set(a)):
            msgs.append(f"descriptor {fd} -> {kind(b[fd])} was closed although it belongs to the user")
        for fd in sorted(set(a) & set(b)):
            if a[fd] != b[fd]:
                msgs.append(f"descriptor {fd} now refers to another object")
    return msgs


def kind(link):
    return link.split(":")[0] if ":" in link else link


# -- C03 -----------------------------------------------------------------------
def loop_clean(s, r):
    if not done(r):
        return []
    msgs = [f"task {t} is still pending" for t in r.tasks_at_return if t in r.tasks_after]
    msgs += [f"timer {t[0]} is still scheduled" for t in r.timers_after]
    msgs += [f"descriptor {fd} is still registered with the loop" for fd in r.registered_after]
    msgs += [f"loop exception handler: {m}: {e}" for m, e in r.loop_errors]
    msgs += [f"warning: {x}" for x in r.warnings if not x.startswith("DeprecationWarning")]
    return msgs


# -- C04 -----------------------------------------------------------------------
def cancel_protocol(s, r):
    w = r.world
    msgs = [f"{c}: {t}" for c, t in r.problems if c in ("kill-reaped", "kill-foreign")]
    grace = getattr(s, "cancel_timeout", 3.0)
    first_sig = getattr(s, "cancel_signal", signal.SIGTERM)
    if not done(r):
        return msgs
    trouble = bool(w.cancels or w.faults or w.user.get("stopping")
                   or s.tags & {"hang", "launch", "timeout", "userraise", "procsub", "memberfail"})
    for a in w.actors:
        if not a.is_child:
            continue
        live = [(t, sig) for t, sig, st in a.signals if st == "run"]
        sigs = [(t, sig) for t, sig, st in a.signals]
        if sigs and not trouble:
            msgs.append(f"{a.name} was signalled {sigs} although nothing went wrong")
        if not sigs:
            continue
        if sigs[0][1] != first_sig:
            msgs.append(f"{a.name}: first signal is {sigs[0][1].name}, not {first_sig.name}")
        n_first = sum(1 for t, sig in sigs if sig == first_sig)
        if n_first > 1 and first_sig != signal.SIGKILL:
            msgs.append(f"{a.name}: {first_sig.name} sent {n_first} times")
        kills = [t for t, sig in live if sig == signal.SIGKILL]
        if first_sig != signal.SIGKILL:
            other = [sig for t, sig in sigs if sig not in (first_sig, signal.SIGKILL)]
            if other:
                msgs.append(f"{a.name}: unexpected signals {other}")
            if kills:
                early = kills[0] < sigs[0][0] + grace - 1e-6
                again = sum(1 for c in w.cancels if c - 1000.0 <= kills[0] + 1e-9)
                allowed = again >= (1 if "timeout-cancel" in s.tags or
                                    s.tags & {"timeout", "hang", "userraise", "launch", "pipe",
                                              "memberfail", "procsub"} else 2)
                if early and not allowed:
                    msgs.append(f"{a.name}: SIGKILL {kills[0] - sigs[0][0]:.3f}s after the cancel "
                                f"signal, before the cancel timeout of {grace}s")
                if len(kills) > 1:
                    msgs.append(f"{a.name}: SIGKILL sent {len(kills)} times")
    return msgs


# -- C05 -----------------------------------------------------------------------
def cancel_visible(s, r):
    if not done(r):
        return []
    w = r.world
    name = r.exc_name()
    if not w.cancels:
        if name == CANCEL:
            return ["CancelledError although nobody cancelled"]
        if name == "ResultError" and getattr(r.exc.result, "cancelled", False) \
                and not s.tags & {"hang", "timeout"}:
            return ["result is marked cancelled although nobody cancelled"]
        return []
    if w.faults and isinstance(r.exc, OSError):
        return []  # the injected failure itself
    if s.style == "resulterror":
        if name in (CANCEL, "TimeoutError"):
            return []
        if name == "ResultError" and r.exc.result.cancelled:
            return []
        return [f"cancelled, but the outcome is {outcome(r)}"]
    if name == CANCEL:
        run = w.user.get("run")
        if s.style == "ctx" and run is not None:
            try:
                shown = run.result(check=False).cancelled
            except AssertionError:
                return []  # never ran to its end
            if not shown:
                return ["cancelled, but the result is not marked as cancelled"]
        return []
    if name == "TimeoutError" and s.tags & {"hang", "timeout"}:
        return []
    if name in getattr(s, "own_errors", ()):
        return []
    return [f"cancelled, but the outcome is {outcome(r)}"]


def outcome(r):
    if r.exc is not None:
        return f"{type(r.exc).__name__}({str(r.exc)[:200]})"
    return f"value {r.value!r}"[:300]


# -- C11 -----------------------------------------------------------------------
def terminates(s, r):
    w = r.world
    if r.outcome in ("deadlock", "livelock"):
        if getattr(s, "cancel_only", False) and not w.cancels:
            return []
        return [f"{_data(r)}{r.outcome}: the call never completes"]
    if not done(r):
        return []
    if any(c and k == "env" and _is_clock(r, i) for i, (k, n, c, costs) in enumerate(r.trace)):
        return []
    limit = s.max_time
    if w.cancels or w.faults:
        limit = max(limit, getattr(s, "max_time_cancel", limit))
        limit += max([c - 1000.0 for c in w.cancels] + [0.0])
    if r.elapsed > limit + 1e-6:
        return [f"took {r.elapsed:.3f}s of virtual time, more than {limit}s"]
    return []


def _data(r):
    t = ",".join(f"{e[1]}={e[2][:60]}" for e in r.events if e[0] == "DATA")
    return t + ": " if t else ""


def _is_clock(r, i):
    for e in r.events:
        if e[0] == "CHOICE" and e[1] == i:
            return e[3] == "clock"
    return False


# -- C12 -----------------------------------------------------------------------
def audit_brackets(s, r):
    w = r.world
    if not s.use_audit:
        return []
    msgs = []
    runs = {}
    order = []
    for ev in w.audit:
        if ev[0] == "AUDIT":
            _, phase, rid, name, failure, sig, state, actor = ev
            if rid not in runs:
                runs[rid] = []
                order.append(rid)
            runs[rid].append(ev)
    for rid in order:
        evs = runs[rid]
        name = evs[0][3]
        phases = [e[1] for e in evs]
        if phases[0] != "start" or phases.count("start") != 1:
            msgs.append(f"{name}: audit phases {phases}")
            continue
        if not done(r):
            continue
        if phases[-1] != "stop" or phases.count("stop") != 1:
            msgs.append(f"{name}: audit phases {phases}")
            continue
        if set(phases[1:-1]) - {"signal"}:
            msgs.append(f"{name}: audit phases {phases}")
        stop = evs[-1]
        if stop[6] in ("run", "dying", "zombie"):
            msgs.append(f"{name}: 'stop' reported while the process is {stop[6]}")
        for e in evs:
            if e[1] == "signal" and not e[5]:
                msgs.append(f"{name}: 'signal' without a signal name")
            if e[1] != "signal" and e[5]:
                msgs.append(f"{name}: {e[1]!r} carries signal {e[5]!r}")
            if e[1] != "stop" and e[4]:
                msgs.append(f"{name}: {e[1]!r} carries failure {e[4]!r}")
        launched = stop[6] is not None
        if not launched and not stop[4]:
            msgs.append(f"{name}: launch failed but 'stop' has no failure")
        if launched and stop[4] and not w.cancels and not w.faults and stop[4] != CANCEL:
            msgs.append(f"{name}: process was launched but 'stop' reports failure {stop[4]!r}")
        if not launched and stop[4] and not w.cancels and not w.faults:
            want = getattr(s, "launch_failure", ("FileNotFoundError", "CancelledError"))
            if stop[4] not in want:
                msgs.append(f"{name}: 'stop' failure is {stop[4]!r}, expected one of {want}")
    # every delivered signal is preceded by its own report
    reports = {}
    for ev in w.audit:
        if ev[0] == "AUDIT" and ev[1] == "signal":
            reports.setdefault(ev[7], []).append(ev[5])
        elif ev[0] == "KILL":
            q = reports.setdefault(ev[1], [])
            if ev[2] in q:
                # reports for signals that found the process gone are dropped
                del q[: q.index(ev[2]) + 1]
            else:
                msgs.append(f"{ev[1]}: {ev[2]} sent without a preceding audit report")
    if done(r):
        n_exec = sum(1 for a in w.execs)
        n_runs = len(runs)
        if n_runs < n_exec:
            msgs.append(f"{n_exec} processes started but only {n_runs} audited")
    return msgs


# -- functional expectation ----------------------------------------------------
def expected(s, r):
    """The scenario's own functional expectation, for runs without cancellation or fault."""
    w = r.world
    msgs = []
    if r.outcome != "done":
        if w.cancels or w.faults or getattr(s, "cancel_only", False):
            return []
        return [f"{r.outcome}: the call never completes"]
    if w.cancels or w.faults:
        chk = getattr(s, "check_cancelled", None)
        return list(chk(w, r) or []) if chk else []
    if hasattr(s, "expect"):
        want = s.expect(w) if callable(s.expect) else s.expect
        if r.exc is not None or r.value != want:
            msgs.append(f"expected value {want!r:.200}, got {outcome(r)}")
    if hasattr(s, "raises"):
        names = s.raises if isinstance(s.raises, tuple) else (s.raises,)
        if r.exc_name() not in names:
            msgs.append(f"expected {'/'.join(names)}, got {outcome(r)}")
    if hasattr(s, "check"):
        msgs += list(s.check(w, r) or [])
    return msgs


def faults_reported(s, r):
    "An injected failure surfaces as the error itself."
    if not done(r) or not r.world.faults or r.world.cancels:
        return []
    if r.exc is None:
        return [f"{r.world.faults} failed but the call returned {outcome(r)}"]
    if not isinstance(r.exc, OSError) and r.exc_name() not in getattr(s, "own_errors", ()):
        return [f"{r.world.faults} failed but the call raised {outcome(r)}"]
    return []


def exit_truth(s, r):
    "Reported results carry the real exit status of the process."
    if not done(r):
        return []
    msgs = []
    for run in r.world.user.get("runners", {}).values():
        a = r.world.find(run.pid) if run.pid else None
        if a is None or a.status is None:
            continue
        real = -(a.status & 0x7F) if a.status & 0x7F else a.status >> 8
        if run.returncode != real:
            msgs.append(f"{a.name}: reported exit status {run.returncode}, real {real}")
    return msgs
