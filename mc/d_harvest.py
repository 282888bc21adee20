"""C16: vectors of awaitables with every combination of endings, through harvest and harvest_results."""

import asyncio

from shellous.harvest import harvest, harvest_results

from .data import dscn, pick


class Err(Exception):
    pass


class Bad(RuntimeError):
    pass


# (when it ends, how it ends); when: 0 = at once, "t" = after some loop turns, seconds otherwise
WHEN = [0, "t", 1.0, 2.0, 3.0]
HOW = ["ret", "err", "selfcancel"]
# what it does when cancelled: ends; ends after a delay; returns a value; raises; carries on for a long time
ONCANCEL = ["end", "late", "ret", "err", "refuse"]
LIMIT = 4.0  # cancel_timeout given


def awaitable(rec, i, when, how, oncancel):
    async def coro():
        me = rec[i] = {"start": True, "cancels": 0, "end": None, "at": None}
        loop = asyncio.get_running_loop()

        def end(x):
            me["end"] = x
            me["at"] = loop.time() - 1000.0
            me["n"] = rec["n"] = rec.get("n", 0) + 1

        try:
            if when == "t":
                for _ in range(3):
                    await asyncio.sleep(0)
            elif when:
                await asyncio.sleep(when)
        except asyncio.CancelledError:
            me["cancels"] += 1
            delay = {"late": 1.0, "refuse": 10.0}.get(oncancel, 0)
            until = loop.time() + delay
            while loop.time() < until:
                try:
                    await asyncio.sleep(until - loop.time())
                except asyncio.CancelledError:
                    me["cancels"] += 1
            if oncancel == "ret":
                end(("ret", -i))
                return -i
            if oncancel == "err":
                end(("err", f"cancelled{i}"))
                raise Err(f"cancelled{i}")
            end(("cancelled",))
            raise
        if how == "ret":
            end(("ret", i))
            return i
        if how == "err":
            end(("err", f"e{i}"))
            raise Err(f"e{i}")
        end(("cancelled",))
        raise asyncio.CancelledError()
    return coro()


SPEC3 = [(w, h, c) for w in WHEN for h in HOW for c in ONCANCEL]


def spec_choice(w, i, few):
    when = w.data_choice(f"when{i}", [0, "t", 1.0, 3.0] if not few else ["t", 1.0])
    how = w.data_choice(f"how{i}", HOW if not few else ["ret", "err"])
    onc = "end" if when == 0 else w.data_choice(f"oncancel{i}", ONCANCEL if not few else ["end", "late", "err"])
    return when, how, onc


async def body(w, n):
    b = w.budget_given
    few = n > 2 or (n > 1 and b.get("cancel", 0) > 0 and not b.get("wide"))
    form = w.data_choice("form", ["harvest", "results", "finish", "all"])
    timeout = w.data_choice("timeout", [None, 1.0, 2.0])
    specs = [spec_choice(w, i, few) for i in range(n)]
    rec = {}
    u = w.user
    u.update(form=form, timeout=timeout, specs=specs, rec=rec, n=n)

    async def call():
        coros = [awaitable(rec, i, *s) for i, s in enumerate(specs)]
        if form == "harvest":
            return await harvest(*coros, timeout=timeout, cancel_timeout=LIMIT)
        if form == "finish":
            return await harvest(*coros, timeout=timeout, cancel_timeout=LIMIT, cancel_finish=True)
        kw = {"return_when": asyncio.ALL_COMPLETED} if form == "all" else {}
        return await harvest_results(*coros, timeout=timeout, cancel_timeout=LIMIT, **kw)

    t = asyncio.ensure_future(call())
    w.cancel_target = t
    await asyncio.wait([t])
    u["pending"] = [i for i in range(n) if i in rec and rec[i]["end"] is None]
    u["not_started"] = [i for i in range(n) if i not in rec]
    u["at"] = w.now - 1000.0
    u["exc"] = None
    u["value"] = None
    if t.cancelled():
        u["exc"] = asyncio.CancelledError()
    elif t.exception():
        u["exc"] = t.exception()
    else:
        u["value"] = t.result()
    # let awaitables that refused to stop come to their end
    if u["pending"]:
        await asyncio.sleep(30)
    return repr(u["exc"] or u["value"])


def describe(u):
    return f"{u['form']} timeout={u['timeout']} {u['specs']}"


def harvest_oracle(s, r):
    if r.outcome != "done":
        return [f"{r.outcome}"]
    w = r.world
    u = w.user
    if "rec" not in u:
        return []  # cancelled before it began
    rec, specs, n, form, timeout = u["rec"], u["specs"], u["n"], u["form"], u["timeout"]
    exc, value = u["exc"], u["value"]
    msgs = []

    def bad(t):
        msgs.append(f"{describe(u)} cancels={len(w.cancels)}: {t}; outcome {exc!r} {value!r} "
                    f"{[rec.get(i) for i in range(n)]}")

    if r.exc is not None:
        bad(f"harness: {r.exc!r}")
        return msgs
    explicit = isinstance(exc, RuntimeError) and not isinstance(exc, Err)
    if explicit:
        # only allowed when something refused to stop for longer than the limit
        longest = max((1.0 if specs[i][2] == "late" else 10.0 if specs[i][2] == "refuse" else 0.0)
                      for i in range(n) if i in rec and rec[i]["cancels"]) if any(
                          rec.get(i, {}).get("cancels") for i in range(n)) else 0
        if form == "finish" and w.cancels:
            longest = max([longest] + [x[0] for x in specs if isinstance(x[0], float)])
        if longest <= LIMIT:
            bad("explicit error although nothing refuses to stop")
        if not u["pending"]:
            bad("explicit error although everything is done")
        return msgs
    if u["pending"]:
        bad(f"awaitables {u['pending']} are not done")
    ends = [rec.get(i, {}).get("end") for i in range(n)]
    for i in range(n):
        if i not in rec and not w.cancels and not exc:
            bad(f"awaitable {i} never ran")
    if w.cancels:
        if form in ("harvest", "finish"):
            if not isinstance(exc, asyncio.CancelledError):
                bad("cancelled, but CancelledError is not raised")
        elif exc is not None:
            if not isinstance(exc, (asyncio.CancelledError, asyncio.TimeoutError)):
                bad("cancelled, but another error is raised")
            elif isinstance(exc, asyncio.TimeoutError) and timeout is None:
                bad("TimeoutError without a timeout")
        else:
            if value[0] is not True:
                bad("cancelled, but the flag is not set")
            check_list(bad, value[1], ends, rec, n)
        if form == "finish" and isinstance(exc, asyncio.CancelledError) and timeout is None:
            failed = any(e and e[0] == "err" for e in ends)
            for i in range(n):
                if rec.get(i, {}).get("cancels") and not failed:
                    bad(f"awaitable {i} was cancelled although it was to finish")
        return msgs
    # not cancelled by anybody
    if isinstance(exc, asyncio.CancelledError):
        bad("CancelledError although nobody cancelled")
        return msgs
    natural = []  # (time, order) of endings by themselves
    for i in range(n):
        if not rec[i]["cancels"] and rec[i]["end"]:
            natural.append(i)
    stopped = [i for i in range(n) if rec[i]["cancels"]]
    fails = [i for i in natural if ends[i][0] == "err"]
    if isinstance(exc, asyncio.TimeoutError):
        if timeout is None:
            bad("TimeoutError without a timeout")
        elif not stopped:
            bad("TimeoutError although nothing was still running")
        elif fails and form != "all" and any(rec[i]["at"] < timeout for i in fails):
            bad("TimeoutError although an awaitable failed before")
        elif u["at"] < timeout - 1e-9:
            bad("TimeoutError before the timeout")
        return msgs
    if timeout is not None:
        slow = [i for i in range(n) if isinstance(specs[i][0], float) and specs[i][0] > timeout]
        first_fail = min([rec[i]["at"] for i in fails], default=None)
        if slow and (form == "all" or first_fail is None or first_fail > timeout):
            bad("no TimeoutError although an awaitable was still running at the deadline")
    if stopped and form != "all" and not fails:
        bad(f"awaitables {stopped} were cancelled although nothing failed")
    if stopped and form == "all":
        bad(f"awaitables {stopped} were cancelled although all were to complete")
    if fails and form != "all":
        t0 = min(rec[i]["at"] for i in fails)
        for i in range(n):
            if not rec[i]["cancels"] and isinstance(specs[i][0], float) and specs[i][0] > t0:
                bad(f"awaitable {i} was not cancelled when another failed")
        late = max([1.0 if specs[i][2] == "late" else 10.0 if specs[i][2] == "refuse" else 0.0 for i in stopped],
                   default=0.0)
        if u["at"] > t0 + late + 1e-6:
            bad(f"returned {u['at'] - t0}s after the failure")
    if form in ("harvest", "finish"):
        if fails:
            if not isinstance(exc, Err):
                bad("an awaitable failed, but the failure is not raised")
            else:
                first = min(rec[i]["n"] for i in fails)
                t0 = min(rec[i]["at"] for i in fails)
                ok = [f"e{i}" for i in fails if rec[i]["at"] <= t0]
                if str(exc) not in ok:
                    bad(f"raised {exc!r}, but the failure was {ok}")
        elif exc is not None:
            bad("raised although nothing failed")
        elif value is not None:
            bad("returned something")
    else:
        if exc is not None:
            bad("raised instead of collecting")
        elif value[0] is not False:
            bad("cancelled flag set although nobody cancelled")
        else:
            check_list(bad, value[1], ends, rec, n)
    return msgs


def check_list(bad, got, ends, rec, n):
    if len(got) != n:
        bad(f"{len(got)} results for {n} awaitables")
        return
    for i in range(n):
        e = ends[i]
        g = got[i]
        if e is None:
            if not isinstance(g, asyncio.CancelledError):
                bad(f"result {i} of an awaitable that never ran is {g!r}")
        elif e[0] == "ret" and g != e[1]:
            bad(f"result {i} is {g!r}, expected {e[1]!r}")
        elif e[0] == "err" and not (isinstance(g, Err) and str(g) == e[1]):
            bad(f"result {i} is {g!r}, expected error {e[1]}")
        elif e[0] == "cancelled" and not isinstance(g, asyncio.CancelledError):
            bad(f"result {i} is {g!r}, expected CancelledError")


for _n in (1, 2, 3):
    @dscn(f"harvest{_n}", "C16", max_time=100.0)
    async def _(w, sh, n=_n):
        return await body(w, n)
