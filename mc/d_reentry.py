"""C24: one command or pipeline object entered many times: nested, concurrently, from many tasks.

Every run of the program writes its own process id, so each result can be paired with the run that
the matching enter started.  A model (one stack per task and owner) says which run an exit finishes.
"""

import asyncio

import shellous
from shellous import ResultError

from . import world as W
from .catalog import A, B, D, MISSING, UserError, cat
from .data import cmp, dscn, pick

NAMES = ("T0", "T1", "T2")


def program(w):
    "Writes its process id; ends when released (its end: by pid, so that runs differ)."
    def prog(p):
        free = w.user.get("auto")
        yield ("write", 1, b"%d;" % p.pid)
        if not free:
            yield ("wait", lambda: p.pid in w.user["released"])
        return p.pid % 4
    return prog


def owners(w, sh, kind):
    opts = dict(exit_codes=range(4))
    if kind == "command":
        return [sh(A).set(**opts)] * 1
    if kind == "equal":
        return [sh(A).set(**opts), sh(A).set(**opts)]
    if kind == "pipeline":
        return [sh(A).set(**opts) | sh(D).set(**opts)]
    if kind == "mixed":
        c = sh(A).set(**opts)
        return [c, c | sh(D).set(**opts)]
    if kind == "missing":  # one of the owners can never be entered
        return [sh(A).set(**opts), sh(MISSING)]
    raise AssertionError(kind)


class Entry:
    "One successful enter."

    def __init__(self, w, owner, run, pids):
        self.owner = owner
        self.run = run
        self.pids = pids  # of every process this enter started
        self.pid = pids[0]


def is_pipe(owner):
    return isinstance(owner, shellous.Pipeline)


def alive(w, pid):
    return any(a.pid == pid and a.state == "run" for a in w.actors)


def started(w, since):
    return [a.pid for a in w.actors[since:]]


async def enter(w, owner):
    n = len(w.actors)
    run = await owner.__aenter__()
    mine = started(w, n)
    if len(mine) > 1:  # the member that writes the id comes first
        mine.sort(key=lambda pid: next(a.argv[0] != A for a in w.actors if a.pid == pid))
    return Entry(w, owner, run, mine)


async def leave(w, e, label, exc=None, others=()):
    "Exit the owner; the model says it must be `e` that ends."
    if exc is None:
        w.user["released"].add(e.pid)
    quiet = False
    try:
        quiet = await e.owner.__aexit__(type(exc) if exc else None, exc, exc.__traceback__ if exc else None)
    except UserError:
        pass
    cmp(w, f"{label}: exception suppressed", bool(quiet), False)
    cmp(w, f"{label}: still running after its exit", [p for p in e.pids if alive(w, p)], [])
    cmp(w, f"{label}: other runs ended", [p for o in others for p in o.pids if not alive(w, p)], [])
    res = e.run.result(check=False)
    if exc is None:
        cmp(w, f"{label}: output", res.output, f"{e.pid};")
        if not is_pipe(e.owner):
            cmp(w, f"{label}: exit code", res.exit_code, e.pid % 4)
            cmp(w, f"{label}: pid", e.run.pid, e.pid)


async def auto(w, owner, label, how, others=(), exclusive=True):
    "A run that ends by itself."
    n = len(w.actors)
    if how == "await":
        out = await owner
    elif how == "result":
        r = await owner.result
        out = r.output
        if not is_pipe(owner):
            cmp(w, f"{label}: code and output", r.exit_code, int(out[:-1]) % 4)
    elif how == "iter":
        out = "".join([x async for x in owner])
    elif how == "two":
        out, other = await asyncio.gather(owner.coro(), owner.coro())
        cmp(w, f"{label}: two runs", out != other or out, True)
    else:
        raise AssertionError(how)
    if exclusive:
        pids = [a.pid for a in w.actors[n:] if a.argv[0] == A]
        cmp(w, f"{label}: output", out in [f"{p};" for p in pids] or (out, pids), True)
        cmp(w, f"{label}: runs", len(pids), 2 if how == "two" else 1)
        cmp(w, f"{label}: other runs ended", [p for o in others for p in o.pids if not alive(w, p)], [])
    return out


@dscn("reentry", "C24", max_time=3.0)
async def _(w, sh):
    "Every sequence of enters, exits and whole runs by 1-3 tasks, one operation at a time."
    wide = w.budget_given.get("wide")
    kind = w.data_choice("objects", ["command", "equal", "pipeline", "mixed", "missing"])
    ntasks = w.data_choice("tasks", [1, 2, 3])
    late = w.data_choice("tasks made", ["before", "as needed", "by first"]) if ntasks > 1 else "before"
    narrow = w.budget_given.get("dev", 0) > 0 and not wide
    steps = {1: 5, 2: 4, 3: 3}[ntasks] - (1 if kind in ("equal", "mixed", "missing") else 0) + (1 if wide else 0)
    if narrow:
        steps = min(steps, 3)
    w.user["released"] = set()
    w.programs[A] = program(w)
    w.programs[D] = cat(64)
    objs = owners(w, sh, kind)
    stacks = [[] for _ in range(ntasks)]  # the model: entries of each task, oldest first
    queues = [asyncio.Queue() for _ in range(ntasks)]

    async def worker(q):
        while True:
            job = await q.get()
            if job is None:
                return
            coro, fut = job
            try:
                res = await coro
            except Exception as ex:
                fut.set_exception(ex)
            else:
                fut.set_result(res)

    tasks = [None] * ntasks

    async def make(i):
        return asyncio.create_task(worker(queues[i]))

    async def do(i, coro):
        if tasks[i] is None:
            if late == "by first" and i > 0:
                if tasks[0] is None:
                    tasks[0] = asyncio.create_task(worker(queues[0]))
                tasks[i] = await do(0, make(i))  # inherits the context of the first task
            else:
                tasks[i] = asyncio.create_task(worker(queues[i]))
        fut = asyncio.get_running_loop().create_future()
        queues[i].put_nowait((coro, fut))
        return await fut

    async def end(i):
        if tasks[i] is not None:
            queues[i].put_nowait(None)
            await tasks[i]
            tasks[i] = None

    if late == "before":
        for i in range(ntasks):
            tasks[i] = asyncio.create_task(worker(queues[i]))
    whole = ["await"] if ntasks > 1 or narrow else ["await", "iter", "two"]
    used = 0  # tasks are alike: they come into use in order
    for n in range(steps):
        ops = []
        for i in range(min(used + 1, ntasks)):
            for k, o in enumerate(objs):
                ops.append((i, "enter", k))
                if any(e.owner is o for e in stacks[i]):
                    ops.append((i, "exit", k))
                    ops.append((i, "raise", k))
            if (kind in ("command", "pipeline") or i == 0) and kind != "missing":
                ops += [(i, h, 0) for h in whole]
            if late != "before" and tasks[i] is not None and not stacks[i]:
                ops.append((i, "end", 0))
        i, op, k = w.data_choice("op", ops)
        used = max(used, i + 1)
        o = objs[k]
        label = f"{n}:T{i} {op}{k}"
        rest = [e for s in stacks for e in s]
        if op == "enter":
            if kind == "missing" and k == 1:
                try:
                    await do(i, enter(w, o))
                    cmp(w, label, "entered", "FileNotFoundError")
                except FileNotFoundError:
                    cmp(w, label, [p for x in rest for p in x.pids if not alive(w, p)], [])
            else:
                e = await do(i, enter(w, o))
                cmp(w, f"{label}: processes", len(e.pids), 2 if is_pipe(o) else 1)
                stacks[i].append(e)
        elif op in ("exit", "raise"):
            e = [e for e in stacks[i] if e.owner is o][-1]
            stacks[i].remove(e)
            rest.remove(e)
            await do(i, leave(w, e, label, UserError("x") if op == "raise" else None, rest))
        elif op == "end":
            await end(i)
        else:
            w.user["auto"] = True
            await do(i, auto(w, o, label, op, rest))
            w.user["auto"] = False
    for i in range(ntasks):
        while stacks[i]:
            e = stacks[i].pop()
            rest = [x for s in stacks for x in s]
            await do(i, leave(w, e, f"end:T{i}", None, rest))
        await end(i)
    cmp(w, "processes left", [a.pid for a in w.actors if a.state == "run"], [])


SCRIPTS = ["EX", "EEXX", "EXEX", "ER", "EERX", "A", "I", "EAX", "ESX"]


@dscn("reentry-race", "C24", max_time=3.0)
async def _(w, sh):
    "Two or three tasks run their scripts on one object at the same time."
    kind = w.data_choice("objects", ["command", "pipeline"])
    narrow = w.budget_given.get("dev", 0) + w.budget_given.get("cancel", 0) > 0 and not w.budget_given.get("wide")
    few = ["EX", "EEXX", "ER", "A", "ESX"]
    scripts = few if narrow else SCRIPTS
    one = w.data_choice("first", scripts)
    two = w.data_choice("second", scripts[scripts.index(one):])
    three = w.data_choice("third", [None] if narrow else [None, "EX", "A"])
    picked = [s for s in (one, two, three) if s]
    w.user["released"] = set()
    w.user["auto"] = True
    w.programs[A] = program(w)
    w.programs[D] = cat(64)
    owner = owners(w, sh, kind)[0]
    seen = []

    async def script(name, text):
        stack = []
        cancelled = None
        for n, op in enumerate(text):
            label = f"{name}.{n}{op}"
            try:
                if op == "E":
                    run = await owner.__aenter__()
                    stack.append(run)
                elif op in "XR":
                    if not stack:
                        continue  # its enter was cancelled
                    run = stack.pop()
                    await close(run, label, UserError("x") if op == "R" else None, stack)
                elif op == "S":
                    await asyncio.create_task(script(name + "s", "EX"))
                else:
                    out = await auto(w, owner, label, {"A": "await", "I": "iter"}[op], exclusive=False)
                    seen.append(out)
            except asyncio.CancelledError:
                cancelled = label
        while stack:
            await close(stack.pop(), f"{name}.end", None, stack)
        if cancelled:
            w.user["cancelled at"] = cancelled

    async def close(run, label, exc, stack):
        try:
            await owner.__aexit__(type(exc) if exc else None, exc, None)
        except UserError:
            pass
        res = run.result(check=False)
        # a run is over when it has a result; the enclosing ones were not exited
        if exc is None and not res.cancelled:
            seen.append(res.output)
            if not is_pipe(owner):
                cmp(w, f"{label}: output is of this run", res.output, f"{run.pid};")
                cmp(w, f"{label}: exit code is of this run", res.exit_code, run.pid % 4)

    tasks = [asyncio.create_task(script(NAMES[i], s)) for i, s in enumerate(picked)]
    w.cancel_target = tasks[0]
    w.cancel_ok = True
    for res in await asyncio.gather(*tasks, return_exceptions=True):
        if isinstance(res, Exception) and not isinstance(res, asyncio.CancelledError):
            raise res
    outs = [s for s in seen if s]
    cmp(w, "every output belongs to one run", len(set(outs)), len(outs))
    firsts = {f"{a.pid};" for a in w.actors if a.argv[0] == A}
    cmp(w, "outputs not of a run", [o for o in outs if o not in firsts], [])
    want = sum(s.count("E") + s.count("A") + s.count("I") + s.count("S") for s in picked)
    if not w.cancels:
        cmp(w, "runs", len(firsts), want)
        full = want - sum(s.count("R") for s in picked)
        cmp(w, "outputs", len(outs), full)
    cmp(w, "processes left", [a.pid for a in w.actors if a.state == "run"], [])


def reentry_cancel(s, r):
    "What was compared holds for executions with cancellations as well."
    w = r.world
    if r.outcome != "done" or not w.cancels:
        return []
    if r.exc is not None and not isinstance(r.exc, asyncio.CancelledError):
        return [f"unexpected {type(r.exc).__name__}: {r.exc}"]
    return [f"{what} is {got!r}, expected {want!r}" for what, got, want, _ in w.user.get("cmp", ()) if got != want]
