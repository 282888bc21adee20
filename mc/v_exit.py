"""C10: every exit status x allowed-set x result mode x way of ending."""

import asyncio
import signal

from . import catalog as K
from . import world as W
from .v_args import _S
from shellous import Result, ResultError, sh

CODES = list(range(256))
SIGS = [s for s in range(1, 32) if s not in (17, 18, 19, 20, 21, 22, 23, 28)] + [34, 50, 64]
ALLOWED = {
    "default": None, "none": None, "{0}": {0}, "{0,3}": {0, 3}, "{3}": {3}, "{-9,-15,7}": {-9, -15, 7},
    "range(256)": range(256), "list": [1, 2, 255], "frozen": frozenset({0, 127}), "all": range(-255, 256),
}
FORMS = ("await", "result", "with", "with-nocheck", "with-result", "coro")


def cases(tier):
    for st in CODES + [-s for s in SIGS]:
        for al in ALLOWED:
            for form in FORMS:
                yield ("exit", st, al, form)
    for st in (0, 1, 3, 7, 255, -9, -15, -2):
        for al in ALLOWED:
            for how in ("cancel", "timeout", "raise"):
                for form in ("await", "result", "with", "await-catch", "result-catch"):
                    yield ("stop", st, al, how, form)


def name(case):
    return "exit-" + case[0]


def prog_for(st):
    def prog(p):
        yield ("write", 1, b"out")
        yield ("write", 2, b"err")
        if st < 0:
            yield ("kill", -st)
        return st
    return prog


def stopped_prog(st):
    def handler(p):
        yield ("write", 1, b"+late")
        if st < 0:
            yield ("kill", -st)
        return st

    def prog(p):
        p.traps[signal.SIGTERM] = handler
        yield ("write", 1, b"out")
        yield ("write", 2, b"err")
        yield ("hang",)
    return prog


class Boom(Exception):
    pass


def check(case):
    kind, st, al = case[:3]
    cmd = sh(K.A)
    if al != "default":
        cmd = cmd.set(exit_codes=ALLOWED[al])
    allowed = ALLOWED[al] if ALLOWED[al] is not None else {0}
    msgs = []
    if kind == "exit":
        form = case[3]

        async def fn(w):
            if form == "await":
                return await cmd
            if form == "coro":
                return await cmd.coro()
            if form == "result":
                return await cmd.result
            c = cmd.result if form == "with-result" else cmd
            async with c as run:
                pass
            return run.result(check=False) if form == "with-nocheck" else run.result()
        r = W.run_one(_S(fn, {K.A: prog_for(st)}), W.POLICIES["lazy"], [], {})
        full = Result(exit_code=st, output_bytes=b"out", error_bytes=b"err", cancelled=False, encoding="utf-8")
        if form in ("result", "with-result"):
            allowed = range(-255, 256)
        ok = st in allowed or form == "with-nocheck"
        if ok:
            want = "out" if form in ("await", "coro") else full
            if r.exc is not None or r.value != want or type(r.value) is not type(want):
                msgs.append(f"{case}: expected {want!r}, got {r.exc!r} {r.value!r}")
            elif want is full and (r.value.output, r.value.error, bool(r.value)) != ("out", "err", st == 0):
                msgs.append(f"{case}: wrong text or truth value in {r.value!r}")
            elif want is full and _sig(-st) != "invalid" and r.value.exit_signal != (None if st >= 0 else _sig(-st)):
                msgs.append(f"{case}: exit_signal {r.value.exit_signal!r}")
        elif not isinstance(r.exc, ResultError) or r.exc.result != full:
            msgs.append(f"{case}: expected ResultError with {full!r}, got {r.exc!r} {r.value!r}")
        return msgs, True, (case, repr(r.exc)[:80], repr(r.value)[:80])
    _, st, al, how, form = case
    box = {}

    async def fn(w):
        async def user():
            c = cmd.set(timeout=2.0) if how == "timeout" else cmd
            if form.endswith("-catch"):
                c = c.set(_catch_cancelled_error=True)
            if form.startswith("await"):
                return await c
            if form.startswith("result"):
                return await c.result
            try:
                async with c as run:
                    box["run"] = run
                    if how == "raise":
                        await asyncio.sleep(1.0)
                        raise Boom()
            finally:
                box["res"] = box["run"].result(check=False)
            return box["run"].result()
        t = asyncio.ensure_future(user())
        if how == "cancel":
            await asyncio.sleep(1.0)
            t.cancel()
        return await t
    if how == "raise" and form != "with":
        return [], False, case
    r = W.run_one(_S(fn, {K.A: stopped_prog(st)}), W.POLICIES["eager"], [], {})
    want = {"cancel": asyncio.CancelledError, "timeout": asyncio.TimeoutError, "raise": Boom}[how]
    if form.endswith("-catch"):
        # with this option a cancellation is reported as ResultError, whatever the exit status
        full = [Result(exit_code=st, output_bytes=o, error_bytes=b"err", cancelled=True,
                       encoding="utf-8") for o in (b"out", b"out+late")]
        if how == "cancel" and not (isinstance(r.exc, ResultError) and r.exc.result in full):
            msgs.append(f"{case}: expected ResultError with {full!r}, got {r.exc!r} {r.value!r}")
        if how == "timeout" and form == "result-catch" and (r.exc or r.value not in full):
            msgs.append(f"{case}: expected {full!r}, got {r.exc!r} {r.value!r}")
        if how == "timeout" and form == "await-catch" and not (
                isinstance(r.exc, ResultError) and r.exc.result in full
                or st in allowed and r.exc is None and r.value in ("out", "out+late")):
            msgs.append(f"{case}: unexpected {r.exc!r} {r.value!r}")
    elif not isinstance(r.exc, want):
        msgs.append(f"{case}: expected {want.__name__}, got {r.exc!r} {r.value!r}")
    if form == "with":
        res = box.get("res")
        # what the process writes after the signal may or may not still be collected
        full = [Result(exit_code=st, output_bytes=o, error_bytes=b"err", cancelled=how != "raise",
                       encoding="utf-8") for o in (b"out", b"out+late")]
        if res not in full:
            msgs.append(f"{case}: result is {res!r}, expected {full!r}")
    return msgs, True, (case, repr(r.exc)[:80], repr(box.get("res"))[:80])


def _sig(n):
    if n <= 0:
        return None
    try:
        return signal.Signals(n)
    except ValueError:
        return "invalid"
