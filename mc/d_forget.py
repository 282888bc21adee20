"""C35: a run that is over is forgotten: nothing keeps it, its streams or its tasks in memory."""

import asyncio
import gc
from collections import Counter

from . import world as W  # noqa: F401
from .catalog import A, B, C_, D
from .data import cmp, dscn, pick
from .d_rerun import Build, KINDS, SHAPES, program, use
from .d_timeout import outcome_of

USE = ["await", "ctx", "iter", "prompt"]
ENDS = ["zero", "code", "killed", "missing", "timeout", "raise", "leave", "abandon", "cancelled"]
NAMES = {"Runner", "PipeRunner", "_RunOptions", "Prompt", "Process", "StreamReader", "StreamWriter", "SubprocessStreamProtocol", "PtyFds", "PtyStreamReaderProtocol"}
FROZEN = []


def alive():
    "Objects that belong to runs, by class."
    gc.collect()
    c = Counter()
    for o in gc.get_objects():
        t = type(o)
        n = t.__name__
        if n in NAMES or n.endswith("Transport") and t.__module__.startswith("asyncio"):
            c[n] += 1
        elif asyncio.isfuture(o):
            c["Future"] += 1
    return c


@dscn("forget", "C35", max_time=20.0)
async def _(w, sh):
    "Kinds of command x shape x use x ending: as many objects are left after the third run as after the second."
    if not FROZEN:
        gc.collect()
        gc.freeze()  # what was there before is not looked at
        FROZEN.append(True)
    kind = pick(w, "kind", KINDS, ["plain", "sub-2", "pty"])
    shape = pick(w, "shape", SHAPES, ["alone", "last"])
    form = w.data_choice("use", USE)
    end = w.data_choice("end", ENDS)
    if (kind == "nested" and shape != "alone" or kind == "result" and (shape != "alone" or form != "await")
            or end == "raise" and form not in ("ctx", "iter") or end == "leave" and form != "ctx"
            or end == "abandon" and form != "iter" or kind in ("path-out", "path-append", "array-out", "array-append", "bytesio-out")
            and (shape in ("first", "only", "in-sub") or form == "iter") or kind in ("bytes", "text", "array-in", "path-in", "unread", "encoding",
            "pty-size") and shape in ("last", "only") or kind in ("pty", "pty-size") and shape != "alone"
            or shape == "in-sub" and kind in ("array-out", "pty", "capture", "err-out") or kind == "unread" and shape != "alone"
            or kind == "capture" and (form != "ctx" or shape != "alone") or end == "timeout" and kind != "timeout"
            or form == "prompt" and (shape != "alone" or kind not in ("plain", "pty", "sub-2", "args", "audit", "timeout"))):
        return cmp(w, "not applicable", 0, 0)
    if kind in ("pty", "pty-size"):
        w.user["tty"] = True
    w.user["sh"] = sh
    prog = program(w)
    b = Build(w, sh, kind, shape)
    cmd = b.command()
    plain = "leave" if kind == "unread" else "zero"

    async def one():
        if form == "prompt":
            async with cmd.prompt() as cli:
                cli.close()
                return await cli.read_all()
        return await use(w, cmd, form, end)

    async def run():
        for path in (A, B, C_, D):
            w.programs[path] = prog
        b.reset()
        w.user["mode"] = {"code": "code", "killed": "killed", "timeout": "hang", "cancelled": "hang", "raise": "hang", "leave": "leave",
                          "abandon": "hang"}.get(end, plain)
        if end == "missing":
            del w.programs[A]
        if end == "cancelled":
            t = asyncio.ensure_future(outcome_of(one()))
            await asyncio.sleep(0.5)
            t.cancel()
            await asyncio.wait([t])
            del t
        else:
            await outcome_of(one())
        await asyncio.sleep(0.25)
        return alive()

    counts = [await run() for _ in range(3)]
    cmp(w, "objects kept by each further run", dict(counts[2] - counts[1]), {})
    for fd in w.user.pop("keep", ()):
        import os
        os.close(fd)
