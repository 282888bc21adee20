"""Is the simulated operating system faithful?  Runs the scenarios of the catalogue against real processes
(the same programs, interpreted by a real child process) and looks for each real outcome among the outcomes
of the explored schedules.

  python -m mc.conform            all scenarios, prints what differs
  python -m mc.conform real NAME  one scenario with real processes
  python -m mc.conform child NAME PATH ARGS...   (the child process)
"""

import asyncio
import fcntl
import json
import os
import re
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# ---------------------------------------------------------------------------
# the child process
# ---------------------------------------------------------------------------
class Trap(Exception):
    pass


class P:
    "What a program sees of its process."

    def __init__(self, argv):
        self.traps = {}
        self.fds = {0: 0, 1: 1, 2: 2}
        for s in os.listdir("/proc/self/fd"):
            try:
                os.fstat(int(s))
                self.fds[int(s)] = int(s)
            except OSError:
                pass
        self.argv = argv
        self.env = dict(os.environ)
        self.ignore_sigpipe = False
        self.got = {}
        self.sent = {}

    def install(self):
        for sig, act in self.traps.items():
            if act == "ignore":
                signal.signal(sig, signal.SIG_IGN)
            else:
                def handler(_s, _f, act=act):
                    raise Trap(act)
                signal.signal(sig, handler)
        signal.signal(signal.SIGPIPE, signal.SIG_IGN if self.ignore_sigpipe else signal.SIG_DFL)


def interpret(p, gen):
    value = None
    while True:
        try:
            try:
                op = gen.send(value)
            except StopIteration as ex:
                os._exit(ex.value or 0)
            p.install()
            value = None
            k = op[0]
            if k == "read":
                try:
                    value = os.read(op[1], op[2])
                except OSError as ex:
                    if ex.errno != 5:
                        os._exit(126)
                    value = b""
            elif k == "write":
                data = op[2]
                while data:
                    try:
                        n = os.write(op[1], data[:4096])
                    except BrokenPipeError:
                        value = "EPIPE"
                        break
                    except OSError as ex:
                        if ex.errno != 5:
                            os._exit(126)
                        value = "EPIPE"
                        break
                    data = data[n:]
            elif k == "close":
                try:
                    os.close(op[1])
                except OSError:
                    pass
            elif k == "sleep":
                end = time.monotonic() + op[1]
                while time.monotonic() < end:
                    time.sleep(max(0, end - time.monotonic()))
            elif k == "hang":
                while True:
                    signal.pause()
            elif k == "exit":
                os._exit(op[1])
            elif k == "kill":
                signal.signal(op[1], signal.SIG_DFL) if op[1] not in (9, 19) else None
                os.kill(os.getpid(), op[1])
                while True:
                    signal.pause()
            elif k == "open":
                try:
                    value = os.open(op[1], os.O_RDONLY if op[2] == "r" else os.O_WRONLY)
                except OSError:
                    value = None
            elif k == "fork":
                if os.fork() == 0:
                    for fd in list(p.fds):
                        if fd not in op[2]:
                            try:
                                os.close(fd)
                            except OSError:
                                pass
                    signal.signal(signal.SIGALRM, signal.SIG_DFL)
                    signal.alarm(60)
                    gen = op[1](p)
            elif k == "nop":
                pass
            elif k == "call":
                value = op[1]()
            else:
                os._exit(125)
        except Trap as t:
            gen = t.args[0](p)
            value = None


def child(name, path, argv):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    signal.alarm(60)
    from . import catalog as K

    prog = K.SC[name].programs[path]
    p = P([path, *argv])
    p.install()
    interpret(p, prog(p))


# ---------------------------------------------------------------------------
# one scenario with real processes
# ---------------------------------------------------------------------------
def key(outcome, exc, value):
    "An outcome, without numbers that differ from run to run."
    s = f"raises {type(exc).__name__} {exc}" if exc is not None else f"returns {value!r}"
    s = f"{outcome}: {s}"
    return re.sub(r"0x[0-9a-f]{6,}|/dev/fd/\d+|pid=\d+|/tmp/\S+|\b\d+\.\d{3,}\b", "#", s)[:600]


class RealWorld:
    def __init__(self):
        self.user = {}
        self.programs = {}
        self.audit = []
        self.ptys = []
        self.now = 0.0

    def find(self, pid):
        return None


def real(name):
    import logging

    from . import world as W
    from . import catalog as K

    logging.disable(logging.CRITICAL)
    s = K.SC[name]
    w = RealWorld()
    s.setup(w)

    class Popen(W._Popen):
        def _execute_child(self, args, executable, *rest):
            args = [args] if isinstance(args, (str, bytes)) else list(args)
            path = os.fsdecode(executable if executable is not None else args[0])
            if path in s.programs:
                args = [sys.executable, "-B", "-m", "mc.conform", "child", name, path] + [os.fsdecode(a) for a in args[1:]]
                executable = sys.executable
                rest = list(rest)
                env = rest[4] if rest[4] is not None else dict(os.environ)
                rest[4] = {**{os.fsdecode(k): os.fsdecode(v) for k, v in env.items()}, "PYTHONPATH": HERE,
                           "SHELLOUS_REPO": os.environ.get("SHELLOUS_REPO", "/repo")}
            return super()._execute_child(args, executable, *rest)

    subprocess.Popen = Popen
    if s.pipe_size:
        pipe = W._pipe

        def small():
            r, wr = pipe()
            fcntl.fcntl(wr, 1031, s.pipe_size)  # F_SETPIPE_SZ
            return r, wr
        os.pipe = small
    exc = value = None

    async def go():
        t = asyncio.ensure_future(s.main(w))
        done, _ = await asyncio.wait([t], timeout=20)
        if not done:
            print(json.dumps(key("deadlock", None, None)))  # it would never end
            sys.stdout.flush()
            t.cancel()
            await asyncio.wait([t], timeout=10)
            os._exit(0)
        return await t

    try:
        value = asyncio.run(go())
    except BaseException as ex:
        exc = ex
    print(json.dumps(key("done", exc, value)))
    sys.stdout.flush()
    os._exit(0)


# ---------------------------------------------------------------------------
def run_real(name):
    r = subprocess.run([sys.executable, "-B", "-m", "mc.conform", "real", name], cwd=HERE, capture_output=True,
                       timeout=90, stdin=subprocess.DEVNULL, check=False, start_new_session=True)
    line = r.stdout.decode().strip().splitlines()[-1:] or [""]
    try:
        return name, json.loads(line[0])
    except ValueError:
        return name, "no outcome: " + r.stderr.decode()[-300:]


def conform(seconds=120, repeat=2, procs=6):
    "Returns (number of real runs, scenarios, list of differences)."
    from concurrent.futures import ThreadPoolExecutor

    from . import props  # noqa: F401
    from . import catalog as K
    from . import explore as X
    from . import pool

    names = [n for n, s in K.SC.items() if not s.data and not hasattr(s, "prepare")]
    X.KEY = lambda s, r: key(r.outcome, r.exc, r.value)
    jobs = [(K.SC[n], p, b) for n in names for p in ("lazy", "eager-rev", "eager", "lazy-rev") for b in ({"dev": 1},)]
    st, errs = pool.run_jobs(jobs, lambda s, r: [], seconds)
    X.KEY = None
    seen = {}
    for (n, k), cnt in st.outcomes.items():
        seen.setdefault(n, set()).add(k)
    diff = []
    n = 0
    with ThreadPoolExecutor(procs) as ex:
        for name, k in ex.map(run_real, names * repeat):
            n += 1
            if k not in seen.get(name, ()) and (name, k) not in [d[:2] for d in diff]:
                diff.append((name, k, sorted(seen.get(name, ()))[:3]))
    return n, names, diff, st.runs, errs


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[:1] == ["child"]:
        child(a[1], a[2], a[3:])
    elif a[:1] == ["real"]:
        real(a[1])
    else:
        t = time.time()
        n, names, diff, runs, errs = conform()
        for d in diff:
            print("DIFFERS", d[0], "\n   real:", d[1], "\n   simulated:", *d[2], sep="\n      ")
        print(n, "real runs of", len(names), "scenarios;", runs, "simulated;", len(diff), "differ", errs[:1], round(time.time() - t, 1), "s")
