"""C26: the child watcher reports each exit exactly once (threads under a controlled scheduler)."""

import gc
import warnings

from . import catalog as K
from . import threads as TH

START = ("epoll", "pipe", "register", "thread")
EXIT3 = 3 << 8
TERM = 15


class WScn:
    data = True
    expect = None

    def __init__(self, name, fn, faults=(), system="epoll", close_live=False, reuse=False):
        self.name = name
        self.fn = fn
        self.tags = {"C26"}
        self.faults = faults
        self.system = system
        self.reuse = reuse
        K.SC[name] = self

    def main(self, sim):
        from shellous.watcher import DefaultChildWatcher

        sim.reuse_pids = self.reuse
        sim.reg = []
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            w = DefaultChildWatcher(thread_strategy=self.system == "thread")
        self.fn(Ctx(sim, w))
        del w
        if sim.fds:
            gc.collect()  # epoll and kqueue objects close themselves
        sim.left_open = sorted(type(o).__name__ for o in sim.fds.values())
        sim.finished = True

    run_one = staticmethod(TH.run_one)


class Reg:
    "One registration."

    def __init__(self, proc, args):
        self.proc = proc
        self.args = args
        self.calls = []
        self.raised = None
        self.registered = False
        self.late_ok = False  # the watcher was closed while the process was alive
        self.before_close = False
        self.start_faults = []  # injected failures that kept the watcher itself from starting


class Ctx:
    def __init__(self, sim, watcher):
        self.sim = sim
        self.w = watcher
        self.waits = []

    def reg(self, raw, **kw):
        p = self.sim.fork(raw, **kw)
        r = Reg(p, (f"a{p.pid}",))
        self.sim.reg.append(r)
        return r

    def thread(self, name, fn):
        t = self.sim.spawn(name, fn)
        self.waits.append(t)
        return t

    def join(self):
        for t in self.waits:
            self.sim.block("join " + t.name, lambda t=t: t.state == "done")

    def watch(self, r, loop, done):
        sim = self.sim

        def callback(pid, status, *args):
            r.calls.append((pid, status, args))
            sim.log("callback", pid, status, args)
            loop.call_soon_threadsafe(lambda: done.done() or done.set_result(None))

        TH.me().faulted = []
        try:
            self.w.add_child_handler(r.proc.pid, callback, *r.args)
            r.registered = True
            r.proc.stays = r.proc.stays == "forever"  # "killed": it ends by itself only if it is watched
            sim.log("registered", r.proc.pid)
        except Exception as ex:  # pylint: disable=broad-except
            r.raised = repr(ex)
            r.start_faults = [f for f in TH.me().faulted if f in START]
            sim.log("raised", repr(ex))

    def run(self, raws, wait=True, linger=0.0, **kw):
        "A thread with an event loop: start and watch processes, one after the other."
        def body():
            loop = TH.SimLoop(self.sim)

            async def go():
                for raw in raws:
                    r = self.reg(raw, **kw)
                    r.proc.linger = linger
                    done = loop.create_future()
                    self.watch(r, loop, done)
                    if wait and not self.unmonitored(r):
                        await done

            async def both():
                await go()

            try:
                loop.run_until_complete(both())
            finally:
                loop.close()
        return body

    def together(self, raws, linger=0.0, **kw):
        "A thread with an event loop: watch several processes, then wait for all."
        def body():
            loop = TH.SimLoop(self.sim)

            async def go():
                futs = []
                for raw in raws:
                    r = self.reg(raw, **kw)
                    r.proc.linger = linger
                    done = loop.create_future()
                    self.watch(r, loop, done)
                    if not self.unmonitored(r):
                        futs.append(done)
                for f in futs:
                    await f

            try:
                loop.run_until_complete(go())
            finally:
                loop.close()
        return body

    def unmonitored(self, r):
        "A registration that failed because the watcher could not get its own resources (known finding)."
        return bool(r.start_faults)

    def close(self):
        sim = self.sim
        for r in sim.reg:
            if r.registered or r.raised is not None:
                if r.proc.state in ("zombie", "reaped"):
                    r.before_close = True
                elif not r.calls:
                    r.late_ok = True
        sim.log("close")
        self.w.close()
        sim.log("closed")

    def settled(self):
        "Nothing is left but the watcher's own descriptors."
        sim = self.sim
        n = sum(1 for o in sim.fds.values() if isinstance(o, TH.PidFd))
        if n:
            sim.bad.append(f"{n} pidfds are open although every process has been reported")


def scn(name, **kw):
    def deco(f):
        WScn(name, f, **kw)
        return f
    return deco


def each(name, systems=("epoll", "thread", "kqueue"), **kw):
    def deco(f):
        for s in systems:
            WScn(f"{name}-{s}", f, system=s, **kw)
        return f
    return deco


@each("watch-two")
def _two(c):
    "Two threads register at the same time (the first use makes the watcher thread)."
    c.thread("A", c.run([EXIT3]))
    c.thread("B", c.run([TERM]))
    c.join()
    quiet(c)
    c.close()


@each("watch-seq")
def _seq(c):
    "One thread watches processes one after the other while another watches two at once."
    c.thread("A", c.run([EXIT3, 0]))
    c.thread("B", c.together([TERM, 9]))
    c.join()
    quiet(c)
    c.close()


def quiet(c):
    "Give the watcher time to finish what it does after the callback."
    c.sim.settle()
    c.settled()


@each("watch-close", ("epoll", "kqueue"))
def _close(c):
    "Close while one process may still be alive."
    c.thread("A", c.run([EXIT3], wait=False))
    c.thread("B", c.run([TERM], wait=False))
    c.thread("C", c.run([0], wait=False, stays="forever"))
    c.join()
    c.close()


@scn("watch-close-thread", system="thread")
def _close_t(c):
    c.thread("A", c.run([EXIT3], wait=False))
    c.thread("B", c.run([TERM], wait=False))
    c.join()
    c.close()


@each("watch-reopen", ("epoll", "kqueue"))
def _reopen(c):
    "A closed watcher starts again; closing twice and from two threads is harmless."
    c.thread("A", c.run([EXIT3]))
    c.join()
    c.thread("X", c.close)
    c.thread("Y", c.close)
    c.join()
    c.thread("B", c.run([TERM]))
    c.join()
    quiet(c)
    c.close()


@each("watch-loop-gone")
def _gone(c):
    "The loop of one process is closed before it exits."
    c.thread("A", c.run([EXIT3], wait=False))
    c.thread("B", c.run([TERM]))
    c.join()
    c.sim.settle()
    c.settled()
    c.close()


@scn("watch-fault", faults=("pidfd_open", "register pidfd"))
def _fault(c):
    "Monitoring of a process cannot be set up."
    c.thread("A", c.run([EXIT3, TERM]))
    c.thread("B", c.run([0], stays="killed"))
    c.join()
    quiet(c)
    c.close()


@each("watch-fault-start", ("epoll", "thread", "kqueue"), faults=("epoll", "pipe", "register", "thread"))
def _fault_start(c):
    "The watcher's own resources cannot be had."
    c.thread("A", c.run([EXIT3, TERM]))
    c.thread("B", c.run([0]))
    c.join()
    quiet(c)
    c.close()


@scn("watch-fault-slow", faults=("pidfd_open", "register pidfd"))
def _fault_slow(c):
    "The killed process takes its time to die."
    c.thread("A", c.together([EXIT3, TERM], linger=0.5, stays="killed"))
    c.join()
    quiet(c)
    c.close()


@scn("watch-late-kqueue", system="kqueue")
def _late(c):
    "The exit is announced a little before the process can be waited for."
    c.thread("A", c.run([EXIT3, 0], grace=0.05))
    c.thread("B", c.run([TERM], grace=0.07))
    c.join()
    quiet(c)
    c.close()


@each("watch-reuse", reuse=True)
def _reuse(c):
    "The system hands out process numbers again at once."
    c.thread("A", c.run([EXIT3, 0, 7 << 8]))
    c.thread("B", c.run([TERM, 0]))
    c.join()
    quiet(c)
    c.close()


# ---------------------------------------------------------------------------
# oracle
# ---------------------------------------------------------------------------
def code(raw):
    return -(raw & 0x7f) if raw & 0x7f else raw >> 8


def exact(s, r):
    sim = r.sim
    out = list(dict.fromkeys(sim.bad))
    if r.outcome != "done":
        out.append(f"{r.outcome}: {sim.stuck if r.outcome == 'stuck' else ''}")
    for t in sim.threads:
        if t.exc is not None:
            out.append(f"thread {'of the watcher' if t.owner else t.name} died: {t.exc!r}")
    faulted = any(e[1] == "FAULT" for e in r.events)
    for g in sim.reg:
        want = (g.proc.pid, code(g.proc.raw), g.args)
        if g.raised is not None and not faulted:
            out.append(f"registration raised {g.raised}")
        n = len(g.calls)
        if any(c != want for c in g.calls):
            out.append(f"reported {g.calls}, expected {want}")
        if n > 1:
            out.append(f"reported {n} times")
        if n == 0 and not g.late_ok and r.outcome == "done":
            out.append("exit is never reported" + (
                f": the watcher could not start ({g.start_faults[0]})" if g.start_faults else ""))
        if n and g.proc.state != "reaped":
            out.append("reported but not waited for")
    if r.outcome == "done":
        if getattr(sim, "left_open", None):
            out.append(f"descriptors left open: {sim.left_open}")
        for lv, m in sim.critical:
            if lv >= 50:
                out.append("critical: " + m)
    return out
