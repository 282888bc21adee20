"""Parallel driver: spreads jobs = (scenario, policy, budgets) over processes."""

import multiprocessing as mp
import os
import queue
import time
import traceback

from . import explore as X

_G = {}
SLICE = 0.6  # seconds after which a worker hands back what is left of its subtree


def _work(args):
    i, prefixes = args
    st = X.Stats()
    job = _G["jobs"][i]
    left = []
    try:
        left = X.explore(job, prefixes, _G["oracle"], _G["deadline"], stats=st, yield_at=time.monotonic() + SLICE)
    except Exception:
        return i, st, [], traceback.format_exc()
    return i, st, left, None


PER_JOB = int(os.environ.get("MC_PER_JOB", "3"))  # violations kept per scenario


def run_jobs(jobs, oracle, seconds, procs=None, stop_after=6):
    _G.update(jobs=jobs, oracle=oracle, deadline=time.monotonic() + seconds)
    total = X.Stats()
    errors = []
    stop_after = max(stop_after, PER_JOB)
    procs = procs or min(8, os.cpu_count() or 1)
    ctx = mp.get_context("fork")
    done = queue.SimpleQueue()
    backlog = [(i, [[]]) for i in range(len(jobs))]
    backlog.reverse()
    active = 0
    viol = {}
    with ctx.Pool(procs) as pool:
        while active or backlog:
            while backlog and active < procs + 3:
                w = backlog.pop()
                pool.apply_async(_work, (w,), callback=done.put, error_callback=done.put)
                active += 1
            r = done.get()
            active -= 1
            if isinstance(r, BaseException):
                errors.append(repr(r))
                continue
            i, st, left, err = r
            if err:
                errors.append(err)
            viol[i] = viol.get(i, 0) + len(st.violations)
            total.merge(st)
            if len(total.violations) >= stop_after:
                total.truncated += len(left) + sum(len(b[1]) for b in backlog)
                break
            if viol[i] >= PER_JOB:
                total.truncated += len(left)
                continue
            # split what is left so that all processes stay busy
            idle = procs + 3 - active - len(backlog)
            parts = max(1, min(len(left), idle, 8))
            for k in range(parts):
                if left[k::parts]:
                    backlog.append((i, left[k::parts]))
        pool.terminate()
    return total, errors
