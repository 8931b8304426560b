"""What the schedule checks (C02, C20) share.

A harness is a function returning ``(bodies, verify)``: fresh thread bodies and
a function that is given the list of their results and says what is wrong.
"""

from __future__ import annotations

import gc
import json
import os
import signal
import traceback

from mc import framework as fw
from mc import sched
from mc.framework import Violation

VISIBLE = {"every": sched.EVERY, "shared": sched.SHARED, "writes": sched.WRITES}


def orders(n):
    """Which thread starts (the rest keep their order)."""
    return [[i, *(j for j in range(n) if j != i)] for i in range(n)]


def case_list(plan):
    """Cases for a plan: (harness, threads, visible, bound, shards, symmetric)."""
    out = []
    for name, n, visible, bound, shards, symmetric in plan:
        for order in [list(range(n))] if symmetric else orders(n):
            for s in range(shards):
                out.append([name, order, visible, bound, s, shards])
    # cold ones first: the worker itself must not have used the library yet
    out.sort(key=lambda c: (not c[2].startswith("cold"), c[4]))
    return out


class Outcome:
    """What is kept of an execution."""

    def __init__(self, decisions, steps, switches, diverged, bad):
        self.decisions = decisions
        self.steps = steps
        self.switches = switches
        self.diverged = diverged
        self.bad = bad

    def key(self):
        return [c for _, c in self.decisions], self.steps, self.switches


def _one(harness, order, prefix, bound, visible, files):
    """Run one schedule in this process and judge it."""
    bodies, verify = harness()
    bodies = [bodies[i] for i in order]
    ex = sched.Execution(bodies, prefix, bound, fw.SRC, visible, files)
    bodies = None
    ex.run()
    bad = ex.failure
    if not bad:
        results = [None] * len(order)
        for t, i in zip(ex.threads, order):
            if t.error:
                bad = bad or f"thread {i} failed with {t.error}"
            results[i] = t.result
        t = None
        bad = bad or verify(results)
        results = None
    sched.release(ex)
    return Outcome(ex.decisions, ex.steps, ex.switches, ex.diverged, bad)


def _cold(*args):
    """Run one schedule in a fresh copy of this process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            o = _one(*args)
            with os.fdopen(w, "wb") as fh:
                fh.write(json.dumps([o.decisions, o.steps, o.switches, o.diverged, o.bad]).encode())
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as fh:
            data = fh.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    _, status = os.waitpid(pid, 0)
    if status or not data:
        raise Violation(f"the process died (status {status})")
    d, steps, switches, diverged, bad = json.loads(data)
    return Outcome([tuple(x) for x in d], steps, switches, diverged, bad)


def warm_tracing():
    """The first trace function of a process misses some events."""
    import weakref

    class Thing:
        pass

    def body():
        d = weakref.WeakValueDictionary()
        for _ in range(3):
            v = Thing()
            d.setdefault(1, v)
            d.get(1)
            del v
            d.get(1)

    for _ in range(2):
        sched.release(sched.Execution([body, body], [], 0, fw.SRC, sched.EVERY, None).run())


def check(harnesses, case, rec, files=None):
    name, order, visible, bound, shard, shards = case[:6]
    gc.collect()
    gc.disable()
    files = (files or {}).get(name)
    mode, _, names = visible.rpartition(":")
    runner = _cold if mode == "cold" else _one
    warm_tracing()

    def run(prefix):
        return runner(harnesses[name], order, prefix, bound, VISIBLE[names], files)

    def judge(o):
        if o.bad:
            raise Violation(
                f"{name}: {o.bad}",
                case=[*case[:4], 0, 1, [c for _, c in o.decisions]],
                schedule=f"{o.switches} switches in {o.steps} steps",
            )

    if mode != "cold":
        # The library may do things once only.
        for _ in range(2):
            judge(run([]))
    if len(case) == 7:
        judge(run(case[6]))
        return
    n = 0
    o = None
    for o in sched.explore(run, shard, shards):
        judge(o)
        n += 1
        rec.add("schedules")
        rec.add("transitions", o.steps)
        rec.add("states", len(o.decisions))
        rec.maximum("switches", o.switches)
        rec.maximum("steps_in_one_schedule", o.steps)
        if o.diverged:
            rec.add("diverged_schedules")
        if n % 500 == 0:
            gc.collect()
    if o is not None:
        # the same schedule run again must be the same execution
        again = run(o.key()[0])
        judge(again)
        rec.add("traces_validated_against_impl")
        if again.key() != o.key():
            rec.add("nondeterministic_replays")
            rec.note("some harness runs different code when repeated (a cache, say); its schedules are still all run")
        rec.outcome((name, order, o.key()))
    rec.sample({"harness": name, "order": order, "switching": visible, "bound": bound, "shard": shard, "schedules": n})
    gc.enable()
