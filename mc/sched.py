"""Controlled scheduler: every bytecode interleaving up to a preemption bound.

The threads of a harness are real threads, but only one runs at a time.  A
trace function sees every bytecode of the code under test (and of the standard
library modules it is built on) and can hand control to another thread before
any bytecode that reads or writes something shared.  Locks are replaced by
cooperative ones, so that waiting is a scheduling decision and a deadlock is
detected.  Executions are enumerated depth first by replaying prefixes of
decisions: the running thread goes on by default, at most ``bound`` switches are
made while it could go on, and every choice is tried where it could not.
"""

from __future__ import annotations

import _thread
import dis
import os
import sys
import threading
import time

_allocate = _thread.allocate_lock
_ident = _thread.get_ident

# Reads and writes of anything that can be shared between threads.
SHARED = frozenset(
    "CALL CALL_FUNCTION_EX LOAD_ATTR STORE_ATTR DELETE_ATTR LOAD_SUPER_ATTR BINARY_SUBSCR STORE_SUBSCR DELETE_SUBSCR BINARY_SLICE STORE_SLICE CONTAINS_OP "
    "BINARY_OP BEFORE_WITH LOAD_GLOBAL STORE_GLOBAL STORE_DEREF LIST_EXTEND SET_UPDATE DICT_UPDATE DICT_MERGE COMPARE_OP FOR_ITER".split()
)
# Also the places where local references come and go.
EVERY = SHARED | frozenset(
    "RETURN_VALUE RETURN_CONST DELETE_FAST STORE_FAST POP_TOP GET_ITER UNPACK_SEQUENCE LIST_APPEND SET_ADD MAP_ADD CALL_INTRINSIC_1 LOAD_DEREF YIELD_VALUE "
    "POP_JUMP_IF_TRUE POP_JUMP_IF_FALSE POP_JUMP_IF_NONE POP_JUMP_IF_NOT_NONE".split()
)
# Only what changes or looks up shared containers and objects, for long runs.
WRITES = frozenset("CALL CALL_FUNCTION_EX STORE_ATTR DELETE_ATTR BINARY_SUBSCR STORE_SUBSCR DELETE_SUBSCR STORE_SLICE LIST_EXTEND SET_UPDATE DICT_UPDATE CONTAINS_OP BEFORE_WITH STORE_GLOBAL".split())

STDLIB = {"weakref.py", "_weakrefset.py", "functools.py", "contextlib.py", "copy.py"}


class Deadlock(Exception):
    pass


class _Abort(BaseException):
    """Unwinds threads of an execution that is given up."""


ACTIVE = None


class CoopLock:
    """Lock or RLock whose waiting is visible to the scheduler."""

    def __init__(self, reentrant=False):
        self.reentrant = reentrant
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _ident()
        s = ACTIVE
        t = s.threads_by_ident.get(me) if s is not None else None
        if t is not None:
            s.point(t)
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking or timeout == 0:
                return False
            if t is None:
                raise Deadlock("lock still held by a thread that has finished")
            if not s.wait(t, self, timeout >= 0):
                return False
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if self.reentrant:
            if self.owner != _ident():
                raise RuntimeError("cannot release un-acquired lock")
        elif self.owner is None:
            raise RuntimeError("release unlocked lock")
        s = ACTIVE
        t = s.threads_by_ident.get(_ident()) if s is not None else None
        if t is not None:
            s.point(t)
        self.count -= 1
        if not self.count:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()

    # used by threading.Condition
    def _is_owned(self):
        return self.owner == _ident()

    def _release_save(self):
        n, self.count, self.owner = self.count, 0, None
        return n

    def _acquire_restore(self, n):
        self.acquire()
        self.count = n

    def _at_fork_reinit(self):
        self.owner, self.count = None, 0


def patch_locks():
    """Make locks created from now on cooperative (call before the import)."""
    # modules the library uses create their own locks: import them first
    import concurrent.futures  # noqa
    import logging  # noqa
    import multiprocessing.pool  # noqa
    import queue  # noqa

    threading.Lock = lambda: CoopLock()
    threading.RLock = lambda *a, **k: CoopLock(True)
    threading._RLock = threading.RLock
    threading._allocate_lock = threading.Lock
    _thread.allocate_lock = threading.Lock
    _thread.allocate = threading.Lock
    _thread.RLock = threading.RLock
    _thread.LockType = CoopLock


class _Thread:
    __slots__ = ("index", "go", "done", "error", "result", "waiting", "timed", "ident")

    def __init__(self, index):
        self.index = index
        self.go = _allocate()
        self.go.acquire()
        self.done = False
        self.error = None
        self.result = None
        self.waiting = None
        self.timed = False


_CODES = {}


class Execution:
    """One execution of a list of thread bodies under a decision prefix."""

    STEP_LIMIT = 400_000

    def __init__(self, bodies, prefix, bound, source, visible, files=None, expect=None):
        self.bodies = bodies
        self.prefix = prefix
        self.bound = bound
        self.source = source
        self.visible = visible
        self.files = files
        self.decisions = []  # (number of options, option taken)
        self.diverged = False
        self.used = 0
        self.steps = 0
        self.switches = 0
        self.threads = [_Thread(i) for i in range(len(bodies))]
        self.threads_by_ident = {}
        self.finished = _allocate()
        self.finished.acquire()
        self.failure = None
        self.codes = _CODES.setdefault((frozenset(visible), frozenset(files or ())), {})

    # -- tracing

    def _table(self, code):
        """Which byte offsets of a code object are scheduling points."""
        entry = self.codes.get(id(code))
        if entry is None:
            name = code.co_filename
            ok = name.startswith(self.source) or name == "<string>" or (os.path.basename(name) in STDLIB and "/lib/python" in name)
            if ok and self.files is not None and os.path.basename(name) not in self.files:
                ok = False
            table = None
            if ok:
                raw = code.co_code
                names = self.visible
                table = bytes(i % 2 == 0 and dis.opname[raw[i]] in names for i in range(len(raw)))
            entry = self.codes[id(code)] = (table, code)
        return entry[0]

    def _tracer(self, t):
        point = self.point
        locals_ = {}

        def make(table):
            def local(frame, event, arg):
                if event == "opcode" and table[frame.f_lasti]:
                    point(t)
                return local

            return local

        def tracer(frame, event, arg):
            code = frame.f_code
            local = locals_.get(id(code), 0)
            if local == 0:
                table = self._table(code)
                local = locals_[id(code)] = make(table) if table is not None else None
            if local is not None:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local

        return tracer

    # -- decisions

    def _decide(self, options):
        n = len(self.decisions)
        choice = self.prefix[n] if n < len(self.prefix) else 0
        if choice >= options:
            # The code did something else than last time (it has a cache, say).
            self.diverged = True
            choice = 0
        self.decisions.append((options, choice))
        return choice

    def point(self, t):
        """A place where another thread may be scheduled."""
        if self.failure is not None:
            raise _Abort
        self.steps += 1
        if self.steps > self.STEP_LIMIT:
            self._fail("the threads did not finish")
        if self.used >= self.bound:
            return
        others = [o for o in self.threads if o is not t and not o.done and (o.waiting is None or not o.waiting.locked())]
        if not others:
            return
        choice = self._decide(1 + len(others))
        if choice:
            self.used += 1
            self._switch(t, others[choice - 1])

    def wait(self, t, lock, timed):
        """Block ``t`` until the lock may be free; False if it timed out."""
        t.waiting = lock
        t.timed = timed
        nxt = self._next(t)
        if nxt is None:
            if timed:
                t.waiting = None
                return False
            self._fail("deadlock")
        if nxt is not t:
            self._switch(t, nxt)
        expired = t.waiting is not None and t.waiting.locked() and timed
        t.waiting = None
        return not expired

    def _next(self, t):
        ready = [o for o in self.threads if not o.done and (o.waiting is None or not o.waiting.locked())]
        if not ready:
            ready = [o for o in self.threads if not o.done and o.timed and o.waiting is not None]
        if not ready:
            return None
        return ready[self._decide(len(ready)) if len(ready) > 1 else 0]

    def _switch(self, t, to):
        self.switches += 1
        to.go.release()
        t.go.acquire()
        if self.failure is not None:
            raise _Abort

    def _fail(self, why):
        self.failure = why
        for o in self.threads:
            if not o.done:
                try:
                    o.go.release()
                except RuntimeError:
                    pass
        raise _Abort

    # -- running

    def _run(self, t, body):
        t.go.acquire()
        t.ident = _ident()
        self.threads_by_ident[t.ident] = t
        try:
            if self.failure is None:
                sys.settrace(self._tracer(t))
                try:
                    t.result = body()
                finally:
                    sys.settrace(None)
        except _Abort:
            pass
        except BaseException as e:  # noqa - reported by the caller
            t.error = f"{type(e).__name__}: {str(e)[:300]}"
        body = None
        t.done = True
        self.threads_by_ident.pop(t.ident, None)
        if self.failure is not None:
            if all(o.done for o in self.threads):
                self._end()
            return
        nxt = self._next(t)
        if nxt is not None:
            nxt.go.release()
        elif all(o.done for o in self.threads):
            self._end()
        else:
            self.failure = self.failure or "deadlock"
            for o in self.threads:
                if not o.done:
                    o.go.release()

    def _end(self):
        try:
            self.finished.release()
        except RuntimeError:
            pass

    def run(self):
        global ACTIVE
        ACTIVE = self
        try:
            bodies, self.bodies = self.bodies, None
            for t, body in zip(self.threads, bodies):
                _thread.start_new_thread(self._run, (t, body))
            body = bodies = None
            self.threads[0].go.release()
            if not self.finished.acquire(timeout=60):
                self.failure = self.failure or "the threads did not finish within 60 s"
        finally:
            ACTIVE = None
        return self


def release(ex):
    """Results must die before the next execution."""
    for t in ex.threads:
        t.result = None


def explore(run, first=None, nfirst=None):
    """Yield every execution; ``run(prefix)`` makes one, it has ``decisions``.

    With ``first``/``nfirst`` only the executions whose first deviation from
    the default is at a decision number congruent to ``first`` are run (the
    default execution itself belongs to ``first == 0``).
    """
    stack = []  # [number of options, option taken] along the current path
    root = True
    while True:
        ex = run([c for _, c in stack])
        stack.extend(ex.decisions[len(stack) :])
        if not root or first is None or first == 0:
            yield ex
        root = False
        ex = None
        while stack:
            options, taken = stack[-1]
            if taken + 1 < options:
                i = len(stack) - 1
                if nfirst is None or i % nfirst == first or any(c for _, c in stack[:-1]):
                    stack[-1] = (options, taken + 1)
                    break
            stack.pop()
        else:
            return
