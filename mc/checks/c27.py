"""C27: code that runs in the middle of a call can use the library."""
import ctypes
import gc
import signal
import sys

from mc import terms as T
from mc.checks import c22
from mc.framework import Violation

LEVEL = "fault_enumeration"
INTERRUPTS = True
RULE = (
    "evaluations: runs of an operation on the real code in the middle of which, at one enumerated point (every place where CPython can run a signal handler, a "
    "finalizer or a garbage collection; k-th call of a user's rule; k-th hash, comparison, display or destruction of a user's value), other operations are run on "
    "the same thread; distinct_nontrivial: those at which they really ran. Both results are as alone, the expressions are the same objects, every live object is "
    "the one its parts build"
)
ASSUMPTIONS = [
    "signal handlers run where CPython 3.12 runs them (its own mechanism) in frames of protosym and of weakref.py; garbage collections, and the finalizers in them, "
    "happen at the same places",
    "the first import of the SymPy conversions is not in progress",
    "comparisons of values do not make the atom that is being looked for (no dictionary supports that)",
    "code in the middle of an evaluation registers no rules with that evaluator (a signal handler may repeat a registration)",
]
OPS = {}
CASE_LIMIT = 400


def bounds(tier):
    big = tier == "thorough"
    return (
        f"handlers: every delivery point of {len(OPS) or 75} operations, on new and on existing expressions, running {len(ACTIONS)} things"
        + (", any of the operations, and all pairs of nested handlers for operations with <= 130 points" if big else "")
        + f"; rules: every expression of <= {3 if big else 2} compounds over 3 atoms, 5 kinds of evaluator, every call index, 6 inner evaluations, nested to 2; values: "
        "every index of hash, equality, display and destruction in 12 operations"
    )


# What the code in the middle does
ACTIONS = ("same", "again", "drop", "probe")
SKIP = {"import"}


class Pending:
    """Evaluating pending.fire makes a signal pending, as if it had just come."""

    fire = property(ctypes.PYFUNCTYPE(ctypes.c_int, ctypes.c_int)(("PyErr_SetInterruptEx", ctypes.pythonapi)))
    _as_parameter_ = int(signal.SIGUSR1)


class Tracer:
    """Counts the opcodes of one run and makes the signal come before one of them."""

    def __init__(self, k):
        self.k = k
        self.opcodes = 0
        self.fired = False
        self.points = []
        self.trigger = Pending()

    def local(self, frame, event, arg):
        if event == "opcode":
            self.opcodes += 1
            if self.opcodes == self.k:
                sys.settrace(None)
                self.fired = True
                return self.trigger.fire
            if not self.k and frame.f_lasti in c22.points_of(frame.f_code):
                self.points.append(self.opcodes)
        return self.local

    def start(self, frame, event, arg):
        if not c22.traced_file(frame.f_code.co_filename):
            return None
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
        # A signal that comes before an opcode that calls this function in some
        # way (a comparison, a subscript) is handled as the function starts.
        if self.opcodes and (not self.points or self.points[-1] != self.opcodes):
            self.points.append(self.opcodes)
        return self.local


def with_handler(fn, k, handler):
    """fn with the handler run at point k; (result, points, whether it ran)."""
    tracer = Tracer(k)
    ran = []

    def on_signal(signum, frame):
        ran.append(None)
        handler()

    old = signal.signal(signal.SIGUSR1, on_signal)
    try:
        try:
            sys.settrace(tracer.start)
            value = fn()
        finally:
            sys.settrace(None)
        for _ in range(5):
            pass
    finally:
        signal.signal(signal.SIGUSR1, old)
    if len(ran) > 1 or bool(ran) != tracer.fired:
        raise AssertionError(f"the handler ran {len(ran)} times")
    return value, tracer, bool(ran)


def prepare(tier):
    c22.prepare(tier)
    OPS.update({k: v for k, v in c22.OPS.items() if k not in SKIP})
    with_handler(lambda: c22.Tree(c22.sc.x.rep, c22.sc.x.rep), 0, lambda: None)


def cases(tier):
    big = tier == "thorough"
    names = sorted(OPS, key=lambda n: (not n.startswith(("lambdify", "llvm", "matrix", "to_s", "from_s")), n))
    if big:
        for name in names:
            for r in range(8):
                yield ["nested", name, r, 8]
        for name in names:
            for other in names:
                yield ["pair", name, other]
    for name in names:
        for action in ACTIONS:
            for existing in (False, True):
                if not existing or name not in c22.SAME:
                    yield ["signal", name, existing, action]
    n = 3 if big else 2
    for kind in c22.RULES:
        m = 96 if big else 8
        for r in range(m):
            yield ["rule", kind, n, r, m]
    for what in ("hash", "eq", "show", "del"):
        for name in VALUE_OPS:
            yield ["value", what, name]


def check_case(case, rec):
    gc.disable()
    gc.collect()
    gc.freeze()
    # Compiled functions are kept for ever, and 20000 of them fill the address
    # map of a process: those of the case go with it.
    engines = getattr(sys.modules["protosym.simplecas.lambdification"], "_exe_eng", None)
    engines = engines if isinstance(engines, list) else []
    base = len(engines)
    try:
        {"signal": check_signal, "nested": check_nested, "pair": check_pair, "rule": check_rule, "value": check_value}[case[0]](case, rec)
    finally:
        del engines[base:]


def is_object(v):
    return isinstance(v, (c22.Sym, c22.Tree, c22.Atom))


def verify(name, expected, results, env, fn, observe, what):
    """Every result is the one that the operation gives alone."""
    old, want, new = expected
    results = [*results, fn(env)]
    for got in results:
        if c22.canon(got) != want:
            raise Violation(f"{what}: another result", got=repr(c22.canon(got))[:1500], want=repr(want)[:1500])
    if is_object(results[0]):
        for got in results:
            if got is not results[0]:
                raise Violation(f"{what}: two objects for one expression", expr=repr(got))
    elif isinstance(results[0], tuple) and all(map(is_object, results[0])):
        for got in results:
            if any(a is not b for a, b in zip(got, results[0])):
                raise Violation(f"{what}: two objects for one expression", expr=repr(got))
    if observe and c22.canon(observe(env)) != new:
        raise Violation(f"{what}: the effect is missing or another", got=repr(c22.canon(observe(env)))[:800], want=repr(new)[:800])
    c22.census(what)


def points(name, existing):
    env, fn, _, held = c22.make(name, existing)
    _, tracer, _ = with_handler(lambda: fn(env), 0, lambda: None)
    return tracer.points


def check_signal(case, rec):
    _, name, existing, action = case
    expected = c22.undisturbed(name)
    todo = points(name, existing)
    step = 7 if action == "probe" else 1  # it takes long and depends little on the place
    for k in todo[::step]:
        env, fn, observe, held = c22.make(name, existing)
        box = [held]
        held = None
        inner = []

        def handler():
            if action == "same":
                inner.append(fn(env))
            elif action == "again":
                env2, fn2, _, _ = c22.make(name, False)
                inner.append(fn2(env2))
            elif action == "drop":
                box.clear()
                env2, fn2, _, _ = c22.make(name, False)
                fn2(env2)
                fn(env)
                gc.collect()
            elif c22.probe() != c22.PROBE:
                raise Violation("operations in a signal handler give other results")

        what = f"signal handler ({action}) at point {k} of {name}"
        value, tracer, ran = with_handler(lambda: fn(env), k, handler)
        if not ran:
            break  # a little less is done when something exists already
        rec.add("evaluations")
        rec.add("distinct_nontrivial")
        if action == "drop" and existing and name not in c22.SAME and box:
            raise AssertionError("not dropped")
        verify(name, expected, [value, *inner, *(b for b in box if b is not None)], env, fn, observe, what)
        rec.outcome([name, existing, action, k])
        del env, value, inner, box, handler
    c22.audit(f"signal handlers in {name}")
    rec.maximum("points_of_one_operation", len(todo))
    rec.sample([name, existing, action, len(todo)])


def check_pair(case, rec):
    """Any operation in the middle of any other."""
    _, name, other = case
    expected, expected2 = c22.undisturbed(name), c22.undisturbed(other)
    for k in points(name, False):
        env, fn, observe, _ = c22.make(name, False)
        env2, fn2, observe2, _ = c22.make(other, False)
        inner = []
        value, tracer, ran = with_handler(lambda: fn(env), k, lambda: inner.append(fn2(env2)))
        if not ran:
            break
        what = f"{other} in a signal handler at point {k} of {name}"
        rec.add("evaluations")
        rec.add("distinct_nontrivial")
        verify(name, expected, [value], env, fn, observe, what)
        verify(other, expected2, inner, env2, fn2, observe2, what)
        rec.outcome([name, other, k])
        del env, env2, value, inner
    c22.audit(f"{other} in {name}")


def check_nested(case, rec):
    """A handler that is itself interrupted by a handler."""
    _, name, r, m = case
    expected = c22.undisturbed(name)
    todo = points(name, False)
    if len(todo) > 140:
        return
    for k in todo[r::m]:
        for j in todo:
            env, fn, observe, _ = c22.make(name, False)
            inner = []
            ran2 = []

            def handler():
                value, _, ran = with_handler(lambda: fn(env), j, lambda: inner.append(fn(env)))
                inner.append(value)
                ran2.append(ran)

            value, _, ran = with_handler(lambda: fn(env), k, handler)
            if not ran:
                return
            if not ran2[0]:
                break
            rec.add("evaluations")
            rec.add("distinct_nontrivial")
            verify(name, expected, [value, *inner], env, fn, observe, f"nested handlers at points {k} and {j} of {name}")
            rec.outcome([name, k, j])
            del env, value, inner, handler


# ------------------------------------------------------------ rules


class Reentrant:
    """Passed the result of every rule; runs something at the chosen calls."""

    def __init__(self):
        self.plan = ()
        self.calls = []
        self.total = 0
        self.ran = 0
        self.action = None

    def arm(self, plan, action):
        self.plan, self.action, self.calls, self.total, self.ran = plan, action, [0], 0, 0

    def __call__(self, result):
        if not self.calls:
            return result
        level = len(self.calls)
        self.calls[-1] += 1
        if level == 1:
            self.total += 1
        if level <= len(self.plan) and self.calls[-1] == self.plan[level - 1]:
            self.ran += 1
            self.calls.append(0)
            try:
                self.action(level)
            finally:
                self.calls.pop()
        return result


def check_rule(case, rec):
    _, kind, n, r, m = case
    sc, canon = c22.sc, c22.canon
    from protosym.core.atom import AtomType

    H = c22.H
    if not H:
        for name in "fgh":
            H[name] = sc.Function("c22" + name).rep
    leaves = [T.S("c22x"), T.S("c22y"), T.I(22)]
    ops = [(T.F("c22f"), 1), (T.F("c22g"), 2), (T.F("c22h"), 3)]
    every = [t for level in T.dag_terms(leaves, ops, n) for t in level]
    memo = {}

    def build(t):
        if t not in memo:
            memo[t] = c22.Tree(*map(build, t[1:])) if t[0] == "@" else {"I": sc.Integer, "S": sc.Symbol, "F": sc.Function}[t[0]](t[1]).rep
        return memo[t]

    def call(ev, tree, values):
        if kind == "recursive":
            return ev.eval_recursive(tree, values)
        return ev(tree, values)

    quiet = c22.RULES[kind](c22.Faulty())
    other = build(T.app(T.F("c22h"), T.app(T.F("c22g"), leaves[1], leaves[0]), leaves[2], T.app(T.F("c22g"), leaves[0], leaves[0])))
    want_other = canon(call(quiet, other, {}))
    value = build(T.app(T.F("c22f"), leaves[0])) if kind == "transformer" else ("given",)
    xs = {build(leaves[0]): value}
    for index, t in enumerate(every):
        if index % m != r or (index > 4000 and index % 5):
            continue
        tree = build(t)
        want, want_x = canon(call(quiet, tree, {})), canon(call(quiet, tree, xs))
        hook = Reentrant()
        ev = c22.RULES[kind](hook)
        twin = c22.RULES[kind](hook)
        results = []

        def inner(what):
            if what == 0:
                results.append((call(ev, tree, {}), want))
            elif what == 1:
                results.append((call(ev, other, {}), want_other))
            elif what == 2:
                results.append((call(ev, tree, xs), want_x))
            elif what == 3:
                results.append((call(twin, tree, {}), want))
            elif what == 4:
                d = c22.SubsFunc(tree, [build(leaves[0])])
                if d(build(leaves[0])) is not tree or c22.topological_sort(tree)[-1] is not tree:
                    raise Violation("substitution in a rule gives another result", expr=T.show(t))
                if kind != "sym":
                    results.append((ev.eval_recursive(tree, {}), want))
                    results.append((ev.eval_forward(tree, {}), want))
            elif what == 6:
                # rules for something else are added in the middle
                late.append(AtomType("c27late", int))
                head = c22.Tree.atom(late[-1](len(late)))
                ev.add_op1(head, lambda a: a)
                ev.add_opn(head(head), lambda args: args[0])
                ev.add_atom(late[-1], lambda v: value)
                results.append((call(ev, head(head(head)(head)), {}), canon(value)))
            else:
                results.append((c22.probe(), c22.PROBE))

        late = []
        hook.arm((), None)
        if canon(call(ev, tree, {})) != want:
            raise Violation("two evaluators with the same rules differ", expr=T.show(t))
        total = hook.total
        for values, wanted in (({}, want), (xs, want_x)):
            for k in range(1, total + 1):
                plans = [(k, w, None) for w in range(5)]
                if kind != "sym":
                    plans.append((k, 6, None))
                if index % 41 == 0 and k == 1:
                    plans.append((k, 5, None))
                if total < 6:
                    plans += [(k, w, j) for w in (0, 3) for j in range(1, total + 1)]
                for k1, w, j in plans:
                    results.clear()
                    hook.arm((k1,) if j is None else (k1, j), lambda level, w=w: inner(w if level == 1 else 1))
                    got = call(ev, tree, values)
                    if not hook.ran:
                        continue
                    rec.add("evaluations")
                    rec.add("distinct_nontrivial")
                    for a, b in [(got, wanted), *results]:
                        if (a if b is c22.PROBE else canon(a)) != b:
                            raise Violation("a rule that uses the library changes a result", expr=T.show(t), kind=kind, at=[k1, j], inner=w, got=repr(a)[:500], want=repr(b)[:500])
        hook.calls = []
        rec.outcome([kind, t, total])
    memo.clear()
    c22.audit("rules that evaluate")
    rec.sample(case)


# ------------------------------------------------------------ values


class Live:
    """A value with methods that use the library."""

    what = None
    at = calls = ran = 0
    action = None
    busy = False

    def __init__(self, n):
        self.n = n

    @classmethod
    def arm(cls, what, at, action):
        cls.what, cls.at, cls.action, cls.calls, cls.ran, cls.busy = what, at, action, 0, 0, False

    @classmethod
    def step(cls, what):
        if what == cls.what and not cls.busy:
            cls.calls += 1
            if cls.calls == cls.at:
                cls.ran += 1
                cls.busy = True
                try:
                    cls.action()
                finally:
                    cls.busy = False

    def __hash__(self):
        self.step("hash")
        return self.n % 3

    def __eq__(self, other):
        self.step("eq")
        return isinstance(other, Live) and other.n == self.n

    def __repr__(self):
        self.step("show")
        return f"live{self.n}"

    __str__ = __repr__

    def __del__(self):
        self.step("del")


VALUE_OPS = ["atom", "tree", "call", "sym", "expr", "subs", "function", "matrix", "diff", "evaluate", "sort", "show"]


def value_ops(other=0):
    sc, BOX, Tr = c22.sc, c22.BOX, c22.Tr
    wrap = sc.Expr.new_atom("Wrap", object)
    ev = sc.Expr.new_evaluator("c27", object)
    a, b = sc.Expr.new_wild("c27a"), sc.Expr.new_wild("c27b")
    ev[wrap[a]] = c22.PyFunc1(lambda v: (str(v),))(a)
    ev[c22.AtomRule[a]] = c22.AtomFunc(str)(a)
    ev[c22.HeadRule(a, b)] = c22.HeadOp(lambda h, args: (str(h), *args))(a, b)
    w = lambda n: wrap(Live(n + other))  # noqa: E731
    big = lambda: sc.sin(w(9) * w(12) + sc.x) ** 2 + w(9)  # noqa: E731

    def show():
        e = w(12) * 2 + w(15)
        return str(e.rep) + repr(e.rep) + repr(e) + repr(sc.Matrix([[e, 0]]))

    return {
        "atom": lambda: BOX(Live(other + 5)),
        "tree": lambda: Tr(BOX(Live(other + 6))),
        "call": lambda: Tr(BOX(Live(other + 7)))(Tr(BOX(Live(other + 7))), Tr(BOX(Live(other + 10)))),
        "sym": lambda: w(9),
        "expr": lambda: w(9) + w(12) * 3,
        "subs": lambda: (w(9) + w(12) * w(9)).xreplace({w(9): w(12), w(12): w(15)}),
        "function": lambda: (w(9) + w(12)).as_function(w(12), w(9))(w(9), w(15)),
        "matrix": lambda: (sc.Matrix([[w(9), 0], [w(12), sc.x]]) + sc.Matrix([[w(9), w(12)], [0, 1]])).tolist(),
        "diff": lambda: (big().diff(w(9)), big().diff(w(12)), sc.Matrix([[big()]]).diff(w(9)).tolist()),
        "evaluate": lambda: ev(big(), {w(12): ("v",)}) + (big().count_ops_tree(), big().eval_f64({w(9): 0.5, w(12): 0.25, sc.x: 2.0})),
        "sort": lambda: [*c22.topological_sort(big().rep, heads=True, exclude={w(12).rep}), big().args[1], big().bin_expand().rep],
        "show": show,
    }


def check_value(case, rec):
    _, what, name = case
    canon = c22.canon
    ops = value_ops()
    fn = ops[name]
    Live.arm(None, 0, None)
    want = canon(fn())
    # A comparison that makes the atom that is being looked for cannot work with
    # any dictionary, so comparisons use values that are equal to no others.
    inner_ops = value_ops(300) if what == "eq" else ops
    wants = {n: canon(f()) for n, f in inner_ops.items()}
    gc.collect()
    for existing in (False, True):
        for action in ("same", "all", "drop"):
            k = 0
            while True:
                k += 1
                Live.arm(None, 0, None)
                held = [fn()] if existing else []
                inner = []
                errors = []

                def act():
                    try:
                        if action == "same":
                            inner.append((inner_ops[name](), wants[name]))
                        elif action == "drop":
                            held.clear()
                            inner.append((canon(inner_ops[name]()), wants[name]))
                            gc.collect()
                        else:
                            for n, f in inner_ops.items():
                                inner.append((f(), wants[n]))
                    except BaseException as e:  # noqa - destructors cannot raise
                        errors.append(f"{type(e).__name__}: {e}")

                Live.arm(what, k, act)
                got = fn()
                form = canon(got)
                if what == "del":
                    # also those that die at the end
                    if not is_object(got) or not inner:
                        got = None
                        gc.collect()
                ran = Live.ran
                Live.arm(None, 0, None)
                if not ran:
                    break
                rec.add("evaluations")
                rec.add("distinct_nontrivial")
                where = f"the {k}th {what} of a value in {name} ({action})"
                if errors:
                    raise Violation(f"{where}: an operation in it fails with {errors[0]}")
                for a, b in [(form, want), *inner]:
                    if (a if a is form or action == "drop" else canon(a)) != b:
                        raise Violation(f"{where}: another result", got=repr(a)[:800], want=repr(b)[:800])
                if is_object(got):
                    for other in [fn(), *held, *([a for a, _ in inner] if action == "same" and what != "eq" else [])]:
                        if other is not got:
                            raise Violation(f"{where}: two objects for one expression", expr=repr(got))
                    del other
                c22.census(where)
                rec.outcome([what, name, existing, action, k])
                del inner, held, got, act
                if k > 3000:
                    raise AssertionError("too many calls")
            rec.sample([what, name, existing, action, k - 1])
    c22.audit(f"{what} of values that use the library")
