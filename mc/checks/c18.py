"""C18: compiled functions compute the expression."""
from itertools import permutations, product

from mc import terms as T
from mc.framework import Violation, forked
from mc.terms import ADD, COS, F, I, MUL, POW, S, SIN

LEVEL = "model_checking"
RULE = (
    "states: (expression DAG, argument list) pairs and histories of compiling, calling and dropping; transitions: compilations and calls of the compiled code; "
    "traces: compiled functions whose value at every point agrees with the reference value, and refusals of everything that cannot be compiled"
)
ASSUMPTIONS = [
    "values are compared at the listed points, where the reference value exists, is finite and well conditioned, to 1e-9 of the largest intermediate value",
    "the argument list has distinct symbols, and calls have one number per argument",
    "LLVM and libm are trusted",
]
x, y, z, f, g = S("x"), S("y"), S("z"), F("f"), F("g")
POINTS = [(1.5, 2.5), (0.0, 3.0), (-2.0, 3.0), (0.5, -1.0), (3, 2), (-1.25, 0.0), (1e8, 2.0), (1e-9, -2.0)]


def bounds(tier):
    deep = tier == "thorough"
    return (
        f"all DAGs with <= {3 if deep else 2} compounds of Add2, Mul2, pow, sin, cos over x, y, -1, 2 and over x, 0, 1, <= 3 over {'x, y, 2 and <= 4 over ' * deep}x, <= {2 + deep} with Add1..3, "
        "Mul1..3 over x, y, in all orders of [x, y], with an unused argument in every place for a quarter; all pairs of 31 names; infinite, undefined, huge and tiny arguments against float evaluation; unsupported atoms and heads at "
        "every position of all DAGs with <= 2 compounds; integers to 2^1024; arity to 100, depth to 1000, codes of 12000 instructions, 1000 arguments, sharing depth to 100, 0..60 arguments; all histories of "
        f"<= {6 if deep else 5} compile/drop/collect steps over 3 functions, each held function called after every step; up to {3000 if deep else 1000} functions held at once"
    )


def prepare(tier):
    global CAS, sc, POOL, BAD
    import protosym.simplecas as sc_

    sc = sc_
    CAS = T.Cas()
    deep = tier == "thorough"
    arith = [(ADD, 2), (MUL, 2), (POW, 2), (SIN, 1), (COS, 1)]
    nary = [(ADD, 1), (ADD, 2), (ADD, 3), (MUL, 1), (MUL, 2), (MUL, 3)]
    pool = {}
    families = [([x, y, I(-1), I(2)], arith, 2), ([x, I(0), I(1)], arith, 2), ([x], arith[:4], 3), ([x, y], nary, 2)]
    if deep:
        families += [([x, y, I(2)], arith[:4], 3), ([x], arith[:4], 4), ([x], nary, 3), ([x, y, I(-1), I(2)], arith[:4], 3)]
    for leaves, ops, k in families:
        for t in T.flat(T.dag_terms(leaves, ops, k)):
            pool[t] = None
    POOL = list(pool)
    global SMALL
    SMALL = list(T.dag_terms([x, y], arith, 1)[1])
    SMALL += [T.app(ADD, I(2), x), T.app(ADD, x, I(2)), T.app(MUL, I(2), y), T.app(MUL, y, I(2)), T.app(POW, x, I(2)), T.app(POW, I(2), x)]
    bad = {}
    for extra in ([(f, 1)], [(f, 0)], [(F("List"), 1)], [(F("List"), 0)], [(F("Pow"), 2)], [(F("tan"), 1)], [(F("fadd"), 2)], [(f, 2)], [(POW, 3)], [(SIN, 2)], [(SIN, 0)], [(COS, 2)], [(POW, 1)]):
        for t in T.flat(T.dag_terms([x, I(2)], arith[:4] + extra, 2)):
            if any(s[0] == "@" and (s[1], len(s) - 2) == extra[0] for s in T.subterms(t)):
                bad[t] = None
    for leaf in (z, T.W("x"), T.W("w"), f, F("sin"), S("sin"), S("X"), S("")):
        for t in T.flat(T.dag_terms([x, leaf], arith[:4], 2)):
            if leaf in T.subterms(t):
                bad[t] = None
    for t in T.flat(T.dag_terms([x, SIN], [(ADD, 2), (SIN, 1)], 2, compound_heads=True)):
        if any(s[0] == "@" and s[1] not in (ADD, SIN) for s in T.subterms(t)) or SIN in T.subterms(t):
            bad[t] = None
    BAD = list(bad)


STEP = 60


def cases(tier):
    for i in range(0, len(POOL), STEP):
        yield ["pool", i]
    for i in range(0, len(BAD), 400):
        yield ["bad", i]
    for i in range(len(NAMES)):
        yield ["names", i]
    yield ["integers"]
    for n in range(20):
        yield ["family", n]
    for first in product(range(4), repeat=2):
        yield ["history", 6 if tier == "thorough" else 5, *first]
    for n in (520, 1030, 2060, 5000, 12000):
        yield ["long", n]
    yield ["calls"]
    for i in range(len(SMALL)):
        yield ["couples", i]
    for n in (2, 10, 65, 130, 400, 1000) + ((3000,) if tier == "thorough" else ()):
        yield ["many", n]


# ------------------------------------------------------------------ oracle


def check_values(fn, t, order, rec, what):
    hit = 0
    for p in POINTS:
        env = {s: v for s, v in zip((x, y), p)}
        args = [env.get(s, 77.5) for s in order]
        for s, v in zip(order, args):
            env[s] = v
        got = fn(*args)
        if type(got) is not float:
            raise Violation(f"{what} returned {type(got).__name__}", expression=T.show(t))
        try:
            v, scale = T.scaled(t, env)
        except T.Undefined:
            continue
        hit += 1
        rec.add("values")
        if not T.close(got, v, scale):
            raise Violation(f"{what} gives a wrong value", expression=T.show(t), arguments=[s[1] for s in order], point=args, got=got, expected=v)
    return hit


INF, NAN = float("inf"), float("nan")
SPECIAL = [INF, -INF, NAN, -0.0, 0.0, 1e308, -1e308, 5e-324, 1e-200, 1e200, 1.0, -2.0]
SPECIALS = [(a, b) for i, a in enumerate(SPECIAL) for b in SPECIAL[i % 3 :: 3]]


def check_special(fn, t, order, rec):
    """Infinite, undefined, huge and tiny arguments: what evaluation gives, compiled code gives."""
    expr = CAS.build(t)
    names = [CAS.build(s) for s in (x, y)]
    two = y in T.subterms(t)
    for p in SPECIALS if two else [(v, 1.0) for v in SPECIAL]:
        if not special(fn, t, order, expr, names, p):
            continue
        rec.add("values")


def special(fn, t, order, expr, names, p):
    env = {x: p[0], y: p[1]}
    try:
        want = expr.eval_f64(dict(zip(names, p)))
    except (ValueError, OverflowError, ZeroDivisionError):
        return False
    args = [env.get(s, 77.5) for s in order]
    got = fn(*args)
    if want != want:
        ok = got != got
    elif want in (INF, -INF):
        ok = got == want
    else:
        scale = abs(want)
        if all(s[0] != "S" or abs(env.get(s, 0.0)) < INF for s in T.subterms(t)):
            try:
                scale = T.fvalue(t, env)[1]
            except T.Undefined:
                if got == got and got not in (INF, -INF):
                    return False  # badly conditioned: only the kind of value is compared
        ok = T.close(got, want, scale)
    if not ok:
        raise Violation("the compiled function and evaluation differ", expression=T.show(t), arguments=[s[1] for s in order], point=args, got=got, expected=want)
    return True


def compiled(t, order, rec):
    rec.add("transitions")
    return sc.lambdify([CAS.build(s) for s in order], CAS.fresh(t))


def check_term(t, rec, orders):
    rec.add("states")
    for order in orders:
        used = {s for s in T.subterms(t) if s[0] == "S"}
        if not used <= set(order):
            refused(t, order, rec)
            continue
        fn = compiled(t, order, rec)
        check_values(fn, t, order, rec, "the compiled function")
        # longer sums and products are associated in any order
        if order == orders[0] and all(s[0] != "@" or len(s) <= 4 for s in T.subterms(t)) and used <= {x, y}:
            check_special(fn, t, order, rec)
        rec.add("traces_validated_against_impl")
    rec.outcome(T.show(t))


def refused(t, order, rec):
    rec.add("transitions")
    try:
        fn = compiled(t, order, rec)
    except Exception:  # noqa
        rec.add("refused")
        return
    raise Violation("compiled instead of refused", expression=T.show(t), arguments=[s[1] for s in order], got=repr(fn))


# ------------------------------------------------------------------- cases


def check_case(case, rec):
    if case[0] == "one":
        t = T.tup(case[1])
        check_term(t, rec, [[T.tup(s) for s in case[2]]])
        return
    if case[0] == "refuse":
        refused(T.tup(case[1]), [x, y], rec)
        return
    fn = globals()["check_" + case[0]]
    forked(lambda r: fn(case, r), rec)


def check_pool(case, rec):
    for n, t in enumerate(POOL[case[1] : case[1] + STEP]):
        two = y in T.subterms(t)
        if two:
            orders = [[x, y], [y, x]]
        else:
            orders = [[x]] if n % 2 else [[x, y]]
        if n % 4 == 0:
            orders += [[z, x, y], [y, z, x], [x, y, z]] + ([[y], []] if n % 8 else [])
        for order in orders:
            try:
                check_term(t, rec, [order])
            except Violation as v:
                v.detail.setdefault("case", ["one", t, order])
                raise
    if case[1] % (40 * STEP) == 0:
        rec.sample(T.show(POOL[case[1]]))


def check_couples(case, rec):
    """All pairs of small expressions: what is alike is not the same."""
    p = SMALL[case[1]]
    for q in SMALL:
        for t in (T.app(ADD, p, q), T.app(MUL, p, q), T.app(POW, p, q), T.app(ADD, T.app(MUL, I(3), p), q, T.app(SIN, q), T.app(SIN, p)), T.app(POW, T.app(SIN, p), T.app(COS, q))):
            try:
                check_term(t, rec, [[x, y]])
            except Violation as v:
                v.detail.setdefault("case", ["one", t, [x, y]])
                raise


def check_bad(case, rec):
    for t in BAD[case[1] : case[1] + 400]:
        rec.add("states")
        try:
            refused(t, [x, y], rec)
        except Violation as v:
            v.detail.setdefault("case", ["refuse", t])
            raise
    # afterwards compiling still works
    check_term(T.add(x, T.sin(y)), rec, [[x, y]])


NAMES = [
    "x", "y", ".0", ".1", ".2", ".arg0", ".arg1", "arg0", "0", "1", "-1", "0x0", "", " ", "x y", 'x"', '"', "\\", "a\\22", "x\n", "é", "日本", "_out", "double", "jit_func1",
    "%x", "@x", "llvm.sin.f64", "entry", "lambda", "x" * 300,
]  # fmt: skip


def check_names(case, rec):
    """Every pair of names, used in an expression where each matters."""
    p = S(NAMES[case[1]])
    for name in NAMES:
        q = S(name)
        if p == q:
            t, orders = T.add(T.mul(p, I(3)), T.sin(p)), [[p]]
        else:
            t, orders = T.add(T.mul(T.pow_(p, I(2)), I(7)), T.mul(q, T.sin(q), p)), [[p, q], [q, p]]
        for order in orders:
            fn = compiled(t, order, rec)
            for point in ((1.5, 2.25), (-3.0, 0.5)):
                env = dict(zip(order, point))
                v, scale = T.scaled(t, env)
                got = fn(*point[: len(order)])
                if not T.close(got, v, scale):
                    raise Violation("wrong value with these names", names=[s[1] for s in order], got=got, expected=v)
            rec.add("traces_validated_against_impl")
        rec.add("states")
    t = T.add(p, T.mul(S("a"), S("b")))
    for order in permutations([p, S("a"), S("b"), S(".3")]):
        fn = compiled(t, order, rec)
        point = [2.5, -3.0, 0.5, 9.0]
        env = dict(zip(order, point))
        v, scale = T.scaled(t, env)
        if not T.close(fn(*point), v, scale):
            raise Violation("wrong value with these names", names=[s[1] for s in order], got=fn(*point), expected=v)
    rec.outcome(p[1])


def check_integers(case, rec):
    values = sorted({s * (2**k + d) for k in (*range(0, 70), 100, 500, 1000, 1022) for d in (-1, 0, 1) for s in (1, -1)} | {10**k for k in range(0, 309, 7)} | {123456789123456789, 3**200})
    for n in values:
        for t, order in ((I(n), []), (T.mul(I(n), T.pow_(x, I(1))), [x])) if n % 3 == 0 or abs(n) < 100 else ((T.mul(I(n), x), [x]),):
            fn = compiled(t, order, rec)
            for p in ((1.0,), (-0.5,)) if order else ((),):
                got, want = fn(*p), float(n) * (p[0] if p else 1.0)
                if got != want:
                    raise Violation("wrong value of an integer", integer=n, got=got, expected=want)
            rec.add("traces_validated_against_impl")
        rec.add("states")
    for n in (2**1024, -(2**1024), 10**309, 10**5000, -(10**400)):
        for t in (I(n), T.add(x, I(n)), T.pow_(x, I(n))):
            refused(t, [x], rec)
    for n in (-3, -2, -1, 0, 1, 2, 3, 4, 5, 10, 31):
        check_term(T.pow_(x, I(n)), rec, [[x]])
        check_term(T.pow_(I(n), x), rec, [[x]])
        check_term(T.pow_(T.add(x, y), I(n)), rec, [[x, y]])


def check_family(case, rec):
    n = case[1]
    for k in range(5 * n + 1, 5 * n + 6):
        for op in (ADD, MUL):
            check_term(("@", op, *([x, y, I(2)] * k)[:k]), rec, [[x, y]])
            e, v = (sc.Symbol("x") + sc.Symbol("y"), -0.75) if op == ADD else (sc.Symbol("x") * sc.Symbol("y"), -1.0)
            for _ in range(k):
                e, v = (e + e, v + v) if op == ADD else (e * e, v * v)
            got = sc.lambdify([sc.Symbol("y"), sc.Symbol("x")], e)(*((-2.0, 1.25) if op == ADD else (-2.0, 0.5)))
            if abs(got - v) > 1e-9 * abs(v):
                raise Violation("wrong value of a shared expression", sharing=k, got=got, expected=v)
            rec.add("transitions")
            rec.add("states")
        for step in (T.sin, T.cos, lambda t: T.add(t, x), lambda t: T.mul(T.add(t, y), I(2)), lambda t: T.pow_(T.sin(t), I(2))):
            check_term(T.deep(step, x, k), rec, [[x, y]])
    # many arguments, each used once with its own weight
    k = 3 * n
    names = [S(f"v{i}") for i in range(k)]
    for order in (names, names[::-1]):
        t = T.add(I(1), *(T.mul(I(i + 2), s) for i, s in enumerate(names)))
        fn = compiled(t, order, rec)
        point = [0.5 + i for i in range(k)]
        v, scale = T.scaled(t, dict(zip(order, point)))
        if not T.close(fn(*point), v, scale):
            raise Violation("wrong value with many arguments", arguments=k, got=fn(*point), expected=v)
    if n in (4, 9):
        depth = 100 * (n + 1)
        e, v = sc.Symbol("x"), 0.5
        for i in range(depth):
            e, v = sc.sin(e) + i, __import__("math").sin(v) + i
        got = sc.lambdify([sc.Symbol("x")], e)(0.5)
        if abs(got - v) > 1e-6 * abs(v):
            raise Violation("wrong value of a deep expression", depth=depth, got=got, expected=v)
        rec.add("states")


def check_long(case, rec):
    """Code of very many instructions, and very many arguments."""
    import math

    n = case[1]
    X, Y = sc.Symbol("x"), sc.Symbol("y")
    e, v = X, 0.5
    for i in range(n):
        if i % 3:
            e, v = e + (i % 7), v + i % 7
        else:
            e, v = e * Y, v * -1.0
    got = sc.lambdify([X, Y], e)(0.5, -1.0)
    if got != v:
        raise Violation("wrong value of a long chain", operations=n, got=got, expected=v)
    got = sc.lambdify([Y, X], sc.Add(*[sc.Mul(X, i) if i % 2 else Y for i in range(n)]))(2.0, 0.5)
    v = sum(0.5 * i if i % 2 else 2.0 for i in range(n))
    if abs(got - v) > 1e-9 * abs(v):
        raise Violation("wrong value of a wide sum", operands=n, got=got, expected=v)
    if n <= 2060:  # the foreign function interface takes at most 1024 arguments
        names = [sc.Symbol((f"v{i}", f"v {i}", f"{i}")[i % 3]) for i in range(min(n, 1000))]
        for order in (names, names[::-1]):
            values = {s: 0.25 + i for i, s in enumerate(names)}
            got = sc.lambdify(order, sc.Add(*[sc.Mul(s, i) for i, s in enumerate(names)]))(*[values[s] for s in order])
            v = math.fsum(a * i for i, a in enumerate(values.values()))
            if abs(got - v) > 1e-9 * abs(v):
                raise Violation("wrong value with many arguments", arguments=len(names), got=got, expected=v)
    rec.add("states")
    rec.add("transitions", 4)


class Held:
    """A compiled function with its reference."""

    def __init__(self, n):
        X, Y = sc.Symbol("x"), sc.Symbol("y")
        k = n + 2
        if n == 2:
            m = sc.Matrix([[X + k, 0], [Y * X, sc.sin(X) + k]])
            self.fn = sc.lambdify([Y, X], m)
            self.want = lambda a, b: [[b + k, 0.0], [a * b, __import__("math").sin(b) + k]]
            self.matrix = True
        else:
            e = X**2 + k * Y if n == 0 else sc.sin(X) * k + Y
            self.fn = sc.lambdify([X, Y], e)
            self.want = (lambda a, b: a * a + k * b) if n == 0 else (lambda a, b: __import__("math").sin(a) * k + b)
            self.matrix = False

    def check(self, path):
        for p in ((1.5, -2.0), (0.25, 4.0)):
            got, want = self.fn(*p), self.want(*p)
            got = [v for row in got.tolist() for v in row] if self.matrix else [got]
            want = [v for row in want for v in row] if self.matrix else [want]
            if len(got) != len(want) or any(abs(a - b) > 1e-9 * (1 + abs(b)) for a, b in zip(got, want)):
                raise Violation("a held function changed", history=list(path), got=got, expected=want)


def check_history(case, rec):
    """Every history: compile one of three (again), drop one, or collect."""
    import gc

    depth, first = case[1], list(case[2:])
    for rest in product(range(7), repeat=depth - 2):
        steps = first + list(rest)
        held = {}
        ok = True
        for s in steps:  # dropping what is not held is not a step
            if s >= 4 and s - 4 not in held:
                ok = False
                break
            if s < 3:
                held[s] = 1
            elif s >= 4:
                del held[s - 4]
        if not ok or sum(s < 3 for s in steps) < 2:
            continue
        held, path = {}, []
        for s in steps:
            path.append(("compile 0", "compile 1", "compile matrix", "collect", "drop 0", "drop 1", "drop matrix")[s])
            if s < 3:
                old = held.get(s)
                held[s] = Held(s)
                if old is not None:
                    old.check(path)
                rec.add("transitions")
            elif s == 3:
                gc.collect(0)
            else:
                del held[s - 4]
            for h in held.values():
                h.check(path)
        rec.add("states")
        rec.add("traces_validated_against_impl")
        rec.outcome(steps)


def check_many(case, rec):
    """Many functions held at once; a part of them dropped; all others called."""
    import gc
    import math

    n = case[1]
    X, Y = sc.Symbol("x"), sc.Symbol("y")
    held = {}
    for i in range(n):
        if i % 3 == 2:
            held[i] = sc.lambdify([X, Y], sc.Matrix([[X + i, 0], [Y * i, i]]))
        else:
            held[i] = sc.lambdify([X, Y], sc.sin(X) * i + Y if i % 3 else X * Y + i)
        rec.add("transitions")

    def check(i):
        for a, b in ((1.5, -2.0), (0.25, 4.0)):
            got = held[i](a, b)
            want = (a * b + i, math.sin(a) * i + b, [[a + i, 0.0], [b * i, float(i)]])[i % 3]
            if i % 3 == 2:
                ok = got.tolist() == want
            else:
                ok = abs(got - want) <= 1e-9 * (1 + abs(want))
            if not ok:
                raise Violation(f"function {i} of {n} changed", point=[a, b], got=got, expected=want)

    for drop in (None, 2, 3):
        if drop:
            for i in list(held)[1::drop]:
                del held[i]
        gc.collect()
        for i in held:
            check(i)
        rec.add("states")
    for i in range(5):
        sc.lambdify([X], X + i)
        for j in held:
            check(j)
    rec.add("traces_validated_against_impl")


def check_calls(case, rec):
    """The same function called with every kind of number, in every order."""
    X, Y = sc.Symbol("x"), sc.Symbol("y")
    fn = sc.lambdify([X, Y], X * 3 + Y**2)
    kinds = [0, 1, -3, 2.5, True, 10**15, -0.0, 1e300]
    for a, b in product(kinds, repeat=2):
        try:
            want = float(a) * 3 + float(b) ** 2
        except OverflowError:
            continue
        if fn(a, b) != want:
            raise Violation("wrong value", point=[a, b], got=fn(a, b), expected=want)
        rec.add("transitions")
    for bad in ((), (1.0,), ("a", 1.0), (1.0, None), (X, Y), ([1.0], 2.0)):
        try:
            r = fn(*bad)
        except Exception:  # noqa
            continue
        raise Violation("called with unusable arguments", arguments=repr(bad), got=r)
    for wrong in (1, "x", None, X.rep, [X]):
        try:
            r = sc.lambdify([X], wrong)
        except Exception:  # noqa
            continue
        raise Violation("compiled something that is no expression", given=repr(wrong))
    for n in (1.5, 7):
        if fn(n, n) != n * 3 + n * n:
            raise Violation("wrong value after refused calls", got=fn(n, n))
    rec.add("states", len(kinds) ** 2)
