"""C10: derivatives are mathematically correct."""
import functools
import math
from itertools import product

from mc import terms as T
from mc.terms import F, I, S, ADD, MUL, POW, SIN, COS, LIST

LEVEL = "model_checking"
RULE = (
    "states: (expression DAG, symbol, order) triples; transitions: differentiations on the real code; traces: derivatives whose exact value (rational "
    "arithmetic, sine and cosine as independent opaque functions) equals that of the textbook derivative at every point where both are defined"
)
ASSUMPTIONS = [
    "two expressions with equal exact values at three generic points and at zero are equal functions (sine, cosine and non-integer powers are then arbitrary "
    "functions with pseudo-random rational values, so identities between them are not used; a difference is reported only if 60 digit values differ too)",
]
x, y, z = S("x"), S("y"), S("z")
f, g = F("f"), F("g")
POINTS = [{x: 3, y: -2, z: 5}, {x: -7, y: 4, z: 2}, {x: 2, y: 3, z: -3}, {x: 0, y: 1, z: 0}]


# expressions that are differentiated up to ten (six) times
LINEAR = [x, T.mul(I(2), x), T.add(x, I(1))]
HIGH = [T.app(h, u) for h in (SIN, COS) for u in (*LINEAR, T.mul(x, y), T.mul(I(-1), x))] + [T.mul(x, x), T.pow_(x, I(3))]
HIGH += [T.app(h, u) for h in (SIN, COS) for u in (T.mul(x, x), T.pow_(x, I(2)), T.app(SIN, x), T.app(COS, T.mul(I(2), x)))]
HIGH += [T.pow_(T.app(SIN, x), I(2)), T.pow_(x, I(-1)), T.pow_(T.mul(I(2), x), I(4)), T.mul(T.app(SIN, x), T.app(COS, x)), T.add(T.app(SIN, T.mul(I(2), x)), T.app(COS, T.mul(I(3), x)))]


def bounds(tier):
    k = 4 if tier == "thorough" else 3
    return (
        f"all DAGs with <= {k} compounds of Add, Mul, pow, sin, cos over x, 2 and with <= {k - 1} over x, y, -1, 0, 3, with lists (of lists) of them; "
        "orders 0..3, mixed second derivatives; sums and products of every arity 1..8 with every subset of dependent operands, up to 60 operands "
        "with one or all; powers with integer exponents -12..12 and symbolic ones; nesting to depth 60; {len(LIKE)} symbols with the text of an integer, operator or expression; orders 0..10 of 25 expressions, 0..40 to 0..300 of {len(ORDERS)}; all sums and products of <= {k} out of 10 operands that cancel, repeat or invert each other (and of one more out of <= 3); unsupported heads at every position"
    )


def prepare(tier):
    global CAS, POOL
    CAS = T.Cas()
    k = 4 if tier == "thorough" else 3
    pool = {}
    heads = [(ADD, 2), (MUL, 2), (POW, 2), (SIN, 1), (COS, 1)]
    for i, level in enumerate(T.dag_terms([x, I(2)], heads, 3)):
        for t in level:
            pool[t] = 3 if i <= 2 else 1
    for i, level in enumerate(T.dag_terms([x, y, I(-1), I(0), I(3)], heads, 2)):
        for t in level:
            pool.setdefault(t, 2)
    for i, level in enumerate(T.dag_terms([x, y], [(ADD, 2), (MUL, 2), (LIST, 2), (SIN, 1)], 2)):
        for t in level:
            if well_formed(t):
                pool.setdefault(t, 2)
    for level in T.dag_terms([x, y, I(2)], [(ADD, 3), (MUL, 3), (SIN, 1), (ADD, 1), (MUL, 1)], 2):
        for t in level:
            pool.setdefault(t, 2)
    for level in T.dag_terms([x, I(2)], [(ADD, 2), (MUL, 2), (POW, 2), (f, 1), (SIN, 1)], 3 if tier == "thorough" else 2):
        for t in level:
            pool.setdefault(t, 1)
    if tier == "thorough":
        for t in T.dag_terms([x], heads, 4)[4]:
            pool.setdefault(t, 1)
        for t in T.dag_terms([x, y, I(-1)], heads, 3)[3]:
            pool.setdefault(t, 1)
    POOL = list(pool.items())


def well_formed(t, top=True):
    """Lists are lists of numbers or lists: they are not added or multiplied."""
    if t[0] != "@":
        return True
    if t[1] == LIST and not top:
        return False
    return all(well_formed(a, top and t[1] == LIST) for a in t[2:])


def cases(tier):
    for i in range(0, len(POOL), 100):
        yield ["pool", i]
    for n in range(1, 9):
        for mask in range(1 << n):
            yield ["operands", n, mask]
    for n in range(9, 61):
        for which in ("first", "last", "middle", "all"):
            yield ["wide", n, which]
    for n in range(-12, 13):
        yield ["power", n]
    for n in range(61):
        yield ["deep", n]
    for n in range(len(HIGH)):
        yield ["high", n]
    for n in range(len(ORDERS)):
        yield ["orders", n]
    for n in range(len(LIKE)):
        yield ["like", n]
    for i in range(len(OPPOSITE)):
        yield ["opposite", 4 if tier == "thorough" else 3, i]


def check(t, s, order, rec, case, points=POINTS):
    """Compare the derivative of the given order; returns it as a term."""
    sc_s = CAS.build(s)
    expr = CAS.build(t)
    rec.add("states")
    want = t
    try:
        for _ in range(order):
            want = T.derive(want, s)
    except T.Unsupported:
        if order != 1:
            return None
        rec.add("transitions")
        rec.add("traces_validated_against_impl")
        try:
            got = expr.diff(sc_s)
        except Exception:
            return None
        rec.fail(f"d/d{T.show(s)} of {T.show(t)} gave {got} although a rule is missing", case=case)
    runs = {"diff": lambda: expr.diff(sc_s, order)}
    if order == 1:
        runs["default"] = lambda: expr.diff(sc_s)
        runs["operator"] = lambda: CAS.sc.diff(expr, sc_s)
    else:
        runs["operator"] = lambda: CAS.sc.diff(expr, sc_s, order)
    results = []
    for name, run in runs.items():
        rec.add("transitions")
        try:
            results.append(run())
        except Exception:
            if order > 1:  # an intermediate derivative may hide a missing rule
                return None
            raise
    if any(r is not results[0] for r in results):
        rec.fail(f"ways to differentiate {T.show(t)} disagree", case=case)
    got = CAS.read(results[0])
    defined = 0
    for env in points:
        same = T.same_value(got, want, env)
        if same is False:
            rec.fail(
                f"derivative {order} of {T.show(t)} by {T.show(s)} is {str(results[0])[:300]}: {T.value(got, env)} instead of {T.value(want, env)} at "
                f"{[int(v) for v in env.values()]}",
                case=case,
            )
        defined += same is not None
    rec.add("points_compared", defined)
    rec.add("traces_validated_against_impl")
    rec.outcome(T.value(got, points[0]) if defined else None) if defined == len(points) else None
    return got


def check_case(case, rec):
    kind = case[0]
    if kind == "pool":
        for t, orders in POOL[case[1] : case[1] + 100]:
            one = ["pool", case[1], T.show(t)]
            for s in (x, y, z):
                for order in range(0, orders + 1):
                    if s == z and order != 1:
                        continue
                    check(t, s, order, rec, one)
            if orders >= 2:
                for s, u in ((x, y), (y, x)):
                    first = check(t, s, 1, rec, one)
                    if first is not None:
                        mixed(t, s, u, rec, one)
        rec.sample(T.show(t))
    elif kind == "operands":
        operands(case[1], case[2], rec, case)
    elif kind == "wide":
        n, which = case[1], case[2]
        dep = {"first": {0}, "last": {n - 1}, "middle": {n // 2}, "all": set(range(n))}[which]
        args = [T.sin(T.mul(x, I(i + 1))) if i in dep else I(i % 5 + 2) for i in range(n)]
        for h in (ADD, MUL):
            check(T.app(h, *args), x, 1, rec, case, POINTS[:2])
            check(T.app(h, *[x if i in dep else y for i in range(n)]), x, 1, rec, case, POINTS[:2])
            check(T.app(h, *[x if i in dep else S(f"w{i}") for i in range(n)]), z, 1, rec, case, []) if which == "all" else None
    elif kind == "like":
        like(LIKE[case[1]], rec, case)
    elif kind == "opposite":
        opposite(case[1], OPPOSITE[case[2]], rec, case)
    elif kind == "orders":
        far(*ORDERS[case[1]], rec, case)
    elif kind == "high":
        high(HIGH[case[1]], rec, case)
    elif kind == "power":
        n = case[1]
        for base in (x, T.add(x, I(1)), T.mul(I(2), x), T.sin(x), T.pow_(x, I(2)), y, I(3)):
            for order in (1, 2, 3):
                check(T.pow_(base, I(n)), x, order, rec, case)
            check(T.mul(T.pow_(base, I(n)), x), x, 2, rec, case)
        for e in (y, T.mul(y, I(n)), T.add(y, I(n)), T.pow_(I(2), I(abs(n))), T.add(z, y)):
            check(T.pow_(x, e), x, 1, rec, case)
            check(T.pow_(x, e), x, 2, rec, case)
            check(T.pow_(x, e), y, 1, rec, case)
            check(T.pow_(T.add(x, y), T.mul(e, z)), x, 1, rec, case)
    else:
        n = case[1]
        shapes = [x, T.sin(x), T.add(x, I(2))]
        for _ in range(n):
            shapes[0] = T.sin(T.mul(I(2), shapes[0]))
            shapes[1] = T.add(T.mul(shapes[1], y), x)
            shapes[2] = T.cos(shapes[2])
        for t in shapes:
            check(t, x, 1, rec, case, POINTS[:2])


def series(t, env, s, n):
    """The first n + 1 coefficients of the power series of t around the point."""
    if t[0] == "I":
        return [float(t[1])] + [0.0] * n
    if t[0] != "@":
        return [env[t], float(t == s)][: n + 1] + [0.0] * (n - 1)
    args = [series(u, env, s, n) for u in t[2:]]

    def times(p, q):
        return [math.fsum(p[i] * q[k - i] for i in range(k + 1)) for k in range(n + 1)]

    if t[1] == ADD:
        return [math.fsum(c) for c in zip(*args)]
    if t[1] == MUL:
        return functools.reduce(times, args)
    if t[1] == POW:
        (p, q), k = args, t[3][1]
        if k < 0:  # 1 / p
            inverse = [1 / p[0]]
            for i in range(1, n + 1):
                inverse.append(-math.fsum(p[j] * inverse[i - j] for j in range(1, i + 1)) / p[0])
            p, k = inverse, -k
        return functools.reduce(times, [p] * k, [1.0] + [0.0] * n)
    # sine and cosine together
    (p,) = args
    sine, cosine = [math.sin(p[0])], [math.cos(p[0])]
    for k in range(1, n + 1):
        sine.append(math.fsum(i * p[i] * cosine[k - i] for i in range(1, k + 1)) / k)
        cosine.append(-math.fsum(i * p[i] * sine[k - i] for i in range(1, k + 1)) / k)
    return sine if t[1] == SIN else cosine


def high(t, rec, case):
    """Derivatives of high orders, compared with power series."""
    sc = CAS.sc
    top = 10
    for s in (x, y):
        for point in ({x: 0.375, y: 0.75}, {x: -1.25, y: 0.5}):
            values = {CAS.build(v): value for v, value in point.items()}
            coefficients = series(t, point, s, top)
            step = CAS.build(t)
            for order in range(top + 1):
                want = coefficients[order] * math.factorial(order)
                for name, got in (
                    ("diff", CAS.build(t).diff(CAS.build(s), order)),
                    ("diff()", sc.diff(CAS.build(t), CAS.build(s), order)),
                    ("repeated", step),
                ):
                    value = got.eval_f64(values)
                    rec.add("states")
                    rec.add("transitions")
                    rec.add("traces_validated_against_impl")
                    if not abs(value - want) <= 1e-6 * max(1.0, abs(want), *(abs(c) * math.factorial(i) for i, c in enumerate(coefficients[: order + 1]))):
                        rec.fail(f"{name}: derivative {order} of {T.show(t)} by {T.show(s)} is {value} instead of {want} at {point}", case=case)
                step = step.diff(CAS.build(s))
            rec.outcome([T.show(t), want])


def falling(n, k):
    """n * (n - 1) * ... of k factors, times a power of the point 2."""
    return math.prod(n - i for i in range(k)) * 2.0 ** (n - k)


# expression, the highest order, its derivatives by x at (2, 0.5)
ORDERS = [
    (T.sin(x), 300, lambda k: math.sin(2 + k * math.pi / 2)),
    (T.cos(x), 300, lambda k: math.cos(2 + k * math.pi / 2)),
    (T.add(T.sin(x), T.mul(y, T.cos(x))), 100, lambda k: math.sin(2 + k * math.pi / 2) + 0.5 * math.cos(2 + k * math.pi / 2)),
    (T.pow_(x, I(40)), 40, lambda k: falling(40, k)),
    (T.pow_(x, I(-1)), 40, lambda k: falling(-1, k)),
    (T.pow_(x, T.mul(I(-3), y)), 40, lambda k: falling(-1.5, k)),
    (T.mul(y, x), 100, lambda k: [1.0, 0.5, 0.0][min(k, 2)]),
    (T.mul(T.sin(x), y, T.cos(y)), 100, lambda k: math.sin(2 + k * math.pi / 2) * 0.5 * math.cos(0.5)),
]


def far(t, top, want, rec, case):
    """Orders far beyond any that a limit or a cycle would allow for."""
    e, values = CAS.build(t), {CAS.build(x): 2.0, CAS.build(y): 0.5}
    X = CAS.build(x)
    step = e
    for k in range(top + 1):
        results = [("repeated", step)]
        if k < 70 or k % 13 == 0:
            results += [("diff", e.diff(X, k)), ("diff()", CAS.sc.diff(e, X, k))]
        for name, got in results:
            value = got.eval_f64(values)
            rec.add("states")
            rec.add("transitions")
            rec.add("traces_validated_against_impl")
            if not abs(value - want(k)) <= 1e-9 * max(1.0, abs(want(k))):
                rec.fail(f"{name}: derivative {k} of {T.show(t)} is {value} instead of {want(k)}", case=case)
        step = step.diff(X)


# symbols that look like something else, with what they look like
LIKE = [
    ("2", I(2)), ("-1", I(-1)), ("0", I(0)), ("1", I(1)), ("10", I(10)), ("sin", T.app(SIN, y)), ("sin(x)", T.app(SIN, x)), ("x**2", T.pow_(x, I(2))),
    ("(x**2)", T.pow_(x, I(2))), ("(x + y)", T.add(x, y)), ("x + y", T.add(x, y)), ("(x*y)", T.mul(x, y)), ("x ", x), ("X", x), ("Add", T.add(x, y)), ("Mul", T.mul(x, y)),
    ("pow", T.pow_(x, I(2))), ("cos", T.app(COS, x)), ("Add(x, y)", T.add(x, y)), ("", x), ("Symbol(x)", x), ("Integer(2)", I(2)), ("a", x), ("_", x),
    ("Tree(Add)", T.add(x)), ("one", I(1)), ("zero", I(0)), ("f", y), ("diff", y), ("\u0445", x), ("None", y),
]  # fmt: skip


def like(pair, rec, case):
    """Symbols are told apart from whatever has the same text."""
    s, other = S(pair[0]), pair[1]
    points = [{**p, s: v} for p, v in zip(POINTS, (7, -3, 11, 2))]
    for t in (
        other, s, T.mul(other, s), T.add(s, other), T.mul(s, T.add(other, s)), T.pow_(s, I(2)), T.sin(T.mul(other, s)), T.mul(T.sin(s), T.cos(other)), T.pow_(T.add(s, I(2)), I(2)),
        T.add(T.mul(I(2), s), T.pow_(s, I(-1)), x, other), T.mul(T.add(T.sin(other), s), T.add(s, other, y)), T.mul(I(2), I(-1), other, I(0)),
        T.pow_(other, I(2)), T.pow_(T.mul(s, other), I(3)), T.pow_(s, T.add(y, z)), T.sin(T.add(T.pow_(s, I(2)), T.mul(x, y), T.sin(x))), T.lst(s, other, T.mul(s, other)),
    ):  # fmt: skip
        for v in (s, x, y):
            for order in (1, 2):
                check(t, v, order, rec, case, points)


# operands with equal, opposite and inverse derivatives
OPPOSITE = [T.sin(x), T.mul(I(-1), T.sin(x)), T.mul(T.sin(x), I(-1)), x, T.mul(I(-1), x), T.mul(I(2), T.sin(x)), T.cos(x), T.pow_(x, I(-1)), T.pow_(x, I(2)), I(-1)]


def opposite(n, first, rec, case):
    """Sums and products of operands that cancel and repeat each other."""
    for k in range(n + 1):
        for rest in product(OPPOSITE, repeat=k):
            if k > 2 and len({first, *rest}) > 3:
                continue
            for h in (ADD, MUL):
                t = T.app(h, first, *rest)
                check(t, x, 1, rec, case, POINTS[:2])
                if k <= 2:
                    check(t, x, 2, rec, case, POINTS[:2])


def mixed(t, s, u, rec, case):
    expr = CAS.build(t)
    try:
        want = T.derive(T.derive(t, s), u)
    except T.Unsupported:
        return
    try:
        got = CAS.read(expr.diff(CAS.build(s)).diff(CAS.build(u)))
    except Exception:
        return
    rec.add("states")
    rec.add("transitions", 2)
    rec.add("traces_validated_against_impl")
    for env in POINTS:
        if T.same_value(got, want, env) is False:
            rec.fail(f"mixed derivative of {T.show(t)}: {T.show(got)[:200]}", case=case)


def operands(n, mask, rec, case):
    """Every subset of dependent operands of an n-ary sum or product."""
    kinds = [
        [(T.sin(x), T.pow_(x, I(2)), x)[i % 3] if mask >> i & 1 else (y, I(i), T.sin(y))[i % 3] for i in range(n)],
        [x if mask >> i & 1 else y for i in range(n)],
    ]
    for args in kinds:
        for h in (ADD, MUL):
            t = T.app(h, *args)
            check(t, x, 1, rec, case)
            check(T.mul(t, x), x, 1, rec, case)
            if n <= 4:
                check(t, x, 2, rec, case)
                check(T.sin(t), x, 1, rec, case)
                check(T.pow_(t, I(3)), x, 1, rec, case)
    t = T.app(LIST, *kinds[0])
    got = check(t, x, 1, rec, case)
    if got is not None and (got[1] != LIST or len(got) != n + 2):
        rec.fail("the derivative of a list is not the list of derivatives", case=case)
    # a missing rule must be noticed at every position, whatever else is there
    args = list(kinds[1])
    for i in range(n):
        bad = args[:i] + [T.app(f, args[i])] + args[i + 1 :]
        for h in (ADD, MUL, LIST):
            check(T.app(h, *bad), x, 1, rec, case)
        check(T.app(g, *args[: i + 1]), x, 1, rec, case)
