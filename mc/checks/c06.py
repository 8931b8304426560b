"""C06: substitution is simultaneous replacement of whole subexpressions."""
from itertools import permutations

from mc import terms as T
from mc.terms import F, I, S, ADD, MUL, POW, SIN, COS

LEVEL = "model_checking"
RULE = (
    "states: (expression DAG, ordered target list) pairs; transitions: substitutions run on the real code, each with several "
    "replacement tuples, through one reused function object; traces: results compared (as objects) with the recursive definition"
)
ASSUMPTIONS = ["a target list names each target once", "replacements are opaque to substitution, so representative ones suffice"]
f, g, h = F("f"), F("g"), F("h")
x, y, z, p, q, r = S("x"), S("y"), S("z"), S("p"), S("q"), S("r")
gz = T.app(g, z)


def bounds(tier):
    k, n = (5, 3) if tier == "thorough" else (4, 3)
    return (
        f"all DAGs with <= {k} compounds (f/2, g/1) over x, y, with compound heads and f as an argument up to 3, h/3 up to 2, calls without arguments nested in all positions up to 2; every ordered list of <= 2 "
        f"targets ({n} for DAGs with <= 2 compounds) among all subexpressions, heads, the root, an absent atom and an absent compound; "
        "6 replacement tuples each; sums and products of every arity 0..40 with each position replaced; 0..40 parameters; 1..300 symbols, each the value of another, with a third as many compounds and a head; sharing depth 0..120; 130..2060 operands and parameters"
    )


def prepare(tier):
    global CORE, CAS, POOL
    CORE, CAS = T.Core(), T.Cas()
    pool = {}
    for i, level in enumerate(T.dag_terms([x, y], [(f, 2), (g, 1)], 5 if tier == "thorough" else 4)):
        for t in level:
            pool[t] = ("core", i)
    for i, level in enumerate(T.dag_terms([x, f], [(f, 2), (g, 1)], 3, compound_heads=True)):
        for t in level:
            pool.setdefault(t, ("core", i))
    for i, level in enumerate(T.dag_terms([x, y], [(h, 3)], 2)):
        for t in level:
            pool.setdefault(t, ("core", i))
    # calls without arguments, also as heads and operands
    level = [x, f]
    for i in (1, 2, 3) if tier == "thorough" else (1, 2):
        level = [t for c in level for t in (T.app(c), T.app(f, c), T.app(c, x), T.app(f, c, T.app(c)), T.app(T.app(c), c))]
        for t in level:
            pool.setdefault(t, ("core", i))
    cas = {}
    for i, level in enumerate(T.dag_terms([x, I(2)], [(ADD, 2), (POW, 2), (SIN, 1)], 2)):
        for t in level:
            cas[t] = ("cas", i)
    POOL = [(kind, i, t) for t, (kind, i) in pool.items()] + [(kind, i, t) for t, (kind, i) in cas.items()]


def cases(tier):
    for kind, i, t in POOL:
        n = 3 if i <= 2 else 2
        yield [kind, t, n]
    for n in range(41):
        yield ["arity", n]
        yield ["params", n]
    for n in range(121):
        yield ["double", n]
    for n in (*range(1, 70), 100, 128, 130, 256, 300):
        yield ["many", n]
    for n in (130, 260, 520, 1030, 2060):
        yield ["large", n]
    yield ["api"]


def replacement_tuples(targets, t):
    n = len(targets)
    yield (p, q, r)[:n]
    yield targets
    if n > 1:
        yield targets[1:] + targets[:1]
        yield (p, p, p)[:n]
    yield tuple(T.app(g, a) for a in targets)
    yield tuple(T.app(f, a, b) for a, b in zip(targets, targets[::-1]))
    yield (t,) * n


def check_case(case, rec):
    kind = case[0]
    if kind == "api":
        api(rec, case)
        return
    if kind == "large":
        large(case[1], rec, case)
        return
    if kind in ("arity", "params", "double", "many"):
        family(kind, case[1], rec, case)
        return
    for bridge in (CORE, CAS):
        if len(bridge.memo) > 100_000:
            bridge.memo.clear()
    t = T.tup(case[1])
    inside = sorted(T.subterms(t, heads=True), key=repr)
    universe = inside + [z, gz]
    for n in range(case[2] + 1):
        for targets in permutations(universe, n):
            rec.add("states")
            one(kind, t, targets, rec, [kind, t, n])
    rec.sample(f"{T.show(t)}: targets among {len(universe)}")


def one(kind, t, targets, rec, case):
    from protosym.core.tree import SubsFunc

    B = CORE.build if kind == "core" else CAS.build
    expr = B(t)
    real_targets = [B(a) for a in targets]
    if kind == "core":
        given = list(real_targets)
        func = SubsFunc(expr, given)
        calls = {"SubsFunc": lambda reps: func(*reps), "SubsFunc.call": lambda reps: func.call(tuple(reps))}
        if [id(a) for a in given] != [id(a) for a in real_targets]:
            rec.fail("the list of targets was changed", case=case)
    else:
        efunc = expr.as_function(*real_targets)
        calls = {
            "as_function": lambda reps: efunc(*reps),
            "xreplace": lambda reps: expr.xreplace(dict(zip(real_targets, reps))),
        }
    reps_list = list(replacement_tuples(targets, t))
    for reps in reps_list + reps_list[:1]:
        want_term = T.substitute(t, dict(zip(targets, reps)))
        want = B(want_term)
        real = [B(a) for a in reps]
        for name, call in calls.items():
            got = call(real)
            rec.add("transitions")
            rec.add("traces_validated_against_impl")
            if got is not want:
                rec.fail(
                    f"{name}: {T.show(t)} with {[T.show(a) for a in targets]} -> {[T.show(a) for a in reps]} gave {str(got)[:200]}",
                    case=case,
                )
        rec.outcome(hash(want_term))
    for bad in (real_targets + [expr], real_targets[:-1]):
        if len(bad) == len(real_targets):
            continue
        name, call = next(iter(calls.items()))
        try:
            got = call(bad)
        except TypeError:
            continue
        rec.fail(f"{name} with {len(targets)} parameters accepted {len(bad)} arguments: {got}", case=case)


def large(n, rec, case):
    """Many operands, parameters and subexpressions, far beyond any small table."""
    sc = CAS.sc
    rec.add("states")
    xs = [sc.Symbol(f"x{i}") for i in range(n)]
    ys = [sc.Symbol(f"y{i}") for i in range(n)]
    F_ = sc.Function("f")
    for head in (sc.Add, sc.Mul, F_):
        e = head(*xs)
        deep, moved = sc.x, sc.y
        for i in range(n):
            deep = head(deep, xs[i])
            moved = head(moved, ys[i] if i % 2 else xs[i])
        fn = e.as_function(*xs)
        part = [ys[i] if i % 7 == 3 else xs[i] for i in range(n)]
        for name, got, want in (
            ("all parameters", fn(*ys), head(*ys)), ("all parameters reversed", e.as_function(*xs[::-1])(*ys), head(*ys[::-1])), ("moved", fn(*xs[1:], xs[0]), head(*xs[1:], xs[0])),
            ("some", e.xreplace({xs[i]: ys[i] for i in range(3, n, 7)}), head(*part)), ("the last", e.xreplace({xs[-1]: ys[0]}), head(*xs[:-1], ys[0])),
            ("the first", e.xreplace({xs[0]: ys[0]}), head(ys[0], *xs[1:])), ("the head", e.xreplace({head: sc.Function("g")}), sc.Function("g")(*xs)),
            ("one many times", head(*[sc.x, sc.y] * n).xreplace({sc.x: sc.y, sc.y: sc.x}), head(*[sc.y, sc.x] * n)), ("the whole", e.xreplace({e: sc.x, xs[0]: sc.y}), sc.x),
            ("deep", deep.xreplace({sc.x: sc.y, **{xs[i]: ys[i] for i in range(1, n, 2)}}), moved), ("of parts", F_(*[F_(v) for v in xs]).xreplace({F_(v): v for v in xs}), F_(*xs)),
        ):  # fmt: skip
            rec.add("transitions")
            rec.add("traces_validated_against_impl")
            if got is not want:
                rec.fail(f"{n} operands, {name}: wrong result", case=case)
        for bad in (ys[:-1], [*ys, ys[0]], [], ys[: n // 2]):
            try:
                fn(*bad)
            except TypeError:
                continue
            rec.fail(f"a function of {n} parameters accepted {len(bad)} arguments", case=case)


def family(kind, n, rec, case):
    rec.add("states")
    xs = [S(f"x{i}") for i in range(n)]
    if kind == "arity":
        for head in (ADD, MUL, f):
            t = T.app(head, *xs, T.app(SIN, x), *xs[::-1])
            for i in range(n):
                one("cas", t, (xs[i],), rec, case)
                one("cas", t, (T.app(SIN, x), xs[i]), rec, case)
            one("cas", t, (head,), rec, case)
    elif kind == "many":
        # many targets, most of which are values of others
        targets = xs + [T.app(g, v) for v in xs[::3]] + [T.app(f, xs[0], xs[-1]), f]
        t = T.app(ADD, *[T.app(f, v, T.app(g, w)) for v, w in zip(xs, xs[::-1])], T.app(f, xs[0], xs[-1]), *xs)
        expr = CAS.build(t)
        k = len(targets)
        for order in (targets, targets[::-1], targets[1::2] + targets[::2]):
            real = [CAS.build(v) for v in order]
            func = expr.as_function(*real)
            for reps in (order[1:] + order[:1], order[-1:] + order[:-1], order[k // 2 :] + order[: k // 2], order, order[::-1], [xs[0]] * k, [T.app(g, v) for v in order]):
                want = CAS.build(T.substitute(t, dict(zip(order, reps))))
                values = [CAS.build(v) for v in reps]
                if func(*values) is not want or expr.xreplace(dict(zip(real, values))) is not want:
                    rec.fail(f"{k} targets: wrong result", case=case)
                rec.add("transitions", 2)
                rec.add("traces_validated_against_impl")
    elif kind == "params":
        t = x
        for i, v in enumerate(xs):
            t = T.app(ADD, t, T.app(MUL, v, T.app(COS, v))) if i % 2 else T.app(POW, v, t)
        orders = (xs, xs[::-1], xs[1::2] + xs[::2])
        for order in orders:
            expr = CAS.build(t)
            func = expr.as_function(*[CAS.build(v) for v in order])
            for reps in ([I(i) for i in range(n)], order[1:] + order[:1], [T.app(SIN, v) for v in order], [I(i * i) for i in range(n)]):
                want = CAS.build(T.substitute(t, dict(zip(order, reps))))
                if func(*[CAS.build(v) for v in reps]) is not want:
                    rec.fail(f"{n} parameters: wrong result", case=case)
                rec.add("transitions")
                rec.add("traces_validated_against_impl")
    else:
        # Tuples would be exponential here: build both sides as real objects.
        sc = CAS.sc

        def make(start, base, other):
            e = base
            for i in range(start, n):
                e = sc.Mul(e, e) if i % 2 else sc.Add(e, other, e)
            return e

        Z, X, Y = sc.Symbol("z"), sc.x, sc.y
        whole = make(0, X, Y)
        middle = whole
        for _ in range(n // 2):
            middle = middle.args[0]
        half = n - n // 2
        for target, want in ((X, make(0, Z, Y)), (middle, make(half, Z, Y)), (whole, Z), (Z, whole)):
            if whole.xreplace({target: Z if target is not Z else X}) is not want:
                rec.fail(f"sharing depth {n}: wrong result", case=case)
            rec.add("transitions")
            rec.add("traces_validated_against_impl")


def api(rec, case):
    """Integers as targets and values, argument containers, wrong counts."""
    sc = CAS.sc
    X, Y = sc.x, sc.y
    rec.add("states")
    checks = [
        ((X + 1).xreplace({1: 2}), X + 2),
        ((X + 1).xreplace({X: 1, 1: X}), 1 + X),
        ((X + 1).xreplace({}), X + 1),
        ((X**2).xreplace({2: Y, X: 2}), 2**Y),
        (sc.Integer(3).xreplace({3: X}), X),
        (X.xreplace({X: 0}), sc.zero),
        (sc.Add(X, X, 0).xreplace({0: X, X: 0}), sc.Add(0, 0, X)),
        ((X + Y).as_function(X, Y)(Y, 1), Y + 1),
        ((X + Y).as_function(Y, X)(X, 1), 1 + X),
        ((X + 1).as_function()(), X + 1),
        ((X + 1).as_function(1)(10**30), X + 10**30),
        (sc.f(X).xreplace({sc.f: sc.g}), sc.g(X)),
        (sc.f(sc.f)(X).xreplace({sc.f: X, X: sc.f}), X(X)(sc.f)),
        ((X + sc.a).xreplace({sc.a: sc.b}), X + sc.b),
        (sc.a(X).xreplace({sc.a: sc.sin}), sc.sin(X)),
    ]
    for i, (got, want) in enumerate(checks):
        if got is not want:
            rec.fail(f"api example {i}: {got!r} instead of {want!r}", case=case)
        rec.add("transitions")
        rec.add("traces_validated_against_impl")
    reps = {X: Y, Y: X, sc.sin(X): sc.zero}
    before = list(reps.items())
    e = sc.sin(X) + X * Y + sc.sin(Y)
    for _ in range(3):
        if e.xreplace(reps) is not 0 + Y * X + sc.sin(X):
            rec.fail("repeated xreplace differs", case=case)
        if list(reps.items()) != before:
            rec.fail("the dictionary was changed", case=case)
    func = e.as_function(X, Y)
    args = [(1, 2), (2, 1), (X, Y), (Y, X), (e, e), (1, 2), (0, 0)]
    for u, v in args + args[::-1]:
        U, V = sc.expressify(u), sc.expressify(v)
        if func(u, v) is not sc.sin(U) + U * V + sc.sin(V):
            rec.fail(f"function called with {u}, {v}", case=case)
    for n in range(5):
        for m in range(5):
            fn = e.as_function(*[X, Y, sc.a, sc.b][:n])
            try:
                fn(*[sc.zero] * m)
            except TypeError:
                if n == m:
                    raise
            else:
                if n != m:
                    rec.fail(f"{n} parameters, {m} arguments accepted", case=case)
            rec.add("transitions")
