"""C17: SymPy conversion round-trips and keeps the meaning."""
from itertools import product

from mc import terms as T
from mc.framework import Violation
from mc.terms import ADD, COS, F, I, LIST, MUL, POW, S, SIN, W

LEVEL = "model_checking"
RULE = (
    "states: expression DAGs and the SymPy expressions they evaluate to; transitions: conversions on the real code; traces: conversions equal to what SymPy "
    "builds bottom up from the same operations, SymPy expressions that come back equal (or are refused with NotImplementedError if a node is outside the "
    "supported set), with an expression of the same value in between"
)
ASSUMPTIONS = [
    "SymPy's own automatic evaluation is trusted; a SymPy expression that changes when it is rebuilt from its own parts counts as not automatically evaluated",
    "an expression that SymPy itself cannot build (sine of a tuple, wrong number of operands) may be refused with any exception",
    "nesting beyond SymPy's own recursion is not covered",
]
x, y, z, f, g = S("x"), S("y"), S("z"), F("f"), F("g")
ENV = {x: 3, y: 5, z: 7}
BUILTIN = ("Add", "Mul", "pow", "sin", "cos", "List")


def bounds(tier):
    deep = tier == "thorough"
    return (
        f"all DAGs with <= 3 compounds of Add2, Mul2, pow, sin over x, y, 2{', -1' * deep}, <= 2 of them over x, y, -1, 0, 1, 2, <= 4 over x, <= 2 of Add0..3, Mul0..3, "
        f"cos, List0..2, f0..2 over x, 2, and <= {3 + deep} of Add2, Mul2, pow, sin, f1 over x, -1; every class of unsupported SymPy node alone and at every argument "
        "position; all 2x2 matrices over 7 entries, all shapes 0..3 x 0..3 with every zero pattern up to 6 entries in 4 matrix kinds; integers 2^0..2^200 and "
        "neighbours; 40 names; sharing and nesting families; sums, products and matrices of hundreds of operands and entries"
    )


def prepare(tier):
    global CAS, sc, sp, AppliedUndef, to_sympy, from_sympy, POOL, NODES
    import protosym.simplecas as sc_
    import sympy as sp_
    from sympy.core.function import AppliedUndef as AU

    from protosym.simplecas import sympy_conversions as conv

    sc, sp, AppliedUndef = sc_, sp_, AU
    to_sympy, from_sympy = conv.to_sympy, conv.from_sympy
    CAS = T.Cas()
    pool = {}
    deep = tier == "thorough"
    arith = [(ADD, 2), (MUL, 2), (POW, 2), (SIN, 1)]
    nary = [(h, n) for h in (ADD, MUL) for n in range(4)] + [(COS, 1)] + [(h, n) for h in (LIST, f) for n in range(3)]
    for leaves, ops, k in [
        ([x, y, I(2), I(-1)] if deep else [x, I(2), y], arith, 3),
        ([x, y, I(2), I(-1), I(0), I(1)], arith, 2),
        ([x, I(2)], nary, 2),
        ([x, I(-1)], [*arith, (f, 1)], 4 if deep else 3),
        ([x], arith, 4),
    ]:
        for t in T.flat(T.dag_terms(leaves, ops, k)):
            pool[t] = None
    POOL = list(pool)
    NODES = unsupported()


def cases(tier):
    for i in range(0, len(POOL), 100):
        yield ["pool", i]
    for i in range(len(NODES)):
        yield ["unsupported", i]
    yield ["symbols"]
    yield ["heads"]
    yield ["integers"]
    yield ["names"]
    for n in range(1, 61):
        yield ["family", n]
    for i in range(7):
        yield ["entries", i]
    for r in range(4):
        for c in range(4):
            yield ["shapes", r, c]
    for i in range(6):
        yield ["large", i]
    yield ["history"]


# ------------------------------------------------------------------ oracle


def build(t, memo):
    """What SymPy builds from the operations of a term."""
    r = memo.get(t)
    if r is None:
        if t[0] == "@":
            h = t[1]
            args = [build(a, memo) for a in t[2:]]
            if h[0] != "F":
                raise ValueError("not a function")
            fn = {ADD: sp.Add, MUL: sp.Mul, POW: sp.Pow, SIN: sp.sin, COS: sp.cos, LIST: sp.Tuple}.get(h)
            if fn is None:
                fn = sp.Function(h[1])
            elif h in (SIN, COS) and len(args) != 1 or h == POW and len(args) != 2:
                raise ValueError("wrong number of operands")
            r = fn(*args)
        elif t[0] == "I":
            r = sp.Integer(t[1])
        elif t[0] == "S":
            r = sp.Symbol(t[1])
        else:
            raise ValueError("not representable")
        memo[t] = r
    return r


def plain(s):
    """All nodes are of the supported kinds."""
    for n in sp.preorder_traversal(s):
        if isinstance(n, sp.Integer):
            continue
        if type(n) is sp.Symbol and n == sp.Symbol(n.name):
            continue
        if type(n) in (sp.Add, sp.Mul, sp.Pow, sp.sin, sp.cos, sp.Tuple):
            continue
        if isinstance(n, AppliedUndef) and n.func == sp.Function(n.name) and n.name not in BUILTIN:
            continue
        return False
    return True


def term_of(s, memo):
    """A term of the same meaning as a supported SymPy expression."""
    r = memo.get(s)
    if r is None:
        if isinstance(s, sp.Integer):
            r = I(int(s))
        elif isinstance(s, sp.Symbol):
            r = S(s.name)
        else:
            args = [term_of(a, memo) for a in s.args]
            h = {sp.Add: ADD, sp.Mul: MUL, sp.Pow: POW, sp.sin: SIN, sp.cos: COS, sp.Tuple: LIST}.get(s.func)
            r = T.app(F(s.name) if h is None else h, *args)
        memo[s] = r
    return r


def srepr(s):
    """Exact text (SymPy cannot print sums of tuples)."""
    if isinstance(s, sp.Basic) and s.args and not isinstance(s, (sp.Integer, sp.Symbol)):
        return f"{s.func.__name__}({', '.join(srepr(a) for a in s.args)})"
    return sp.srepr(s)


def settled(s):
    """Automatically evaluated: rebuilding from the parts gives it back."""
    try:
        return build(term_of(s, {}), {}) == s
    except Exception:  # noqa
        return False


def same_value(t, u):
    names = sorted({a for v in (t, u) for a in T.atoms_of(v) if a[0] == "S"})
    env = {a: ENV.get(a, 2 * i + 11) for i, a in enumerate(names)}
    return T.same_value(t, u, env)


def equal(p, q):
    return type(p) is type(q) and p == q


def refused(fn, what, *, errors=NotImplementedError):
    try:
        r = fn()
    except errors:
        return
    except Exception as e:  # noqa
        raise Violation(f"{what}: raised {type(e).__name__}: {e}") from None
    raise Violation(f"{what}: accepted", got=repr(r)[:300])


def check_sympy(s, rec):
    """A SymPy expression comes back equal, or is refused."""
    rec.add("transitions")
    if not plain(s):
        refused(lambda: from_sympy(s), f"from_sympy({srepr(s)[:200]})")
        rec.add("refused")
        return None
    if not settled(s):
        rec.add("not_settled")
        return None
    e = from_sympy(s)
    if not isinstance(e, sc.Expr):
        raise Violation("from_sympy did not give an expression", given=srepr(s), got=repr(e))
    back = to_sympy(e)
    if not equal(back, s):
        raise Violation("does not come back equal", given=srepr(s), expression=repr(e), back=srepr(back))
    got, want = CAS.read(e), term_of(s, {})
    if got != want and same_value(got, want) is False:
        raise Violation("the expression has another value", given=srepr(s), expression=repr(e))
    if sc.Expr.from_sympy(s) is not e or from_sympy(s) is not e:
        raise Violation("converting again gives another expression", given=srepr(s), expression=repr(e))
    rec.add("traces_validated_against_impl")
    return e


def check_term(t, rec):
    """An expression becomes what SymPy builds from the same operations."""
    e = CAS.fresh(t)
    rec.add("states")
    rec.add("transitions")
    try:
        want = build(t, {})
    except Exception:  # noqa - SymPy cannot build it
        refused(lambda: to_sympy(e), f"to_sympy({T.show(t)})", errors=Exception)
        rec.add("refused")
        return
    got = to_sympy(e)
    if not equal(got, want):
        raise Violation("to_sympy gives something else than SymPy builds", expression=T.show(t), got=srepr(got), expected=srepr(want))
    if not equal(e.to_sympy(), want):
        raise Violation("the method gives something else", expression=T.show(t))
    rec.outcome(srepr(want))
    back = check_sympy(want, rec)
    if back is not None:
        same = same_value(CAS.read(back), t)
        if same is False:
            raise Violation("the value changed on the way to SymPy and back", expression=T.show(t), sympy=srepr(want), back=repr(back))
        rec.add("values" if same else "undefined_values")


# ------------------------------------------------------------------- cases


def check_case(case, rec):
    if case[0] == "pool":
        for t in POOL[case[1] : case[1] + 100]:
            try:
                check_term(t, rec)
            except Violation as v:
                v.detail.setdefault("case", ["one", t])
                raise
        if case[1] % 2000 == 0:
            rec.sample(T.show(POOL[case[1]]))
    elif case[0] == "one":
        check_term(T.tup(case[1]), rec)
    else:
        globals()["check_" + case[0]](case, rec)


def unsupported():
    X, Y = sp.symbols("x y")
    n = sp.Symbol("n")
    A, B = sp.MatrixSymbol("A", 2, 2), sp.MatrixSymbol("B", 2, 2)
    fx = sp.Function("f")(X)
    return [
        sp.Rational(1, 2), sp.Rational(-7, 3), sp.Float(2), sp.Float("0.5"), sp.pi, sp.E, sp.I, sp.oo, -sp.oo, sp.zoo, sp.nan, sp.true, sp.false,
        sp.EulerGamma, sp.GoldenRatio, sp.exp(X), sp.log(X), sp.tan(X), sp.sec(X), sp.asin(X), sp.sinh(X), sp.cosh(X), sp.sinc(X), sp.Abs(X), sp.sign(X), sp.sqrt(X),
        sp.re(X), sp.conjugate(X), sp.factorial(X), sp.binomial(X, Y), sp.gamma(X), sp.Mod(X, Y), sp.Max(X, Y), sp.floor(X), sp.Heaviside(X), sp.DiracDelta(X),
        sp.FiniteSet(X, Y), sp.FiniteSet(), sp.Interval(0, 1), sp.S.Reals, sp.S.Integers, sp.EmptySet, sp.Derivative(fx, X), sp.Integral(X, X), sp.Integral(fx, (X, 0, 1)),
        sp.Sum(X, (X, 0, n)), sp.Product(X, (X, 0, n)), sp.Limit(fx, X, 0), sp.Subs(fx, X, 0), sp.Lambda(X, X**2), sp.Eq(X, Y), sp.Lt(X, Y), sp.Ne(X, Y),
        sp.And(sp.Eq(X, Y), X > 0), sp.Not(sp.Eq(X, Y) | (X > 0)), sp.Piecewise((X, X > 0), (Y, True)), sp.ITE(X > 0, sp.true, Y > 0), sp.Poly(X**2 + 1, X),
        sp.CRootOf(X**5 - X - 1, 0), sp.Order(X), sp.UnevaluatedExpr(X), sp.Dict({X: Y}), A, A + B, A * B, A**2, A.T, A.I, A[0, 0], sp.Identity(2), sp.ZeroMatrix(2, 2),
        sp.Trace(A), sp.Determinant(A), sp.HadamardProduct(A, B), sp.ImmutableMatrix([[X, 1]]), sp.Indexed("v", X), sp.IndexedBase("v"), sp.Idx("i"), sp.KroneckerDelta(X, Y),
        sp.LeviCivita(X, Y, 1), sp.besselj(X, Y), sp.hyper([X], [Y], X), sp.polylog(X, Y), sp.zeta(X), sp.erf(X), sp.Function("Add")(X, Y), sp.Function("Mul")(X, Y),
        sp.Function("pow")(X, Y), sp.Function("sin")(X), sp.Function("cos")(X), sp.Function("List")(X), sp.Function("sin")(), sp.Function("Add")(), sp.Function("pow")(X),
        sp.core.symbol.Str("x"), sp.Basic(), sp.Basic(X), sp.Basic(X, Y), sp.Range(3), sp.Mul(sp.Rational(1, 2), X), X + sp.Rational(1, 2), X**sp.Rational(1, 3), X**sp.pi,
        2**sp.Float(0.5), sp.I * X, sp.exp(1), sp.exp(2), sp.exp(X + Y), sp.cot(X), sp.csc(X), sp.acos(X), sp.atan2(X, Y), sp.LambertW(X), sp.cbrt(X), sp.Min(X, Y),
    ]  # fmt: skip


def check_unsupported(case, rec):
    """Every unsupported node is refused, alone and inside anything."""
    s = NODES[case[1]]
    X = sp.Symbol("x")
    if plain(s):
        raise RuntimeError(f"{srepr(s)} is supported")
    rec.add("states")
    rec.outcome(srepr(s))
    fn = sp.Function("g")
    places = [
        lambda u: u, lambda u: sp.Tuple(u), lambda u: sp.Tuple(X, u), lambda u: sp.Tuple(u, X), lambda u: fn(u), lambda u: fn(X, u), lambda u: fn(u, X), lambda u: X + u,
        lambda u: X * u, lambda u: X**u, lambda u: u**X, lambda u: sp.sin(u), lambda u: sp.cos(u), lambda u: sp.Tuple(sp.Tuple(X, fn(X, u)), X), lambda u: sp.Tuple(u, u),
    ]  # fmt: skip
    for i, place in enumerate(places):
        try:
            whole = place(s)
        except Exception:  # noqa - SymPy cannot build it
            continue
        if not isinstance(whole, sp.Basic) or i and plain(whole):
            continue
        if i == 0 or s in sp.preorder_traversal(whole) or not plain(whole):
            for _ in range(2):
                refused(lambda: from_sympy(whole), f"from_sympy({srepr(whole)[:200]})")
                rec.add("transitions")
    # what is refused leaves nothing behind
    check_sympy(sp.Tuple(X, fn(X), X**2), rec)


def check_symbols(case, rec):
    """Symbols that are not plain: refused, or else come back equal."""
    special = [sp.Symbol("x", **{k: v}) for k in ("positive", "real", "integer", "zero", "commutative", "negative", "even", "finite") for v in (True, False)]
    special += [sp.Dummy("x"), sp.Dummy(), sp.Wild("x"), sp.Dummy("x", positive=True), sp.Symbol("x", real=True, positive=True)]
    nc, nd = sp.symbols("p q", commutative=False)
    special += [nc * nd + nd * nc, nc**2 * nd, sp.sin(sp.Symbol("x", positive=True)), sp.Symbol("x", positive=True) + sp.Symbol("x")]
    functions = [sp.Function("f", **kw)(sp.Symbol("x")) for kw in ({"real": True}, {"nargs": 1}, {"positive": True}, {"commutative": False})]
    for s in special + functions:
        rec.add("states")
        rec.add("transitions")
        if plain(s):
            check_sympy(s, rec)
            continue
        try:
            e = from_sympy(s)
        except NotImplementedError:
            continue
        back = to_sympy(e)
        if not equal(back, s):
            kind = "function-assumptions" if s in functions else "symbol-assumptions"
            rec.fail("a symbol or function is altered silently", signature=kind, given=srepr(s), back=srepr(back))
    for name in "xyz":
        check_sympy(sp.Symbol(name), rec)


def check_heads(case, rec):
    """Calls of anything but a function atom, and atoms without a meaning."""
    X, Y, f_ = CAS.build(x), CAS.build(y), CAS.build(f)
    heads = [f_(X), X, sc.Integer(1), sc.List()(), sc.sin(X), X + Y, sc.Expr.new_wild("w"), f_()(), f_(X)(Y), sc.Add(X, Y), sc.List(f_)]
    for h in heads:
        for args in ((), (X,), (X, Y), (sc.Integer(2),)):
            e = h(*args)
            for whole in (e, sc.sin(e), X + e, sc.List(X, e), f_(e), e**2):
                rec.add("states")
                rec.add("transitions")
                refused(lambda: to_sympy(whole), f"to_sympy({whole!r})")
    for t in (W("a"), T.add(x, W("a")), T.app(f, W("b"), x), T.lst(W("a"))):
        e = CAS.build(t)
        rec.add("transitions")
        refused(lambda: to_sympy(e), f"to_sympy({e!r})", errors=Exception)
    for n in range(4):
        for h in (SIN, COS, POW):
            check_term(T.app(h, *[x, y, z][:n]), rec)


def check_integers(case, rec):
    for k in range(201):
        for d in (-1, 0, 1):
            for sign in (1, -1):
                n = sign * 2**k + d
                s = to_sympy(sc.Integer(n))
                if not isinstance(s, sp.Integer) or int(s) != n:
                    raise Violation("wrong integer", given=n, got=srepr(s))
                e = from_sympy(sp.Integer(n))
                if e is not sc.Integer(n):
                    raise Violation("wrong integer back", given=n, got=repr(e))
                rec.add("states")
                rec.add("transitions", 2)
        for t in (T.mul(I(2**k), x), T.add(x, I(-(2**k))), T.pow_(x, I(2**k))):
            check_term(t, rec)
    for n in range(-30, 31):
        for m in range(-4, 5):
            for t in (T.mul(I(n), T.pow_(x, I(m))), T.add(T.mul(I(n), x), I(m)), T.pow_(T.add(x, I(n)), I(m)), T.lst(I(n), I(m)), T.pow_(I(n), T.mul(I(m), x))):
                check_term(t, rec)


NAMES = [
    "x", "x0", "x_1", "alpha", "lambda", "E", "I", "pi", "S", "N", "O", "Q", "oo", "Add", "Mul", "pow", "Pow", "sin", "cos", "List", "Tuple", "Symbol", "Integer", "exp",
    "x y", "1", "-1", "x+y", "", "é", "f", "f(x)", "x,y", "a:3", "None", "zoo", "nan", "'q'", "\n", "_x",
]  # fmt: skip


def check_names(case, rec):
    for name in NAMES:
        s = to_sympy(sc.Symbol(name))
        if type(s) is not sp.Symbol or s.name != name or s != sp.Symbol(name):
            raise Violation("wrong symbol", given=name, got=srepr(s))
        if from_sympy(sp.Symbol(name)) is not sc.Symbol(name):
            raise Violation("wrong symbol back", given=name)
        rec.add("states")
        rec.add("transitions", 2)
        for t in (T.add(S(name), I(1)), T.lst(S(name), x), T.sin(S(name)), T.app(f, S(name)), T.pow_(S(name), x)):
            check_term(t, rec)
        if name not in BUILTIN:
            for n in range(4):
                h = F(name)
                args = [x, y, S(name)][:n]
                check_term(T.app(h, *args), rec)
                check_term(T.app(h, T.app(h, *args), x), rec)
                check_sympy(sp.Function(name)(*[sp.Symbol(a[1]) for a in args]), rec)
    for p, q in product(NAMES[:12], repeat=2):
        check_term(T.lst(S(p), S(q), T.app(F("h" + p), S(q))), rec)


def check_large(case, rec):
    """Large matrices whose entries repeat, and many operands."""
    r, c = ((21, 21), (26, 40), (1, 500), (450, 1), (33, 33), (2, 1030))[case[1]]
    X, Y, F_ = sp.Symbol("x"), sp.Symbol("y"), sp.Function("f")
    for entry in (
        lambda i, j: sp.Integer(i + j), lambda i, j: X if (i + j) % 3 == 0 else sp.Integer(0), lambda i, j: sp.Symbol(f"e{i}_{j}"),
        lambda i, j: X + i if j % 2 else Y * j, lambda i, j: F_(X, sp.Integer((i * c + j) % 7)), lambda i, j: sp.Integer(1) if (i, j) == (r - 1, c - 1) else sp.Integer(0),
    ):  # fmt: skip
        check_matrix(sp.Matrix(r, c, entry), rec, ("Matrix", "ImmutableMatrix", "SparseMatrix"))
        rec.add("states")
    n = (100, 260, 520, 1030, 2060, 150)[case[1]]
    for op in (ADD, MUL, f, LIST):
        check_term(("@", op, *[S(f"s{i}") for i in range(n)]), rec)
        check_term(("@", op, *[x, y, I(2)] * (n // 3)), rec)
    check_term(T.lst(*[T.app((f, ADD, MUL)[i % 3], S(f"s{i % 10}"), I(i)) for i in range(n)]), rec)


def check_family(case, rec):
    n = case[1]
    for op in (ADD, MUL, f, LIST):
        check_term(("@", op, *[x, y, I(2)] * n), rec)
        check_term(("@", op, *[S(f"s{i}") for i in range(n)]), rec)
    if n <= 12:
        for op in (ADD, MUL, f, LIST):
            check_term(T.doubling(op, x, n), rec)
            check_term(T.doubling(op, T.add(x, y), n), rec)
    if n <= 6:
        check_term(T.doubling(POW, x, n), rec)
    for step in (
        lambda t: T.app(f, t), T.sin, lambda t: T.sin(T.cos(t)), lambda t: T.add(T.app(f, t), x), lambda t: T.pow_(t, x), lambda t: T.lst(t, x), lambda t: T.pow_(T.add(t, x), I(2)),
    ):  # fmt: skip
        if n <= 30:
            check_term(T.deep(step, x, n), rec)


def check_matrix(sm, rec, kinds=("Matrix",)):
    """A SymPy matrix comes back equal with the same shape."""
    for kind in kinds:
        given = getattr(sp, kind)(sm)
        copy = given.copy()
        supported = all(plain(e) for e in given)
        rec.add("transitions")
        if not supported:
            refused(lambda: sc.Matrix.from_sympy(given), f"from_sympy of {given!r}")
            continue
        if not all(settled(e) for e in given):
            continue
        m = sc.Matrix.from_sympy(given)
        if m.shape != given.shape:
            raise Violation("wrong shape", given=repr(given), got=list(m.shape))
        back = m.to_sympy()
        if given != copy:
            raise Violation("the SymPy matrix was changed", given=repr(copy), now=repr(given))
        if back.shape != given.shape or not (back == given):
            raise Violation("the matrix does not come back equal", given=repr(given), back=repr(back))
        for i in range(given.rows):
            for j in range(given.cols):
                if m[i, j] is not from_sympy(given[i, j]):
                    raise Violation("wrong entry", given=repr(given), position=[i, j], got=repr(m[i, j]))
                if not equal(back[i, j], given[i, j]):
                    raise Violation("an entry does not come back equal", given=repr(given), position=[i, j], back=repr(back[i, j]))
        again = m.to_sympy()
        if back.rows and back.cols:
            back[0, 0] = sp.Symbol("changed")
        if again != given or m.to_sympy() != given:
            raise Violation("changing the result changes later conversions", given=repr(given))
        rec.add("traces_validated_against_impl")
    rec.add("states")


KINDS = ("Matrix", "ImmutableMatrix", "SparseMatrix", "ImmutableSparseMatrix")


def check_entries(case, rec):
    X, Y = sp.symbols("x y")
    pool = [sp.Integer(0), sp.Integer(1), X, X + Y, sp.sin(X) * Y**-2, sp.Function("f")(X), sp.Rational(1, 2)]
    for rest in product(pool, repeat=3):
        check_matrix(sp.Matrix(2, 2, [pool[case[1]], *rest]), rec, KINDS if rest[0] is rest[1] else KINDS[:1])
    rec.outcome(case)


def check_shapes(case, rec):
    _, r, c = case
    n = r * c
    for mask in range(1 << min(n, 6)):
        entries = [sp.Symbol(f"e{k}") ** (k + 1) if mask >> (k % 6) & 1 else sp.Integer(0) for k in range(n)]
        check_matrix(sp.Matrix(r, c, entries), rec, KINDS)
        if n:
            # from protosym and back, for any storage order
            A = sc.Matrix([[from_sympy(entries[i * c + j]) for j in range(c)] for i in range(r)])
            B = sc.Matrix([[sc.Integer(0) if (i + j) % 2 else sc.Symbol("q") for j in range(c)] for i in range(r)])
            for m in (A, A + B, B + A, A + A):
                sm = m.to_sympy()
                if sm.shape != m.shape:
                    raise Violation("wrong shape", matrix=repr(m), got=list(sm.shape))
                for i in range(r):
                    for j in range(c):
                        if not equal(sm[i, j], to_sympy(m[i, j])):
                            raise Violation("wrong entry of to_sympy", matrix=repr(m), position=[i, j], got=srepr(sm[i, j]))
                rec.add("transitions")
    rec.outcome(case)


def check_history(case, rec):
    """Conversions do not depend on what was converted before."""
    X = sp.Symbol("x")
    items = [
        X, sp.Integer(1), sp.Tuple(), sp.Function("f")(), sp.Function("f")(X), sp.sin(X), X + 1, 2 * X, sp.Tuple(X, 1), sp.Rational(1, 2), sp.pi, sp.Tuple(X, sp.pi),
        sp.Function("x")(X), sp.Function("Add")(X, 1),
    ]  # fmt: skip
    for triple in product(range(len(items)), repeat=3):
        for i in triple:
            check_sympy(items[i], rec)
        rec.add("states")
