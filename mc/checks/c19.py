"""C19: compiled matrix functions fill every entry correctly."""
from itertools import product

from mc import terms as T
from mc.framework import Violation, forked
from mc.terms import F, I, S

LEVEL = "model_checking"
RULE = (
    "states: matrices (entries, zero pattern, shape, storage order) with an argument list, and histories of calls; transitions: compilations and calls of the "
    "compiled code; traces: returned arrays whose every entry agrees with the reference value of the matrix entry there"
)
ASSUMPTIONS = [
    "values are compared at the listed points, where the reference value exists, is finite and well conditioned, to 1e-9 of the largest intermediate value",
    "the argument list has distinct symbols, and calls have one number per argument",
    "LLVM, libm and NumPy are trusted",
]
x, y, z, f = S("x"), S("y"), S("z"), F("f")
POINTS = [(1.5, 2.5), (0.0, 3.0), (-2.0, 0.75)]
ENTRIES = [I(0), x, y, I(3), T.add(x, y), T.mul(T.sin(x), y), T.pow_(T.add(x, y), I(2)), T.add(x, I(-1))]
# Entries with an own value each, sharing subexpressions
OWN = [
    T.add(x, I(1)), T.mul(T.add(x, I(1)), I(2)), T.sin(T.add(x, I(1))), T.pow_(x, I(2)), T.mul(x, T.pow_(x, I(2))), T.add(y, T.pow_(x, I(2))), x, y, I(11),
]  # fmt: skip


def bounds(tier):
    deep = tier == "thorough"
    return (
        f"all 2x2 matrices over {8 if deep else 6} entries{', all 1x3 and 3x1 over 8' * deep}; all pairs of zero patterns of 2x2, 1x3, 3x1{' and 2x3' * deep} added (every "
        f"storage order they give), in both argument orders; derivatives and SymPy round trips of all zero patterns of 2x3; all shapes to {8 if deep else 6}x{8 if deep else 6}, 11 to 70000 wide or tall; "
        f"uncompilable entries of 12 kinds at every position; 24 argument names; all call histories of <= {5 if deep else 4} calls, writes and collections on two functions"
    )


def prepare(tier):
    global CAS, sc, np
    import numpy

    import protosym.simplecas as sc_
    import sympy  # noqa

    sc, np = sc_, numpy
    CAS = T.Cas()


def cases(tier):
    deep = tier == "thorough"
    n = 8 if deep else 6
    for a, b in product(range(n), repeat=2):
        yield ["grid", 2, 2, n, a, b]
    if deep:
        for a in range(8):
            yield ["grid", 1, 3, 8, a]
            yield ["grid", 3, 1, 8, a]
    for r, c in ((2, 2), (1, 3), (3, 1)) + (((2, 3),) if deep else ()):
        for mask in range(1 << (r * c)):
            yield ["sum", r, c, mask]
    for mask in range(0, 64, 4):
        yield ["derived", mask]
    m = 9 if deep else 7
    for r in range(1, m):
        yield ["shape", r, m - 1]
    yield ["refused"]
    for i in range(len(NAMES)):
        yield ["names", i]
    for first in range(8):
        yield ["history", 5 if deep else 4, first]
    yield ["large"]


# ------------------------------------------------------------------ oracle


def check_array(got, table, env, what):
    """The array has the shape and the value of every entry."""
    r, c = len(table), len(table[0])
    if type(got) is not np.ndarray or got.dtype != np.float64 or got.shape != (r, c):
        raise Violation(f"{what} returned {type(got).__name__} {getattr(got, 'shape', None)} {getattr(got, 'dtype', None)}", expected=[r, c])
    for i in range(r):
        for j in range(c):
            v = float(got[i, j])
            if table[i][j] == I(0):
                if v != 0.0:
                    raise Violation(f"{what}: entry is not zero", position=[i, j], got=v)
                continue
            try:
                want, scale = T.scaled(table[i][j], env)
            except T.Undefined:
                continue
            if not T.close(v, want, scale):
                raise Violation(f"{what}: wrong entry", position=[i, j], entry=T.show(table[i][j]), got=v, expected=want)


def check_matrix(m, table, rec, orders=([x, y], [y, x])):
    """Compile in every argument order and call at every point."""
    rec.add("states")
    for order in orders:
        fn = sc.lambdify([CAS.build(s) for s in order], m)
        rec.add("transitions")
        kept = []
        for p in POINTS:
            env = {x: p[0], y: p[1], z: 55.0}
            got = fn(*[env[s] for s in order])
            check_array(got, table, env, f"arguments {[s[1] for s in order]}")
            kept.append((got, got.copy()))
            rec.add("transitions")
        for got, copy in kept:
            if not np.array_equal(got, copy, equal_nan=True):
                raise Violation("a returned array was changed by a later call", matrix=repr(m))
        for a in range(len(kept)):
            for b in range(a):
                if kept[a][0] is kept[b][0] or np.shares_memory(kept[a][0], kept[b][0]):
                    raise Violation("two calls returned the same array", matrix=repr(m))
        rec.add("traces_validated_against_impl")


def matrix(table):
    return sc.Matrix([[CAS.build(e) for e in row] for row in table])


def read(m):
    """The dense table of terms of a matrix."""
    return [[CAS.read(m[i, j]) for j in range(m.ncols)] for i in range(m.nrows)]


def chop(flat, c):
    return [list(flat[i : i + c]) for i in range(0, len(flat), c)]


# ------------------------------------------------------------------- cases


def check_case(case, rec):
    fn = globals()["check_" + case[0]]
    forked(lambda r: fn(case, r), rec)
    if case[-1] in (1, 3):
        rec.sample(case)


def check_grid(case, rec):
    r, c, n, *first = case[1:]
    for rest in product(range(n), repeat=r * c - len(first)):
        idx = [*first, *rest]
        table = chop([ENTRIES[i] for i in idx], c)
        check_matrix(matrix(table), table, rec, ([x, y],) if sum(idx) % 3 else ([y, x],))
        rec.outcome(idx)


def masked(mask, r, c, entries):
    return chop([entries[k] if mask >> k & 1 else I(0) for k in range(r * c)], c)


def check_sum(case, rec):
    """Every storage order that a sum of two patterns gives."""
    _, r, c, m1 = case
    a = masked(m1, r, c, OWN)
    A = matrix(a)
    for m2 in range(1 << (r * c)):
        B = matrix(masked(m2, r, c, OWN[::-1]))
        C = A + B
        orders = ([x, y], [y, z, x]) if m2 % 2 else ([z, y, x],)
        check_matrix(C, read(C), rec, orders)
        rec.outcome([m1, m2])
    check_matrix(A, a, rec, ([y, x],))


def check_derived(case, rec):
    for mask in range(case[1], case[1] + 4):
        A = matrix(masked(mask, 2, 3, OWN))
        for m in (A.diff(sc.Symbol("x")), A.diff(sc.Symbol("y")), sc.Matrix.from_sympy(A.to_sympy()), A.binop(A, sc.Mul), A.diff(sc.Symbol("x")) + A, A.diff(sc.Symbol("q")), sc.Matrix(A.tolist())):
            check_matrix(m, read(m), rec, ([x, y],))
        rec.outcome(mask)


def check_shape(case, rec):
    """Every shape, with every entry telling its position."""
    _, r, top = case
    for c in range(1, top + 1):
        for kind in range(5):
            def entry(i, j):
                if kind == 1 and (i + j) % 2 or kind == 2 and i != j or kind == 3 and (i, j) != (r - 1, c - 1):
                    return I(0)
                if kind == 4:
                    return T.mul(I(100 * i + j + 1), x)
                return I(100 * i + j + 1)

            table = [[entry(i, j) for j in range(c)] for i in range(r)]
            check_matrix(matrix(table), table, rec, ([], [x]) if kind != 4 else ([x],))
    check_matrix(sc.Matrix([[0] * c for _ in range(r)]), [[I(0)] * c for _ in range(r)], rec, ([], [x, y]))
    fn = sc.lambdify([], sc.Matrix([[]] * r))
    if fn().shape != (r, 0):
        raise Violation("wrong shape of a matrix without columns", got=list(fn().shape))


def check_refused(case, rec):
    bad = [
        T.app(f, x), T.app(f), z, T.W("x"), f, T.lst(x), T.lst(), T.sin(z), T.add(x, T.app(f, y)), T.app(x, y), T.app(T.SIN, x, y), T.pow_(T.lst(x, y), I(2)),
        T.app(T.POW, x, y, x), T.app(F("tan"), x), T.SIN, I(10**400), T.mul(x, I(-(10**310))),
    ]  # fmt: skip
    for e in bad:
        for r, c in ((1, 1), (2, 2), (1, 3), (3, 2)):
            for pos in range(r * c):
                for fill in (I(0), x, T.add(x, y)):
                    table = chop([e if k == pos else fill for k in range(r * c)], c)
                    m = matrix(table)
                    rec.add("states")
                    rec.add("transitions")
                    try:
                        fn = sc.lambdify([CAS.build(x), CAS.build(y)], m)
                    except Exception:  # noqa
                        continue
                    raise Violation("compiled an entry that cannot be compiled", entry=T.show(e), position=pos, got=repr(fn))
    check_matrix(matrix([[x, y]]), [[x, y]], rec)


NAMES = [
    "x", ".0", ".1", ".2", ".3", ".arg0", ".arg1", ".arg2", "arg0", "0", "-1", "", " ", "x y", '"', "\\", "a\\22", "\n", "é", "_out", "double", "jit_func1", "%x", "lambda",
]  # fmt: skip


def check_names(case, rec):
    p = S(NAMES[case[1]])
    for name in NAMES:
        q = S(name)
        order = [p, q] if p != q else [p]
        table = [[T.mul(p, I(2)), I(0)], [T.add(p, q), T.pow_(q, I(2))]]
        for o in (order, order[::-1]):
            fn = sc.lambdify([CAS.build(s) for s in o], matrix(table))
            for point in ((1.5, 2.25), (-3.0, 0.5)):
                check_array(fn(*point[: len(o)]), table, dict(zip(o, point)), f"names {[s[1] for s in o]}")
            rec.add("transitions")
        rec.add("states")
        rec.add("traces_validated_against_impl")
    rec.outcome(NAMES[case[1]])


def check_history(case, rec):
    """Calls of two functions, writes to what they returned, and collection."""
    import gc

    depth, first = case[1:]
    t1 = [[x, I(0)], [T.add(x, y), T.sin(y)]]
    t2 = [[I(0), T.mul(x, y)], [I(7), I(0)]]
    fns = [(sc.lambdify([CAS.build(x), CAS.build(y)], matrix(t1)), t1), (sc.lambdify([CAS.build(y), CAS.build(x)], matrix(t2)), t2)]
    points = [(1.5, 2.5), (-3.0, 0.25)]
    for rest in product(range(8), repeat=depth - 1):
        results = []  # (array, expected content)
        for s in (first, *rest):
            if s < 4:
                fn, table = fns[s // 2]
                px, py = points[s % 2]
                got = fn(px, py) if s // 2 == 0 else fn(py, px)
                check_array(got, table, {x: px, y: py}, f"history {[first, *rest]}")
                if any(got is a or np.shares_memory(got, a) for a, _ in results):
                    raise Violation("a call returned an array again", history=[first, *rest])
                results.append((got, got.copy()))
            elif s == 4 and results:  # the caller changes the last array
                results[-1][0][:] = 99.0
                results[-1] = (results[-1][0], results[-1][0].copy())
            elif s == 5 and results:
                results[0][0][0, 1] = float("nan")
                results[0] = (results[0][0], results[0][0].copy())
            elif s == 6:
                if results:
                    results.pop(0)
            elif s == 7:
                gc.collect(0)
            for a, copy in results:
                if not np.array_equal(a, copy, equal_nan=True):
                    raise Violation("a returned array was changed later", history=[first, *rest])
            rec.add("transitions")
        rec.add("states")
        rec.add("traces_validated_against_impl")


def check_large(case, rec):
    for n in (12, 30):
        for kind in range(3):
            keep = (lambda i, j: True, lambda i, j: i <= j, lambda i, j: (i * j) % 3 == 1)[kind]
            table = [[T.add(T.mul(x, I(i)), T.mul(y, I(j)), T.pow_(T.add(x, I(i)), I(2))) if keep(i, j) else I(0) for j in range(n)] for i in range(n)]
            m = matrix(table)
            check_matrix(m, table, rec)
            s = m + matrix([[I(1) if i == j else I(0) for j in range(n)] for i in range(n)])
            check_matrix(s, read(s), rec, ([x, y],))
    # many calls whose arrays are held, released one by one, and made again
    for r, c in ((16, 16), (17, 16), (30, 30), (2, 257), (1, 600), (1000, 3)):
        table = [[T.add(T.mul(x, I(i + 1)), T.mul(y, I(j))) if (i + j) % 3 else I(0) for j in range(c)] for i in range(r)]
        fn = sc.lambdify([CAS.build(x), CAS.build(y)], matrix(table))
        held = []
        for n in range(40):
            p = (0.5 + n, 3.0 - n)
            got = fn(*p)
            if n < 6:
                check_array(got, table, {x: p[0], y: p[1]}, f"call {n} of a {r}x{c} matrix")
            want = np.array([[p[0] * (i + 1) + p[1] * j if (i + j) % 3 else 0.0 for j in range(c)] for i in range(r)])
            if not np.allclose(got, want, rtol=1e-12, atol=1e-12):
                raise Violation("a later call gives another value", shape=[r, c], call=n)
            if any(got is a or np.shares_memory(got, a) for a, _ in held):
                raise Violation("a call returned an array again", shape=[r, c], call=n)
            held.append((got, want))
            if n > 24:
                del held[n % len(held)]
            if not all(np.allclose(a, w, rtol=1e-12, atol=1e-12) for a, w in held):
                raise Violation("a returned array was changed later", shape=[r, c], call=n)
            del got
            rec.add("transitions")
        rec.add("states")
    # wide and tall
    for r, c in ((1, 255), (2, 256), (2, 257), (3, 300), (300, 2), (257, 3), (2, 1100), (1100, 2), (1, 70000), (2, 66000), (66000, 1)):
        def entry(i, j):
            if r * c < 1000:
                return T.mul(x, I(1 + i * c + j)) if (i * c + j) % 7 else I(i * c + j)
            if (i, j) in ((0, 0), (0, c - 1), (r - 1, 0), (r - 1, c - 1), (r // 2, c // 2)) or (i + j) % 999 == 99:
                return T.add(x, I(1 + i * c + j))
            return I(0)

        table = [[entry(i, j) for j in range(c)] for i in range(r)]
        check_matrix(matrix(table), table, rec, ([x],))
    # many arguments
    for n in (1, 5, 20, 64):
        names = [S(f"v{i}") for i in range(n)]
        table = [[T.mul(s, I(i + 1)) for i, s in enumerate(names)]]
        for order in (names, names[::-1]):
            fn = sc.lambdify([CAS.build(s) for s in order], matrix(table))
            vals = {s: 0.5 + i for i, s in enumerate(names)}
            check_array(fn(*[vals[s] for s in order]), table, vals, f"{n} arguments")
            rec.add("transitions")
    # deep and shared entries
    e, t = sc.Symbol("x"), 0.5
    for i in range(500):
        e, t = sc.sin(e) + e * 2, __import__("math").sin(t) + t * 2
    fn = sc.lambdify([sc.Symbol("x")], sc.Matrix([[e, 0], [e * e, e]]))
    for _ in range(2):
        got = fn(0.5).tolist()
        want = [[t, 0.0], [t * t, t]]
        if any(abs(g - w) > 1e-9 * abs(w) for gr, wr in zip(got, want) for g, w in zip(gr, wr)):
            raise Violation("wrong value of deep entries", got=got, expected=want)
    rec.add("states")
