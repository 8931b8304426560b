"""C16: a matrix behaves as the dense table of its entries."""
from itertools import product

from mc import terms as T
from mc.framework import Violation
from mc.terms import ADD, F, I, MUL, S

LEVEL = "model_checking"
RULE = (
    "states: sets of matrices reached by a history of operations, with their dense tables; transitions: matrix operations; traces: matrices whose every "
    "entry, list form, display and refusals agree with the dense table computed entry by entry, and whose operands are unchanged"
)
ASSUMPTIONS = [
    "a sum with an absent or zero operand may be the other operand or the written sum, and a product with one may be zero or the written product; every other "
    "entry must be the very expression that the entrywise operation gives",
    "the matrix without rows, Matrix([]), is outside the property",
]
x, y, z, f = S("x"), S("y"), S("z"), F("f")
ZERO = I(0)


def bounds(tier):
    d = 4 if tier == "thorough" else 3
    return (
        f"all histories of <= {d - 1} operations (sum, product, function of entries, derivative by x or y, rebuild from the list, SymPy round trip) on any of the "
        f"matrices so far, from all pairs of 16 x 16 zero patterns of 2x2 matrices, all 8 x 8 of 1x3 and 3x1{', 64 x 64 of 2x3' if d == 4 else ''}; depth {d} from {6 if d == 4 else 1} pairs; sums and combinations of all triples of zero patterns of 2x2 matrices in every grouping; all 2x2 matrices "
        "over 6 entries, and over 15 that look like zero; 13 shapes to 150 rows or columns; operations on large matrices; 1..5 rows without columns; all shapes to 5x5 with every index in -3..8 in every kind, every pair of shapes to 3x3, malformed input"
    )


def prepare(tier):
    global CAS, sc
    import protosym.simplecas as sc_

    import sympy  # noqa

    sc = sc_
    CAS = T.Cas()


LEFT = {
    (2, 2): [[x, T.mul(x, y)], [I(5), T.sin(x)]],
    (1, 3): [[x, T.add(x, y), T.sin(y)]],
    (3, 1): [[x], [T.pow_(x, I(2))], [y]],
    (2, 3): [[x, I(3), T.mul(x, y)], [T.cos(x), y, T.add(x, x)]],
    (1, 1): [[x]],
}
RIGHT = {
    (2, 2): [[T.sin(x), y], [x, x]],
    (1, 3): [[y, I(2), x]],
    (3, 1): [[T.sin(x)], [x], [T.mul(x, y)]],
    (2, 3): [[I(2), y, x], [x, T.sin(y), y]],
    (1, 1): [[T.mul(x, y)]],
}


def masked(table, mask):
    out = []
    for row in table:
        new = []
        for e in row:
            new.append(e if mask & 1 else ZERO)
            mask >>= 1
        out.append(new)
    return out


def cases(tier):
    deep = tier == "thorough"
    shapes = [(2, 2), (1, 3), (3, 1), (1, 1)] + ([(2, 3)] if deep else [])
    for shape in shapes:
        n = 1 << (shape[0] * shape[1])
        for m1 in range(n):
            if shape == (2, 3) and deep:
                for m2 in range(0, n, 1):
                    yield ["history", list(shape), m1, m2, 1]
            else:
                yield ["histories", list(shape), m1, 3 if deep and shape != (1, 1) and m1 % 5 == 0 else 2]
    for m1, m2 in ((6, 13), (9, 15), (14, 7), (0, 11), (3, 5), (15, 15))[: 6 if deep else 1]:
        for first in range(22):
            yield ["history", [2, 2], m1, m2, 4 if deep else 3, first]
    for m1 in range(16):
        yield ["triples", m1, int(deep)]
    for i in range(6):
        yield ["entries", i]
    for r in range(1, 6):
        for c in range(1, 6):
            yield ["index", r, c]
    yield ["shapes"]
    for r in range(1, 6):
        yield ["columns", r]
    yield ["malformed"]
    yield ["large"]


# ------------------------------------------------------------------ oracle


def dense(m):
    """The table of a matrix, checked for consistency in every form."""
    r, c = m.shape
    if (m.nrows, m.ncols) != (r, c):
        raise Violation("shape disagrees with nrows and ncols", shape=[r, c])
    table = [[m[i, j] for j in range(c)] for i in range(r)]
    lst = m.tolist()
    if type(lst) is not list or len(lst) != r or any(type(row) is not list or len(row) != c for row in lst):
        raise Violation("tolist has the wrong shape", shape=[r, c], got=repr(lst))
    for i in range(r):
        for j in range(c):
            if lst[i][j] is not table[i][j] or not isinstance(table[i][j], sc.Expr):
                raise Violation("tolist and indexing disagree", position=[i, j], index=repr(table[i][j]), tolist=repr(lst))
    if len({id(row) for row in lst} | {id(lst)}) != r + 1:
        raise Violation("rows of tolist are one list", shape=[r, c])
    for row in lst:
        row[:] = [None] * c  # what is done with the list is no concern of the matrix
    if any(m[i, j] is not table[i][j] for i in range(r) for j in range(c)) or any(None in row for row in m.tolist()):
        raise Violation("changing the result of tolist changes the matrix", shape=[r, c])
    text = "Matrix([" + ", ".join("[" + ", ".join(repr(e) for e in row) + "]" for row in table) + "])"
    if repr(m) != text or str(m) != text:
        raise Violation("display and entries disagree", got=repr(m), expected=text)
    return table


def check_entry(got, allowed, what, i, j):
    if not any(got is a for a in allowed):
        raise Violation(f"wrong entry of {what}", position=[i, j], got=repr(got), expected=[repr(a) for a in allowed])


def combine(a, b, head):
    zero = sc.zero
    full = head(a, b)
    if head is sc.Add:
        return [full] + ([b] if a is zero or is_zero(a) else []) + ([a] if b is zero or is_zero(b) else [])
    if head is sc.Mul:
        return [full] + ([zero] if is_zero(a) or is_zero(b) else [])
    return [full]


def is_zero(e):
    return e is sc.zero


def start(table):
    entries = [[CAS.build(e) if not (e[0] == "I" and e[1] == 5) else 5 for e in row] for row in table]
    m = sc.Matrix(entries)
    want = [[sc.expressify(e) for e in row] for row in entries]
    got = dense(m)
    if m.shape != (len(table), len(table[0])):
        raise Violation("wrong shape", got=list(m.shape))
    for i, row in enumerate(want):
        for j, e in enumerate(row):
            check_entry(got[i][j], [e], "a new matrix", i, j)
    return m


def moves(n, sympy_too):
    out = []
    for h in ("Add", "Mul", "f"):
        out += [(h, i, j) for i in range(n) for j in range(n)]
    out += [("+", i, j) for i in range(n) for j in range(n)]
    out += [("diff", i, s) for i in range(n) for s in (0, 1)]
    out += [("list", i, 0) for i in range(n)]
    if sympy_too:
        out += [("sympy", i, 0) for i in range(n)]
    return out


def apply(move, mats, tables, rec):
    kind, i, j = move
    a, ta = mats[i], tables[i]
    rows, cols = len(ta), len(ta[0])
    if kind in ("Add", "Mul", "f", "+"):
        head = {"Add": sc.Add, "+": sc.Add, "Mul": sc.Mul, "f": CAS.build(f)}[kind]
        m = a + mats[j] if kind == "+" else a.binop(mats[j], head)
        tb = tables[j]
        want = [[combine(ta[r][c], tb[r][c], head) for c in range(cols)] for r in range(rows)]
        if kind == "+":
            m2 = a
            m2 += mats[j]
            if m2 is not m and not same(dense(m2), dense(m)):
                raise Violation("augmented addition is another sum", got=repr(m2), expected=repr(m))
    elif kind == "diff":
        s = CAS.build((x, y)[j])
        # f has no rule: the operation must fail if an entry does
        fails = False
        want = []
        for row in ta:
            want.append([])
            for e in row:
                try:
                    want[-1].append([e.diff(s)])
                except Exception:  # noqa
                    fails = True
        if fails:
            try:
                a.diff(s)
            except Exception:  # noqa
                return None
            raise Violation("the derivative of an entry without a rule was not refused", matrix=repr(a))
        m = a.diff(s)
    elif kind == "list":
        m = sc.Matrix(a.tolist())
        want = [[[e] for e in row] for row in ta]
    else:
        sm = a.to_sympy()
        if sm.shape != a.shape:
            raise Violation("the SymPy matrix has another shape", got=list(sm.shape), expected=list(a.shape))
        m = sc.Matrix.from_sympy(sm)
        want = []
        for r, row in enumerate(ta):
            want.append([])
            for c, e in enumerate(row):
                se = e.to_sympy()
                if sm[r, c] != se:
                    raise Violation("wrong entry of the SymPy matrix", position=[r, c], got=repr(sm[r, c]), expected=repr(se))
                want[-1].append([sc.Expr.from_sympy(se)])
    rec.add("transitions")
    if m.shape != (rows, cols):
        raise Violation(f"{kind} changed the shape", got=list(m.shape), expected=[rows, cols])
    got = dense(m)
    for r in range(rows):
        for c in range(cols):
            check_entry(got[r][c], want[r][c], kind, r, c)
    for k, (old, told) in enumerate(zip(mats, tables)):
        if not same(dense(old), told):
            raise Violation(f"{kind} changed a matrix made before", which=k, got=repr(old), expected=repr(told))
    return m, got


def same(t, u):
    return len(t) == len(u) and all(len(p) == len(q) and all(a is b for a, b in zip(p, q)) for p, q in zip(t, u))


def explore(mats, tables, depth, rec, path, first=None):
    options = moves(len(mats), depth >= 2 or len(mats) == 2)
    if first is not None:
        options = options[first::22]
    for move in options:
        path.append(move)
        try:
            r = apply(move, mats, tables, rec)
        except Violation as v:
            v.detail.setdefault("history", list(path))
            raise
        rec.add("traces_validated_against_impl")
        if r is not None:
            rec.add("states")
            if depth > 1:
                explore([*mats, r[0]], [*tables, r[1]], depth - 1, rec, path)
        path.pop()


def history(shape, m1, m2, depth, rec, first=None):
    a = start(masked(LEFT[shape], m1))
    b = start(masked(RIGHT[shape], m2))
    explore([a, b], [dense(a), dense(b)], depth, rec, [], first)


def refuses(fn, errors, what):
    try:
        r = fn()
    except errors:
        return
    except Exception as e:  # noqa
        raise Violation(f"{what}: raised {type(e).__name__}: {e}") from None
    raise Violation(f"{what}: accepted", got=repr(r)[:200])


def check_case(case, rec):
    kind = case[0]
    if kind == "histories":
        _, shape, m1, depth = case
        for m2 in range(1 << (shape[0] * shape[1])):
            history(tuple(shape), m1, m2, depth if depth == 2 or m2 % 4 == 1 else 2, rec)
        rec.outcome(case)
        if m1 % 4 == 1:
            rec.sample(case)
        return
    if kind == "history":
        history(tuple(case[1]), *case[2:5], rec, *case[5:])
        rec.outcome(case)
        return
    globals()["check_" + kind](case, rec)
    rec.outcome(case)


MIDDLE = [[T.cos(x), I(2)], [y, T.mul(x, x)]]


def check_triples(case, rec):
    """Sums of three matrices in both groupings, so that entries are stored in any order."""
    deep = case[2]
    a = start(masked(LEFT[2, 2], case[1]))
    for m2 in range(16):
        b = start(masked(RIGHT[2, 2], m2))
        for m3 in range(16):
            c = start(masked(MIDDLE, m3))
            mats, tables = [a, b, c], [dense(a), dense(b), dense(c)]
            for inner in (("+", 1, 2), ("+", 2, 1)):
                m, t = apply(inner, mats, tables, rec)
                for outer in (("+", 0, 3), ("+", 3, 0), ("Mul", 0, 3), ("f", 3, 0), ("diff", 3, 0), ("list", 3, 0)):
                    r = apply(outer, [*mats, m], [*tables, t], rec)
                    rec.add("states")
                    if deep and r is not None:
                        for last in (("+", 3, 4), ("+", 4, 0), ("diff", 4, 1), ("sympy", 4, 0)):
                            apply(last, [*mats, m, r[0]], [*tables, t, r[1]], rec)
    rec.add("traces_validated_against_impl")


def check_entries(case, rec):
    """All 2x2 matrices over six entries, with a sum and a derivative."""
    pool = [0, CAS.build(x), CAS.build(T.add(x, y)), -1, CAS.build(T.sin(x)), CAS.build(I(0))]
    for rest in product(range(6), repeat=3):
        e = [pool[case[1]], *(pool[i] for i in rest)]
        rows = [e[:2], e[2:]]
        m = sc.Matrix(rows)
        if rows != [e[:2], e[2:]]:
            raise Violation("the constructor changed the list it was given", rows=repr(rows))
        want = [[sc.expressify(v) for v in row] for row in rows]
        got = dense(m)
        if not same(got, want):
            raise Violation("wrong entries", got=repr(got), expected=repr(want))
        # the matrix does not follow later changes of the list
        rows[0][0] = CAS.build(z)
        rows.reverse()
        if not same(dense(m), want):
            raise Violation("the matrix follows the list it was made from", got=repr(m))
        lst = m.tolist()
        lst[0][1] = None
        lst[1].clear()
        if not same(dense(m), want):
            raise Violation("changing the result of tolist changes the matrix", got=repr(m))
        explore([m], [want], 1, rec, [])
        rec.add("states")
    # entries that look like nothing, but are something
    pool = [0, sc.Symbol("0"), sc.Function("0"), sc.Expr.new_wild("0"), sc.Symbol("-0"), sc.Symbol(""), sc.Add(0), sc.Mul(0), sc.Add(), sc.List(), sc.zero * 1, -sc.zero, sc.zero**2, sc.Symbol("Integer(0)"), sc.List(0)]
    for rest in product(range(len(pool)), repeat=2):
        rows = [[pool[case[1]], pool[rest[0]]], [CAS.build(x), pool[rest[1]]]]
        other = [[pool[rest[1]], 0], [pool[case[1] + 6], 1]]
        want, want2 = ([[sc.expressify(v) for v in row] for row in r] for r in (rows, other))
        m, m2 = sc.Matrix(rows), sc.Matrix(other)
        f = sc.Function("f")
        total, applied = m + m2, m.binop(m2, f)
        for got, table in ((m, want), (m2, want2)):
            if not same(dense(got), table):
                raise Violation("wrong entries", got=repr(got), expected=repr(table))
        none = sc.zero
        for i, j in product(range(2), repeat=2):
            p, q = want[i][j], want2[i][j]
            for result, op in ((total, sc.Add), (applied, f)):
                got = result[i, j]
                if p is not none and q is not none and got is not op(p, q) or op is f and (p is none) != (q is none) and got not in (op(p, q), none, p, q):
                    raise Violation("wrong entry of an operation on two matrices", got=repr(got), operands=[repr(p), repr(q)])
                if op is sc.Add and (p is none) != (q is none) and got not in (op(p, q), p if q is none else q):
                    raise Violation("wrong entry of a sum", got=repr(got), operands=[repr(p), repr(q)])
        rec.add("states")
        rec.add("transitions", 2)


def check_index(case, rec):
    """Every index of every shape."""
    _, r, c = case
    for skip in range(-1, r * c):
        rows = [[S(f"e{i}{j}") if i * c + j != skip else ZERO for j in range(c)] for i in range(r)]
        m = start(rows)
        for i in range(-3, 9):
            for j in range(-3, 9):
                inside = 0 <= i < r and 0 <= j < c
                if inside:
                    check_entry(m[i, j], [CAS.build(rows[i][j])], "indexing", i, j)
                else:
                    refuses(lambda i=i, j=j: m[i, j], IndexError, f"index {i, j} of a {r}x{c} matrix")
                rec.add("transitions")
        big = 10**30
        for ij in ((big, 0), (0, -big), (r, c), (-1, -1)):
            refuses(lambda ij=ij: m[ij], IndexError, f"index {ij} of a {r}x{c} matrix")
        for ij in (0, (0,), (0, 0, 0), [0, 0], "00", (0.0, 0), (0, "0"), (None, 0), slice(0, 1), (slice(0, 1), 0), (0, slice(None)), None, ()):
            refuses(lambda ij=ij: m[ij], TypeError, f"index {ij!r} of a {r}x{c} matrix")
        t = dense(m)
        for s in ("e00", f"e{r - 1}{c - 1}", "q"):
            d = m.diff(sc.Symbol(s))
            got = dense(d)
            for i in range(r):
                for j in range(c):
                    check_entry(got[i][j], [t[i][j].diff(sc.Symbol(s))], "diff", i, j)
        got = dense(m + m)
        for i in range(r):
            for j in range(c):
                check_entry(got[i][j], combine(t[i][j], t[i][j], sc.Add), "+", i, j)
        back = dense(sc.Matrix.from_sympy(m.to_sympy()))
        if not same(back, t):
            raise Violation("SymPy round trip", got=repr(back), expected=repr(t))
        rec.add("states")
        rec.add("traces_validated_against_impl")


def check_shapes(case, rec):
    """Every pair of shapes: operands of another shape are refused."""
    shapes = list(product((1, 2, 3), repeat=2))
    X = CAS.build(x)
    for p in shapes:
        for q in shapes:
            for zero in (0, 1):
                a = sc.Matrix([[X] * p[1] for _ in range(p[0])])
                b = sc.Matrix([[X * (1 - zero) if not zero else 0] * q[1] for _ in range(q[0])])
                for head in (sc.Add, sc.Mul, CAS.build(f)):
                    if p == q:
                        if a.binop(b, head).shape != p:
                            raise Violation("wrong shape of a combination", shape=list(p))
                    else:
                        refuses(lambda head=head: a.binop(b, head), TypeError, f"combining {p} with {q}")
                if p != q:
                    refuses(lambda: a + b, TypeError, f"adding {p} and {q}")
                rec.add("transitions", 4)
                rec.add("states")
    m = sc.Matrix([[X]])
    for other in (1, X, None, [[X]], "a", 2.5):
        refuses(lambda other=other: m + other, TypeError, f"adding {other!r}")
        refuses(lambda other=other: other + m, TypeError, f"adding to {other!r}")
    for s in (1, "x", None, X.rep, [X]):
        refuses(lambda s=s: m.diff(s), TypeError, f"derivative by {s!r}")


def check_columns(case, rec):
    """Matrices without columns."""
    r = case[1]
    X = CAS.build(x)
    rows = [[] for _ in range(r)]
    m = sc.Matrix(rows)
    want = [[] for _ in range(r)]
    if m.shape != (r, 0) or not same(dense(m), want):
        raise Violation("wrong matrix without columns", got=repr(m), shape=list(m.shape))
    mats, tables = [m, sc.Matrix([[] for _ in range(r)])], [want, want]
    for move in (("+", 0, 1), ("+", 1, 0), ("+", 0, 0), ("Add", 0, 1), ("Mul", 0, 1), ("f", 1, 0), ("diff", 0, 0), ("diff", 1, 1), ("list", 0, 0), ("sympy", 0, 0)):
        n, t = apply(move, mats, tables, rec)
        for again in (("+", 2, 0), ("list", 2, 0), ("diff", 2, 0)):
            apply(again, [*mats, n], [*tables, t], rec)
        rec.add("states")
    for i, j in product(range(-2, r + 2), range(-2, 3)):
        refuses(lambda: m[i, j], IndexError, f"index {i, j} of a {r}x0 matrix")
    for q in range(1, 6):
        for c in range(3):
            if (q, c) != (r, 0):
                other = sc.Matrix([[X] * c for _ in range(q)])
                refuses(lambda: m + other, TypeError, f"adding {r}x0 and {q}x{c}")
                refuses(lambda: other + m, TypeError, f"adding {q}x{c} and {r}x0")
    rec.add("traces_validated_against_impl")


def check_malformed(case, rec):
    X = CAS.build(x)
    bad = [
        None, X, 1, "ab", (), ((X,),), ([X],), [(X,)], [X], [[X], X], [[X], (X,)], [[X], [X, X]], [[X, X], [X]], [[X, X], [X, X], [X]], [[], [X]], [[X], []],
        [[None]], [["a"]], [[X, 1.5]], [[X, 0], [0, object()]], [[[X]]], [[X.rep]], {0: [X]}, [[0.0]], [[X, X], [1, 2j]], [[False, None]], iter([[X]]),
    ]  # fmt: skip
    for b in bad:
        for _ in range(2):
            refuses(lambda: sc.Matrix(b), (TypeError,), f"Matrix({b!r})")
            rec.add("transitions")
    # afterwards everything works
    if not same(dense(sc.Matrix([[X, 0]])), [[X, sc.zero]]):
        raise Violation("wrong matrix after refused ones")
    rec.add("states", len(bad))


def check_large(case, rec):
    """One large sparse matrix of every pattern class."""
    X, Y = CAS.build(x), CAS.build(y)
    for n in (7, 16):
        for pattern in ("diag", "anti", "first", "last", "checker", "none", "all"):
            keep = {
                "diag": lambda i, j: i == j, "anti": lambda i, j: i + j == n - 1, "first": lambda i, j: i == 0, "last": lambda i, j: j == n - 1,
                "checker": lambda i, j: (i + j) % 2, "none": lambda i, j: False, "all": lambda i, j: True,
            }[pattern]  # fmt: skip
            rows = [[X ** (i + 1) * Y + j if keep(i, j) else 0 for j in range(n)] for i in range(n)]
            m = sc.Matrix(rows)
            want = [[sc.expressify(e) for e in row] for row in rows]
            if not same(dense(m), want):
                raise Violation("wrong entries of a large matrix", pattern=pattern)
            mats, tables = [m], [want]
            other = sc.Matrix([[0 if keep(j, i) and i else Y for j in range(n)] for i in range(n)])
            mats.append(other)
            tables.append(dense(other))
            moved = (("+", 0, 1), ("+", 1, 0), ("Mul", 0, 1), ("diff", 0, 0), ("diff", 0, 1), ("list", 0, 0))
            for move in moved:
                apply(move, mats, tables, rec)
            rec.add("states")
    # every shape class: long, wide, and everything in between
    for r, c in ((1, 150), (150, 1), (2, 65), (65, 2), (21, 3), (3, 21), (33, 5), (5, 33), (11, 12), (26, 2), (101, 1), (1, 101), (40, 7),
                 (35, 35), (2, 501), (501, 2), (1, 1100), (1100, 1)):  # fmt: skip
        for k in (1, 3, 11):
            rows = [[X + (i * c + j) if (i * c + j) % k == 0 else 0 for j in range(c)] for i in range(r)]
            m = sc.Matrix(rows)
            want = [[sc.expressify(e) for e in row] for row in rows]
            if m.shape != (r, c) or not same(dense(m), want):
                raise Violation("wrong entries of a matrix", shape=[r, c])
            other = sc.Matrix([[Y * (i + 1) if (i + j) % 2 else 0 for j in range(c)] for i in range(r)])
            mats, tables = [m, other], [want, dense(other)]
            # the same entries at the same places, but not at all of them
            few = sc.Matrix([[0 if (i + 2 * j) % 5 == 0 else rows[i][j] for j in range(c)] for i in range(r)])
            mats.append(few)
            tables.append(dense(few))
            for move in (*moved, ("+", 0, 2), ("+", 2, 0), ("+", 1, 1), ("+", 2, 1)):
                apply(move, mats, tables, rec)
            rec.add("states")
