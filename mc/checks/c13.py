"""C13: the displayed text identifies the expression."""
import ast
import re

from mc import terms as T
from mc.terms import F, I, S, ADD, MUL, POW, SIN, COS

LEVEL = "model_checking"
RULE = (
    "states: expressions of the displayable fragment; transitions: display calls on the real code; traces: texts parsed back (by a precedence parser that keeps "
    "brackets, and by Python's own parser) to exactly the displayed expression; parsing back implies that different expressions have different texts"
)
ASSUMPTIONS = ["names are ordinary identifiers, and a symbol and a function do not share one", "brackets written \\left( and \\right) count as brackets"]
x, y = S("x"), S("y")
f, g = F("f"), F("g")


def bounds(tier):
    k = 4 if tier == "thorough" else 3
    return (
        f"all expressions with <= {k} distinct compounds of Add, Mul, pow, sin, f over x, -1 and <= {k - 1} of those and ternary sums and products over x, y, 2, -3, "
        "1; functions as arguments and of 0..6 arguments; sums, products and calls of 2..50 operands (and selected numbers to 5000); powers nested to depth 8 on both sides with negative bases; "
        "nesting depth to 60; all pairs of integers in -12..12 (and a third in -3..3) under every operation and one more; integers to 300 digits; 60 names"
    )


def prepare(tier):
    global CAS, POOL
    CAS = T.Cas()
    pool = {}
    heads = [(ADD, 2), (MUL, 2), (POW, 2), (SIN, 1), (f, 1)]
    for t in T.flat(T.dag_terms([x, I(-1)], heads, 3)):
        pool[t] = None
    for t in T.flat(T.dag_terms([x, y, I(2), I(-3), I(1)], heads + [(ADD, 3), (MUL, 3), (COS, 1)], 2)):
        pool[t] = None
    for t in T.flat(T.dag_terms([x, f, I(0)], [(g, 0), (g, 1), (g, 2), (g, 3), (ADD, 2), (POW, 2)], 2)):
        pool[t] = None
    if tier == "thorough":
        for t in T.flat(T.dag_terms([x, I(-1)], [(ADD, 2), (MUL, 2), (POW, 2)], 4)):
            pool[t] = None
        for t in T.flat(T.dag_terms([x, y, I(2), I(-3)], heads, 3)):
            pool[t] = None
    POOL = list(pool)


NAMES = """
x y z a b t X Y A x1 x2 x12 x_1 _x alpha beta pi e E I O N lambda_ theta xy x_y foo Bar velocity sin1 cosine Adder Multiply pow2 fx yf é λ Δ x′ long_name_number_1
time frac left right times cdot mathrm inf nan true null exp log tan sinh Symbol Tree zz zzz q0 q1 q10 q100 l1 O0 t_ __t
""".split()


def cases(tier):
    for i in range(0, len(POOL), 250):
        yield ["pool", i]
    for n in range(2, 51):
        yield ["arity", n]
    for n in (64, 65, 100, 128, 129, 200, 255, 256, 257, 300, 500, 512, 513, 1000, 1001, 1024, 1025, 2000, 5000):
        yield ["long", n]
    for n in range(61):
        yield ["deep", n]
    for n in range(9):
        yield ["powers", n]
    yield ["names"]
    yield ["integers"]
    for n in range(-12, 13):
        yield ["small", n]


class Bad(Exception):
    pass


def parse(text, latex):
    """Term shown by a text; brackets are kept, so (a + b) + c is not a + b + c."""
    if latex:
        text = text.replace("\\left", "").replace("\\right", "").replace("\\times", "*").replace("\\cdot", "*")
        text = re.sub(r"\\([A-Za-z])", r"\1", text)
    tokens = re.findall(r"\s*(\*\*|\d+|[^\W\d][\w′]*|.)", text)
    tokens = [t for t in tokens if t.strip()]
    pos = 0

    def peek():
        return tokens[pos] if pos < len(tokens) else None

    def take(want=None):
        nonlocal pos
        t = peek()
        if t is None or (want is not None and t != want):
            raise Bad(f"{t!r} instead of {want!r} in {text!r}")
        pos += 1
        return t

    def sum_():
        parts = [product()]
        while peek() == "+":
            take()
            parts.append(product())
        return parts[0] if len(parts) == 1 else T.add(*parts)

    def product():
        parts = [factor()]
        while peek() == "*":
            take()
            parts.append(factor())
        return parts[0] if len(parts) == 1 else T.mul(*parts)

    def factor():
        if peek() == "-":
            take()
            inner = factor()
            if inner[0] == "I" and inner[1] > 0:
                return I(-inner[1])
            return T.app(F("minus"), inner)  # the minus belongs to a larger part
        return power()

    def power():
        base = call()
        if not latex and peek() == "**":
            take()
            return T.pow_(base, factor())
        if latex and peek() == "^":
            take()
            take("{")
            e = sum_()
            take("}")
            if peek() == "^":
                raise Bad(f"double superscript in {text!r}")
            return T.pow_(base, e)
        return base

    def call():
        t = atom()
        while peek() == "(":
            take()
            args = []
            while peek() != ")":
                if args:
                    take(",")
                args.append(sum_())
            take(")")
            t = T.app(t, *args)
        return t

    def atom():
        t = take()
        if t == "(":
            inner = sum_()
            take(")")
            return inner
        if t.isdigit():
            return I(int(t))
        if re.fullmatch(r"[^\W\d][\w′]*", t):
            return S(t)
        raise Bad(f"unexpected {t!r} in {text!r}")

    t = sum_()
    if peek() is not None:
        raise Bad(f"{peek()!r} left over in {text!r}")
    return t


def plain(t, memo):
    """Every name as a symbol: the text does not show kinds."""
    r = memo.get(t)
    if r is None:
        if t[0] == "@":
            if t[1] in (ADD, MUL, POW):
                r = ("@", t[1], *(plain(a, memo) for a in t[2:]))
            else:
                r = ("@", *(plain(a, memo) for a in t[1:]))
        else:
            r = t if t[0] == "I" else S(t[1])
        memo[t] = r
    return r


def fold(t, memo):
    """Left-nested binary form, which is what Python's parser gives."""
    r = memo.get(t)
    if r is None:
        if t[0] != "@":
            r = t
        else:
            args = [fold(a, memo) for a in t[1:]]
            if t[1] in (ADD, MUL):
                r = args[1]
                for a in args[2:]:
                    r = ("@", t[1], r, a)
            else:
                r = ("@", *args)
        memo[t] = r
    return r


def python(text):
    def conv(n):
        if isinstance(n, ast.BinOp):
            h = {ast.Add: ADD, ast.Mult: MUL, ast.Pow: POW}[type(n.op)]
            return T.app(h, conv(n.left), conv(n.right))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            inner = conv(n.operand)
            return I(-inner[1]) if inner[0] == "I" and inner[1] > 0 else T.app(F("minus"), inner)
        if isinstance(n, ast.Constant):
            return I(n.value)
        if isinstance(n, ast.Name):
            return S(n.id)
        if isinstance(n, ast.Call) and not n.keywords:
            return T.app(conv(n.func), *map(conv, n.args))
        raise Bad(f"not an expression of the fragment: {text!r}")

    return conv(ast.parse(text, mode="eval").body)


def check(t, rec, case, use_python=True):
    e = CAS.build(t)
    rec.add("states")
    want = plain(t, {})
    text = repr(e)
    latex = e.eval_latex()
    if str(e) != text or e.eval_repr() != text or f"{e}" != text or repr(e) != text:
        rec.fail(f"ways to display {T.show(t)} differ: {text!r}, {str(e)!r}", case=case)
    if e._repr_latex_() != f"${latex}$":
        rec.fail(f"the notebook text of {T.show(t)} is {e._repr_latex_()!r}", case=case)
    for what, shown in (("text", text), ("LaTeX", latex)):
        rec.add("transitions")
        rec.add("traces_validated_against_impl")
        try:
            got = parse(shown, what == "LaTeX")
        except Bad as bad:
            rec.fail(f"the {what} of {T.show(t)} is {shown!r}: {bad}", case=case)
        if got != want:
            rec.fail(f"the {what} of {T.show(t)} is {shown!r}, which reads {T.show(got)}", case=case)
    if use_python:
        try:
            got = python(text)
        except (SyntaxError, KeyError, Bad) as bad:
            rec.fail(f"the text of {T.show(t)} is {text!r}: {bad!r}", case=case)
        if got != fold(want, {}):
            rec.fail(f"Python reads the text of {T.show(t)}, {text!r}, as {T.show(got)}", case=case)
    rec.outcome(text)


def displayable(t):
    return all(not (s[0] == "@" and ((s[1] in (ADD, MUL) and len(s) < 4))) for s in T.subterms(t))


def check_case(case, rec):
    kind = case[0]
    if kind == "pool":
        for t in POOL[case[1] : case[1] + 250]:
            if displayable(t):
                check(t, rec, ["pool", case[1], T.show(t)])
        rec.sample([T.show(t), repr(CAS.build(t))])
    elif kind == "long":
        n = case[1]
        xs = [S(f"x{i}") for i in range(n)]
        for h in (ADD, MUL, f):
            check(T.app(h, *xs), rec, case, n <= 300)
            check(T.app(h, *[T.app((MUL, ADD, POW)[i % 3], v, x) for i, v in enumerate(xs)]), rec, case, n <= 300)
            check(T.pow_(x, T.app(h, *[I(i - n // 2) for i in range(n)])), rec, case, n <= 300)
    elif kind == "arity":
        n = case[1]
        xs = [S(f"x{i}") for i in range(n)]
        for h in (ADD, MUL, f):
            check(T.app(h, *xs), rec, case)
            check(T.app(h, *[x] * n), rec, case)
            check(T.app(h, *[I(-i) for i in range(n)]), rec, case)
            check(T.app(h, *[T.app((MUL, ADD, POW)[i % 3], v, x) for i, v in enumerate(xs)]), rec, case)
            check(T.pow_(T.app(h, *xs), T.app(h, *xs[::-1])), rec, case)
            for j in range(6):
                u = [T.add(x, y), T.mul(x, I(-1)), T.pow_(x, y), T.add(T.add(x, y), T.add(y, x)), T.mul(T.mul(x, y), T.mul(y, x)), T.pow_(T.add(x, y), T.add(y, x))]
                check(T.app(h, *[u[j]] * n), rec, case)
                check(T.app(h, *[(u + [T.add(T.mul(x, y), T.mul(y, x)), T.mul(T.add(x, y), T.add(y, x)), I(-1), x])[(i + j) % 10] for i in range(n)]), rec, case)
            for i in range(min(n, 12)):
                for inner in (ADD, MUL):
                    check(T.app(h, *xs[:i], T.app(inner, x, y), *xs[i + 1 :]), rec, case)
                    for left, right in ((T.add(x, y), T.add(y, x)), (T.mul(x, y), T.mul(y, x)), (T.pow_(x, y), T.add(y, x))):
                        check(T.app(h, *xs[:i], T.app(inner, left, right), *xs[i + 1 :]), rec, case)
    elif kind == "deep":
        n = case[1]
        ts = [x, x, x, y]
        for i in range(n):
            ts[0] = T.add(ts[0], I(i)) if i % 2 else T.mul(I(-i), ts[0])
            ts[1] = T.add(y, ts[1]) if i % 2 else T.mul(y, ts[1])
            ts[2] = T.sin(T.app(f, ts[2], I(-1)))
            ts[3] = T.add(T.add(ts[3], x), y) if i % 3 else T.pow_(ts[3], I(i))
        for t in ts:
            check(t, rec, case, use_python=n <= 25)
    elif kind == "powers":
        # all left/right nestings of powers
        n = case[1]
        for mask in range(1 << n):
            for leaf in (x, I(-2), I(2), T.add(x, y), T.mul(x, I(-1)), T.sin(x)):
                t = leaf
                for i in range(n):
                    other = (y, I(-1), I(3))[i % 3]
                    t = T.pow_(t, other) if mask >> i & 1 else T.pow_(other, t)
                check(t, rec, case)
                check(T.mul(t, T.add(t, t)), rec, case)
                check(T.app(f, t, t), rec, case)
    elif kind == "names":
        for n in NAMES:
            for t in (S(n), T.pow_(S(n), I(2)), T.app(f, S(n)), T.pow_(x, S(n)), T.mul(S(n), S(n)), T.pow_(T.pow_(S(n), S(n)), S(n))):
                check(t, rec, case, use_python="′" not in n)
            if n not in ("Add", "Mul", "pow", "x"):
                for t in (T.app(F(n), x), F(n), T.app(F(n), F(n), I(1)), T.pow_(T.app(F(n), x), I(2))):
                    check(t, rec, case, use_python="′" not in n)
        texts = {}
        for n in NAMES:
            texts.setdefault(repr(CAS.build(S(n))), n)
            if texts[repr(CAS.build(S(n)))] != n:
                rec.fail(f"two symbols are shown as {n}", case=case)
    elif kind == "small":
        a = I(case[1])
        for m in range(-12, 13):
            b = I(m)
            for t in (T.add(a, b), T.mul(a, b), T.pow_(a, b), T.mul(x, a, b), T.mul(a, x, b), T.mul(a, b, x), T.add(a, b, x), T.add(x, a, b), T.app(f, a, b)):
                check(t, rec, case)
                for u in (T.add(t, x), T.add(x, t), T.mul(t, x), T.mul(x, t), T.pow_(t, x), T.pow_(x, t), T.mul(I(-1), t), T.sin(t)):
                    check(u, rec, case)
            for p in range(-3, 4):
                for h in (ADD, MUL):
                    check(T.app(h, a, b, I(p)), rec, case)
                    check(T.app(h, I(p), T.app(ADD if h == MUL else MUL, a, b)), rec, case)
    else:
        for n in [*range(-120, 121), *(s * b**k + d for s in (1, -1) for b in (2, 10) for k in range(8, 300, 7) for d in (-1, 0, 1))]:
            for t in (I(n), T.pow_(I(n), x), T.pow_(x, I(n)), T.mul(I(n), x), T.add(x, I(n)), T.app(f, I(n)), T.pow_(I(n), I(n)), T.pow_(T.pow_(I(n), I(n)), I(n))):
                check(t, rec, case)
