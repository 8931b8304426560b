"""C12: operators build exactly the expression that was written."""
from itertools import product

from mc import terms as T
from mc.terms import F, I, S, W, ADD, MUL, POW

LEVEL = "model_checking"
RULE = (
    "states: (operator, operand pair) and programs of nested operators; transitions: operator applications on the real code; traces: results whose structure, "
    "read from the children only, is the reference construction and which are the same object as that construction"
)
ASSUMPTIONS = ["booleans are integers in Python and stand for 0 and 1"]
x, y, f = S("x"), S("y"), F("f")

OPS = {
    "+": (lambda p, q: p + q, lambda p, q: T.add(p, q)),
    "-": (lambda p, q: p - q, lambda p, q: T.add(p, T.mul(I(-1), q))),
    "*": (lambda p, q: p * q, lambda p, q: T.mul(p, q)),
    "/": (lambda p, q: p / q, lambda p, q: T.mul(p, T.pow_(q, I(-1)))),
    "**": (lambda p, q: p**q, lambda p, q: T.pow_(p, q)),
}
UNARY = {"-": (lambda p: -p, lambda p: T.mul(I(-1), p)), "+": (lambda p: +p, lambda p: p)}

TERMS = [
    x, y, I(0), I(1), I(-1), I(2), I(-5), I(10**50), F("f"), F("Add"), F("pow"), W("a"), T.app(f, x), T.app(f), T.app(f, x, y), T.app(T.app(f, x), y),
    T.add(x, y), T.add(y, x), T.add(x, x), T.add(x), T.add(), T.add(x, y, I(0)), T.mul(x, y), T.mul(I(-1), x), T.mul(x), T.mul(), T.mul(I(2), x, I(3)),
    T.mul(I(0), x), T.mul(I(-1), T.mul(I(-1), x)), T.pow_(x, I(2)), T.pow_(x, I(-1)), T.pow_(x, I(0)), T.pow_(x, I(1)), T.pow_(T.pow_(x, y), I(2)),
    T.sin(x), T.cos(T.sin(x)), T.add(x, T.mul(I(-1), y)), T.mul(x, T.pow_(y, I(-1))), T.lst(x, I(1)), T.add(I(1), I(2)), T.mul(I(2), I(3)), T.pow_(I(2), I(3)),
]  # fmt: skip
# sums and products of every kind and up to twelve operands, as operands of operators
_parts = [x, y, T.mul(x, y), I(2), T.add(x, y), T.mul(I(-1), x), T.pow_(x, I(-1)), T.app(f, x), I(-1)]
WIDE = []
for _n in range(3, 13):
    for _h in (ADD, MUL, f):
        WIDE += [T.app(_h, *((x, y) * 6)[:_n]), T.app(_h, *(x,) * _n), T.app(_h, *(_parts * 2)[:_n]), T.app(_h, *(_parts * 2)[::-1][:_n]), T.app(_h, *((I(2), x) * 6)[:_n])]
INTS = [
    0, 1, -1, 2, -2, 3, 5, 7, 10, 100, 127, 128, 255, 256, 257, -5, -6, 1000, 2**15, 2**16, 2**31 - 1, 2**31, -(2**31), 2**32, 2**53, 2**53 + 1, 2**61 - 1,
    2**61, -(2**61), 2**63 - 1, 2**63, -(2**63) - 1, 2**64 - 1, 2**64, 10**19, 10**20 + 1, -(10**30), 10**100, -(10**100) - 1, 2**1000 + 1, True, False,
]  # fmt: skip

# larger than anything is printed
HUGE = [2**4096 - 1, 2**4096, -(2**4096), 2**8191 + 1, -(10**2000) - 1, 10**4299, 10**4300, -(10**5000), 2**16384, 3**20000, 2**65536 - 1, -(2**100000) + 1]


class IntLike(int):
    """A user's integer type."""


def bounds(tier):
    n = 3 if tier == "thorough" else 2
    return (
        f"{len(TERMS)} expressions x {len(TERMS) + len(INTS)} operands x 5 operators in both orders, negation and +; all programs of {n} nested operators over 6 "
        f"operands; all integers -300..300, powers of two and ten to 200 digits and {len(HUGE)} to 100000 bits; {len(WIDE)} sums, products and calls of 3..12 operands with 10 operands and 8 integers in both orders; 29 unsupported operands on both sides; chains of 100 operators"
    )


def prepare(tier):
    global CAS
    CAS = T.Cas()


def cases(tier):
    for i in range(len(TERMS)):
        yield ["pairs", i]
    for i in range(len(TERMS)):
        yield ["ints", i]
    for i in range(len(WIDE)):
        yield ["wide", i]
    for op in OPS:
        for side in ("left", "right"):
            yield ["programs", op, side]
    if tier == "thorough":
        for op, op2 in product(OPS, OPS):
            yield ["programs3", op, op2]
    for i in range(len(HUGE)):
        yield ["huge", i]
    for n in range(-300, 301, 20):
        yield ["range", n]
    for n in range(0, 200):
        yield ["power", n]
    yield ["unsupported"]
    yield ["augmented"]
    for op in OPS:
        yield ["long", op]


def expect(got, want, what, rec, case, huge=False):
    rec.add("transitions")
    rec.add("traces_validated_against_impl")
    sc = CAS.sc
    if type(got) is not sc.Expr:
        rec.fail(f"{what} gave a {type(got).__name__}", case=case) if huge else rec.fail(f"{what} gave {got!r} of type {type(got).__name__}", case=case)
    read = CAS.read(got)
    if read != want:
        if huge:
            rec.fail(f"{what} built something else", case=case)
        rec.fail(f"{what} built {T.show(read)[:300]} instead of {T.show(want)[:300]}", case=case)
    if CAS.fresh(want) is not got:
        rec.fail(f"{what} is not the expression with its parts", case=case)
    rec.outcome(hash(want))




def check_case(case, rec):
    kind = case[0]
    sc = CAS.sc
    if kind == "pairs":
        t = TERMS[case[1]]
        e = CAS.build(t)
        for name, (run, ref) in UNARY.items():
            rec.add("states")
            expect(run(e), ref(t), f"{name}({T.show(t)})", rec, case)
        for u in TERMS:
            v = CAS.build(u)
            for name, (run, ref) in OPS.items():
                rec.add("states")
                expect(run(e, v), ref(t, u), f"({T.show(t)}) {name} ({T.show(u)})", rec, case)
                expect(run(v, e), ref(u, t), f"({T.show(u)}) {name} ({T.show(t)})", rec, case)
        rec.sample(T.show(t))
    elif kind == "wide":
        t = WIDE[case[1]]
        e = CAS.build(t)
        for name, (run, ref) in UNARY.items():
            rec.add("states")
            expect(run(e), ref(t), f"{name}({T.show(t)})", rec, case)
        for n in (0, 1, -1, 2, -2, 3, 10**20, True):
            integer(n, e, t, rec, case)
        for u in (t, x, y, I(2), I(-1), T.add(x, y), T.mul(x, y), T.app(f, x), WIDE[case[1] - 1], WIDE[case[1] - 3]):
            v = CAS.build(u)
            for name, (run, ref) in OPS.items():
                rec.add("states")
                expect(run(e, v), ref(t, u), f"({T.show(t)}) {name} ({T.show(u)})", rec, case)
                expect(run(v, e), ref(u, t), f"({T.show(u)}) {name} ({T.show(t)})", rec, case)
                for n in (1, 0, 2):
                    expect(run(n, run(e, v)), ref(I(n), ref(t, u)), "with integers", rec, case)
    elif kind == "ints":
        t = TERMS[case[1]]
        e = CAS.build(t)
        for n in INTS + [IntLike(3), IntLike(-1), IntLike(2**70)]:
            integer(n, e, t, rec, case)
    elif kind == "range":
        for n in range(case[1], case[1] + 20):
            integer(n, sc.x, x, rec, case)
            if sc.expressify(n) is not sc.Integer(n) or CAS.read(sc.Integer(n)) != I(n):
                rec.fail(f"integer {n} is wrong", case=case)
    elif kind == "huge":
        n = HUGE[case[1]]
        for t in (x, I(2), I(n), T.add(x, I(n)), T.app(f, x), T.sin(x)):
            for v in (n, IntLike(n)):
                integer(v, CAS.build(t), t, rec, case)
        if sc.expressify(n) is not sc.Integer(n) or CAS.read(sc.Integer(n)) != I(n) or sc.Integer(n + 1) is sc.Integer(n):
            rec.fail(f"an integer of {n.bit_length()} bits is wrong", case=case)
    elif kind == "power":
        for n in (2 ** case[1], 2 ** case[1] - 1, -(2 ** case[1]), 10 ** case[1], 10 ** case[1] + 1, -(10 ** case[1])):
            integer(n, sc.x, x, rec, case)
    elif kind == "programs":
        atoms = [x, y, I(2), I(-1), T.app(f, x), T.add(x, y)]
        values = [CAS.build(t) for t in atoms]
        run, ref = OPS[case[1]]
        for (t, e), (u, v), (w, c) in product(zip(atoms, values), repeat=3):
            for name, (run2, ref2) in OPS.items():
                rec.add("states")
                if case[2] == "left":
                    expect(run(run2(e, v), c), ref(ref2(t, u), w), f"(.{name}.){case[1]}.", rec, case)
                else:
                    expect(run(c, run2(e, v)), ref(w, ref2(t, u)), f".{case[1]}(.{name}.)", rec, case)
                    expect(-run(-c, run2(e, -v)), T.mul(I(-1), ref(T.mul(I(-1), w), ref2(t, T.mul(I(-1), u)))), "with negations", rec, case)
        for n in (0, 1, 2, -1):
            for (t, e), (name, (run2, ref2)) in product(zip(atoms, values), OPS.items()):
                expect(run(run2(e, n), n), ref(ref2(t, I(n)), I(n)), "with integers", rec, case)
                expect(run(n, run2(n, e)), ref(I(n), ref2(I(n), t)), "with integers", rec, case)
    elif kind == "programs3":
        atoms = [x, I(2), T.app(f, y)]
        values = [CAS.build(t) for t in atoms]
        (run, ref), (run2, ref2) = OPS[case[1]], OPS[case[2]]
        for (name3, (run3, ref3)), quad in product(OPS.items(), product(zip(atoms, values), repeat=4)):
            (t, p), (u, q), (v, r), (w, s) = quad
            rec.add("states", 5)
            expect(run(run2(run3(p, q), r), s), ref(ref2(ref3(t, u), v), w), "((..).).", rec, case)
            expect(run(run2(p, run3(q, r)), s), ref(ref2(t, ref3(u, v)), w), "(.(..)).", rec, case)
            expect(run(run2(p, q), run3(r, s)), ref(ref2(t, u), ref3(v, w)), "(..)(..)", rec, case)
            expect(run(p, run2(run3(q, r), s)), ref(t, ref2(ref3(u, v), w)), ".((..).)", rec, case)
            expect(run(p, run2(q, run3(r, s))), ref(t, ref2(u, ref3(v, w))), ".(.(..))", rec, case)
    elif kind == "unsupported":
        unsupported(rec, case)
    elif kind == "augmented":
        augmented(rec, case)
    else:
        run, ref = OPS[case[1]]
        e, t = sc.x, x
        e2, t2 = sc.x, x
        for i in range(100):
            e, t = run(e, i), ref(t, I(i))
            e2, t2 = run(i, e2), ref(I(i), t2)
            rec.add("states")
        expect(e, t, "long chain", rec, case)
        expect(e2, t2, "long chain", rec, case)


def integer(n, e, t, rec, case):
    huge = n.bit_length() > 2000
    text, number = ("an expression", f"an integer of {n.bit_length()} bits") if huge else (T.show(t), n)
    for name, (run, ref) in OPS.items():
        rec.add("states")
        expect(run(e, n), ref(t, I(n)), f"({text}) {name} {number}", rec, case, huge)
        expect(run(n, e), ref(I(n), t), f"{number} {name} ({text})", rec, case, huge)
        got = run(e, n)
        stored = [c for c in (got.args[-1], *got.args[-1].args) if not c.rep.children]
        if any(isinstance(c.rep.value.value, float) for c in stored):
            rec.fail(f"an integer operand became a float in {got}", case=case)


def unsupported(rec, case):
    """Everything else is refused, on both sides, and leaves no result."""
    import decimal
    import fractions

    sc = CAS.sc

    class Foo:
        pass

    bad = [
        None, "x", "", b"1", 1.0, 0.5, 1j, float("nan"), float("inf"), [], [1], (), (1,), {}, {1}, frozenset(), object(), Foo(), Foo, int, sc.x.rep,
        sc.x.rep.value, sc.Symbol, sc.Expr, fractions.Fraction(1, 2), decimal.Decimal(1), range(3), lambda: 1, NotImplemented, Ellipsis,
    ]  # fmt: skip
    from protosym.core.sym import Sym

    class Other(Sym):
        pass

    bad.append(Other(sc.x.rep))
    for repeat in range(2):
        for t in TERMS:
            e = CAS.build(t)
            for v in bad:
                for name, (run, ref) in OPS.items():
                    for left in (0, 1):
                        rec.add("states")
                        rec.add("transitions")
                        try:
                            got = run(v, e) if left else run(e, v)
                        except TypeError:
                            rec.add("traces_validated_against_impl")
                            continue
                        rec.fail(f"{type(v).__name__} {v!r} was accepted by {name}: {got!r}", case=case)
    # an operand that knows what to do gets its chance

    class Friendly:
        def __radd__(self, other):
            return ("radd", other)

        def __rmul__(self, other):
            return ("rmul", other)

    if sc.x + Friendly() != ("radd", sc.x) or sc.x * Friendly() != ("rmul", sc.x):
        rec.fail("the reflected method of the other operand is not used", case=case)


def augmented(rec, case):
    sc = CAS.sc
    e = sc.x
    before = e
    e += 1
    e -= sc.y
    e *= 2
    e /= 3
    e **= 2
    want = T.pow_(T.mul(T.mul(T.add(T.add(x, I(1)), T.mul(I(-1), y)), I(2)), T.pow_(I(3), I(-1))), I(2))
    expect(e, want, "augmented assignment", rec, case)
    if before is not sc.x:
        rec.fail("augmented assignment changed its operand", case=case)
    expect(sum([sc.x, sc.y, 1]), T.add(T.add(T.add(I(0), x), y), I(1)), "sum()", rec, case)
    rec.add("states")
