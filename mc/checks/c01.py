"""C01: equal live expressions are one object, different ones never are."""
import gc
from itertools import product

from mc import terms as T

LEVEL = "model_checking"
RULE = (
    "states: (a) every pair of constructible structures, (b) every state of every build/drop/collect/rebuild history; "
    "transitions: constructor calls, drops and collections on the real code; traces: histories whose every held object was "
    "compared (is, ==, hash) with a fresh construction of every structure"
)
ASSUMPTIONS = [
    "values that are == but of different type (1, True, 1.0) are one value, as the stores use ordinary dictionary equality",
]


def bounds(tier):
    d = 6 if tier == "thorough" else 5
    return (
        f"all pairs of about 1500 structures (7 core atom types, two pairs of them with equal names; hash colliding, falsy, huge and nested values, values of classes with their own equality; "
        f"trees of arity 1..3 over 7 parts and 1..70 over 2; 8 expression classes, equal names); all histories of length <= {d} over 11 operations on "
        "8 structures in each of 5 alphabets; bulk stores of 10..20000 live objects with every k-th dropped"
    )


# ------------------------------------------------------------ structures


class World:
    """Atom types and classes; structures are built from descriptors."""

    def __init__(self):
        from protosym.core.atom import AtomType
        from protosym.core.sym import Sym
        from protosym.simplecas import Expr

        self.types = {
            "A1": AtomType("T", int),
            "A2": AtomType("T", int),
            "B": AtomType("T", str),
            "Int": AtomType("Integer", int),
            "Str": AtomType("Symbol", str),
            "O": AtomType("", object),
            "O2": AtomType("", object),
        }
        self.symtypes = {"Sx": Expr.new_atom("Symbol", str), "Sy": Expr.new_atom("Symbol", str)}

        def make():
            class Foo(Sym):
                pass

            return Foo

        class Bar(Expr):
            pass

        def make2():
            class Baz(Expr):
                pass

            return Baz

        class Qux(Bar):
            pass

        self.classes = {"Foo1": make(), "Foo2": make(), "Sym": Sym, "Expr": Expr, "Bar": Bar, "Baz1": make2(), "Baz2": make2(), "Qux": Qux}

    def build(self, d):
        from protosym.core.tree import Tr, Tree

        kind = d[0]
        if kind == "atom":
            return self.types[d[1]](fresh(d[2]))
        if kind == "tr":
            return Tr(self.build(d[1]))
        if kind == "tree":
            return Tree(*[self.build(c) for c in d[1:]])
        if kind == "call":
            parts = [self.build(c) for c in d[1:]]
            return parts[0](*parts[1:])
        if kind == "symatom":
            return self.symtypes[d[1]](fresh(d[2]))
        return self.classes[d[1]](self.build(d[2]))


def fresh(v):
    """An equal value that is not the same object, where that is possible."""
    if type(v) in (OwnStr, OwnInt, OwnTuple):
        return type(v)(type(v).__base__(v))
    if type(v) is Coarse:
        return Coarse(v.key)
    if type(v) is str:
        return "".join(list(v)) if v else v
    if type(v) is int:
        return int(str(v))
    if type(v) is tuple:
        return tuple(fresh(i) for i in list(v))
    if type(v) is frozenset:
        return frozenset(fresh(i) for i in v)
    if type(v) is float:
        return float(repr(v))
    return v


class OwnStr(str):
    """Text with its own, finer equality."""

    def __eq__(self, other):
        return type(other) is type(self) and str.__eq__(self, other)

    def __ne__(self, other):
        return not self == other

    __hash__ = str.__hash__


class OwnInt(int):
    def __eq__(self, other):
        return type(other) is type(self) and int.__eq__(self, other)

    def __ne__(self, other):
        return not self == other

    __hash__ = int.__hash__


class OwnTuple(tuple):
    def __eq__(self, other):
        return type(other) is type(self) and tuple.__eq__(self, other)

    def __ne__(self, other):
        return not self == other

    __hash__ = tuple.__hash__


class Coarse:
    """Objects that are equal when their key is, and all hash alike."""

    def __init__(self, key):
        self.key = key

    def __eq__(self, other):
        return type(other) is Coarse and self.key == other.key

    def __hash__(self):
        return 7

    def __bool__(self):
        return False

    def __len__(self):
        return 0

    def __iter__(self):
        raise RuntimeError

    def __repr__(self):
        return f"Coarse({self.key})"


OWN = [OwnStr("a"), OwnStr(""), OwnStr("x"), OwnInt(0), OwnInt(-1), OwnInt(-2), OwnInt(257), OwnTuple(), OwnTuple((1, 2)), *(Coarse(k) for k in "abx"), Coarse(0)]
INTS = [-3, -2, -1, 0, 1, 2, 3, 255, 256, 257, 2**31, 2**32, 2**61 - 1, 2**61, -(2**61), 2**64, 2**64 + 1, 10**40, 10**40 + 1, *(s * 2**100 + d * (2**61 - 1) for s in (1, -1) for d in (0, 1, 2)), 2**100 + 2**39, 10**300, 10**300 + 2**61 - 1]
STRS = ["", "a", "b", "ab", "a b", "A", "T", "x", "x1", "0", "x" * 300, "x" * 301, "é", "e\u0301", "\0"]
OBJS = [None, (), (1,), (1, 2), (2, 1), (1, (2,)), ((1,), 2), frozenset(), frozenset([1, 2]), 1.5, "None", 0, "", b"", b"x", int, str, "()"]


def structures(world):
    out = []
    for t in ("A1", "A2", "Int"):
        out += [("atom", t, v) for v in INTS + OWN[3:7]]
    for t in ("B", "Str"):
        out += [("atom", t, v) for v in STRS + OWN[:3]]
    for t in ("O", "O2"):
        out += [("atom", t, v) for v in OBJS + OWN + ["x", -1, -2, 257, "a"]]
    atoms = list(out)
    trs = [("tr", a) for a in atoms]
    out += trs
    x, y, n1, n2 = ("tr", ("atom", "Str", "x")), ("tr", ("atom", "Str", "a")), ("tr", ("atom", "A1", -1)), ("tr", ("atom", "A1", -2))
    f = ("tr", ("atom", "O", ()))
    parts = [x, y, n1, n2, f, ("tree", f), ("tree", f, x)]
    for n in (1, 2, 3):
        out += [("tree", *c) for c in product(parts, repeat=n)]
    out += [("tree", f, *[x] * n) for n in range(3, 70)]
    out += [("tree", f, *[x] * n, y) for n in range(2, 70)]
    nested = x
    for _ in range(30):
        nested = ("tree", f, nested)
        out.append(nested)
    trees = trs[::3] + out[-60:] + [("tree", *c) for c in product(parts[:4], repeat=2)]
    for c in world.classes:
        out += [("sym", c, t) for t in trees]
    for s in world.symtypes:
        out += [("symatom", s, v) for v in STRS]
    return list(dict.fromkeys(out))


def check_structures(rec, shard, nshards):
    world = World()
    ds = structures(world)
    first = [world.build(d) for d in ds]
    rec.maximum("structures", len(ds))
    kinds = {}
    for d, o in zip(ds, first):
        kinds.setdefault(d[0] if d[0] not in ("tree", "call") else "tr", type(o))
    for i, d in enumerate(ds):
        if i % nshards != shard:
            continue
        again = world.build(d)
        if d[0] == "tree":
            again2 = world.build(("call", *d[1:]))
            if again2 is not again:
                rec.fail("calling and constructing differ", case=["pair", repr(d)[:300]])
        for j, other in enumerate(first):
            same = i == j
            ok = (again is other) == same and (again == other) == same and (again != other) == (not same)
            if ok and same:
                ok = hash(again) == hash(other)
            if not ok:
                rec.fail(
                    "structures share an object" if not same else "rebuilt structure is another object",
                    left=repr(d)[:300],
                    right=repr(ds[j])[:300],
                )
        rec.add("states", len(ds))
        rec.add("transitions", 2)
    rec.add("traces_validated_against_impl")
    rec.sample(repr(ds[(shard * 97) % len(ds)])[:200])


# ------------------------------------------------------------- histories

HISTORY_SETS = {
    # name -> descriptors toggled by a history
    "atoms": lambda: [("atom", "A1", -1), ("atom", "A1", -2), ("atom", "A2", -1), ("atom", "O", None), ("atom", "O", ()), ("atom", "B", ""), ("atom", "A1", 0), ("atom", "O2", None)],
    "trees": lambda: [X, FX, FFX, FXX, FY, ("tree", F_), ("atom", "Str", "x"), F_],
    "exprs": lambda: [("sym", "Foo1", FX), ("sym", "Foo2", FX), ("sym", "Expr", FX), ("sym", "Bar", FX), FX, ("sym", "Expr", X), ("sym", "Foo1", X), X],
    "names": lambda: [("sym", "Baz1", FX), ("sym", "Baz2", FX), ("sym", "Qux", FX), ("sym", "Bar", FX), ("sym", "Foo1", FX), ("atom", "A1", 2**100), ("atom", "A1", 2**100 + 2**61 - 1), ("atom", "O", 2**100)],
    "mixed": lambda: [("atom", "Str", "x"), X, ("sym", "Expr", X), FX, ("sym", "Expr", FX), ("tree", X, X), ("sym", "Sym", FFX), FFX],
}
F_ = ("tr", ("atom", "O", ("f",)))
X = ("tr", ("atom", "Str", "x"))
Y = ("tr", ("atom", "Str", "y"))
FX, FY = ("tree", F_, X), ("tree", F_, Y)
FFX = ("tree", F_, FX)
FXX = ("tree", F_, X, X)


def run_history(world, ds, history, rec, case):
    """Ops: 0..7 toggle a structure, 8 collect, 9 churn ids, 10 rebuild all."""
    held = {}
    junk = None
    for op in history:
        if op < 8:
            if op in held:
                del held[op]
            else:
                held[op] = world.build(ds[op])
        elif op == 8:
            gc.collect()
        elif op == 9:
            junk = [world.build(("tree", X, Y)), world.build(("atom", "O2", (1, 2, 3))), object()]
            cycle = [world.build(ds[3])]  # reachable from garbage only, until a collection
            cycle.append(cycle)
            del cycle
            junk = None
        else:
            held = {i: world.build(d) for i, d in enumerate(ds) if i in held}
        rec.add("transitions")
        rec.add("states")
        for i, obj in held.items():
            now = world.build(ds[i])
            if now is not obj or not now == obj or hash(now) != hash(obj):
                rec.fail(f"rebuilt {ds[i]} is another object", case=case)
    now = [world.build(d) for d in ds]
    for i, obj in held.items():
        for j, other in enumerate(now):
            same = i == j
            if (obj is other) != same or (obj == other) != same:
                rec.fail(f"{ds[i]} and {ds[j]} " + ("differ" if same else "share an object"), case=case)
    rec.outcome((history[-1], tuple(sorted(held))))
    held.clear()
    assert junk is None
    rec.add("traces_validated_against_impl")


def cases(tier):
    depth = 6 if tier == "thorough" else 5
    for s in range(16):
        yield ["pairs", s, 16]
    yield ["crosstype"]
    for n in (10, 100, 127, 128, 129, 1000, 1023, 1024, 1025, 4096, 5000, 10000, 20000):
        for k in (1, 2, 3):
            yield ["bulk", n, k]
    for name in HISTORY_SETS:
        for head in product(range(11), repeat=2):
            yield ["histories", name, list(head), depth]


def check_case(case, rec):
    kind = case[0]
    if kind == "pairs":
        check_structures(rec, case[1], case[2])
    elif kind == "crosstype":
        cross_type(rec, case)
    elif kind == "bulk":
        bulk(case[1], case[2], rec, case)
    else:
        world = World()
        ds = HISTORY_SETS[case[1]]()
        head, depth = case[2], case[3]
        if len(case) > 4:
            run_history(world, ds, case[4], rec, case)
            return
        last = None
        gc.disable()
        try:
            # a full collection costs milliseconds: keep what is old out of it
            gc.freeze()
            for n in range(depth - len(head) + 1):
                for tail in product(range(11), repeat=n):
                    h = head + list(tail)
                    # repeating an operation other than a toggle changes nothing
                    if any(a == b >= 8 for a, b in zip(h, h[1:])) or h.count(8) > 2:
                        continue
                    run_history(world, ds, h, rec, [*case[:4], h])
                    last = h
        finally:
            gc.unfreeze()
            gc.enable()
        if last:
            rec.sample(f"{case[1]} {last}")


class PlainStr(str):
    pass


def cross_type(rec, case):
    """Equal values of different types are one value, whichever came first."""
    from decimal import Decimal
    from fractions import Fraction

    from protosym.core.tree import Tr, Tree
    from protosym.simplecas import Expr

    world = World()
    groups = [
        [0, False, 0.0, -0.0, 0j, Fraction(0), Decimal(0), OwnInt(0)], [1, True, 1.0, 1 + 0j, Fraction(1), Decimal(1)], [2, 2.0, Fraction(2), Decimal("2.00")],
        ["a", PlainStr("a"), b"a", OwnStr("a")], ["", PlainStr(""), b"", ()], [2**60, float(2**60), Fraction(2**60)], [frozenset([1]), frozenset([True])],
        [(1, 2), (True, 2.0), (1, Fraction(2))], [0.5, Fraction(1, 2), Decimal("0.5")], [0.1, Fraction(1, 10), Decimal("0.1")], [None, "None", ()], [int, "int", bool],
    ]  # fmt: skip
    f = world.build(F_)
    for group in groups:
        for t in ("O", "O2", "A1", "B"):
            for v in group:
                for w in group:
                    p, q = world.types[t](fresh(v)), world.types[t](fresh(w))
                    rec.add("states")
                    rec.add("transitions", 8)
                    for a, b in ((p, q), (Tr(p), Tr(q)), (Tree(f, Tr(p)), Tree(f, Tr(q))), (Expr(Tr(p)), Expr(Tr(q)))):
                        same = v == w
                        if (a is b) != same or (a == b) != same or (same and hash(a) != hash(b)):
                            rec.fail(f"{a!r} of {v!r} and of {w!r} " + ("are two objects" if same else "share an object"), case=case)
                    del p, q, a, b
    rec.add("traces_validated_against_impl")
    rec.outcome(len(groups))


def bulk(n, k, rec, case):
    from protosym.simplecas import Expr, Integer, Symbol

    world = World()
    sin = world.build(F_)
    A = world.types["A1"]
    from protosym.core.tree import Tr, Tree

    def make(i):
        t = Tr(A(int(str(i))))
        return [A(int(str(i))), t, Tree(sin, t), Expr(Tree(sin, t, t)), Symbol("s" + str(i)), Integer(10**6 + i)]

    held = {i: make(i) for i in range(n)}
    rec.add("states", 6 * n)
    rec.add("transitions", 12 * n)
    for round_ in range(2):
        seen = set()
        for i, objs in held.items():
            again = make(i)
            if any(p is not q for p, q in zip(objs, again)):
                rec.fail(f"object {i} of {n} was rebuilt as another one", case=case)
            seen.update(map(id, again))
        if len(seen) != 6 * len(held):
            rec.fail("different structures share an object", case=case)
        for i in list(held)[::k]:
            if k > 1:
                del held[i]
        gc.collect()
    rec.add("traces_validated_against_impl")
