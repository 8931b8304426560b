"""C23: malformed construction is always refused."""
import copy
import gc
import pickle
from itertools import product

from mc import terms as T
from mc.framework import Violation
from mc.terms import F, I, S

LEVEL = "model_checking"
RULE = (
    "states: argument tuples of valid and invalid objects, and histories of constructions; transitions: constructor calls on the real code; traces: tuples whose "
    "refusal (or acceptance, if all are valid) was the same every time, with no tree, atom or expression left behind and the valid constructions unaffected"
)
ASSUMPTIONS = [
    "an object that is equal to a tree and has its hash is refused, or else stands for that very tree: the valid existing tree may be returned",
    "assigning to the attributes of an object, or bypassing its constructor "
    "(object.__new__), is not construction",
    "copying and pickling may be refused with any exception, or give the original object",
]
x, y, f = S("x"), S("y"), F("f")


def bounds(tier):
    n = 6 if tier == "thorough" else 4
    return (
        f"Tree and tree calls: all tuples of <= {n} of 3 trees and 14 invalid objects; expression calls: all tuples of <= {n} of 4 valid and 14 invalid operands on 4 heads; "
        f"Tree.atom, Tr, Expr and subclasses, expressify, operators, xreplace, as_function, diff with each of 60 objects; every tuple twice; one of 14 invalid objects at every position of up to {257 if n == 6 else 100} valid ones, at chosen ones of up to 2060; all histories of "
        f"{n} steps over 7 valid and invalid constructions sharing their parts, each followed by a census"
    )


class Equal:
    """Equal to, and with the hash of, another object."""

    def __init__(self, other):
        self.other = other

    def __eq__(self, o):
        return o is self.other or o == self.other

    def __hash__(self):
        return hash(self.other)


class Duck:
    """Has everything an expression has."""

    def __init__(self, e):
        self.rep = e.rep
        self.children = e.rep.children
        self.value = e.rep.value
        self.head = e
        self.args = ()
        self.atom_type = e.rep.value.atom_type


def prepare(tier):
    import protosym.simplecas as sc
    from protosym.core.atom import Atom, AtomType
    from protosym.core.sym import Sym
    from protosym.core.tree import SubsFunc, Tr, Tree

    globals().update(sc=sc, Atom=Atom, AtomType=AtomType, Sym=Sym, Tr=Tr, Tree=Tree, SubsFunc=SubsFunc)

    class Foo(Sym):
        pass

    class Bar(sc.Expr):
        pass

    globals().update(Foo=Foo, Bar=Bar, CAS=T.Cas())
    X = CAS.build(x)
    globals().update(ZOO=zoo(X))


def zoo(X):
    """Objects that are neither trees, atoms, expressions nor integers."""
    import numpy
    import sympy
    from decimal import Decimal
    from fractions import Fraction

    return [
        None, "", "x", "1", b"1", 1.0, 0.0, -2.5, float("nan"), float("inf"), 1j, Fraction(1), Fraction(1, 2), Decimal(1), (), (1,), [], [1], {}, {1: 2}, set(), frozenset([1]),
        range(3), object(), object, int, str, type, len, lambda: 1, ..., NotImplemented, slice(1), iter([1]), bytearray(b"1"), sc, sc.Integer, sc.Symbol,
        sc.Matrix([[X]]), X.as_function(X), sc.bin_expand, numpy.float64(1), numpy.array([1, 2]), numpy.array(1), numpy.int64(1), sympy.Integer(1), sympy.Symbol("x"), Duck(X),
        Exception("x"), property(), memoryview(b"1"), X.eval_f64, AtomType("Integer", int), Foo, Sym, sc.Expr, Tree, Atom,
    ]  # fmt: skip


def cases(tier):
    n = 6 if tier == "thorough" else 4
    for k in range(1, n + 1):
        for first in range(17):
            yield ["tree", k, first]
    for k in range(1, n + 1):
        for head in range(4):
            for first in range(18):
                yield ["call", k, head, first]
    for k in (*range(n + 1, 41), 64, 65, 100, *((128, 129, 200, 257) if tier == "thorough" else ())):
        yield ["long", k]
    for k in (130, 260, 520, 1030, 2060):
        yield ["far", k]
    yield ["empty"]
    yield ["atom"]
    yield ["expr"]
    yield ["expressify"]
    yield ["copies"]
    for first in product(range(7), repeat=2):
        yield ["history", 6 if tier == "thorough" else 4, *first]


# ------------------------------------------------------------------ oracle


def census():
    """Every live tree, atom and expression."""
    gc.collect()
    return {id(o): o for o in gc.get_objects() if isinstance(o, (Tree, Atom, Sym))}


def refuse(fn, what, rec, instead=None):
    """The call is refused with TypeError, twice."""
    raised = []  # while the caller keeps the exceptions
    for n in (1, 2):
        rec.add("transitions")
        try:
            r = fn()
            if instead is not None and r is instead:
                continue
        except TypeError as e:
            raised.append(e)
            continue
        except Exception as e:  # noqa
            raise Violation(f"{what}: raised {type(e).__name__} instead of TypeError: {str(e)[:200]}") from None
        raise Violation(f"{what}: accepted" + (" the second time" if n == 2 else ""), got=safe(r))
    raised.clear()


def safe(o):
    try:
        return f"{type(o).__name__}: {o!r}"[:300]
    except Exception as e:  # noqa
        return f"{type(o).__name__} that cannot be shown ({type(e).__name__})"


def well_formed(t):
    """Every object inside a tree is what it should be."""
    todo, seen = [t], set()
    while todo:
        t = todo.pop()
        if id(t) in seen:
            continue
        seen.add(id(t))
        if type(t) is not Tree or type(t.children) is not tuple:
            raise Violation("a malformed tree", got=safe(t))
        if t.children:
            todo.extend(t.children)
        elif type(t.value) is not Atom or type(t.value.atom_type) is not AtomType:
            raise Violation("a malformed atomic tree", got=safe(t))


class Clean:
    """Nothing is left behind by the calls in the block."""

    def __enter__(self):
        self.before = census()

    def __exit__(self, kind, exc, tb):
        if kind is not None:
            return
        left = [o for i, o in census().items() if i not in self.before]
        if left:
            raise Violation("refused constructions left something behind", left=[safe(o) for o in left[:5]])


def valid_still_work(rec):
    X, Y, f_ = sc.Symbol("x"), sc.Symbol("y"), sc.Function("f")
    t = Tree(f_.rep, X.rep, Y.rep)
    e = f_(X, Y)
    if e.rep is not t or f_(X, Y) is not e or t.children != (f_.rep, X.rep, Y.rep) or sc.Integer(3).rep.value.value != 3:
        raise Violation("a valid construction is wrong afterwards", got=safe(e))
    for o in (t, e.rep, (X + 1).rep, X.rep):
        well_formed(o)
    rec.add("traces_validated_against_impl")


# ------------------------------------------------------------------- cases


def check_case(case, rec):
    globals()["check_" + case[0]](case, rec)
    rec.outcome(case)


def tree_pool():
    X, f_ = CAS.build(x), CAS.build(f)
    good = [X.rep, f_.rep, f_(X).rep]
    bad = [
        None, 0, "x", X, X.rep.value, (X.rep,), [X.rep], Tree, Equal(X.rep), Equal(f_(X).rep), Duck(X), X.rep.children, sc.Symbol, frozenset([X.rep]),
    ]  # fmt: skip
    return good, bad


def check_tree(case, rec):
    _, k, first = case
    good, bad = tree_pool()
    pool = good + bad
    with Clean():
        for rest in product(range(len(pool)), repeat=k - 1):
            idx = (first, *rest)
            args = [pool[i] for i in idx]
            rec.add("states")
            if all(i < 3 for i in idx):
                t = Tree(*args)
                if t.children != tuple(args) or Tree(*args) is not t:
                    raise Violation("a valid tree was built wrongly", parts=safe(args), got=safe(t))
                well_formed(t)
                # what equals a valid part is refused while the tree is alive
                for pos in range(k):
                    fake = args.copy()
                    fake[pos] = Equal(args[pos])
                    refuse(lambda: Tree(*fake), f"Tree of {safe(fake)}", rec, t)
                    if pos:
                        refuse(lambda: args[0](*fake[1:]), f"a tree called with {safe(fake[1:])}", rec, t)
                if Tree(*args) is not t:
                    raise Violation("a valid tree was built again", parts=safe(args))
                t = args = fake = None
                continue
            real = [o.other if type(o) is Equal else o for o in args]
            t = Tree(*real) if all(type(o) is Tree for o in real) else None
            refuse(lambda: Tree(*args), f"Tree of {safe(args)}", rec, t)
            if idx[0] < 3:
                refuse(lambda: args[0](*args[1:]), f"a tree called with {safe(args[1:])}", rec, t)
            t = args = real = None
    valid_still_work(rec)


def check_call(case, rec):
    """Calls of expressions with all tuples of arguments."""
    _, k, h, first = case
    X, f_ = CAS.build(x), CAS.build(f)
    head = [f_, X, f_(X), sc.Integer(2)][h]
    good = [X, 2, f_(X), -7]
    bad = [None, "x", 1.5, X.rep, X.rep.value, (X,), [X], {}, Equal(X), Duck(X), sc.Symbol, Foo(X.rep), 1j, sc.Matrix([[X]])]
    pool = good + bad
    with Clean():
        for rest in product(range(len(pool)), repeat=k - 1):
            idx = (first, *rest)
            args = [pool[i] for i in idx]
            rec.add("states")
            if all(i < 4 for i in idx):
                e = head(*args)
                if type(e) is not sc.Expr or e.head is not head or any(p is not sc.expressify(q) for p, q in zip(e.args, args, strict=True)):
                    raise Violation("a valid call was built wrongly", arguments=safe(args), got=safe(e))
                well_formed(e.rep)
                for pos in range(k):
                    fake = args.copy()
                    fake[pos] = Equal(args[pos])
                    refuse(lambda: head(*fake), f"a call with {safe(fake)}", rec)
                e = None
                continue
            refuse(lambda: head(*args), f"a call with {safe(args)}", rec)
            args = None
    valid_still_work(rec)


def check_long(case, rec):
    """One invalid object at every position of many valid ones."""
    k = case[1]
    good, bad = tree_pool()
    X, f_ = CAS.build(x), CAS.build(f)
    parts = [X, f_(X), f_, 2]
    with Clean():
        for pos in range(k):
            for n, o in enumerate(bad):
                args = [good[i % 3] for i in range(k)]
                t = Tree(*args) if n % 2 else None  # what equals a valid part is refused while the tree is alive
                args[pos] = o
                refuse(lambda: Tree(*args), f"Tree of {k} with {safe(o)} at position {pos}", rec, t if type(o) is Equal and args[pos] == good[pos % 3] else None)
                if pos:
                    refuse(lambda: args[0](*args[1:]), f"a tree called with {k - 1} with {safe(o)} at position {pos}", rec, t if type(o) is Equal and args[pos] == good[pos % 3] else None)
                rec.add("states")
                t = args = None
            for o in (None, "x", 1.5, X.rep, X.rep.value, (X,), Equal(X), Duck(X), sc.Symbol, Foo(X.rep)):
                args = [parts[i % 4] for i in range(k)]
                args[pos] = o
                refuse(lambda: f_(*args), f"a call with {k} with {safe(o)} at position {pos}", rec)
                rec.add("states")
                args = None
        args = [good[i % 3] for i in range(k)]
        t = Tree(*args)
        if t.children != tuple(args):
            raise Violation("a valid tree was built wrongly", parts=safe(args), got=safe(t))
        t = args = o = None
    valid_still_work(rec)


def check_far(case, rec):
    """One invalid object at some positions of very many valid ones."""
    k = case[1]
    good, bad = tree_pool()
    X, f_ = CAS.build(x), CAS.build(f)
    parts = [X, f_(X), f_, 2]
    places = sorted({1, 63, 64, 99, 100, 127, 128, k // 2, k - 2, k - 1, *(p for p in (255, 256, 511, 512, 999, 1000, 1023, 1024, 2047, 2048) if p < k)})
    with Clean():
        for pos in places:
            for o in bad:
                args = [good[i % 3] for i in range(k)]
                args[pos] = o
                refuse(lambda: Tree(*args), f"Tree of {k} with {safe(o)} at position {pos}", rec)
                refuse(lambda: args[0](*args[1:]), f"a tree called with {k - 1} with {safe(o)} at position {pos}", rec)
                args = None
            for o in (None, "x", 1.5, X.rep, X.rep.value, (X,), sc.Symbol, Foo(X.rep)):
                args = [parts[i % 4] for i in range(k)]
                args[pos] = o
                refuse(lambda: f_(*args), f"a call with {k} with {safe(o)} at position {pos}", rec)
                args = None
            rec.add("states")
        o = None
    valid_still_work(rec)


def check_empty(case, rec):
    """Constructors without arguments, or with too many."""
    X = sc.Symbol("x")
    with Clean():
        for what, fn in (
            ("Tree()", lambda: Tree()), ("Tree.atom()", lambda: Tree.atom()), ("Tr()", lambda: Tr()), ("Expr()", lambda: sc.Expr()), ("Atom()", lambda: Atom()),
            ("Atom(type)", lambda: Atom(AtomType("T", int))), ("Symbol()", lambda: sc.Symbol()), ("Integer()", lambda: sc.Integer()), ("Sym()", lambda: Sym()),
            ("Foo()", lambda: Foo()), ("expressify()", lambda: sc.expressify()), ("Tree(*())", lambda: Tree(*())), ("Tree.__new__(Tree)", lambda: Tree.__new__(Tree)),
            ("Expr(t, t)", lambda: sc.Expr(X.rep, X.rep)), ("Tr(a, a)", lambda: Tr(X.rep.value, X.rep.value)), ("Symbol(a, b)", lambda: sc.Symbol("a", "b")),
        ):  # fmt: skip
            for _ in range(3):
                refuse(fn, what, rec)
            rec.add("states")
    e = X()
    if e.args != () or e.head is not X or X() is not e:
        raise Violation("a call without arguments is wrong", got=safe(e))
    t = X.rep()
    if t.children != (X.rep,) or Tree(X.rep) is not t or t is X.rep:
        raise Violation("a tree with one child is wrong", got=safe(t))
    valid_still_work(rec)


def check_atom(case, rec):
    X = CAS.build(x)
    a = X.rep.value
    with Clean():
        for o in [*ZOO, 1, True, 0, X, X.rep, X.rep(X.rep), Equal(a), Equal(X.rep), (a.atom_type, a.value), (a,), [a], a.atom_type, Foo(X.rep), CAS.build(f)()]:
            refuse(lambda: Tree.atom(o), f"Tree.atom of {safe(o)}", rec)
            refuse(lambda: Tr(o), f"Tr of {safe(o)}", rec)
            rec.add("states")
            if Tr(a) is not X.rep:
                raise Violation("an atomic tree was built again")
            o = None
        for v in ([], {}, set(), [1], {1: 2}, bytearray(b"1")):  # not hashable
            refuse(lambda: a.atom_type(v), f"an atom with value {v!r}", rec)
            refuse(lambda: sc.Symbol(v), f"a symbol with value {v!r}", rec)
            refuse(lambda: sc.Integer((v,)), f"an integer with value {(v,)!r}", rec)
    valid_still_work(rec)


def check_expr(case, rec):
    X = CAS.build(x)
    with Clean():
        for cls in (sc.Expr, Foo, Bar, Sym):
            whole = cls(X.rep)
            for o in [*ZOO, 1, True, X.rep.value, X, Foo(X.rep), Bar(X.rep), Equal(X.rep), (X.rep,), [X.rep], X.rep.children, Equal(X)]:
                refuse(lambda: cls(o), f"{cls.__name__} of {safe(o)}", rec)
                rec.add("states")
                if cls(X.rep) is not whole:
                    raise Violation("an expression was built again")
            o = whole = None
    valid_still_work(rec)


def check_expressify(case, rec):
    """Everything that converts operands."""
    X, Y = CAS.build(x), CAS.build(y)
    objects = [*ZOO, X.rep, X.rep.value, Foo(X.rep), Equal(X), Equal(1), (X,), [X]]
    with Clean():
        for o in objects:
            what = safe(o)
            ways = {
                "expressify": lambda: sc.expressify(o),
                "a call": lambda: X(o),
                "a call, second": lambda: X(Y, o),
                "Add": lambda: sc.Add(X, o),
                "as_function": lambda: X.as_function(Y, o),
                "a reusable function": lambda: X.as_function(X)(o),
                "a reusable function, second": lambda: X.as_function(X, Y)(Y, o),
                "xreplace value": lambda: X.xreplace({X: o}),
                "a matrix": lambda: sc.Matrix([[o]]),
                "a matrix, last": lambda: sc.Matrix([[X, 0], [1, o]]),
            }
            for name, fn in ways.items():
                refuse(fn, f"{name} with {what}", rec)
            # operators: refused unless the other operand handles it itself
            if type(o).__module__.partition(".")[0] not in ("numpy", "sympy", "mc", "fractions"):
                for name, fn in {
                    "x + o": lambda: X + o, "o + x": lambda: o + X, "x - o": lambda: X - o, "o - x": lambda: o - X, "x * o": lambda: X * o, "x / o": lambda: X / o,
                    "o / x": lambda: o / X, "x ** o": lambda: X**o, "o ** x": lambda: o**X,
                }.items():  # fmt: skip
                    refuse(fn, f"{name} with {what}", rec)
            for name, fn in {"e + o": lambda: X.__add__(o), "e - o": lambda: X.__sub__(o), "e * o": lambda: X.__mul__(o), "e / o": lambda: X.__truediv__(o), "e ** o": lambda: X.__pow__(o)}.items():
                if fn() is not NotImplemented:
                    raise Violation(f"{name} is supported with {what}", got=safe(fn()))
            rec.add("states")
            fn = ways = o = None
    for n in (True, False, 0, 1, -5, 10**30):
        e = sc.expressify(n)
        well_formed(e.rep)
        if e.rep.value.value != n or sc.expressify(e) is not e:
            raise Violation("a valid integer was converted wrongly", given=n, got=safe(e))
    valid_still_work(rec)


def check_copies(case, rec):
    """Copies and pickles are the object itself, or refused."""
    X, Y, f_ = CAS.build(x), CAS.build(y), CAS.build(f)
    objects = [X, f_(X, Y), X + Y * 2, f_(), X.rep, f_(X).rep, f_().rep, X.rep.value, sc.Integer(3).rep.value, Foo(X.rep), Bar(f_(X).rep)]
    with Clean():
        for o in objects:
            inner = getattr(o, "rep", o)
            ways = {"copy": lambda: copy.copy(o), "deepcopy": lambda: copy.deepcopy(o), "deepcopy in a list": lambda: copy.deepcopy([o])[0]}
            for p in range(6):
                ways[f"pickle protocol {p}"] = lambda p=p: pickle.loads(pickle.dumps(o, p))
            for name, fn in ways.items():
                rec.add("transitions")
                try:
                    r = fn()
                except Exception:  # noqa
                    continue
                if r is not o:
                    raise Violation(f"{name} gives another object", of=safe(o), got=safe(r))
            rec.add("states")
            # and the object is unharmed
            if isinstance(inner, Tree):
                well_formed(inner)
            r = fn = ways = o = inner = None
    valid_still_work(rec)


def check_history(case, rec):
    """Valid and invalid constructions sharing their parts, in every order."""
    depth, first = case[1], case[2:]
    X, f_ = sc.Symbol("hx"), sc.Function("hf")
    xr, fr = X.rep, f_.rep
    before = set(census())
    for rest in product(range(7), repeat=depth - 2):
        held = []
        for s in (*first, *rest):
            rec.add("transitions")
            if s == 0:
                held.append(Tree(fr, xr))
                if held[-1].children != (fr, xr):
                    raise Violation("a valid tree is wrong", history=[*first, *rest], got=safe(held[-1]))
            elif s == 1:
                held.append(f_(X, 1))
                if held[-1].args != (X, sc.Integer(1)) or held[-1].head is not f_:
                    raise Violation("a valid call is wrong", history=[*first, *rest], got=safe(held[-1]))
            elif s == 2:
                refuse(lambda: Tree(fr, X), "Tree of a tree and an expression", rec)
            elif s == 3:
                refuse(lambda: f_(X, xr), "a call with a tree", rec)
            elif s == 4:
                refuse(lambda: Tree(fr, Equal(xr)), "Tree with an impostor", rec, next((h for h in held if isinstance(h, Tree)), None))
                refuse(lambda: Tree(), "Tree()", rec)
            elif s == 5:
                refuse(lambda: sc.Expr(X), "Expr of an expression", rec)
                refuse(lambda: Tr(xr), "Tr of a tree", rec)
            elif held:
                held.pop(0)
            for h in held:
                well_formed(h if isinstance(h, Tree) else h.rep)
            h = None
        rec.add("states")
        held = h = None
    after = [o for i, o in census().items() if i not in before]
    if after:
        raise Violation("constructions left something behind", left=[safe(o) for o in after[:5]])
    rec.add("traces_validated_against_impl")
