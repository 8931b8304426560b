"""C21: expressions are rebuilt exactly from their parts."""
import gc
from itertools import permutations, product

from mc import terms as T
from mc.framework import Violation
from mc.terms import ADD, F, I, MUL, POW, S, SIN

LEVEL = "model_checking"
RULE = (
    "states: expressions (every DAG in the bound, built in every class, and results of operations) and subsets of their parts that stay alive; transitions: "
    "constructions from parts; traces: expressions whose every subexpression was rebuilt from each kind of parts, the result being the original object and the "
    "parts being those that were given"
)
ASSUMPTIONS = ["values that are == are one value, as the stores use ordinary dictionary equality"]
x, y, f, g = S("x"), S("y"), F("f"), F("g")


def bounds(tier):
    k = 4 if tier == "thorough" else 3
    return (
        f"all DAGs with <= {k - 1} compounds of f/0, f/1, f/2, compound heads and atom heads over 5 atoms, <= {k} over x, f with f/1, g/2; every tuple of <= {k} of 8 parts "
        "as the parts of a tree and a call; 3 expression classes; 50 atom values of 5 atom types; arity to 5000, nesting to 3000; results of 14 operations on all "
        "expressions of a pool; rebuilding after dropping and collecting the whole while each subset of the parts is held"
    )


def prepare(tier):
    global CAS, sc, Tr, Tree, Atom, AtomType, Sym, POOL, CLASSES, MATH
    import protosym.simplecas as sc_
    from protosym.core.atom import Atom, AtomType
    from protosym.core.sym import Sym
    from protosym.core.tree import Tr, Tree

    globals().update(Atom=Atom, AtomType=AtomType, Sym=Sym, Tr=Tr, Tree=Tree)
    sc = sc_
    CAS = T.Cas()
    k = 4 if tier == "thorough" else 3

    class Foo(Sym):
        pass

    class Bar(sc.Expr):
        pass

    CLASSES = [sc.Expr, Foo, Bar, Sym]
    pool = {}
    for t in T.flat(T.dag_terms([x, y, I(2), f, T.W("w")], [(f, 0), (f, 1), (f, 2), (x, 1), (I(2), 2)], k - 1, compound_heads=True)):
        pool[t] = None
    for t in T.flat(T.dag_terms([x, f], [(f, 1), (g, 2)], k, compound_heads=True)):
        pool[t] = None
    POOL = list(pool)
    MATH = T.flat(T.dag_terms([x, y, I(-1)], [(ADD, 2), (MUL, 2), (POW, 2), (SIN, 1)], k - 1))


def cases(tier):
    for i in range(0, len(POOL), 200):
        yield ["pool", i]
    for n in range(1, 5 if tier == "thorough" else 4):
        for first in range(8):
            yield ["parts", n, first]
    yield ["atoms"]
    for n in (*range(1, 70), 100, 300, 520, 1030, 2060, 5000):
        yield ["arity", n]
    for n in (1, 10, 100, 1000, 3000):
        yield ["deep", n]
    for i in range(0, len(MATH), 40):
        yield ["results", i]
    yield ["dropped"]
    yield ["simplecas"]


# ------------------------------------------------------------------ oracle


def text(o):
    if isinstance(o, str):
        return o
    try:
        return repr(getattr(o, "rep", o))[:500]
    except RecursionError:
        return "(deep)"


def same(got, want, what, of):
    if got is not want:
        raise Violation(f"{what} is not the original object", of=text(of), got=text(got), original=text(want))


def check_tree(t, rec):
    """One tree is rebuilt from its parts, in every way."""
    if type(t.children) is not tuple:
        raise Violation("the children are no tuple", of=repr(t), got=repr(t.children))
    rec.add("transitions", 2)
    if not t.children:
        a = t.value
        if type(a) is not Atom:
            raise Violation("the value of an atomic tree is no atom", of=repr(t), got=repr(a))
        same(Tr(a), t, "Tr(value)", t)
        same(Tree.atom(a), t, "Tree.atom(value)", t)
        same(a.atom_type(a.value), a, "atom_type(value)", t)
        same(Atom(a.atom_type, a.value), a, "Atom(atom_type, value)", t)
    else:
        for c in t.children:
            if type(c) is not Tree:
                raise Violation("a child is no tree", of=repr(t), got=repr(c))
        same(Tree(*t.children), t, "Tree(*children)", t)
        same(t.children[0](*t.children[1:]), t, "children[0](*children[1:])", t)


def check_expr(e, rec):
    """An expression and everything in it is rebuilt from its parts."""
    cls = type(e)
    todo, seen = [e], set()
    while todo:
        s = todo.pop()
        if s in seen:
            continue
        seen.add(s)
        if type(s) is not cls:
            raise Violation("a part has another class than the whole", of=repr(e.rep), got=type(s).__name__, expected=cls.__name__)
        check_tree(s.rep, rec)
        same(cls(s.rep), s, "the class called with rep", s)
        rec.add("transitions")
        if s.rep.children:
            head, args = s.head, s.args
            if type(args) is not tuple:
                raise Violation("args is no tuple", of=repr(s.rep), got=repr(args))
            if [p.rep for p in (head, *args)] != list(s.rep.children):
                raise Violation("head and args disagree with the children", of=repr(s.rep), head=repr(head.rep), args=repr([a.rep for a in args]))
            same(cls(head.rep(*[a.rep for a in args])), s, "the class called with head and args", s)
            if cls is sc.Expr:
                same(head(*args), s, "head(*args)", s)
            same(s.head, head, "the head asked for again", s)
            if s.args != args:
                raise Violation("args change", of=repr(s.rep))
            todo.extend((head, *args))
    rec.add("states", len(seen))
    rec.add("traces_validated_against_impl")


def check_given(e, parts, what):
    """The parts are those that were given."""
    if not (e.head is parts[0] and len(e.args) == len(parts) - 1 and all(a is b for a, b in zip(e.args, parts[1:]))):
        raise Violation(f"{what} has other parts than were given", got=repr([e.head, *e.args]), given=repr(parts))


# ------------------------------------------------------------------- cases


def check_case(case, rec):
    globals()["check_" + case[0]](case, rec)


def check_pool(case, rec):
    for t in POOL[case[1] : case[1] + 200]:
        e = CAS.fresh(t)
        if CAS.read(e) != t:
            raise Violation("built something else", term=T.show(t), got=repr(e.rep))
        check_expr(e, rec)
        for cls in CLASSES[1:]:
            o = cls(e.rep)
            same(o.rep, e.rep, f"rep of {cls.__name__}", T.show(t))
            check_expr(o, rec)
        if t[0] == "@":
            parts = [CAS.fresh(c) for c in t[1:]]
            same(parts[0](*parts[1:]), e, "a call with the parts", T.show(t))
            check_given(e, parts, T.show(t))
        rec.outcome(T.show(t))
    if case[1] % 2000 == 0:
        rec.sample(T.show(POOL[case[1]]))


def check_parts(case, rec):
    """Every tuple of parts gives a tree and a call with exactly these parts."""
    _, n, first = case
    X, Y, f_ = CAS.build(x), CAS.build(y), CAS.build(f)
    pool = [X, Y, f_, sc.Integer(0), sc.Integer(-1), f_(), f_(X, Y), X(f_)]
    for rest in product(pool, repeat=n - 1):
        parts = [pool[first], *rest]
        e = parts[0](*parts[1:])
        check_given(e, parts, "a call")
        reps = [p.rep for p in parts]
        t = Tree(*reps)
        same(t, e.rep, "Tree of the parts", repr(parts))
        if len(t.children) != n or any(a is not b for a, b in zip(t.children, reps)):
            raise Violation("a tree has other children than were given", got=repr(t.children), given=repr(reps))
        same(reps[0](*reps[1:]), t, "a call of the first part", repr(parts))
        if n > 1:  # another order is another expression
            for other in set(permutations(parts)):
                o = other[0](*other[1:])
                if (o is e) != (list(other) == parts):
                    raise Violation("another order gives the same expression", parts=repr(parts), other=repr(other))
        rec.add("states")
        rec.add("transitions", 3)
        rec.outcome([p.rep for p in parts])
    rec.add("traces_validated_against_impl")


def check_atoms(case, rec):
    import enum

    class Name(str):
        pass

    class Num(int):
        pass

    class Few(tuple):
        pass

    Text = enum.Enum("Text", {"P": "p", "Q": "q"}, type=str)
    Level = enum.IntEnum("Level", {"ONE": 1, "BIG": 10**9})
    # what is not shared yet is kept as it was given
    for typ, v in ((str, Name("c21 name")), (int, Num(210021)), (object, Few((1, 2))), (str, Text.P), (str, Text.Q), (int, Level.ONE), (int, Level.BIG), (int, True), (object, Name("")), (object, Level.ONE)):
        for at, st in ((AtomType("T", typ), sc.Expr.new_atom("T", typ)),):
            a, e = at(v), st(v)
            for got in (a, e.rep.value):
                if got.value is not v:
                    raise Violation("an atom has another value than was given", given=repr(v), got=repr(got.value), type=type(got.value).__name__)
            if repr(Tr(a)) != f"Tr({a!r})" or at(v) is not a or st(v) is not e:
                raise Violation("an atom of a value of another class is not the same again", given=repr(v))
            check_tree(Tr(a), rec)
            rec.outcome([typ.__name__, repr(v)])
    values = {
        int: [0, 1, -1, 2, -2, 256, 257, 2**31, 2**61 - 1, -(2**61), 2**64, 10**50],
        str: ["", "x", "ab", "é", "e\u0301", "x" * 400, "0", "\0", "a b", "Add"],
        object: [None, (), (1,), ((1,), 2), frozenset([1]), 1.5, "x", 0, b"", int, len, ...],
    }
    for typ, vals in values.items():
        for name in ("T", ""):
            at = AtomType(name, typ)
            st = sc.Expr.new_atom(name, typ)
            if at.name != name or at.typ is not typ or st.name != name:
                raise Violation("an atom type has other parts than were given", got=repr([at.name, at.typ, st.name]))
            for v in vals:
                a = at(v)
                if a.atom_type is not at or not (a.value is v or a.value == v and type(a.value) is type(v)):
                    raise Violation("an atom has other parts than were given", given=repr(v), got=repr([a.atom_type, a.value]))
                t = Tr(a)
                if t.value is not a or t.children != ():
                    raise Violation("an atomic tree has other parts than were given", given=repr(a), got=repr([t.value, t.children]))
                check_tree(t, rec)
                e = st(v)
                if e.rep.value.value != v or e.rep.value.atom_type is not st.atom_type or type(e) is not sc.Expr:
                    raise Violation("an atomic expression has other parts than were given", given=repr(v), got=repr(e.rep))
                same(st(e.rep.value.value), e, "the atom type called with the value", repr(v))
                check_expr(e, rec)
                rec.outcome([name, v])
    for typ in CLASSES:
        at = typ.new_atom("Z", str)
        e = at("q")
        if type(e) is not typ:
            raise Violation("an atom has another class than it was made for", got=type(e).__name__, expected=typ.__name__)
        check_expr(e, rec)
        w = typ.new_wild("q")
        if type(w) is not typ or w.rep.value.value != "q":
            raise Violation("wrong wildcard", got=repr(w.rep))
        check_expr(w, rec)


def check_arity(case, rec):
    n = case[1]
    f_ = CAS.build(f)
    for parts in (
        [f_, *[sc.Symbol(f"s{i}") for i in range(n)]],
        [f_, *[sc.Symbol(f"s{i % 3}") for i in range(n)]],
        [f_, *[sc.Integer(n - i) for i in range(n)]],
        [f_(f_), *[f_(sc.Integer(i)) for i in range(n)]],
        *[[hd, *[part] * n] for hd in (f_, sc.Add, sc.Mul, sc.List) for part in (sc.x, sc.zero, f_(sc.x), hd, sc.Add(sc.x, sc.y))],
        *[[hd, *[sc.x] * i, sc.y, *[sc.x] * (n - i - 1)] for hd in (f_, sc.Add) for i in {0, 1, n // 2, n - 2, n - 1} if 0 <= i < n],
    ):
        e = parts[0](*parts[1:])
        check_given(e, parts, f"a call with {n} arguments")
        check_expr(e, rec)
        o = CLASSES[1](e.rep)
        check_expr(o, rec)


def check_deep(case, rec):
    n = case[1]
    f_, X = CAS.build(f), CAS.build(x)
    chain = [X]
    for i in range(n):
        chain.append(f_(chain[-1]) if i % 2 else f_(X, chain[-1]))
    for low, high in zip(chain, chain[1:]):
        same(high.args[-1], low, "the argument", "a deep expression")
        same(f_(*high.args), high, "rebuilding", "a deep expression")
        check_tree(high.rep, rec)
    # as heads
    h = f_
    for _ in range(n):
        new = h(X)
        same(new.head, h, "the head", "a deep head")
        same(new.head(*new.args), new, "rebuilding", "a deep head")
        h = new
    rec.add("states", 2 * n)


def check_results(case, rec):
    """What operations return is rebuilt exactly as well."""
    X, Y = CAS.build(x), CAS.build(y)
    for t in MATH[case[1] : case[1] + 40]:
        e = CAS.fresh(t)
        results = [e.xreplace({X: Y}), e.xreplace({X: e}), e.bin_expand(), e + 1, -e, e / 2, 2 - e, e**2, e.as_function(X)(Y + 1), sc.expressify(e)]
        m = sc.Matrix([[e, 0], [1, X]])
        results += [m[0, 0], (m + m)[0, 0], sc.List(*m.elements)]
        for fn in (lambda: e.diff(X), lambda: e.diff(Y, 2), lambda: m.diff(X)[0, 0], lambda: sc.Expr.from_sympy(e.to_sympy())):
            try:
                results.append(fn())
            except Exception:  # noqa - no derivative rule, or not representable
                pass
        for r in results:
            if type(r) is not sc.Expr:
                raise Violation("a result is no expression", of=T.show(t), got=repr(r))
            check_expr(r, rec)
        rec.outcome(T.show(t))


def check_dropped(case, rec):
    """The whole is dropped while a subset of the parts is held."""
    X, Y, f_ = CAS.build(x), CAS.build(y), CAS.build(f)
    # dropped atoms and trees, rebuilt from the values
    for n in range(4):
        for mask in range(1 << n):
            for cls in CLASSES:
                f2 = sc.Function("fresh_f")
                parts = [f2, *[sc.Symbol(f"fresh_{n}_{mask}_{i}") for i in range(n)]]
                objs = [cls(p.rep) for p in parts]
                whole = cls(parts[0].rep(*[p.rep for p in parts[1:]]))
                inner = whole.rep
                del whole, inner, parts, f2
                held = [o for i, o in enumerate(objs) if i == 0 or mask >> (i - 1) & 1]
                n_parts = len(objs)
                del objs
                gc.collect(0)
                names = ["fresh_f"] + [f"fresh_{n}_{mask}_{i}" for i in range(n_parts - 1)]
                new = [cls((sc.Symbol if i else sc.Function)(s).rep) for i, s in enumerate(names)]
                for i, o in enumerate(new):
                    if (i == 0 or mask >> (i - 1) & 1) and not any(o is h for h in held):
                        raise Violation("a held part was not found again", name=names[i])
                again = cls(new[0].rep(*[o.rep for o in new[1:]]))
                check_given(again, new, "a rebuilt expression")
                check_expr(again, rec)
    # all parts held, the whole rebuilt many times
    for i in range(50):
        e = f_(X, Y, sc.Integer(i))
        h, a = e.head, e.args
        del e
        e = h(*a)
        check_given(e, [h, *a], "a rebuilt expression")
        same(h(*a), e, "rebuilding again", repr(i))


def check_simplecas(case, rec):
    """The predefined names are rebuilt from their parts."""
    X = sc.Symbol("x")
    for name in ("x", "y"):
        same(getattr(sc, name), sc.Symbol(name), f"Symbol({name})", name)
    for got, kind, v in (
        (sc.zero, sc.Integer, 0), (sc.one, sc.Integer, 1), (sc.negone, sc.Integer, -1), (sc.f, sc.Function, "f"), (sc.g, sc.Function, "g"), (sc.sin, sc.Function, "sin"),
        (sc.cos, sc.Function, "cos"), (sc.Add, sc.Function, "Add"), (sc.Mul, sc.Function, "Mul"), (sc.Pow, sc.Function, "pow"), (sc.List, sc.Function, "List"),
    ):  # fmt: skip
        same(kind(v), got, f"{kind!r}({v!r})", repr(got))
        check_expr(got, rec)
        check_expr(got(X, X), rec)
    for n in range(-300, 301):
        e = sc.expressify(n)
        same(e, sc.Integer(n), "expressify", str(n))
        v = e.rep.value.value
        if v != n or type(v) is not int:
            raise Violation("an integer has another value", given=n, got=repr(v))
        check_expr(e, rec)
        same((X + n).args[1], e, "the operand", str(n))
    # a class whose atoms have the same names as another's
    class Foo(Sym):
        pass

    I2 = Foo.new_atom("Integer", int)
    for n in range(5):
        a, b = I2(n), sc.Integer(n)
        if a is b or a.rep is b.rep:
            raise Violation("two atom types share an object", value=n)
        check_expr(a, rec)
        check_expr(Foo(b.rep), rec)
