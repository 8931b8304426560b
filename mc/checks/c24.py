"""C24: the verbose text of a tree rebuilds it, the plain text shows its form."""
from decimal import Decimal
from fractions import Fraction
from itertools import product

from mc import terms as T
from mc.framework import Violation
from mc.terms import F, I, S, W

LEVEL = "model_checking"
RULE = (
    "states: atoms, trees and base-class expressions; transitions: display calls on the real code; traces: verbose texts that Python evaluates back to the very "
    "object, and plain texts equal to those of the reference; verbose texts of different objects are different because each is evaluated back"
)
ASSUMPTIONS = [
    "atom types have distinct names that are identifiers, and values are rebuilt by Python from their own text",
    "nesting is within Python's own limit for brackets (200)",
]
x, y, f, g = S("x"), S("y"), F("f"), F("g")


def bounds(tier):
    k = 4 if tier == "thorough" else 3
    return (
        f"all DAGs with <= {k - 1} compounds of f/0, f/1, f/2, atom heads and compound heads of 0..2 arguments over 5 atoms, <= {k} over x, f with f/1, g/2; every "
        f"tuple of <= {k + 1} of 8 parts; 80 atom values of 10 atom types; arity to 5000, nesting to 90 in arguments and in heads; the trees of derivatives, substitutions and expansions "
        "of all expressions with <= 2 compounds"
    )


def prepare(tier):
    global CAS, sc, NS, POOL, MATH, Tr, Tree, AtomType, Sym
    import protosym.simplecas as sc_
    from protosym.core.atom import AtomType
    from protosym.core.sym import Sym
    from protosym.core.tree import Tr, Tree

    globals().update(AtomType=AtomType, Sym=Sym, Tr=Tr, Tree=Tree)
    sc = sc_
    CAS = T.Cas()
    NS = {"Tr": Tr, "Tree": Tree, "Sym": Sym}
    for e in (sc.Integer(1), sc.Symbol("x"), sc.Function("f"), sc.Expr.new_wild("w")):
        at = e.rep.value.atom_type
        NS[repr(at)] = at
    if len(NS) != 7:
        raise Violation("the atom types do not have distinct names", got=sorted(NS))
    k = 4 if tier == "thorough" else 3
    pool = {}
    for t in T.flat(T.dag_terms([x, y, I(2), f, W("w")], [(f, 0), (f, 1), (f, 2), (x, 1), (I(2), 2)], k - 1, compound_heads=(0, 1, 2))):
        pool[t] = None
    for t in T.flat(T.dag_terms([x, f], [(f, 1), (g, 2)], k, compound_heads=True)):
        pool[t] = None
    POOL = list(pool)
    MATH = T.flat(T.dag_terms([x, y, I(-1)], [(T.ADD, 2), (T.MUL, 2), (T.POW, 2), (T.SIN, 1)], 2))


def cases(tier):
    for i in range(0, len(POOL), 300):
        yield ["pool", i]
    for first in range(8):
        yield ["parts", 5 if tier == "thorough" else 4, first]
    yield ["atoms"]
    for n in (*range(0, 40), 64, 100, 300, 520, 1030, 2060, 5000):
        yield ["arity", n]
    for n in range(0, 91, 5):
        yield ["deep", n]
    for i in range(0, len(MATH), 100):
        yield ["results", i]
    yield ["apart"]


def plain(t):
    return str(t[1]) if t[0] != "@" else plain(t[1]) + "(" + ", ".join(plain(a) for a in t[2:]) + ")"


def back(obj, rec, ns=None):
    """The verbose text is evaluated back to the object."""
    text = repr(obj)
    rec.add("transitions")
    try:
        got = eval(text, dict(ns or NS))  # noqa: S307
    except Exception as e:
        raise Violation("the verbose text is no Python expression", text=text[:400], error=repr(e)) from None
    if got is not obj:
        raise Violation("the verbose text gives another object", text=text[:400], got=repr(got)[:400])
    if repr(obj) != text:
        raise Violation("the verbose text changes", text=text[:400], again=repr(obj)[:400])
    return text


def check_tree(tree, t, rec):
    rec.add("states")
    text = back(tree, rec)
    if text[:3] not in ("Tr(", "Tre") or (text[:3] == "Tr(") != (not tree.children):
        raise Violation("the verbose text does not tell atoms from compounds", text=text[:400])
    want = plain(t)
    for how, got in (("str", str(tree)), ("format", f"{tree}"), ("percent", "%s" % (tree,))):
        if got != want:
            raise Violation(f"wrong plain text ({how})", got=got[:400], expected=want[:400])
    rec.add("transitions", 3)
    rec.add("traces_validated_against_impl")
    rec.outcome(text)


def check_case(case, rec):
    globals()["check_" + case[0]](case, rec)


def check_pool(case, rec):
    for t in POOL[case[1] : case[1] + 300]:
        tree = CAS.build(t).rep
        check_tree(tree, t, rec)
        e = Sym(tree)
        back(e, rec)
        if str(e) != str(tree):
            raise Violation("a base-class expression shows another text than its tree", got=str(e), tree=str(tree))
        if tree.children:
            if eval("(" + ", ".join(map(repr, tree.children)) + ",)", dict(NS)) != tree.children:  # noqa: S307
                raise Violation("the texts of the children do not rebuild them", tree=repr(tree))
        else:
            back(tree.value, rec)
            if str(tree.value) != str(tree):
                raise Violation("an atom shows another text than its tree", got=str(tree.value))
    rec.sample(repr(tree))


def check_parts(case, rec):
    _, top, first = case
    parts = [x, y, f, I(0), I(-1), T.app(f), T.app(f, x, y), T.app(x, f)]
    for n in range(top):
        for rest in product(parts, repeat=n):
            t = ("@", parts[first], *rest)
            check_tree(CAS.build(t).rep, t, rec)


VALUES = {
    int: [0, 1, -1, 2, -2, 10, -10, 255, 256, 2**31, -(2**63), 2**64, 2**100, 10**50, -(10**200)],
    str: [
        "", " ", "x", "ab", "a b", "é", "日本", "\n", "\t", "\0", "'", '"', "\\", "'\"", "\\n", "{x}", "%s", "(", ")", ",", "Tr(x)", "Tree(", "0", "x" * 500, "\x1b", "\u2028",
    ],
    tuple: [(), (1,), (1, 2), ((1,), "a"), ("", None)],
    float: [0.0, 1.5, -2.25, 1e300, 5e-324],
    object: [None, (), "x", 0, -3, b"", b"x\0", ..., ("x",), frozenset(), frozenset([1]), 1.5, 2j],
    bool: [True, False],
    Fraction: [Fraction(1, 2), Fraction(-3), Fraction(0)],
    Decimal: [Decimal("1.50"), Decimal("-0"), Decimal("1E+9")],
    bytes: [b"", b"a\0'"],
    complex: [1j, complex(-0.0, 2.5)],
}


def check_atoms(case, rec):
    ns = {**NS, "Fraction": Fraction, "Decimal": Decimal}
    types = {typ: AtomType(f"Kind_{typ.__name__}", typ) for typ in VALUES}
    for typ, at in types.items():
        ns[at.name] = at
        if repr(at) != at.name or str(at) != at.name:
            raise Violation("an atom type is not shown by its name", got=repr(at), name=at.name)
    texts = {}
    for typ, values in VALUES.items():
        for v in values:
            a = types[typ](v)
            t = Tr(a)
            c = Tree(t, t)
            s = Sym(c)
            for obj, text in ((a, f"{at_name(types[typ])}({v!r})"), (t, f"Tr({at_name(types[typ])}({v!r}))")):
                if back(obj, rec, ns) != text:
                    raise Violation("the verbose text of an atom does not show its type and value", got=repr(obj), expected=text)
            for obj in (c, s, Tree(t, c, t), Tree(c, t)):
                back(obj, rec, ns)
            for obj in (a, t):
                if str(obj) != str(v):
                    raise Violation("the plain text of an atom is not that of its value", got=str(obj), value=repr(v))
            if str(c) != f"{v}({v})" or str(Tree(c, t, t)) != f"{v}({v})({v}, {v})":
                raise Violation("wrong plain text", got=str(c), value=repr(v))
            texts.setdefault(repr(t), t)
            if texts[repr(t)] is not t:
                raise Violation("two atoms have the same verbose text", text=repr(t))
            rec.add("states", 6)
            rec.outcome(repr(a))
    rec.add("traces_validated_against_impl", len(texts))


def at_name(at):
    return at.name


def check_arity(case, rec):
    n = case[1]
    for t in (T.app(f, *[S(f"s{i}") for i in range(n)]), T.app(T.app(f, x), *[I(-i) for i in range(n)]), T.app(f, *[T.app(g, x)] * n), T.app(I(n), *[T.app(f)] * n)):
        check_tree(CAS.build(t).rep, t, rec)


def check_deep(case, rec):
    n = case[1]
    ts = [x, x, f, y]
    for i in range(n):
        ts[0] = T.app(f, ts[0])
        ts[1] = T.app(g, S(f"a{i}"), ts[1], I(i))
        ts[2] = T.app(ts[2], x)
        ts[3] = T.app(ts[3], T.app(f, I(i)), y) if i % 2 else T.app(g, ts[3])
    for t in ts:
        check_tree(CAS.build(t).rep, t, rec)


def check_results(case, rec):
    X, Y = sc.Symbol("x"), sc.Symbol("y")
    for t in MATH[case[1] : case[1] + 100]:
        e = CAS.build(t)
        made = [e, e.xreplace({X: Y + 2}), e.bin_expand(), e.as_function(X)(-Y), sc.List(e, Y)]
        for fn in (lambda: e.diff(X), lambda: e.diff(Y, 2)):
            try:
                made.append(fn())
            except Exception:  # noqa - an exponent depends on the variable
                pass
        for r in made:
            check_tree(r.rep, CAS.read(r), rec)


def check_apart(case, rec):
    """Texts are those of the object itself, whatever was displayed before."""
    small = POOL[:80]
    trees = [CAS.build(t).rep for t in small]
    alone = [(repr(t), str(t)) for t in trees]
    for i, a in enumerate(trees):
        for j, b in enumerate(trees):
            ra, sb, rb, sa = repr(a), str(b), repr(b), str(a)
            if (ra, sa) != alone[i] or (rb, sb) != alone[j]:
                raise Violation("a text depends on what was displayed before", first=ra, second=rb)
            rec.add("transitions", 4)
    # atoms and trees made anew show the same text
    del trees
    for t, want in zip(small, alone):
        tree = CAS.fresh(t).rep
        if (repr(tree), str(tree)) != want:
            raise Violation("a text changed when the tree was rebuilt", got=repr(tree), before=want[0])
    rec.add("states", len(small) ** 2)
    rec.add("traces_validated_against_impl")
