"""C02: identity survives every thread interleaving."""
import gc

from mc import sched

sched.patch_locks()

from mc import schedcheck  # noqa: E402

LEVEL = "model_checking"
RULE = (
    "schedules: executions of real threads under a scheduler that owns every switch, enumerated depth first up to a preemption bound; states: scheduling "
    "decisions; transitions: bytecodes at which a switch was considered; traces: schedules run again with the same result"
)
ASSUMPTIONS = [
    "a switch can happen before any bytecode that reads or writes shared data (CPython 3.12 itself switches only at some of these); C code is atomic",
    "locks made by the library are replaced by cooperative ones with the same meaning",
    "the number of preemptions is bounded as stated",
]
CASE_LIMIT = 400
H = {}


def harness(fn):
    H[fn.__name__] = fn
    return fn


def same(results):
    """All results are one object."""
    first = results[0]
    for r in results[1:]:
        if r is not first:
            return f"two live objects for one expression: {first!r} and {r!r}"
    return None


def all_same(rebuild):
    def verify(results):
        bad = same(results)
        if bad is None and rebuild() is not results[0]:
            bad = f"rebuilding {results[0]!r} afterwards gives another object"
        return bad

    return verify


def prepare(tier):
    from protosym.core.atom import AtomType
    from protosym.core.sym import Sym
    from protosym.core.tree import SubsFunc, Tr, Tree
    import protosym.simplecas as sc

    global KEEP
    A, B, N = AtomType("A", str), AtomType("A", str), AtomType("N", int)

    class Mine(Sym):
        pass

    class Other(Sym):
        pass

    f, g, x, y = (Tr(A(n)) for n in ("f", "g", "x", "y"))
    gx = g(x)
    X, Y = sc.Symbol("x"), sc.Symbol("y")
    KEEP = [f, g, x, y, gx, X, Y, Mine, Other]
    MyAtom = Mine.new_atom("M", str)
    expr = sc.sin(X) * sc.cos(X)
    fun = (X + Y).as_function(X)
    mat = sc.Matrix([[X, sc.sin(X)], [0, Y]])
    subs = SubsFunc(f(gx, x), [x])

    def atom(value, typ=A):
        a = typ(value)
        if a.atom_type is not typ or a.value != value:
            raise AssertionError("partly built atom")
        return a

    def leaf(value, typ=A):
        t = Tr(atom(value, typ))
        if t.children != () or t.value.value != value:
            raise AssertionError("partly built atomic tree")
        return t

    def node(*c):
        t = Tree(*c)
        if t.children != c:
            raise AssertionError("partly built tree")
        return t

    def sym(cls, t):
        s = cls(t)
        if s.rep is not t or type(s) is not cls:
            raise AssertionError("partly built expression")
        return s

    def pair(make):
        return lambda: ([make, make], all_same(make))

    def triple(make):
        return lambda: ([make, make, make], all_same(make))

    simple = {
        "atom": lambda: atom("q"),
        "leaf": lambda: leaf("q"),
        "node1": lambda: node(f),
        "node2": lambda: node(f, x),
        "node4": lambda: node(f, x, y, gx),
        "call": lambda: f(x, x),
        "nested": lambda: node(f, node(g, y), node(g, y)),
        "sym": lambda: sym(Mine, gx),
        "symatom": lambda: MyAtom("q"),
        "wild": lambda: Mine.new_wild("q"),
        "expr": lambda: sym(sc.Expr, gx),
        "symbol": lambda: sc.Symbol("q"),
        "integer": lambda: sc.Integer(12345678901234567890),
        "add": lambda: X + 7,
        "neg": lambda: -X,
        "function": lambda: sc.Function("q")(X),
        "deep": lambda: sc.sin(sc.Symbol("u") + 7) ** 2,
        "args": lambda: (X * Y).args[1],
        "diff": lambda: expr.diff(X),
        "apply": lambda: fun(sc.Symbol("q")),
        "subs": lambda: subs(y),
        "binexp": lambda: sc.Add(X, Y, X).bin_expand(),
        "matrix": lambda: (mat + mat)[0, 1],
    }
    for name, make in simple.items():
        H[name] = pair(make)
        H[name + "3"] = triple(make)

    def dropping(make):
        """Each thread builds, drops and builds again."""

        def body():
            r = make()
            del r
            return make()

        return lambda: ([body, body], all_same(make))

    def last_ref(make):
        """One thread drops the last reference while the other builds."""

        def build():
            cell = [make()]

            def drop():
                cell.clear()
                return make()

            return [drop, make], all_same(make)

        return build

    def last_ref3(make):
        def build():
            cell = [make()]
            return [cell.clear, make, make], lambda r: all_same(make)(r[1:])

        return build

    def only_drop(make):
        """Afterwards nothing may be broken for the next one."""

        def build():
            cell = [make()]

            def transient():
                make()

            return [cell.clear, transient], lambda r: all_same(make)([make(), make()])

        return build

    def collecting(make):
        def build():
            cycle = [make()]
            cycle.append(cycle)
            del cycle

            def collect():
                gc.collect()
                return make()

            return [collect, make], all_same(make)

        return build

    for name in ("atom", "leaf", "node2", "sym", "symbol", "add", "nested"):
        H["drop_" + name] = dropping(simple[name])
        H["last_" + name] = last_ref(simple[name])
        H["last3_" + name] = last_ref3(simple[name])
        H["only_" + name] = only_drop(simple[name])
        H["gc_" + name] = collecting(simple[name])

    def different(*makes):
        """Different expressions must stay different, and be rebuilt the same."""

        def build():
            def verify(results):
                for i, r in enumerate(results):
                    for q in results[:i]:
                        if r is q or r == q:
                            return f"different expressions are one object: {r!r}"
                    if makes[i]() is not r:
                        return f"rebuilding {r!r} afterwards gives another object"
                return None

            return list(makes), verify

        return build

    # -1 and -2 have the same hash, and so do 0 and 2**61 - 1
    H["collide_atom"] = different(lambda: atom(-1, N), lambda: atom(-2, N))
    H["collide_leaf"] = different(lambda: leaf(0, N), lambda: leaf(2**61 - 1, N))
    H["types"] = different(lambda: atom("q", A), lambda: atom("q", B))
    H["classes"] = different(lambda: sym(Mine, gx), lambda: sym(Other, gx))
    H["orders"] = different(lambda: node(f, x, y), lambda: node(f, y, x))
    H["sums"] = different(lambda: X + 8, lambda: 8 + X)

    def overlapping():
        """Two expressions sharing a new part."""

        def one():
            return f(node(g, y), x)

        def two():
            return g(node(g, y))

        def verify(results):
            a, b = results
            if a.children[1] is not b.children[1]:
                return "the shared part is two objects"
            return None if one() is a and two() is b else "rebuilding gives another object"

        return [one, two], verify

    H["overlapping"] = overlapping

    def refused():
        """A malformed construction next to a good one."""

        def bad():
            for args in ((f, 1), (f, None, x)):
                try:
                    Tree(*args)
                except TypeError:
                    continue
                return "accepted"
            return "refused"

        def good():
            return node(f, x)

        def verify(results):
            return None if results[0] == "refused" and good() is results[1] else f"wrong result {results!r}"

        return [bad, good], verify

    H["refused"] = refused

    def reading():
        """One thread uses what the other is rebuilding."""
        held = X + 9

        def use():
            return str(held), held.count_ops_tree(), held.args[0]

        def verify(results):
            (text, n, arg), new = results
            return None if text == "(x + 9)" and n == 3 and arg is X and new is held else f"wrong result {results!r}"

        return [use, lambda: X + 9], verify

    H["reading"] = reading

    if tier == "thorough":
        import sympy

        sx = sympy.sin(sympy.Symbol("x")) + 3
        H["from_sympy"] = pair(lambda: sc.Expr.from_sympy(sx))


SMALL = ["atom", "leaf", "node1", "node2", "node4", "call", "sym"]
MIDDLE = ["nested", "expr", "symatom", "wild", "symbol", "integer", "neg"]
LARGE = ["add", "function", "args", "subs", "apply", "binexp", "deep", "diff", "matrix"]
DROPS = ["atom", "leaf", "node2", "sym", "symbol", "add", "nested"]
DIFFERENT = ["collide_atom", "collide_leaf", "types", "classes", "orders"]


def plan(tier):
    out = []
    deep = tier == "thorough"
    # name, threads, switching points, bound, shards, symmetric
    for n in SMALL:
        out.append((n, 2, "every" if deep else "shared", 3 if deep and n in ("atom", "leaf", "node1") else 2, 8 if deep else 2, True))
        out.append((n + "3", 3, "shared", 2 if deep else 1, 8 if deep else 1, True))
    for n in MIDDLE:
        out.append((n, 2, "shared" if deep else "writes", 2, 16 if deep else 4, True))
        out.append((n, 2, "every", 1, 1, True))
        out.append((n + "3", 3, "shared" if deep else "writes", 1, 2, True))
    for n in LARGE:
        out.append((n, 2, "every" if deep else "shared", 1, 4, True))
        if deep:
            out.append((n, 2, "writes", 2 if n in ("add", "function", "args", "subs", "apply") else 1, 16, True))
            out.append((n + "3", 3, "writes", 1, 4, True))
    for n in DROPS:
        small = n in ("atom", "leaf", "node2", "sym")
        out.append(("drop_" + n, 2, "every", 1, 1, True))
        out.append(("drop_" + n, 2, "shared" if deep and small else "writes", 2 if deep or small else 1, 8 if deep else 2, True))
        for kind, threads in (("last_", 2), ("only_", 2), ("last3_", 3), ("gc_", 2)):
            out.append((kind + n, threads, "every" if small or deep else "shared", 1, 1, False))
            if deep and kind != "gc_":
                out.append((kind + n, threads, "shared" if small else "writes", 2, 8, False))
        if not deep and small:
            out.append(("last_" + n, 2, "shared", 2, 2, False))
    for n in DIFFERENT:
        out.append((n, 2, "every" if deep else "shared", 2, 4 if deep else 1, False))
    out.append(("sums", 2, "shared", 2 if deep else 1, 16 if deep else 1, False))
    for n in ("overlapping", "refused", "reading"):
        out.append((n, 2, "shared" if n != "reading" else "writes", 2 if deep or n == "refused" else 1, 16 if deep else 1, False))
    for n in ("atom", "leaf", "node2", "sym", "symbol", "add", "diff", "subs", "apply"):
        out.append((n, 2, "cold:shared" if deep or n not in ("add", "diff", "apply") else "cold:writes", 1, 2, True))
    if deep:
        out.append(("from_sympy", 2, "shared", 1, 4, True))
    return out


def bounds(tier):
    p = plan(tier)
    return (
        f"{len(p)} explorations of {len(set(n for n, *_ in p))} harnesses: 2 and 3 threads building the same atom, tree, expression or user class instance "
        "(atoms, leaves, trees of 1-4 children, nested, operators, derivatives, substitutions, matrices), building and dropping, dropping the last reference, "
        "garbage collecting, and building different expressions with equal hashes or names; all schedules with at most 2 preemptions for single "
        "constructions (3 for some in thorough), 1 or 2 for longer ones; some with every schedule in a fresh process; switching before every bytecode / every shared access / every call and write"
    )


def cases(tier):
    return schedcheck.case_list(plan(tier))


def check_case(case, rec):
    schedcheck.check(H, case, rec)
