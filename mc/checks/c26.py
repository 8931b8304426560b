"""C26: results are reproducible: no dependence on addresses or hash order."""

import json
import os
import subprocess
import sys
from itertools import combinations, permutations

from mc import terms as T
from mc.framework import VERIF, Rec, Violation, forked
from mc.terms import ADD, COS, F, I, MUL, POW, S, SIN

LEVEL = "model_checking"
RULE = (
    "states: (expression, order that hashes put its subexpressions in, order for the objects that operations make); transitions: operations on the real code "
    "with hashes of atoms, trees and expressions under control; traces: (expression, hash order) pairs in which every operation gave what it gives in the first "
    "order; bound to the unmodified hashes by processes with different hash seeds and memory layouts that have to give the same results"
)
ASSUMPTIONS = [
    "Python iterates over a set of at most 4 (5..19) objects in the order of their hashes modulo 8 (32), so that all orders of the hashes give all orders of the set",
    "a result that is itself a set has no order",
]
x, y, z, f, g, h = S("x"), S("y"), S("z"), F("f"), F("g"), F("h")


def bounds(tier):
    deep = tier == "thorough"
    return (
        f"all expressions with <= {3 if deep else 2} compounds of sums, products, powers, sin and user functions over x, y, 2 (and n-ary ones) whose subexpressions "
        f"number at most {5 if deep else 4} (all with one compound, for more those over x, y with selected heads): every order of the hashes of the subexpressions x 3 orders for new objects x 17 groups of operations; {160 + deep * 200} expressions with 3..16 dependent operands x rotations and reverse of their hashes; {32 if deep else 16} with 17..{70 if deep else 40} x 4 orders; {24 if deep else 8} process-wide hash orders for "
        "larger expressions and for the heads; every operation again while 20 to 40 expressions similar to each expression of its result exist (reordered, "
        "regrouped, longer and shorter), and while they exist for all results together; 8 hash seeds and memory layouts of unmodified processes"
    )


# ------------------------------------------------------------ hash control

HASH = {}  # id -> hash; everything is kept alive
KEEP = []
NEXT = [0, 1]
KEYS = {}  # id of a tree -> what it is made of
PLAN = {}  # what a tree is made of -> the hash of it and of its expression


def made_of(tree):
    key = KEYS.get(id(tree))
    if key is None:
        key = tuple(map(made_of, tree.children)) or (tree.value.atom_type.name, tree.value.value)
        KEYS[id(tree)] = key
        KEEP.append(tree)
    return key


def planned(t):
    if t[0] == "@":
        return tuple(map(planned, t[1:]))
    return ({"S": "Symbol", "F": "Function", "I": "Integer"}[t[0]], t[1])


def controlled(self):
    v = HASH.get(id(self))
    if v is None:
        KEEP.append(self)
        tree = getattr(self, "rep", self)
        if hasattr(tree, "children"):
            try:
                v = PLAN.get(made_of(tree))
            except AttributeError:  # not complete yet
                v = None
        if v is None:
            NEXT[0] += NEXT[1]
            v = ORDER(NEXT[0])
        HASH[id(self)] = v
    return v


def ORDER(n):
    return n


def control(order=None):
    """Import the library with hashes under control (in a new process)."""
    global ORDER
    if order is not None:
        ORDER = order
    import protosym.core.atom as atom

    atom.AtomType.__hash__ = controlled
    atom.Atom.__hash__ = controlled
    import protosym.core.tree as tree

    tree.Tree.__hash__ = controlled
    import protosym.core.sym as sym

    sym.Sym.__hash__ = controlled
    return library()


def library():
    import protosym.simplecas as sc
    from protosym.core.sym import SymDifferentiator

    a, b = sc.Expr.new_wild("a"), sc.Expr.new_wild("b")
    globals().update(sc=sc, SymDifferentiator=SymDifferentiator, A=a, B=b)
    if type(sc.x.rep).__hash__ is controlled and hash(sc.x.rep) != HASH[id(sc.x.rep)]:
        raise Violation("hashes cannot be controlled")
    return sc


def prepare(tier):
    global POOL, BIG, WIDE
    deep = tier == "thorough"
    pool = {}
    limit = 5 if deep else 4
    families = [
        ([x, y, I(2)], [(ADD, 2), (MUL, 2), (POW, 2), (SIN, 1), (f, 1), (g, 2)], 1),
        ([x, y], [(ADD, 2), (MUL, 2), (f, 1), (g, 2)] + [(POW, 2), (SIN, 1)] * deep, 2),
        ([x], [(MUL, 2), (g, 2)], 3),
        ([x, y, f], [(f, 1), (g, 2), (h, 3)], 1),
        ([x, y, z], [(ADD, 3), (MUL, 3), (h, 3)], 1),
    ]
    if deep:
        families += [([x], [(ADD, 2), (MUL, 2), (f, 1), (g, 2)], 3), ([x, y, f], [(f, 1), (g, 2)], 2)]
    for leaves, ops, k in families:
        for t in T.flat(T.dag_terms(leaves, ops, k)):
            # one of each pair that differs in the names of x and y
            if 0 < len(local(t)) <= limit and t not in pool and swapped(t) not in pool:
                pool[t] = None
    names = [S(n) for n in "uvwxy"]
    for n in range(2, 6 if deep else 4):
        for head in (ADD, MUL, f):
            for t in (T.app(head, *names[:n]), T.app(head, *names[:n][::-1])):
                if len(local(t)) <= 6:
                    pool[t] = None
    parts = [x, T.sin(x), T.app(f, x), T.app(g, x, x), T.mul(x, x), T.sin(T.sin(x)), T.app(g, y, x), T.add(x, y)]
    WIDE = []
    for n in range(3, 9 if deep else 7):
        for k in range(len(parts)):
            args = [*parts[k:], *parts[:k]][:n]
            for head in (ADD, MUL) + (F("List"),) * deep:
                WIDE += [T.app(head, *args), T.app(head, *args, *args[::-1])]
            WIDE.append(T.app(g, T.mul(*args), T.app(f, T.mul(*args))))
    global WIDER
    WIDER = []
    for n in (17, 24, 40, 70) if deep else (17, 40):
        args = [(T.app(f, I(i)), T.sin(T.mul(x, I(i))), S(f"v{i}"), T.mul(I(i), y))[i % 4] for i in range(n)]
        WIDER += [T.app(head, *order) for head in (ADD, MUL, F("List"), g) for order in (args, args[::-1])]
    POOL = list(pool)
    BIG = []
    for t in T.dag_terms([x, y, I(2)], [(ADD, 2), (MUL, 3), (POW, 2), (SIN, 1), (g, 2)], 2)[2][:: 9 if deep else 36]:
        u = T.mul(T.add(t, *[S(f"s{i}") for i in range(6)]), T.sin(t), x)
        BIG.append(T.add(u, T.app(f, u), T.app(g, T.app(f, t), u), y))


def swapped(t):
    if t[0] == "@":
        return ("@", *map(swapped, t[1:]))
    return {x: y, y: x}.get(t, t)


def local(t):
    """The subexpressions whose hashes are permuted: all but built-in heads."""
    own = {s for s in T.subterms(t, heads=True) if s[0] in "SF" and s not in (ADD, MUL, POW, SIN, COS)}
    return sorted((s for s in T.subterms(t, heads=True) if own & set(T.subterms(s, heads=True))), key=lambda s: (T.tree_size(s), repr(s)))


# -------------------------------------------------------------- operations


class Maker:
    """Builds terms with names of its own, so that nothing exists before."""

    def __init__(self, tag):
        self.tag = tag
        self.memo = {}

    def rename(self, t):
        if t[0] == "@":
            return ("@", *map(self.rename, t[1:]))
        return (t[0], t[1] + self.tag) if t[0] in "SF" and t not in (ADD, MUL, POW, SIN, COS) else t

    def atom(self, t):
        if t[0] == "S":
            return sc.Symbol(t[1] + self.tag)
        if t[0] == "F" and t not in (ADD, MUL, POW, SIN, COS):
            return sc.Function(t[1] + self.tag)
        if t[0] == "F":
            return sc.Function(t[1])
        return sc.Integer(t[1])

    def build(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.atom(t) if t[0] != "@" else self.build(t[1])(*map(self.build, t[2:]))
        return r

    def canon(self, v):
        from protosym.core.tree import Tree

        if isinstance(v, sc.Expr):
            return self.canon(v.rep)
        if isinstance(v, Tree):
            return repr(v).replace(self.tag, "")
        if isinstance(v, str):
            return v.replace(self.tag, "")
        if isinstance(v, (set, frozenset)):
            return ["set", *sorted(repr(self.canon(i)) for i in v)]
        if isinstance(v, (list, tuple)):
            return [self.canon(i) for i in v]
        if isinstance(v, sc.Matrix):
            return [list(v.shape), self.canon(v.tolist()), repr(v).replace(self.tag, "")]
        return repr(v)


def attempt(fn):
    try:
        return fn()
    except Exception as e:  # noqa - no rule for this expression
        return type(e).__name__


def operations(m, t):
    """Names and results of the operations on a term."""
    from protosym.core.evaluate import Evaluator
    from protosym.core.tree import SubsFunc, forward_graph, topological_sort, topological_split

    e = m.build(t)
    X, Y = m.build(x), m.build(y)
    fx, gx = m.build(f), m.build(g)
    d = SymDifferentiator(sc.Expr, add=sc.Add, mul=sc.Mul, zero=sc.zero, one=sc.one)
    d[sc.sin(A), A] = sc.cos(A)
    d[A**B, A] = B * A ** (B - 1)
    d[fx(A), A] = gx(A, A)
    d[gx(A, B), A] = fx(B) * A
    d[gx(A, B), B] = fx(A) + B
    ev = Evaluator()
    ev.add_atom_generic(lambda a: [repr(a)])
    ev.add_opn(sc.Add.rep, lambda args: ["+", *args])
    ev.add_op_generic(lambda head, args: [repr(head), *args])
    subs = list(m.memo.items())
    small = [v for k, v in subs if k != t][:3]
    values = {X: 0.1, Y: 0.7}
    for k, v in subs:
        if k[0] == "S" and v not in values:
            values[v] = 1e16 if len(values) % 2 else 1.1
        elif k[0] == "@" and k[1][0] == "F" and k[1] in (f, g, h, F("L")):
            values[v] = 0.3
    mat = sc.Matrix([[e, X, 0], [Y, e, sc.sin(e)]])
    syms = [v for k, v in subs if k[0] == "S"]
    if X not in syms:
        syms.append(X)
    if Y not in syms:
        syms.append(Y)
    yield "sort", lambda: [topological_sort(e.rep), topological_sort(e.rep, heads=True)]
    yield "sort exclude", lambda: [topological_sort(e.rep, heads=hd, exclude={v.rep for v in c}) for c in combinations(small, 2) for hd in (False, True)]
    yield "split", lambda: topological_split(e.rep)
    yield "split exclude", lambda: topological_split(e.rep, exclude={v.rep for v in small})
    yield "graph", lambda: (lambda r: [r.atoms, r.heads, [[o, list(i)] for o, i in r.operations]])(forward_graph(e.rep))
    yield "diff", lambda: [attempt(lambda: d(e, X)), attempt(lambda: d(e, Y)), attempt(lambda: d(e, X, 2))]
    yield "builtin diff", lambda: [attempt(lambda: e.diff(X)), attempt(lambda: e.diff(Y, 2))]
    yield "xreplace", lambda: [e.xreplace({X: Y, Y: X}), e.xreplace({v: gx(v, X) for v in small}), e.xreplace({e: X})]
    yield "function", lambda: [e.as_function(X, Y)(Y, fx(X)), SubsFunc(e.rep, [v.rep for v in small])(*[Y.rep] * len(small))]
    yield "expand", lambda: [e.bin_expand(), sc.Add(e, X, Y, e).bin_expand()]
    yield "text", lambda: [repr(e), attempt(e.eval_latex), str(e.rep), repr(e.rep)]
    yield "count", lambda: [e.count_ops_graph(), e.count_ops_tree()]
    yield "evaluate", lambda: [ev(e.rep), ev.eval_recursive(e.rep, {}), ev(e.rep, {X.rep: [1]})]
    yield "float", lambda: [attempt(lambda: e.eval_f64(values)), attempt(lambda: sc.sin(e * e).eval_f64(values))]
    yield "matrix", lambda: [mat, mat + mat, attempt(lambda: mat.diff(X)), mat.binop(mat, gx)]
    yield "code", lambda: [attempt(lambda: e.to_llvm_ir(syms)), attempt(lambda: mat.to_llvm_ir(syms)), attempt(lambda: (e * e).to_llvm_ir(syms[::-1]))]
    yield "operators", lambda: [e + X, X - e, e * 2, 1 / e, -e, e**Y, e(X, Y, e), e.rep.children and e.args]


def results(m, t):
    return [[name, m.canon(op())] for name, op in operations(m, t)]


# ------------------------------------------------------------------- cases

STEP = 4


def cases(tier):
    global STEP
    STEP = 1 if tier == "thorough" else 4
    yield ["seeds"]
    for i in range(0, len(POOL), 4 * STEP):
        yield ["existing", i]
    for i in range(0, len(WIDE), 16):
        yield ["existing wide", i]
    for i in range(0, len(POOL), STEP):
        yield ["orders", i]
    for i in range(0, len(WIDE), 8):
        yield ["wide", i]
    for i in range(len(WIDER)):
        yield ["wider", i]
    for k in range(24 if tier == "thorough" else 8):
        yield ["process", k]


def check_case(case, rec):
    fn = globals()["check_" + case[0].replace(" ", "_")]
    forked(lambda r: fn(case, r), rec)


def compare(got, want, t, rec, **detail):
    for (name, a), (_, b) in zip(got, want):
        rec.add("transitions")
        if a != b:
            raise Violation(f"the result of {name} depends on {'what else exists' if 'existing' in detail else 'the order of hashes'}", expression=T.show(t), got=str(a)[:1000], first=str(b)[:1000], **detail)
    rec.add("traces_validated_against_impl")


def check_orders(case, rec):
    for t in POOL[case[1] : case[1] + STEP]:
        explore(t, permutations, rec)


def check_existing(case, rec):
    for t in POOL[case[1] : case[1] + 4 * STEP]:
        existing(t, rec)


def check_existing_wide(case, rec):
    for t in WIDE[case[1] : case[1] + 16]:
        existing(t, rec)


def variants(e):
    """Expressions of the same operands in other orders, numbers and heads."""
    args = e.args
    head = sc.Expr(e.rep.children[0])
    out = [head(*args[::-1]), head(*args[1:], args[0]), head(args[-1], *args[:-1]), head(args[0], args[-1]), head(args[-1], args[0])]
    out += [head(*args, args[0]), head(*args, head(*args[:-1])), head(args[0], *args), head(*args[1:]), head(*args[:-1]), head(*args, 0), head(*args, 1)]
    out += [op(*order) for op in (sc.Add, sc.Mul) for order in (args, args[::-1])]
    out += [head(*args[:1], head(*args[1:])), head(head(*args[:-1]), *args[-1:])]
    out += [head(*order) for order in (sorted(args, key=lambda a: repr(a.rep)), sorted(args, key=lambda a: (len(a.args), repr(a.rep))))]
    out += [head(*(v if i != k else v * 1 for i, v in enumerate(args))) for k in range(min(len(args), 3))]
    return [v for v in out if v is not e]


def around(e):
    """Expressions with e as an operand."""
    head = sc.Expr(e.rep.children[0])
    return [head(e, *e.args), head(*e.args, e), head(e), e * -1, -e, e + 0, 0 + e, e * 1, 1 * e, e * 0, e**1, e**-1, e + e, e * e, 2 * e, e**2]


def gather(v, out):
    """All the expressions of a result."""
    from protosym.core.tree import Tree, topological_sort

    if isinstance(v, sc.Expr):
        v = v.rep
    if isinstance(v, Tree):
        for s in topological_sort(v):
            if s.children:
                out[s] = sc.Expr(s)
    elif isinstance(v, sc.Matrix):
        gather(v.tolist(), out)
    elif isinstance(v, (list, tuple, set, frozenset)):
        for i in v:
            gather(i, out)


def existing(t, rec):
    """The results with little else alive, and with all kinds of similar expressions."""
    library()
    SERIAL[0] += 1
    m = Maker(f"_{SERIAL[0]:06d}")
    want = results(m, t)
    rec.add("states")
    found = {}
    for _, op in operations(m, t):
        gather(op(), found)
    held = [[v for e in found.values() for v in variants(e)]]
    compare(results(m, t), want, t, rec, existing="the results")
    held.append([v for e in found.values() for v in around(e)])
    found.clear()
    compare(results(m, t), want, t, rec, existing="similar expressions")
    held.clear()
    compare(results(m, t), want, t, rec, existing="nothing else")
    rec.add("states", 3)
    # each result alone: not itself, but expressions similar to it
    for (name, op), (_, w) in zip(operations(m, t), want):
        for e in compounds(op):
            held = variants(e)
            del e
            got = m.canon(op())
            compare([[name, got]], [[name, w]], t, rec, existing=f"expressions similar to {held[0].rep!r}" if held and got != w else None)
            rec.add("states")
    rec.outcome([T.show(t), want])


def compounds(op):
    """The expressions of a result, one at a time."""
    i = 0
    while True:
        found = {}
        gather(op(), found)
        found = list(found.values())
        if i >= len(found):
            return
        e = found[i]
        del found
        yield e
        del e
        i += 1


def some_orders(items):
    """The order itself, its reverse and every rotation."""
    items = list(items)
    for i in range(len(items)):
        yield [*items[i:], *items[:i]]
    yield items[::-1]


def check_wide(case, rec):
    for t in WIDE[case[1] : case[1] + 8]:
        explore(t, some_orders, rec)


def few_orders(items):
    """The order itself, its reverse, two rotations and every other one first."""
    items = list(items)
    n = len(items)
    return [items, items[::-1], [*items[n // 3 :], *items[: n // 3]], [*items[::2], *items[1::2]]]


def check_wider(case, rec):
    """More operands than fit in any small table."""
    explore(WIDER[case[1]], few_orders, rec)


SERIAL = [0]


def explore(t, orders, rec):
    if not SERIAL[0]:
        control()
    serial = SERIAL
    subs = local(t)
    want = None
    for perm in orders(range(len(subs))):
        for start, step in ((16, 1), (1 << 20, -1), (16, 8)):
            if want is not None and step != 1 and perm[0] > perm[-1] and len(subs) > 4:
                continue
            serial[0] += 1
            m = Maker(f"_{serial[0]:06d}")
            NEXT[:] = [start, step]
            PLAN.clear()
            PLAN.update((planned(m.rename(s)), p) for s, p in zip(subs, perm))
            got = results(m, t)
            rec.add("states")
            if want is None:
                want = got
            compare(got, want, t, rec, order=[T.show(subs[i]) for i in sorted(range(len(subs)), key=perm.__getitem__)])
            for s, p in zip(subs, perm):
                if HASH.get(id(m.build(s).rep), p) != p:
                    rec.add("unplanned_hashes")
            del m
    rec.outcome([T.show(t), want])
    if serial[0] < 400:
        rec.sample([T.show(t), len(subs)])


def process_order(k):
    """Process-wide orders, for the heads and for large expressions."""
    if k == 0:
        return lambda n: n
    if k == 1:
        return lambda n: 10**6 - n
    if k == 2:
        return lambda n: n % 50
    if k == 3:
        return lambda n: int(f"{n & 0xFFFF:016b}"[::-1], 2)
    return lambda n: (n * (2 * k + 1)) % 61 + 64 * (n % (k + 2))


def plain_results():
    out = []
    for n, t in enumerate([*BIG, *POOL[::7]]):
        out.append([T.show(t), results(Maker(f"_{n:06d}"), t)])
    return out


def normal():
    """The results in a process with unmodified hashes."""
    if "normal" not in globals()["CACHE"]:

        def run(r):
            library()
            r.samples.append(plain_results())

        r = Rec()
        forked(run, r)
        CACHE["normal"] = r.samples[0]
    return CACHE["normal"]


CACHE = {}


def check_process(case, rec):
    want = normal()
    control(process_order(case[1]))
    got = plain_results()
    for t, (name, a), (_, b) in zip([*BIG, *POOL[::7]], got, want):
        compare(a, b, t, rec, process_order=case[1])
        rec.add("states")
    rec.outcome(case[1])


def check_seeds(case, rec):
    """Unmodified processes with other hash seeds and memory layouts."""
    want = json.dumps(normal())
    code = (
        "import sys, json; sys.path.insert(0, sys.argv[1]); junk = [object() for _ in range(int(sys.argv[2]))]; keep = junk[::3]; del junk\n"
        "from mc import framework; framework.setup_import_path()\n"
        "from mc.checks import c26; c26.prepare(sys.argv[3]); c26.library(); print(json.dumps(c26.plain_results()))"
    )
    tier = "quick"
    running = []
    for seed in range(8):
        env = {**os.environ, "PYTHONHASHSEED": str(seed), "PYTHONDONTWRITEBYTECODE": "1"}
        running.append(subprocess.Popen([sys.executable, "-c", code, VERIF, str(1000 * seed * seed), TIER or tier], stdout=subprocess.PIPE, env=env, cwd=VERIF))
    for seed, p in enumerate(running):
        out = p.communicate()[0].decode()
        if p.returncode:
            raise Violation("a process with another hash seed fails", seed=seed)
        if json.loads(out) != json.loads(want):
            for (name, a), (_, b) in zip(json.loads(out), json.loads(want)):
                if a != b:
                    raise Violation("the results depend on the hash seed or the memory layout", seed=seed, expression=name, got=str(a)[:1000], first=str(b)[:1000])
        rec.add("states")
        rec.add("transitions")
        rec.add("traces_validated_against_impl")
        rec.outcome(["seed", seed])


TIER = None
_prepare = prepare


def prepare(tier):  # noqa: F811
    global TIER
    TIER = tier
    _prepare(tier)
