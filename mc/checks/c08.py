"""C08: cost follows distinct subexpressions, and depth is unlimited."""
import gc
import sys
import time

from mc import terms as T
from mc.terms import F, I, S

LEVEL = "model_checking"
RULE = (
    "states: expressions (every small DAG, and members of the chain / shared / wide families); transitions: operations run on them on the real code "
    "with every rule call or executed source line counted; traces: operations whose cost and result were compared with the reference"
)
ASSUMPTIONS = [
    "work is measured as executed source lines (exact) for growth, and as processor time only to tell quadratic from linear by a wide margin",
    "display, SymPy conversion and the recursive evaluation strategy are not covered by the property",
    "the derivative of an n-ary product is quadratic by definition and is left out of the growth check",
]
CASE_LIMIT = 400
f, g, h = F("f"), F("g"), F("h")
x, y = S("x"), S("y")


def bounds(tier):
    k = 4 if tier == "thorough" else 3
    return (
        f"rule calls on all DAGs with <= {k} compounds; sharing depth 0..200; four chain shapes of every depth 0..150, 985..1015 and 5000, 20000"
        f"{', 200000' if tier == 'thorough' else ', one of 150000'}; growth of executed lines between sizes 60, 120, 240 for 6 families x 16 operations; "
        "processor time between sizes 8000 and 32000"
    )


def prepare(tier):
    global CORE, CAS, TERMS, sc
    CORE, CAS = T.Core(), T.Cas()
    sc = CAS.sc
    k = 4 if tier == "thorough" else 3
    TERMS = T.flat(T.dag_terms([x, I(2)], [(f, 2), (g, 1)], k)) + T.flat(T.dag_terms([x, f], [(f, 2), (g, 1)], 2, compound_heads=True))


def cases(tier):
    for i in range(0, len(TERMS), 50):
        yield ["calls", i]
    for n in range(201):
        yield ["shared", n]
    depths = [*range(151), *range(985, 1016), 5000, 20000] + ([200000] if tier == "thorough" else [])
    for shape in CHAINS:
        for n in depths:
            yield ["chain", shape, n]
        if shape == list(CHAINS)[0] and tier != "thorough":
            yield ["chain", shape, 150000]
    for family in FAMILIES:
        for op in OPS:
            if (family, op) not in SKIP:
                yield ["lines", family, op]
                if op in TIMED and family in ("chain", "wide", "mixed"):
                    yield ["time", family, op]
    for op in sorted(TIMED - {"code"}):
        yield ["time", "repeat", op]
    for name in MATRIX_OPS:
        yield ["matrix", name]


# ------------------------------------------------------------- rule calls


def count_calls(t, rec, case):
    from protosym.core.evaluate import Evaluator, Transformer

    B = CORE.build
    expr = B(t)
    sub = T.subterms(t)
    compounds = [s for s in sub if s[0] == "@"]
    atoms = [s for s in sub if s[0] != "@"]
    for style in range(4):
        calls, atom_calls = {}, {}

        def note(head, args):
            key = T.app(CORE.read(head), *args)
            calls[key] = calls.get(key, 0) + 1
            return key

        def note_atom(key):
            atom_calls[key] = atom_calls.get(key, 0) + 1
            return key

        ev = Evaluator() if style != 3 else Transformer()
        if style == 3:
            ev.add_atom_generic(lambda a: (note_atom(CORE.read(a)), a)[1])
            ev.add_op_generic(lambda hd, args: (note(hd, [CORE.read(a) for a in args]), hd(*args))[1])
        else:
            if style == 0:
                ev.add_atom_generic(lambda a: note_atom(CORE.read(a)))
            else:
                ev.add_atom(CORE.types["S"], lambda v: note_atom(S(v)))
                ev.add_atom(CORE.types["I"], lambda v: note_atom(I(v)))
                ev.add_atom(CORE.types["F"], lambda v: note_atom(F(v)))
            if style == 1:
                ev.add_op2(B(f), lambda a, b: note(B(f), (a, b)))
                ev.add_op1(B(g), lambda a: note(B(g), (a,)))
            elif style == 2:
                ev.add_opn(B(f), lambda args: note(B(f), args))
                ev.add_opn(B(g), lambda args: note(B(g), args))
            if style == 0 or any(s[1] not in (f, g) for s in compounds):
                ev.add_op_generic(note)
        for again in range(2):
            calls.clear()
            atom_calls.clear()
            ev(expr)
            rec.add("transitions")
            rec.add("traces_validated_against_impl")
            if calls != {c: 1 for c in compounds}:
                rec.fail(f"{T.show(t)}: head rules were called {dict((T.show(k), v) for k, v in calls.items())}", case=case)
            if atom_calls != {a: 1 for a in atoms}:
                rec.fail(f"{T.show(t)}: atom rules were called {dict((T.show(k), v) for k, v in atom_calls.items())}", case=case)
        # with an explicit value nothing is called more than once
        for s in sub:
            calls.clear()
            atom_calls.clear()
            ev(expr, {B(s): B(y) if style == 3 else y})
            rec.add("transitions")
            rec.add("traces_validated_against_impl")
            if max([*calls.values(), *atom_calls.values()], default=0) > 1:
                rec.fail(f"{T.show(t)} with a value for {T.show(s)}: a rule was called more than once", case=case)
    rec.outcome(T.show(t))


# ---------------------------------------------------------------- families


def chain_unary(n, base, other):
    e = base
    for _ in range(n):
        e = sc.sin(e)
    return e


def chain_left(n, base, other):
    e = base
    for i in range(n):
        e = sc.Add(e, other) if i % 2 else sc.Mul(e, 2)
    return e


def chain_right(n, base, other):
    e = base
    for i in range(n):
        e = sc.Add(other, 1, e)
    return e


def chain_pow(n, base, other):
    e = base
    for i in range(n):
        e = sc.Pow(e, 1)
    return e


CHAINS = {"unary": chain_unary, "left": chain_left, "right": chain_right, "pow": chain_pow}


def shared(n, base, other):
    e = base
    for i in range(n):
        e = sc.Mul(e, e) if i % 2 else sc.Add(e, e)
    return e


def fib(n, base, other):
    a, b = base, other
    for i in range(n):
        a, b = b, (sc.Mul(a, b) if i % 2 else sc.Add(a, b, a))
    return b


def wide(n, base, other):
    return sc.Add(base, *[sc.Symbol(f"w{i}") for i in range(n)], other, base)


def wide_list(n, base, other):
    shared_part = sc.sin(base)
    return sc.List(*[sc.Add(shared_part, sc.Integer(i)) for i in range(n)], other)


def mixed(n, base, other):
    e = base
    for i in range(n):
        e = sc.Add(sc.Mul(e, sc.Symbol(f"w{i}")), sc.sin(e))
    return e


def repeat(n, base, other):
    shared_part = sc.sin(base)
    return sc.List(*[shared_part, base] * (n * 4), other)


def docs(n, base, other):
    e = base
    for _ in range(n):
        e = e**2 + e
    return e


FAMILIES = {"chain": chain_unary, "shared": shared, "fib": fib, "wide": wide, "wide_list": wide_list, "mixed": mixed, "docs": docs}
WIDEST = {"repeat": repeat}


def _values(e):
    return {s: 0.5 for s in leaves(e)}


_leaves = {}


def leaves(e):
    """Symbols of an expression (collected once, outside any measurement)."""
    if e not in _leaves:
        from protosym.core.tree import topological_sort

        kind = sc.x.rep.value.atom_type
        _leaves.clear()
        _leaves[e] = [sc.Expr(t) for t in topological_sort(e.rep) if not t.children and t.value.atom_type is kind]
    return _leaves[e]


def core(name):
    import protosym.core.tree as tree

    return getattr(tree, name)


def one_evaluator():
    ev = sc.Expr.new_evaluator("one", int)
    from protosym.core.sym import AtomFunc, AtomRule, HeadOp, HeadRule

    ev[AtomRule[sc.a]] = AtomFunc(lambda a: 1)(sc.a)
    ev[HeadRule(sc.a, sc.b)] = HeadOp(lambda hd, args: 1)(sc.a, sc.b)
    return ev


def set_up(op, e):
    """A callable that runs just the operation."""
    Z = sc.Symbol("z")
    if op == "sort":
        return lambda: core("topological_sort")(e.rep)
    if op == "sort_heads":
        return lambda: core("topological_sort")(e.rep, heads=True, exclude={Z.rep, sc.y.rep})
    if op == "split":
        return lambda: core("topological_split")(e.rep)
    if op == "graph":
        return lambda: core("forward_graph")(e.rep)
    if op == "count_graph":
        return e.count_ops_graph
    if op == "count_tree":
        return e.count_ops_tree
    if op == "evaluate":
        ev = one_evaluator()
        return lambda: ev(e)
    if op == "evaluate_values":
        ev = one_evaluator()
        values = {s: 1 for s in leaves(e)}
        return lambda: ev(e, values)
    if op == "subs_one":
        return lambda: e.xreplace({sc.x: Z})
    if op == "subs_all":
        reps = {s: sc.Add(s, 1) for s in leaves(e)}
        return lambda: e.xreplace(reps)
    if op == "subs_absent":
        return lambda: e.xreplace({sc.Symbol("nowhere"): Z})
    if op == "call_function":
        func = e.as_function(sc.x, sc.y)
        return lambda: func(Z, 1)
    if op == "diff":
        return lambda: e.diff(sc.x)
    if op == "diff_absent":
        return lambda: e.diff(sc.Symbol("nowhere"))
    if op == "expand":
        return e.bin_expand
    if op == "code":
        e2 = e.xreplace({s: sc.x for s in leaves(e)})
        if e2.rep.children and e2.head is sc.List:
            m = sc.Matrix([[a] for a in e2.args])
            return lambda: m.to_llvm_ir([sc.x])
        return lambda: e2.to_llvm_ir([sc.x])
    raise AssertionError(op)


OPS = [
    "sort", "sort_heads", "split", "graph", "count_graph", "count_tree", "evaluate", "evaluate_values", "subs_one", "subs_all", "subs_absent",
    "call_function", "diff", "diff_absent", "expand", "code",
]  # fmt: skip
TIMED = set(OPS) - {"count_tree"}
SKIP = set()


def lines(fn):
    """Number of source lines executed by a call, and its result."""
    count = 0

    def local(frame, event, arg):
        nonlocal count
        if event == "line":
            count += 1
        return local

    gc.disable()
    old = sys.gettrace()
    sys.settrace(lambda frame, event, arg: local)
    try:
        result = fn()
    finally:
        sys.settrace(old)
        gc.enable()
    return count, result


def growth(what, make, sizes, rec, case, slack=2.6):
    """The work may not grow faster than linearly with the size."""
    counts = []
    for n in sizes:
        fn = make(n)
        count, result = lines(fn)
        counts.append(count)
        del fn, result
        rec.add("states")
        rec.add("transitions")
    rec.add("traces_validated_against_impl")
    rec.sample(f"{what}: {counts} lines at sizes {sizes}")
    rec.outcome(counts)
    for a, b in zip(counts, counts[1:]):
        if b > slack * a + 400:
            rec.fail(f"{what}: {counts} lines executed at sizes {list(sizes)}", case=case)


def cpu(fn):
    best = None
    for _ in range(3):
        t = time.process_time()
        r = fn()
        t = time.process_time() - t
        del r
        best = t if best is None else min(best, t)
        if best > 2:
            break
    return best


def timed(family, op, rec, case):
    """Quadratic work outside of executed lines (list searches and so on)."""
    small, large = 8000, 32000
    gc.collect()
    gc.disable()
    try:
        for attempt in range(4):
            a = cpu(set_up(op, (FAMILIES | WIDEST)[family](small, sc.x, sc.y)))
            b = cpu(set_up(op, (FAMILIES | WIDEST)[family](large, sc.x, sc.y)))
            if b <= 9.5 * a + 1.5:
                break
        else:
            rec.fail(f"{op} on {family}: {a:.3f} s at size {small}, {b:.3f} s at {large}", case=case)
    finally:
        gc.enable()
    rec.add("states", 2)
    rec.add("transitions", 2)
    rec.add("traces_validated_against_impl")


# ---------------------------------------------------------------- matrices


def matrix_row(n):
    e = chain_left(n, sc.x, sc.y)
    return sc.Matrix([[sc.Add(e, sc.Integer(i)) for i in range(n)]])


MATRIX_OPS = {
    "diff": lambda m: lambda: m.diff(sc.x),
    "code": lambda m: lambda: m.to_llvm_ir([sc.x, sc.y]),
}


# -------------------------------------------------------------------- cases


def same(got, want, what, rec, case):
    rec.add("transitions")
    rec.add("traces_validated_against_impl")
    ok = got is want if not isinstance(want, (int, float, str)) else got == want
    if not ok:
        rec.fail(f"{what}: wrong result", case=case)


def run_all(make, n, rec, case, tree_count=None, evaluates=True):
    X, Y, Z = sc.x, sc.y, sc.Symbol("z")
    e = make(n, X, Y)
    again = make(n, Z, Y)
    same(e.xreplace({X: Z}), again, "xreplace", rec, case)
    fn = e.as_function(X, Y)
    same(fn(Z, Y), again, "as_function", rec, case)
    same(fn(X, Y), e, "as_function", rec, case)
    same(e.xreplace({Z: X}), e, "xreplace (absent)", rec, case)
    same(e.xreplace({e: Z}), Z, "xreplace (root)", rec, case)
    order = core("topological_sort")(e.rep)
    same(order[-1] is e.rep, True, "sort", rec, case)
    same(len(core("topological_sort")(e.rep, heads=True)) >= len(order), True, "sort with heads", rec, case)
    same(e.count_ops_graph(), len(order), "count_ops_graph", rec, case)
    if tree_count is not None:
        same(e.count_ops_tree(), tree_count, "count_ops_tree", rec, case)
    graph = core("forward_graph")(e.rep)
    same(len(graph.atoms) + len(graph.operations), len(order), "forward_graph", rec, case)
    v = e.eval_f64({X: 0.0, Y: 0.0})
    same(isinstance(v, float), True, "eval_f64", rec, case)
    b = e.bin_expand()
    if make is not chain_right:
        same(b, e if make not in () else b, "bin_expand", rec, case)
    d = e.diff(X)
    same(isinstance(d.count_ops_graph(), int), True, "diff", rec, case)
    same(e.diff(Z), sc.zero, "diff (absent)", rec, case)
    code = e.to_llvm_ir([X, Y])
    same(code.count("\n") >= graph.operations.__len__(), True, "to_llvm_ir", rec, case)
    one = one_evaluator()
    same(one(e), 1, "evaluate", rec, case)
    same(one(e, {X: 5}) in (1, 5), True, "evaluate", rec, case)
    rec.outcome((n, len(order), v))
    del e, again, fn, order, graph, b, d
    gc.collect()


def check_case(case, rec):
    kind = case[0]
    if kind == "calls":
        for t in TERMS[case[1] : case[1] + 50]:
            rec.add("states")
            count_calls(t, rec, [kind, case[1], t])
    elif kind == "chain":
        rec.add("states")
        n = case[2]
        per = {"unary": 1, "left": 2, "right": 3, "pow": 2}[case[1]]
        run_all(CHAINS[case[1]], n, rec, case, per * n + 1)
        if case[1] == "unary":
            # compound heads: x(x)(x)...
            e = e2 = sc.x
            Z = sc.Symbol("z")
            for i in range(n):
                e, e2 = e(sc.x), e2(Z)
            order = core("topological_sort")(e.rep, heads=True)
            same(len(order), n + 1, "sort with heads", rec, case)
            same(e.as_function(sc.x)(Z) if n else Z, Z if not n else rehead(n, Z), "substitution in heads", rec, case)
            same(sc.count(e) if hasattr(sc, "count") else e.count_ops_graph(), 2 if n else 1, "count", rec, case)
            del e, e2, order
    elif kind == "shared":
        rec.add("states")
        run_all(shared, case[1], rec, case, 2 ** (case[1] + 1) - 1)
        if case[1] <= 60 or case[1] % 20 == 0:
            run_all(docs, case[1], rec, case, 2 ** (case[1] + 2) - 3 if case[1] else 1)
    elif kind == "lines":
        make = FAMILIES[case[1]]
        growth(f"{case[2]} on {case[1]}", lambda n: set_up(case[2], make(n, sc.x, sc.y)), (60, 120, 240), rec, case)
    elif kind == "time":
        timed(case[1], case[2], rec, case)
    elif kind == "matrix":
        growth(f"matrix {case[1]}", lambda n: MATRIX_OPS[case[1]](matrix_row(n)), (40, 80, 160), rec, case)


def rehead(n, z):
    e = z
    for _ in range(n):
        e = e(z)
    return e
