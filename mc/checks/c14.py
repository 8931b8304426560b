"""C14: operation counts are exact."""
from mc import terms as T
from mc.terms import F, I, S, ADD, MUL, POW, SIN

LEVEL = "model_checking"
RULE = (
    "states: distinct expression DAGs, each built on the real code; transitions: constructor applications and count calls; "
    "traces: counts compared with the set-based definition"
)
ASSUMPTIONS = ["counts beyond the enumerated sizes follow the same code path"]
CAS = None
g0, h3 = F("g"), F("h")
GROW = [ADD, MUL, POW, SIN, F("f"), F("List"), ("@", F("f")), ("@", F("f"), S("x"))]


def bounds(tier):
    k = 4 if tier == "thorough" else 3
    return (
        f"all DAGs with <= {k} compounds over x, y, 2 with heads sin/1, Add/2, g/0; <= {k-1} with pow/2, h/3, g/0 and compound heads of 0..3 arguments; <= {k-1} over 12 atoms (empty and equal names, 0, "
        "1, wildcards, functions) with f/1, f/2; results of derivatives, substitutions and expansions of 400 expressions; "
        f"e -> head(e or x at each of 1..{7 if k == 4 else 5} places) repeated up to 130 times for 8 heads, in all patterns, and for two alternating patterns; "
        "all arities 0..64, also nested 16 deep; doubling families of every depth 0..300; chains of every depth 0..400; 65..5000 arguments"
    )


def prepare(tier):
    global CAS
    CAS = T.Cas()


def cases(tier):
    k = 4 if tier == "thorough" else 3
    leaves = [S("x"), S("y"), I(2)]
    seen = set()
    for t in T.flat(T.dag_terms(leaves, [(SIN, 1), (ADD, 2), (g0, 0)], k)):
        seen.add(t)
        yield ["term", t]
    for t in T.flat(T.dag_terms(leaves[:2], [(POW, 2), (h3, 3), (g0, 0)], k - 1, compound_heads=True)):
        if t not in seen:
            seen.add(t)
            yield ["term", t]
    for t in T.flat(T.dag_terms(leaves[:2], [(POW, 2), (g0, 0)], k - 1, compound_heads=(0, 1, 2, 3))):
        if t not in seen:
            seen.add(t)
            yield ["term", t]
    odd = [S(""), S("0"), I(0), I(1), S("Add"), F(""), F("Add"), F("x"), S("x"), T.W(""), T.W("x"), I(-1)]
    for t in T.flat(T.dag_terms(odd, [(F("f"), 1), (F("f"), 2)], k - 1)):
        if t not in seen:
            seen.add(t)
            yield ["term", t]
    for i in range(0, 400, 20):
        yield ["results", i]
    for head in range(len(GROW)):
        for arity in range(1, 8 if tier == "thorough" else 6):
            yield ["grow", [head, arity]]
    for n in range(65):
        yield ["arity", n]
        yield ["wide", n + 1]
    for n in (65, 100, 129, 257, 513, 1025, 2049, 5000):
        yield ["arity", n]
        yield ["large", n]
    for n in range(301):
        yield ["double", n]
    for n in range(401):
        yield ["chain", n]


def expect(rec, what, got, want, case):
    rec.add("traces_validated_against_impl")
    if type(got) is not int or got != want:
        rec.fail(f"{what} is {got!r}, expected {want}", case=case)


def check_case(case, rec):
    kind, arg = case
    rec.add("states")
    sc = CAS.sc
    if kind == "results":
        return results(arg, rec, case)
    if kind == "large":
        xs = [sc.Symbol(f"x{i}") for i in range(arg)]
        for h in map(CAS.build, GROW):
            for e, graph, tree in (
                (h(*xs), arg + 1, arg + 1), (h(*[sc.x] * arg), 2, arg + 1), (h(*[sc.sin(sc.x)] * arg), 3, 2 * arg + 1), (h(*map(sc.sin, xs)), 2 * arg + 1, 2 * arg + 1),
                (h(*xs, h(*xs)), arg + 2, 2 * arg + 2), (h(*xs, sc.sin(h(*xs[::-1])), *xs), arg + 3, 3 * arg + 3), (h(*[h(*xs)] * arg), arg + 2, arg * (arg + 1) + 1),
            ):  # fmt: skip
                rec.add("transitions", 2)
                expect(rec, "graph count", e.count_ops_graph(), graph, case)
                expect(rec, "tree count", e.count_ops_tree(), tree, case)
        return
    if kind == "wide":
        return wide(arg, rec, case)
    if kind == "grow":
        return grow(*arg, rec, case)
    if kind == "term":
        t = T.tup(arg)
        e = CAS.fresh(t)
        graph, tree = len(T.subterms(t)), T.tree_size(t)
        rec.sample(T.show(t) + f" graph={graph} tree={tree}")
    elif kind == "arity":
        xs = [sc.Symbol(f"x{i}") for i in range(arg)]
        e = sc.Add(*xs, *xs)
        graph, tree = arg + 1, 2 * arg + 1
    elif kind == "double":
        e = sc.x
        for _ in range(arg):
            e = e + e
        graph, tree = arg + 1, 2 ** (arg + 1) - 1
    else:
        e = sc.x
        for _ in range(arg):
            e = sc.sin(e) * 2
        graph, tree = 1 + (2 * arg + 1 if arg else 0), 3 * arg + 1
    rec.add("transitions", 2 + graph)
    rec.outcome((graph, tree))
    expect(rec, "graph count", e.count_ops_graph(), graph, case)
    expect(rec, "tree count", e.count_ops_tree(), tree, case)


def grow(head, arity, rec, case):
    """Counts of every size, from operations with every pattern of operands."""
    sc = CAS.sc
    h = CAS.build(GROW[head])
    masks = range(1, 1 << arity)
    pairs = [(m, m) for m in masks] + [(m, (1 << arity) - 1) for m in masks] + ([(m, 1) for m in masks] if arity < 5 else [])
    for pair in pairs:
        e, graph, tree = sc.x, 1, 1
        for depth in range(131):
            if depth % 13 == 0 or depth < 8 or 50 <= depth <= 66:
                rec.add("transitions", graph + 2)
                rec.add("states")
                rec.outcome((graph, tree))
                expect(rec, f"graph count of {pair} at depth {depth}", e.count_ops_graph(), graph, case)
                expect(rec, f"tree count of {pair} at depth {depth}", e.count_ops_tree(), tree, case)
            mask = pair[depth % 2]
            e = h(*(e if mask >> i & 1 else sc.x for i in range(arity)))
            own = mask.bit_count()
            graph, tree = graph + 1, 1 + own * tree + (arity - own)


def wide(arity, rec, case):
    """Many operands with large counts, one of them atomic or all alike."""
    sc = CAS.sc
    for h in map(CAS.build, GROW):
        for last in (0, 1, 2):
            if last >= arity:
                continue
            e, graph, tree = sc.x, 1, 1
            for _ in range(16):
                e = h(*[e] * (arity - last), *[sc.x] * last)
                graph, tree = graph + 1, 1 + (arity - last) * tree + last
                rec.add("transitions", graph + 2)
                rec.add("states")
                expect(rec, "graph count", e.count_ops_graph(), graph, case)
                expect(rec, "tree count", e.count_ops_tree(), tree, case)
            rec.outcome((graph, tree))


def results(first, rec, case):
    """What operations return is counted as exactly as what was built."""
    sc = CAS.sc
    X, Y = sc.x, sc.y
    terms = T.flat(T.dag_terms([S("x"), S("y"), I(2)], [(ADD, 2), (MUL, 3), (POW, 2), (SIN, 1)], 2))
    step = len(terms) // 400
    for t in terms[first * step : (first + 20) * step : step]:
        e = CAS.build(t)
        made = [e.bin_expand(), e.xreplace({X: e}), e.xreplace({X: Y}), e.as_function(X, Y)(Y, 2), e + e, -e, sc.List(e, X)]
        for fn in (lambda: e.diff(X), lambda: e.diff(Y, 2)):
            try:
                made.append(fn())
            except Exception:  # noqa - an exponent depends on the variable
                pass
        for r in (e, *made, e):
            u = CAS.read(r)
            expect(rec, f"graph count of {r}", r.count_ops_graph(), len(T.subterms(u)), case)
            expect(rec, f"tree count of {r}", r.count_ops_tree(), T.tree_size(u), case)
            rec.add("states")
            rec.add("transitions", 3)
