"""C05: topological sorts and forward graphs are exact."""
from itertools import chain, combinations

from mc import terms as T
from mc.terms import F, S

LEVEL = "model_checking"
RULE = (
    "states: (expression DAG, exclusion set, heads flag) triples; transitions: sort, split and graph calls on the real code; "
    "traces: results compared with the definition (exact set, children first, root last, replay rebuilds the expression)"
)
ASSUMPTIONS = ["atoms have no structure the algorithms could look at"]
f, g, c, h3 = F("f"), F("g"), F("c"), F("h")
x, y, z = S("x"), S("y"), S("z")
CORE = None


def bounds(tier):
    k = 4 if tier == "thorough" else 3
    return (
        f"all DAGs with <= {k} compounds (f/2, g/1, c/0, h/3; compound heads of 0..4 arguments with <= 3) over x, y and the head f as an argument; <= 2 compounds over atoms of three types with equal values; for DAGs with <= 3 "
        "compounds every exclusion set over all subexpressions, heads and a foreign one; arities 0..64 and 108000; chains to 3000 and of 70000, sharing families to depth 200"
    )


def prepare(tier):
    global CORE, LEVELS
    CORE = T.Core()
    k = 4 if tier == "thorough" else 3
    seen = {}
    for t in T.flat(T.dag_terms([x, y], [(f, 2), (g, 1), (c, 0)], k)):
        seen[t] = None
    for t in T.flat(T.dag_terms([x, f], [(f, 2), (g, 1)], 3, compound_heads=True)):
        seen[t] = None
    for t in T.flat(T.dag_terms([x, y], [(h3, 3), (g, 1)], 2, compound_heads=(0, 1, 2, 3, 4))):
        seen[t] = None
    for t in T.flat(T.dag_terms([x, f], [(f, 1), (g, 3)], k - 1, compound_heads=(0, 2, 3))):
        seen[t] = None
    for t in T.flat(T.dag_terms([x], [(g, 1), (f, 2), (h3, 3)], 3, compound_heads=(0, 1, 2, 3))):
        seen[t] = None
    # Atoms of different types with equal values, equal names and no name at all.
    alike = ([S("x"), F("x"), T.W("x")], [T.I(1), S("1"), F("1")], [T.I(0), S("0"), S("")])
    for atoms in alike:
        for t in T.flat(T.dag_terms(list(atoms), [(f, 2), (g, 1)], 2)):
            seen[t] = None
    for t in T.flat(T.dag_terms([x, F("x")], [(F("x"), 2), (F("y"), 1)], 2, compound_heads=(1, 2))):
        seen[t] = None
    LEVELS = list(seen)


def cases(tier):
    for t in LEVELS:
        yield ["term", t]
    for n in range(65):
        yield ["arity", n]
    yield ["arity", 36000]
    yield ["chain", 70000]
    for n in chain(range(0, 40), (100, 999, 1000, 1001, 3000)):
        yield ["chain", n]
    for n in chain(range(0, 30), (64, 200)):
        yield ["double", n]


def walk(root, heads, exclude=frozenset()):
    """Identity based reference walk over real trees (for the families)."""
    seen, todo = {}, [root]
    while todo:
        t = todo.pop()
        if id(t) in seen or id(t) in exclude:
            continue
        seen[id(t)] = t
        todo.extend(t.children if heads else t.children[1:])
    return seen


def ordered(result, want_ids, heads, root, rec, case, what):
    """The list has exactly the wanted trees, children first, root last."""
    pos = {}
    for i, t in enumerate(result):
        if id(t) in pos:
            rec.fail(f"{what}: repeated {str(t)[:80]}", case=case)
        pos[id(t)] = i
    if set(pos) != set(want_ids):
        rec.fail(f"{what}: wrong set of subexpressions", case=case, got=[str(t)[:60] for t in result[:20]])
    for i, t in enumerate(result):
        for ch in t.children if heads else t.children[1:]:
            j = pos.get(id(ch))
            if j is not None and j >= i:
                rec.fail(f"{what}: child after parent", case=case, got=[str(t)[:60] for t in result[:20]])
    if id(root) in want_ids and result[-1] is not root:
        rec.fail(f"{what}: the expression is not last", case=case)


def graph_ok(expr, rec, case):
    from protosym.core.tree import forward_graph, topological_split

    want = walk(expr, False)
    atoms, heads, nodes = topological_split(expr)
    if [t for t in atoms if t.children] or [t for t in nodes if not t.children]:
        rec.fail("split: atom/compound mixed up", case=case)
    ordered(list(atoms) + list(nodes), want, False, expr, rec, case, "split")
    want_heads = {id(t.children[0]) for t in want.values() if t.children}
    if {id(t) for t in heads} != want_heads or len(heads) != len(want_heads):
        rec.fail("split: wrong heads", case=case)
    graph = forward_graph(expr)
    if [id(t) for t in graph.atoms] != [id(t) for t in atoms] or graph.heads != heads:
        rec.fail("graph: atoms or heads differ from the split", case=case)
    stack = list(graph.atoms)
    for i, (head, indices) in enumerate(graph.operations):
        if any(not 0 <= j < len(stack) for j in indices):
            rec.fail("graph: index out of range", case=case)
        stack.append(head(*[stack[j] for j in indices]))
    ordered(stack, want, False, expr, rec, case, "graph replay")
    if stack[-1] is not expr:
        rec.fail("graph: replay does not rebuild the expression", case=case)
    return atoms, nodes


def check_expr(expr, rec, case):
    from protosym.core.tree import topological_sort

    atoms, nodes = graph_ok(expr, rec, case)
    for heads in (False, True):
        want = walk(expr, heads)
        result = topological_sort(expr, heads=heads)
        ordered(result, want, heads, expr, rec, case, f"sort heads={heads}")
        rec.add("transitions")
        rec.add("traces_validated_against_impl")
        if not heads:
            if [id(t) for t in result if not t.children] != [id(t) for t in atoms] or [
                id(t) for t in result if t.children
            ] != [id(t) for t in nodes]:
                rec.fail("split is not the partitioned sort", case=case)
            if [id(t) for t in topological_sort(expr)] != [id(t) for t in result]:
                rec.fail("heads is not off by default", case=case)
    rec.add("transitions", 2)
    rec.add("traces_validated_against_impl", 2)


def check_case(case, rec):
    from protosym.core.tree import Tree, topological_sort, topological_split

    kind, arg = case
    B = CORE.build
    if kind == "arity":
        rec.add("states")
        xs = [B(S(f"x{i}")) for i in range(arg)]
        check_expr(B(f)(*xs, *[B(g)(v) for v in xs], *xs), rec, case)
        # atoms come in the order of their first occurrence in the arguments
        return
    if kind == "chain":
        rec.add("states")
        e = B(x)
        for i in range(arg):
            e = B(g)(e) if i % 3 else B(f)(e, B(y))
        check_expr(e, rec, case)
        return
    if kind == "double":
        rec.add("states")
        e = B(x)
        for i in range(arg):
            e = e(e, B(f)(e)) if i % 5 == 4 else B(f)(e, e)
        check_expr(e, rec, case)
        return
    t = T.tup(arg)
    expr = B(t)
    check_expr(expr, rec, case)
    rec.add("states")
    inside = sorted(T.subterms(t, heads=True), key=repr)
    universe = inside + [z]
    small = len(universe) <= 9
    sizes = range(1, len(universe) + 1) if small else range(1, 3)
    for n in sizes:
        for sub in combinations(universe, n):
            ex = set(sub)
            real = {B(s) for s in sub}
            rec.add("states", 2)
            for heads in (False, True):
                want = {id(B(s)) for s in T.reachable(t, heads, ex)}
                result = topological_sort(expr, heads=heads, exclude=real)
                ordered(result, want, heads, expr, rec, ["term", t], f"sort heads={heads} exclude={[T.show(s) for s in sub]}")
                if len(real) != len(sub) or any(B(s) not in real for s in sub):
                    rec.fail("the exclusion set was changed", case=case)
                rec.add("transitions")
                rec.add("traces_validated_against_impl")
                rec.outcome((len(want), len(inside), heads))
            if n <= 2:
                atoms, heads_, nodes = topological_split(expr, exclude=real)
                want = T.reachable(t, False, ex)
                wa = {id(B(s)) for s in want if T.is_atom(s)}
                wn = {id(B(s)) for s in want if not T.is_atom(s)}
                wh = {id(B(s[1])) for s in want if not T.is_atom(s)}
                if (
                    {id(a) for a in atoms} != wa
                    or {id(a) for a in nodes} != wn
                    or {id(a) for a in heads_} != wh
                    or len(atoms) != len(wa)
                    or len(nodes) != len(wn)
                    or len(real) != len(sub)
                ):
                    rec.fail(f"split exclude={[T.show(s) for s in sub]} is wrong", case=case)
                rec.add("transitions")
                rec.add("traces_validated_against_impl")
    rec.sample(T.show(t) + f" with {len(universe)} possible exclusions")
    assert isinstance(expr, Tree)
