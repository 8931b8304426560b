"""C20: shared evaluators and functions can be used from several threads."""
from itertools import combinations_with_replacement

from mc import sched

sched.patch_locks()

from mc import schedcheck  # noqa: E402
from mc import terms as T  # noqa: E402
from mc.terms import ADD, F, I, S  # noqa: E402

LEVEL = "model_checking"
RULE = (
    "schedules: executions of two or three real threads using shared objects, under a scheduler that owns every switch, enumerated depth first up to a "
    "preemption bound; states: scheduling decisions; transitions: bytecodes at which a switch was considered; traces: schedules run again with the same "
    "result.  Every result is compared with the known right one, and every call is made again alone afterwards"
)
ASSUMPTIONS = [
    "a switch can happen before any bytecode that reads or writes shared data (CPython 3.12 itself switches only at some of these); C code is atomic",
    "locks made by the library are replaced by cooperative ones with the same meaning",
    "the number of preemptions is bounded as stated",
]
CASE_LIMIT = 400
x, y, z = S("x"), S("y"), S("z")
f, g = F("f"), F("g")

# group -> names of the calls that share an object
GROUPS = {
    "f64": ["f64_a", "f64_b", "f64_other", "f64_value"],
    "core": ["fwd_a", "fwd_b", "rec_a", "rec_b", "call_a"],
    "diff": ["diff_x", "diff_y", "diff_2", "diff_other"],
    "user": ["user_x", "user_y", "user_f"],
    "func": ["func_1", "func_y", "func_swap", "xrep_x", "xrep_y"],
    "subs": ["subs_1", "subs_2"],
    "text": ["repr", "latex", "repr_other", "latex_other", "graph", "tree", "graph_other", "tree_other"],
    "trans": ["bin", "bin_other", "trf_a", "trf_b"],
    "sort": ["topo", "heads", "exclude", "split", "fgraph"],
    "matrix": ["m_add", "m_mul", "m_diff", "m_diff_y", "m_diff_n", "m_list", "m_get", "m_repr"],
    "newmat": ["mf_list", "mf_get", "mf_add", "mf_diff", "mf_repr", "mf_use"],
    "newfun": ["nf_call", "nf_other", "ns_call", "ns_other"],
    "neweval": ["ne_a", "ne_b", "nt_a", "nt_b", "nd_x", "nd_y"],
    "sympy": ["to_a", "to_b", "from_a", "from_b"],
    "llvm": ["ir_a", "ir_b", "lam_a", "lam_b", "lam_m", "lam_n"],
    "calls": ["fn_a", "fn_b", "mat_a", "mat_b"],
    "rules": ["rg_op1", "rg_op2", "rg_opn", "rg_atom", "rg_atom_2", "rg_use"],
    "symrules": ["rs_op", "rs_atom", "rs_head", "rs_use"],
    "diffrules": ["rd_a", "rd_b", "rd_dist", "rd_use"],
}
FILES = {}
H = {}


def prepare(tier):
    import math

    import llvmlite.binding  # noqa
    import numpy as np
    import sympy

    from protosym.core.atom import AtomType
    from protosym.core.evaluate import Evaluator, Transformer
    from protosym.core.sym import HeadOp, HeadRule, PyFunc1, PyOp1, PyOpN, SymDifferentiator, star
    from protosym.core.tree import SubsFunc, Tr, forward_graph, topological_sort, topological_split
    import protosym.simplecas as sc
    import protosym.simplecas.lambdification  # noqa
    import protosym.simplecas.sympy_conversions  # noqa

    global KEEP
    cas = T.Cas()
    E = cas.build
    X, Y, Z = E(x), E(y), E(z)
    e1 = T.mul(T.sin(x), T.pow_(T.add(x, y), I(2)))
    e2 = T.add(x, T.cos(y), x, I(3))
    E1, E2 = E(e1), E(e2)

    def emptied(make):
        """The result, and nothing left of the lists that were returned."""

        def call():
            got = make()
            parts = list(got) if type(got) is tuple else [got]
            out = []
            for part in parts:
                if type(part) in (list, set):
                    copy = type(part)(list(p) if type(p) is list else p for p in part)
                    for p in part:
                        if type(p) is list:
                            p.clear()
                    part.clear()
                    part = copy
                out.append(part)
            return tuple(out) if type(got) is tuple else out[0]

        return call

    def close(want):
        return lambda r: type(r) is float and abs(r - want) <= 1e-12 * max(1, abs(want))

    def expr(term):
        return lambda r: r is E(term)

    def equal(want):
        return lambda r: type(r) is type(want) and r == want

    def v1(a, b):
        return math.sin(a) * (a + b) ** 2

    def v2(a, b):
        return a + math.cos(b) + a + 3

    # A core evaluator that records how rules are applied.
    Fn, Sy, In = AtomType("Fn", str), AtomType("Sy", str), AtomType("In", int)
    cf, cg, ch, cx, cy, c2 = Tr(Fn("f")), Tr(Fn("g")), Tr(Fn("h")), Tr(Sy("x")), Tr(Sy("y")), Tr(In(2))
    tree = cf(cg(cx, c2), ch(cg(cx, c2), cy))
    tree2 = cg(cf(cy, cy), cx)
    ev = Evaluator()
    ev.add_atom(In, lambda v: ("int", v))
    ev.add_atom_generic(lambda t: ("atom", str(t)))
    ev.add_op2(cg, lambda a, b: ("g", a, b))
    ev.add_opn(cf, lambda args: ("f", *args))
    ev.add_op_generic(lambda head, args: (str(head), *args))
    gx2 = ("g", ("atom", "x"), ("int", 2))
    tr = Transformer()
    tr.add_op2(cg, lambda a, b: cf(b, a))
    subs = SubsFunc(tree, [cx, cy])

    a, b = sc.Expr.new_wild("a"), sc.Expr.new_wild("b")
    user = SymDifferentiator(sc.Expr, add=sc.Add, mul=sc.Mul, zero=sc.zero, one=sc.one)
    UF, UG = sc.Function("uf"), sc.Function("ug")
    user[UF(a, b), a] = UG(b, a)
    user[UF(a, b), b] = a * b
    user[UG(a), a] = UF(a, a)
    u1 = UF(UG(X), Y)
    ufr, ugr = F("uf"), F("ug")
    ugx = T.app(ugr, x)

    fun = E1.as_function(X)
    swap = E2.as_function(X, Y)
    M = sc.Matrix([[X, T and sc.sin(X)], [0, Y]])
    N = sc.Matrix([[0, Y], [sc.cos(X), 2]])

    sx, sy = sympy.symbols("x y")
    s1, s2 = sympy.sin(sx) ** 2 * sy, sympy.cos(sx + 2 * sy)

    def to_terms(s):
        if s.is_Integer:
            return I(int(s))
        if s.is_Symbol:
            return S(s.name)
        head = {"Add": ADD, "Mul": T.MUL, "Pow": T.POW, "sin": T.SIN, "cos": T.COS}[type(s).__name__]
        return T.app(head, *map(to_terms, s.args))

    t1, t2 = to_terms(s1), to_terms(s2)
    T1, T2 = E(t1), E(t2)

    ops = {
        "f64_a": (lambda: E1.eval_f64({X: 0.5, Y: 0.25}), close(v1(0.5, 0.25))),
        "f64_b": (lambda: E1.eval_f64({X: 2.0, Y: -1.0}), close(v1(2.0, -1.0))),
        "f64_other": (lambda: E2.eval_f64({X: 2.0, Y: -1.0}), close(v2(2.0, -1.0))),
        "f64_value": (lambda: E1.eval_f64({sc.sin(X): 4.0, X + Y: 3.0}), close(36.0)),
        "fwd_a": (lambda: ev.eval_forward(tree, {}), equal(("f", gx2, ("h", gx2, ("atom", "y"))))),
        "fwd_b": (lambda: ev.eval_forward(tree, {cg(cx, c2): 5}), equal(("f", 5, ("h", 5, ("atom", "y"))))),
        "rec_a": (lambda: ev.eval_recursive(tree, {cy: None}), equal(("f", gx2, ("h", gx2, None)))),
        "rec_b": (lambda: ev.eval_recursive(tree2, {cy: 1}), equal(("g", ("f", 1, 1), ("atom", "x")))),
        "call_a": (lambda: ev(tree2, {cx: 0}), equal(("g", ("f", ("atom", "y"), ("atom", "y")), 0))),
        "diff_x": (lambda: sc.sin(X * Y).diff(X), expr(T.mul(T.cos(T.mul(x, y)), T.mul(I(1), y)))),
        "diff_y": (lambda: sc.sin(X * Y).diff(Y), expr(T.mul(T.cos(T.mul(x, y)), T.mul(x, I(1))))),
        "diff_2": (lambda: sc.sin(X).diff(X, 2), expr(T.mul(I(-1), T.sin(x)))),
        "diff_other": (lambda: (X**3 + Y).diff(X), expr(T.mul(I(3), T.pow_(x, T.add(I(3), I(-1)))))),
        "user_x": (lambda: user(u1, X), expr(T.mul(T.app(ugr, y, ugx), T.app(ufr, x, x)))),
        "user_y": (lambda: user(u1, Y), expr(T.mul(ugx, y))),
        "user_f": (lambda: user(UG(UG(X)), X), expr(T.mul(T.app(ufr, ugx, ugx), T.app(ufr, x, x)))),
        "func_1": (lambda: fun(1), expr(T.substitute(e1, {x: I(1)}))),
        "func_y": (lambda: fun(Y), expr(T.substitute(e1, {x: y}))),
        "func_swap": (lambda: swap(Y, X), expr(T.substitute(e2, {x: y, y: x}))),
        "xrep_x": (lambda: E1.xreplace({X: Y, X + Y: Z}), expr(T.substitute(e1, {x: y, T.add(x, y): z}))),
        "xrep_y": (lambda: E1.xreplace({Y: X}), expr(T.substitute(e1, {y: x}))),
        "subs_1": (lambda: subs(cy, cx), lambda r: r is cf(cg(cy, c2), ch(cg(cy, c2), cx))),
        "subs_2": (lambda: subs(c2, cg(cx, cx)), lambda r: r is cf(cg(c2, c2), ch(cg(c2, c2), cg(cx, cx)))),
        "repr": (lambda: repr(E1), equal("(sin(x)*(x + y)**2)")),
        "repr_other": (lambda: str(E2), equal("(x + cos(y) + x + 3)")),
        "latex": (lambda: E1.eval_latex(), equal(r"(\sin(x) \times (x + y)^{2})")),
        "latex_other": (lambda: E2.eval_latex(), equal(r"(x + \cos(y) + x + 3)")),
        "graph_other": (lambda: E2.count_ops_graph(), equal(5)),
        "tree_other": (lambda: E2.count_ops_tree(), equal(6)),
        "graph": (lambda: E1.count_ops_graph(), equal(7)),
        "tree": (lambda: E1.count_ops_tree(), equal(8)),
        "bin": (lambda: E2.bin_expand(), expr(T.add(T.add(T.add(x, T.cos(y)), x), I(3)))),
        "bin_other": (lambda: sc.Mul(X, E2, Y).bin_expand(), expr(T.mul(T.mul(x, T.add(T.add(T.add(x, T.cos(y)), x), I(3))), y))),
        "trf_a": (lambda: tr(tree), lambda r: r is cf(cf(c2, cx), ch(cf(c2, cx), cy))),
        "trf_b": (lambda: tr(tree2), lambda r: r is cf(cx, cf(cy, cy))),
        "topo": (emptied(lambda: topological_sort(tree)), equal([cx, c2, cg(cx, c2), cy, ch(cg(cx, c2), cy), tree])),
        "heads": (
            emptied(lambda: topological_sort(tree, heads=True)),
            lambda r: len(r) == len(set(r)) == 9 and r[-1] is tree and set(r) == {cf, cg, ch, cx, cy, c2, cg(cx, c2), ch(cg(cx, c2), cy), tree},
        ),
        "exclude": (emptied(lambda: topological_sort(tree, exclude={cg(cx, c2)})), equal([cy, ch(cg(cx, c2), cy), tree])),
        "split": (emptied(lambda: topological_split(tree2)), equal(([cy, cx], {cf, cg}, [cf(cy, cy), tree2]))),
        "fgraph": (lambda: forward_graph(tree2).operations, equal([(cf, [0, 0]), (cg, [2, 1])])),
        "m_add": (lambda: (M + N).tolist(), lambda r: r == [[X, E(T.add(T.sin(x), y))], [E(T.cos(x)), E(T.add(y, I(2)))]]),
        "m_mul": (
            lambda: M.binop(N, sc.Mul).tolist(),
            lambda r: r == [[E(T.mul(x, I(0))), E(T.mul(T.sin(x), y))], [E(T.mul(I(0), T.cos(x))), E(T.mul(y, I(2)))]],
        ),
        "m_diff": (lambda: M.diff(X).tolist(), lambda r: r == [[sc.one, E(T.cos(x))], [sc.zero, sc.zero]]),
        "m_diff_y": (lambda: M.diff(Y).tolist(), lambda r: r == [[sc.zero, sc.zero], [sc.zero, sc.one]]),
        "m_diff_n": (lambda: N.diff(Y).tolist(), lambda r: r == [[sc.zero, sc.one], [sc.zero, sc.zero]]),
        "m_list": (emptied(M.tolist), lambda r: r == [[X, E(T.sin(x))], [sc.zero, Y]]),
        "m_get": (lambda: (M[0, 1], M[1, 0]), lambda r: r == (E(T.sin(x)), sc.zero)),
        "m_repr": (lambda: repr(M), equal("Matrix([[x, sin(x)], [0, y]])")),
        "to_a": (lambda: T1.to_sympy(), lambda r: r == s1),
        "to_b": (lambda: T2.to_sympy(), lambda r: r == s2),
        "from_a": (lambda: sc.Expr.from_sympy(s1), expr(t1)),
        "from_b": (lambda: sc.Expr.from_sympy(s2), expr(t2)),
    }

    kept = []

    def run(make, *points):
        """Compile (or use) a function and call it at points."""

        def call():
            fn = make()
            kept.append((fn, points))
            out = [fn(*p) for p in points]
            return [r.tolist() if isinstance(r, np.ndarray) else r for r in out]

        return call

    def near(*wants):
        return lambda r: len(r) == len(wants) and all(np.shape(p) == np.shape(q) and np.allclose(p, q, rtol=1e-12, atol=1e-12) for p, q in zip(r, wants))

    def vm(p, q):
        return [[p, math.sin(p)], [0.0, q]]

    def vn(p, q):
        return [[0.0, q], [math.cos(p), 2.0]]

    # Tables that the threads add rules to: new ones for every schedule.
    R = {}

    def fresh():
        R["ev"] = Evaluator()
        R["ev"].add_atom_generic(lambda t: ("atom", str(t)))
        R["ev"].add_op2(ch, lambda p, q: ("h", p, q))
        R["sev"] = sc.Expr.new_evaluator("c20", str)
        R["sev"][sc.Symbol[a]] = PyFunc1(lambda v: f"<{v}>")(a)
        R["sev"][UG(a)] = PyOp1(lambda v: f"ug{v}")(a)
        R["d"] = SymDifferentiator(sc.Expr, add=sc.Add, mul=sc.Mul, zero=sc.zero, one=sc.one)
        R["d"][UG(a), a] = UF(a, a)
        # used for the first time in the schedule
        R["m"] = sc.Matrix([[X, sc.sin(X)], [0, Y]])
        R["n"] = sc.Matrix([[0, Y], [sc.cos(X), 2]])
        R["fun"] = E2.as_function(X, Y)
        R["subs"] = SubsFunc(tree, [cx, cy])
        R["ne"] = Evaluator()
        R["ne"].add_atom_generic(lambda t: ("atom", str(t)))
        R["ne"].add_op2(cg, lambda p, q: ("g", p, q))
        R["ne"].add_op_generic(lambda head, args: (str(head), *args))
        R["nt"] = Transformer()
        R["nt"].add_op2(cg, lambda p, q: cf(q, p))
        R["nd"] = SymDifferentiator(sc.Expr, add=sc.Add, mul=sc.Mul, zero=sc.zero, one=sc.one)
        R["nd"][UF(a, b), a] = UG(b, a)
        R["nd"][UF(a, b), b] = a * b
        R["nd"][UG(a), a] = UF(a, a)

    fresh()
    UL = sc.Function("ul")
    here = ("atom", "y")

    def registered(call, want):
        return lambda r: r is None and call() == want

    ops.update(
        rg_op1=(lambda: R["ev"].add_op1(cf, lambda p: ("f", p)), registered(lambda: R["ev"](cf(cy)), ("f", here))),
        rg_op2=(lambda: R["ev"].add_op2(cy, lambda p, q: ("y", p, q)), registered(lambda: R["ev"](cy(cy, cy)), ("y", here, here))),
        rg_opn=(lambda: R["ev"].add_opn(cg, lambda args: ("g", *args)), registered(lambda: R["ev"].eval_recursive(cg(cy, cy, cy), {}), ("g", here, here, here))),
        rg_atom=(lambda: R["ev"].add_atom(In, lambda v: ("int", v)), registered(lambda: R["ev"](c2), ("int", 2))),
        rg_atom_2=(lambda: R["ev"].add_atom(Fn, lambda v: ("fn", v)), registered(lambda: R["ev"](cf), ("fn", "f"))),
        rg_use=(lambda: R["ev"](ch(cy, ch(cy, cy))), equal(("h", here, ("h", here, here)))),
        rs_op=(lambda: R["sev"].__setitem__(sc.Add(star(a)), PyOpN("+".join)(a)), registered(lambda: R["sev"](X + Y), "<x>+<y>")),
        rs_atom=(lambda: R["sev"].__setitem__(sc.Integer[a], PyFunc1(str)(a)), registered(lambda: R["sev"](sc.one), "1")),
        rs_head=(lambda: R["sev"].__setitem__(HeadRule(a, b), HeadOp(lambda head, args: f"{head}{args}")(a, b)), registered(lambda: R["sev"](UF(X)), "uf['<x>']")),
        rs_use=(lambda: R["sev"](UG(UG(X))), equal("ugug<x>")),
        rd_a=(lambda: R["d"].__setitem__((UF(a, b), a), b), registered(lambda: R["d"](UF(X, Y), X), Y)),
        rd_b=(lambda: R["d"].__setitem__((UF(a, b), b), a), registered(lambda: R["d"](UF(X, Y), Y), X)),
        rd_dist=(lambda: R["d"].add_distributive_rule(UL), registered(lambda: R["d"](UL(X, Y), Y), UL(0, 1))),
        rd_use=(lambda: R["d"](UG(UG(X)), X), expr(T.mul(T.app(ufr, ugx, ugx), T.app(ufr, x, x)))),
    )

    ne_1 = ("f", ("g", ("atom", "x"), ("atom", "2")), ("h", ("g", ("atom", "x"), ("atom", "2")), ("atom", "y")))
    first = {
        "mf_list": (emptied(lambda: R["m"].tolist()), lambda r: r == [[X, E(T.sin(x))], [sc.zero, Y]]),
        "mf_get": (lambda: [R["m"][i, j] for i in (1, 0) for j in (1, 0)], lambda r: r == [Y, sc.zero, E(T.sin(x)), X]),
        "mf_add": (lambda: (R["m"] + R["n"]).tolist(), ops["m_add"][1]),
        "mf_diff": (lambda: R["m"].diff(X).tolist(), ops["m_diff"][1]),
        "mf_repr": (lambda: repr(R["m"]), ops["m_repr"][1]),
        "mf_use": (lambda: R["m"].binop(R["n"], sc.Mul).tolist(), ops["m_mul"][1]),
        "nf_call": (lambda: R["fun"](Y, X), ops["func_swap"][1]),
        "nf_other": (lambda: R["fun"](1, Z), expr(T.substitute(e2, {x: I(1), y: z}))),
        "ns_call": (lambda: R["subs"](cy, cx), ops["subs_1"][1]),
        "ns_other": (lambda: R["subs"](c2, cg(cx, cx)), ops["subs_2"][1]),
        "ne_a": (lambda: R["ne"](tree), equal(ne_1)),
        "ne_b": (lambda: R["ne"].eval_recursive(tree2, {cy: 1}), equal(("g", ("f", 1, 1), ("atom", "x")))),
        "nt_a": (lambda: R["nt"](tree), ops["trf_a"][1]),
        "nt_b": (lambda: R["nt"](tree2), ops["trf_b"][1]),
        "nd_x": (lambda: R["nd"](u1, X), ops["user_x"][1]),
        "nd_y": (lambda: R["nd"](u1, Y), ops["user_y"][1]),
    }
    ops.update(first)

    P, Q = (0.5, 0.25), (2.0, -1.0)
    ops.update(
        ir_a=(lambda: E1.to_llvm_ir([X, Y]), None),
        ir_b=(lambda: E2.to_llvm_ir([Y, X]), None),
        lam_a=(run(lambda: sc.lambdify([X, Y], E1), P), near(v1(*P))),
        lam_b=(run(lambda: sc.lambdify([X, Y], E2), Q), near(v2(*Q))),
        lam_m=(run(lambda: sc.lambdify([X, Y], M), P), near(vm(*P))),
        lam_n=(run(lambda: sc.lambdify([X, Y], N), Q), near(vn(*Q))),
    )
    made = {}

    def held(name, *args):
        def make():
            if name not in made:
                made[name] = sc.lambdify(*args)
            return made[name]

        return make

    fn, mt = held("fn", [X, Y], E1), held("mt", [X, Y], M)
    ops.update(
        fn_a=(run(fn, P, Q), near(v1(*P), v1(*Q))),
        fn_b=(run(fn, Q), near(v1(*Q))),
        mat_a=(run(mt, P, Q), near(vm(*P), vm(*Q))),
        mat_b=(run(mt, Q), near(vm(*Q))),
    )
    KEEP = [made, ops, u1, E1, E2, tree, tree2]

    def harness(names):
        calls = [ops[n][0] for n in names]
        rights = [ops[n][1] for n in names]

        def build():
            fresh()
            kept.clear()
            for n in names:
                if n.startswith("fn"):
                    fn()
                if n.startswith("mat"):
                    mt()

            def verify(results):
                # What was compiled in the schedule works as long as it is held.
                for fn, points in list(kept):
                    values = [fn(*p) for p in points]
                    if not any(right and right([v.tolist() if isinstance(v, np.ndarray) else v for v in values]) for right in rights):
                        return f"a function compiled by {names} returned {values!r} later"
                for n, call, right, r in zip(names, calls, rights, results):
                    if right is None:
                        # text: compare with what it is alone
                        again = call()
                        if r != again:
                            return f"{n} returned {r!r}, alone it returns {again!r}"
                        continue
                    if not right(r):
                        return f"{n} returned {r!r}" + (", or the rule that it registered is lost" if n[:2] in ("rg", "rs", "rd") else "")
                    if n.startswith(("rg_", "rs_", "rd_")):
                        continue
                    again = call()
                    if not right(again):
                        return f"{n} returned {again!r} afterwards"
                return None

            return calls, verify

        return build

    for names in pairs("thorough"):
        H["+".join(names)] = harness(names)
        if any(n.startswith(("ir_", "lam_", "fn_", "mat_")) for n in names):
            FILES["+".join(names)] = {"lambdification.py", "matrix.py", "expr.py"}


def pairs(tier):
    out = []
    for names in GROUPS.values():
        out.extend(combinations_with_replacement(names, 2))
    firsts = [names[i] for g, names in GROUPS.items() for i in (0, 1) if g not in ("llvm", "sympy", "calls", "rules", "symrules", "diffrules")]
    seen = set(out)
    for p in combinations_with_replacement(firsts, 2):
        if p not in seen:
            out.append(p)
    for names in (("f64_a", "f64_b", "f64_other"), ("func_1", "func_y", "func_1"), ("subs_1", "subs_2", "subs_1"), ("fwd_a", "fwd_b", "rec_a"),
                  ("trf_a", "trf_b", "trf_a"), ("diff_x", "diff_y", "diff_x"), ("m_get", "m_list", "m_get")):  # fmt: skip
        out.append(names)
    return out


def plan(tier):
    deep = tier == "thorough"
    within = {p for names in GROUPS.values() for p in combinations_with_replacement(names, 2)}
    firsts = {names[0] for names in GROUPS.values()}
    compiled = {p for g in ("llvm",) for p in combinations_with_replacement(GROUPS[g], 2)}
    out = []
    for p in pairs(tier):
        name = "+".join(p)
        symmetric = len(set(p)) == 1
        if p in compiled:
            if not deep and p not in (("ir_a", "ir_b"), ("lam_a", "lam_b"), ("lam_a", "lam_m"), ("lam_m", "lam_n"), ("lam_b", "lam_b"), ("lam_m", "lam_m")):
                continue
            out.append((name, 2, "shared" if deep else "writes", 1, 2 if deep else 1, symmetric))
            if deep:
                out.append((name, 2, "cold:writes", 1, 1, symmetric))
        elif p in within:
            out.append((name, 2, "every" if deep else "shared", 1, 2 if deep else 1, symmetric))
            if deep or p[0] == p[1] in firsts:
                out.append((name, 2, "cold:shared" if deep else "cold:writes", 1, 2 if deep else 1, symmetric))
            if deep:
                out.append((name, 2, "writes", 2, 8, symmetric))
        elif len(p) == 3:
            out.append((name, 3, "shared" if deep else "writes", 1, 2, False))
        elif deep:
            out.append((name, 2, "shared", 1, 1, symmetric))
    return out


def bounds(tier):
    p = plan(tier)
    return (
        f"{len(p)} explorations of pairs and triples of {sum(len(v) for v in GROUPS.values())} calls on shared objects (floating point, core and recursive "
        "evaluation, differentiation, user differentiators, substitution functions, display, counting, transformers, sorting, matrices, SymPy conversion, "
        "compilation, compiled functions, the first use of new matrices, functions, evaluators, transformers and differentiators, registering rules in one table): all schedules with at most 1 preemption at every shared access (quick), at every bytecode, in fresh processes, and "
        "2 preemptions at calls and writes (thorough)"
    )


def cases(tier):
    return schedcheck.case_list(plan(tier))


def check_case(case, rec):
    schedcheck.check(H, case, rec, FILES)
