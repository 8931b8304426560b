"""C04: operations are pure."""
import json
import os
import signal
import traceback
from itertools import permutations, product

from mc import terms as T
from mc.framework import Violation

LEVEL = "model_checking"
RULE = (
    "states: histories, each run in a fresh copy of the process; transitions: operations run; traces: histories in which every result equals that of the "
    "same operation run first in a fresh process, no container argument changed, and no earlier result changed"
)
ASSUMPTIONS = [
    "results are compared by structure, value and type, errors by type",
    "every history of the prefix operations is followed by all operations in a fixed order, so later ones have a longer history",
]
OPS = {}
CHANGED = {}
CASE_LIMIT = 300


def bounds(tier):
    n = 3 if tier == "thorough" else 2
    return (
        f"all histories of {n - 1} of {len(OPS) or 90} operations, each followed by every operation (the last of the {n} and all others in turn), in a fresh "
        "process each; operations share expressions, containers and function objects, differ in one argument (values, exclusions, symbols, order, flags), "
        "use equal arguments of different types, reuse and change containers and results, and make short-lived objects so that addresses are reused; "
        f"all histories of {n + 1} contents of one container given to {len(CHANGED) or 21} operations; every result changed before all operations; all dictionaries, sets, lists and matrix rows of <= 3 entries out of 5 to 8 (also pairs of equal ones) left as given by the operations that take them"
    )


class Canon:
    """Structure of a result, as JSON."""

    def __init__(self):
        import numpy as np
        import sympy

        import protosym.simplecas as sc
        from protosym.core.atom import Atom
        from protosym.core.sym import Sym
        from protosym.core.tree import ForwardGraph, Tree

        self.t = (np, sympy, sc, Atom, Sym, ForwardGraph, Tree)

    def tree(self, t):
        if t.children:
            return [self.tree(c) for c in t.children]
        return [repr(t.value.atom_type), repr(t.value.value)]

    def __call__(self, r):
        np, sympy, sc, Atom, Sym, ForwardGraph, Tree = self.t
        if isinstance(r, Sym):
            return ["sym", type(r).__name__, self.tree(r.rep)]
        if isinstance(r, Tree):
            return ["tree", self.tree(r)]
        if isinstance(r, Atom):
            return ["atom", repr(r)]
        if isinstance(r, sc.Matrix):
            return ["matrix", list(r.shape), self(r.tolist()), [[self(r[i, j]) for j in range(r.ncols)] for i in range(r.nrows)], repr(r)]
        if isinstance(r, (list, tuple)):
            return [type(r).__name__, *map(self, r)]
        if isinstance(r, (set, frozenset)):
            return ["set", *sorted(map(self, r), key=repr)]
        if isinstance(r, dict):
            return ["dict", *[[self(k), self(v)] for k, v in r.items()]]
        if isinstance(r, ForwardGraph):
            return ["graph", self(r.atoms), self(r.heads), self([(h, list(i)) for h, i in r.operations])]
        if isinstance(r, np.ndarray):
            return ["array", str(r.dtype), list(r.shape), [repr(float(v)) for v in r.flat]]
        if isinstance(r, sympy.Basic):
            return ["sympy", sympy.srepr(r)]
        if isinstance(r, sympy.MatrixBase):
            return ["sympymatrix", sympy.srepr(r)]
        if isinstance(r, (str, int, float, bool, type(None), complex, bytes)):
            return [type(r).__name__, repr(r)]
        if callable(r):
            return ["function"]
        raise AssertionError(f"unexpected result {type(r).__name__}")


def prepare(tier):
    import llvmlite.binding  # noqa
    import numpy  # noqa
    import sympy

    import protosym.simplecas as sc
    import protosym.simplecas.lambdification  # noqa
    import protosym.simplecas.sympy_conversions  # noqa
    from protosym.core.evaluate import Evaluator, Transformer
    from protosym.core.sym import AtomFunc, AtomRule, HeadOp, HeadRule, PyFunc1, PyOpN, Sym, SymDifferentiator, star
    from protosym.core.tree import SubsFunc, forward_graph, topological_sort, topological_split

    global CANON, CONTAINERS, BASE, MADE
    CANON = Canon()
    Symbol, Integer, Function = sc.Symbol, sc.Integer, sc.Function
    x, y, z = Symbol("x"), Symbol("y"), Symbol("z")
    F, G = Function("uf"), Function("ug")
    xy = x * y
    e = sc.sin(xy) + (x + y) ** 2 + xy
    n = sc.Add(x, xy, x, sc.Mul(x, y, 3))
    h = F(G(x), y, G(x))
    k = F(x)(y, F(x))

    # containers given to operations, checked after every one
    C = {
        "v1": {x: 0.5, y: 0.25},
        "v2": {x: 2.0, y: -1.0},
        "vc": {xy: 3.0, x: 1.0, y: 7.0},
        "vr": {x.rep: 1, y.rep: 2},
        "ex": {x.rep},
        "ex2": {xy.rep, y.rep},
        "xy": [x, y],
        "yx": [y, x],
        "rx": {x: y, y: x},
        "rc": {xy: z, sc.sin(xy): x, x: 5},
        "rows": [[x, xy], [0, sc.sin(xy)]],
        "rows2": [[0, y], [xy, x]],
        "subs": [x.rep, y.rep],
        "args1": [z.rep],
        "args2": [y.rep, x.rep],
        "args0": [],
        "vx": {x: 4.0},
    }
    CONTAINERS = C

    def raises(fn):
        try:
            return ["ok", fn()]
        except Exception as err:  # noqa
            return ["error", type(err).__name__]

    ops = {}

    def op(name, fn):
        ops[name] = fn

    # -- evaluation
    op("f64_1", lambda: e.eval_f64(C["v1"]))
    op("f64_2", lambda: e.eval_f64(C["v2"]))
    op("f64_c", lambda: e.eval_f64(C["vc"]))
    op("f64_n", lambda: n.eval_f64(C["v1"]))
    op("f64_none", lambda: raises(lambda: e.eval_f64()))
    op("f64_part", lambda: raises(lambda: e.eval_f64({x: 0.5})))
    op("f64_const", lambda: (sc.sin(Integer(1)).eval_f64(), sc.sin(Integer(2)).eval_f64({})))
    op("f64_unknown", lambda: raises(lambda: h.eval_f64(C["v1"])))

    # atoms, whose values nothing has to be computed from
    op("f64_atom", lambda: [x.eval_f64(C["vx"]), y.eval_f64(C["v1"]), Integer(1).eval_f64(C["v2"]), F.eval_f64({F: 2.5}), F(x).eval_f64({F(x): 1.5})])
    op("f64_atom_x", lambda: x.eval_f64({x: 6.0, y: 7.0}))
    op("f64_atom_1", lambda: Integer(1).eval_f64({x: 0.5, y: 0.75, Integer(1): 9.0}))
    op("f64_atom_none", lambda: [raises(lambda: x.eval_f64()), raises(lambda: y.eval_f64({})), raises(lambda: F.eval_f64()), Integer(1).eval_f64(), raises(lambda: F(x).eval_f64())])

    def changed_values():
        d = {x: 0.5, y: 0.25}
        out = [e.eval_f64(d)]
        for v in (1.5, 2.5, 0.5):
            d[x] = v
            out.append(e.eval_f64(d))
        del d[y]
        out.append(raises(lambda: e.eval_f64(d)))
        return out

    op("f64_changed", changed_values)
    op("f64_temps", lambda: [e.eval_f64({x: float(i), y: float(i * i)}) for i in range(6)])
    op("f64_exprs", lambda: [sc.sin(Symbol(f"t{i}") + i).eval_f64({Symbol(f"t{i}"): 0.5 * i}) for i in range(8)])

    # -- core evaluators with free rules
    evs = []
    for tag in ("A", "B"):
        ev = Evaluator()
        ev.add_atom(x.rep.value.atom_type, lambda v, tag=tag: [tag, v])
        ev.add_atom_generic(lambda t, tag=tag: [tag, "?", str(t)])
        ev.add_opn(F.rep, lambda args, tag=tag: [tag, "f", *args])
        ev.add_op_generic(lambda hd, args, tag=tag: [tag, str(hd), *args])
        evs.append(ev)
    A, B = evs
    op("A", lambda: A(h.rep))
    op("B", lambda: B(h.rep))
    op("A_rec", lambda: A.eval_recursive(h.rep, {}))
    op("B_rec", lambda: B.eval_recursive(h.rep, {}))
    op("A_vals", lambda: A(h.rep, C["vr"]))
    op("A_rec_vals", lambda: A.eval_recursive(h.rep, C["vr"]))
    # equal values of different types, the same keys
    for i, v in enumerate((1, True, 1.0, 0, False, None, "", ())):
        op(f"A_val{i}", lambda v=v: [A(h.rep, {x.rep: v}), A(h.rep, {G(x).rep: v}), A(h.rep, {h.rep: v})])
    op("A_k", lambda: A(k.rep))

    def evaluators():
        out = []
        for i in range(6):
            ev = Evaluator()
            ev.add_atom_generic(lambda t, i=i: i)
            ev.add_op_generic(lambda hd, args, i=i: [i, *args])
            out.append(ev(h.rep))
            ev.add_op_generic(lambda hd, args, i=i: [-i, *args])
            out.append(ev(h.rep))
        return out

    op("evaluators", evaluators)

    def sym_evaluator():
        a, b = sc.Expr.new_wild("a"), sc.Expr.new_wild("b")
        out = []
        for i in range(3):
            ev = sc.Expr.new_evaluator("ev", list)
            ev[Symbol[a]] = PyFunc1(lambda s, i=i: [i, s])(a)
            ev[AtomRule[a]] = AtomFunc(lambda t: [str(t)])(a)
            ev[HeadRule(a, b)] = HeadOp(lambda hd, args, i=i: [i, str(hd), *args])(a, b)
            out.append(ev(h))
            ev[F(star(a))] = PyOpN(lambda args, i=i: ["F", i, *args])(a)
            out.append(ev(h))
            out.append(ev(h, {G(x): i}))
        return out

    op("sym_evaluator", sym_evaluator)
    op("failing_rule", lambda: [raises(lambda: failing(h.rep)), raises(lambda: failing.eval_recursive(h.rep, {}))])
    failing = Evaluator()
    failing.add_atom_generic(lambda t: t)

    def boom(*args):
        raise ZeroDivisionError

    failing.add_op1(G.rep, boom)

    # -- transformers
    t1, t2 = Transformer(), Transformer()
    t1.add_op1(G.rep, lambda a: F.rep(a, a))
    t2.add_op1(G.rep, lambda a: F.rep(a))
    op("t1", lambda: t1(h.rep))
    op("t2", lambda: t2(h.rep))
    op("t1_vals", lambda: t1(h.rep, {x.rep: y.rep}))
    op("bin", lambda: n.bin_expand())
    op("bin_e", lambda: e.bin_expand())
    op("bin_h", lambda: F(n, n).bin_expand())

    # -- derivatives
    op("dx", lambda: e.diff(x))
    op("dy", lambda: e.diff(y))
    op("dxx", lambda: e.diff(x, 2))
    op("dxy", lambda: e.diff(x).diff(y))
    op("d0", lambda: e.diff(x, 0))
    op("dz", lambda: e.diff(z))
    op("dn", lambda: n.diff(x))
    op("dh", lambda: raises(lambda: h.diff(x)))
    op("dh_z", lambda: h.diff(z))
    op("dlist", lambda: sc.List(x, e, 3).diff(y))
    ds = []
    for i in range(2):
        d = SymDifferentiator(sc.Expr, add=sc.Add, mul=sc.Mul, zero=sc.zero, one=sc.one)
        a, b, c = (sc.Expr.new_wild(w) for w in "abc")
        d[F(a, b, c), a] = b * c + i
        d[F(a, b, c), b] = G(a) + i
        d[F(a, b, c), c] = c
        d[G(a), a] = F(a, a, a) if i else a
        ds.append(d)
    op("d1", lambda: ds[0](h, x))
    op("d2", lambda: ds[1](h, x))
    op("d1y", lambda: ds[0](h, y))
    op("d1xx", lambda: ds[0](G(G(x)), x, 2))

    def differentiators():
        out = []
        for i in range(4):
            d = SymDifferentiator(sc.Expr, add=sc.Add, mul=sc.Mul, zero=sc.zero, one=sc.one)
            a = sc.Expr.new_wild("a")
            d[G(a), a] = a + i
            out.append(d(G(G(x)), x))
            d[G(a), a] = a * i
            out.append(d(G(G(x)), x))
        return out

    op("differentiators", differentiators)

    # -- substitution
    op("xr", lambda: e.xreplace(C["rx"]))
    op("xrc", lambda: e.xreplace(C["rc"]))
    op("xr_h", lambda: [h.xreplace({F: G}), h.xreplace({G(x): F}), k.xreplace({F(x): G}), k.xreplace({x: y})])
    op("xr_int", lambda: [(x + 1).xreplace({1: 2}), (x + 1).xreplace({Integer(1): x}), (x + 1).xreplace({x: 1})])
    fx, fxy, fyx = e.as_function(x), e.as_function(x, y), e.as_function(y, x)
    op("fx", lambda: [fx(1), fx(y), fx(x)])
    op("fxy", lambda: [fxy(1, 2), fxy(y, x)])
    op("fyx", lambda: [fyx(1, 2), fyx(y, x)])
    op("f_bad", lambda: [raises(lambda: fx()), raises(lambda: fx(1, 2)), raises(lambda: fxy(1))])
    op("f_new", lambda: [e.as_function(y)(i) for i in range(4)])
    s1 = SubsFunc(h.rep, C["subs"])
    op("s1", lambda: [s1(y.rep, x.rep), s1(F.rep, G.rep)])
    s2, s0 = SubsFunc(h.rep, [G(x).rep]), SubsFunc(h.rep, [])
    op("s_call", lambda: [s1.call(C["args2"]), s1.call((x.rep, y.rep)), s2.call(C["args1"]), s0.call(C["args0"]), s2.call([F.rep])])
    op("f_call", lambda: [fx.call(C["args1"]), fxy.call(C["args2"]), fyx.call(C["args2"]), raises(lambda: fx.call(C["args2"])), raises(lambda: fxy.call(C["args0"]))])
    op("s_new", lambda: [SubsFunc(h.rep, [G(x).rep])(y.rep), SubsFunc(h.rep, [x.rep])(y.rep), SubsFunc(h.rep, [h.rep])(y.rep), SubsFunc(h.rep, [])()])

    def changed_targets():
        args = [x.rep]
        s = SubsFunc(h.rep, args)
        out = [s(z.rep)]
        args[0] = y.rep
        out.append(s(z.rep))
        args.append(x.rep)
        out.append(s(y.rep))
        out.append(SubsFunc(h.rep, args)(z.rep, F.rep))
        return out

    op("s_changed", changed_targets)

    # -- structure
    op("topo", lambda: topological_sort(e.rep))
    op("topo_h", lambda: topological_sort(e.rep, heads=True))
    op("topo_x", lambda: topological_sort(e.rep, exclude=C["ex"]))
    op("topo_x2", lambda: topological_sort(e.rep, exclude=C["ex2"]))
    op("topo_hx", lambda: topological_sort(e.rep, heads=True, exclude=C["ex2"]))
    op("topo_k", lambda: [topological_sort(k.rep), topological_sort(k.rep, heads=True)])
    op("topo_e", lambda: [topological_sort(x.rep), topological_sort(x.rep, exclude=C["ex"]), topological_sort(x.rep, exclude=set())])
    op("split", lambda: topological_split(h.rep))
    op("split_x", lambda: topological_split(h.rep, exclude=C["ex"]))
    op("fgraph", lambda: forward_graph(h.rep))

    def changed_sorts():
        out = []
        for _ in range(2):
            r = topological_sort(h.rep)
            out.append(list(r))
            r.clear()
            a, hs, nodes = topological_split(h.rep)
            out.append((list(a), set(hs), list(nodes)))
            a.append(z.rep)
            hs.add(z.rep)
            nodes.reverse()
            g = forward_graph(h.rep)
            out.append((list(g.atoms), set(g.heads), [(o, list(i)) for o, i in g.operations]))
            g.atoms.clear()
            g.heads.clear()
            g.operations.reverse()
        ex = {x.rep}
        out.append(topological_sort(h.rep, exclude=ex))
        ex.add(y.rep)
        out.append(topological_sort(h.rep, exclude=ex))
        return out

    op("sort_changed", changed_sorts)
    op("graph", lambda: [e.count_ops_graph(), n.count_ops_graph(), h.count_ops_graph()])
    op("tree", lambda: [e.count_ops_tree(), n.count_ops_tree(), h.count_ops_tree()])
    op("count_temps", lambda: [(lambda t: (t.count_ops_graph(), t.count_ops_tree()))(sc.Add(*[Symbol(f"c{j}") for j in range(i % 3 + 1)])) for i in range(9)])
    op("args", lambda: [e.args, e.head, h.args, k.head, k.args])
    op("args_none", lambda: [raises(lambda: x.args), raises(lambda: x.head)])

    # -- display
    op("repr", lambda: [repr(e), str(n), repr(h), repr(k)])
    op("latex", lambda: [e.eval_latex(), n.eval_latex(), h.eval_latex(), e._repr_latex_()])
    op("rep", lambda: [repr(h.rep), str(h.rep), repr(x.rep.value), str(x.rep.value)])
    op("repr_temps", lambda: [repr(sc.sin(Symbol(f"r{i}")) ** i) for i in range(8)])
    op("same_names", lambda: [repr(Function("x")(x)), repr(Symbol("sin")), repr(sc.Expr.new_wild("x")), Symbol("x") == Function("x"), Symbol("1") == Integer(1)])

    # -- matrices
    M, N = sc.Matrix(C["rows"]), sc.Matrix(C["rows2"])
    op("M", lambda: M)
    op("M_new", lambda: sc.Matrix(C["rows"]))
    op("M_add", lambda: [M + N, N + M, M + M])
    op("M_mul", lambda: M.binop(N, sc.Mul))
    op("M_dx", lambda: [M.diff(x), N.diff(x)])
    op("M_dy", lambda: M.diff(y))
    op("M_get", lambda: [M[0, 0], M[1, 0], M[1, 1], raises(lambda: M[2, 0]), raises(lambda: M[0]), raises(lambda: M + sc.Matrix([[x]]))])

    def changed_matrix():
        rows = [[x, y], [y, 0]]
        m = sc.Matrix(rows)
        rows[0][0] = z
        rows.append([1, 2])
        out = [m]
        lst = m.tolist()
        lst[0][1] = z
        lst[1].clear()
        out.append(sc.Matrix(m.tolist()))
        s = m + m
        out.append(s)
        t = m.diff(x)
        out.append(t + s)
        out.append(m)
        out.append(s)
        return out

    op("M_changed", changed_matrix)

    # -- SymPy
    sx, sy = sympy.symbols("x y")
    se = sympy.sin(sx * sy) + sx**2
    op("to", lambda: [e.to_sympy(), n.to_sympy(), h.to_sympy(), sc.List(x, y).to_sympy()])
    op("from", lambda: [sc.Expr.from_sympy(se), sc.Expr.from_sympy(sympy.Function("uf")(sx, 1)), sc.Expr.from_sympy(sympy.Tuple(sx, se))])
    op("from_bad", lambda: [raises(lambda: sc.Expr.from_sympy(sx + sympy.pi)), raises(lambda: sc.Expr.from_sympy(sympy.Rational(1, 2)))])
    op("M_to", lambda: [M.to_sympy(), N.to_sympy(), sc.Matrix.from_sympy(M.to_sympy())])
    op("to_temps", lambda: [sc.sin(Symbol(f"s{i}")).to_sympy() for i in range(6)])

    # -- compilation
    MADE = {}

    def made(name, *args):
        if name not in MADE:
            MADE[name] = sc.lambdify(*args)
        return MADE[name]

    op("ir", lambda: [e.to_llvm_ir(C["xy"]), e.to_llvm_ir(C["yx"]), M.to_llvm_ir(C["xy"]), n.to_llvm_ir([x, y, z])])
    op("lam", lambda: made("lam", C["xy"], e)(0.5, 2.0))
    op("lam_yx", lambda: made("lam_yx", C["yx"], e)(0.5, 2.0))
    op("lam_n", lambda: [made("lam_n", C["xy"], n)(0.5, 2.0), made("lam_n", C["xy"], n)(1, 3)])
    op("lam_new", lambda: [sc.lambdify([x, y], n)(2.0, 3.0), sc.lambdify([y, x], n)(2.0, 3.0)])
    op("lam_M", lambda: [made("lam_M", C["xy"], M)(0.5, 2.0), made("lam_M", C["xy"], M)(1.5, -2.0)])
    op("lam_N", lambda: made("lam_N", C["yx"], N)(0.5, 2.0))
    op("lam_bad", lambda: [raises(lambda: sc.lambdify([x], e)), raises(lambda: sc.lambdify([x, y], h)), raises(lambda: sc.lambdify([x, y], sc.Matrix([[h]])))])

    # -- other expressions, other classes
    def others():
        class Mine(Sym):
            pass

        T1 = Mine.new_atom("Symbol", str)
        return [T1("x"), Mine(x.rep), Mine(h.rep), T1("x") == x, Mine(x.rep) == x]

    op("others", others)
    op("operators", lambda: [x + 1, 1 + x, x - y, 2 - x, x * y, x / y, 3 / x, x**2, 2**x, -x, +x, x + True])
    op("operators_bad", lambda: [raises(lambda: x + 1.5), raises(lambda: "a" * x), raises(lambda: F(None))])
    op("expressify", lambda: [sc.expressify(1), sc.expressify(True), sc.expressify(x), raises(lambda: sc.expressify(1.0)), raises(lambda: sc.expressify("x"))])
    HELD = []

    def hold():
        HELD.append([sc.sin(Symbol(f"x{i}")) + i for i in range(20)] + [F(G(i)) for i in range(20)])
        return [len(HELD[-1]), HELD[-1][3]]

    op("hold", hold)

    def drop():
        import gc

        HELD.clear()
        gc.collect()
        return None

    op("drop", drop)
    OPS.clear()
    OPS.update(ops)

    # The result of every operation when it is the first one.
    BASE = {}
    for name in OPS:
        BASE[name] = in_child(lambda name=name: json.loads(json.dumps(CANON(OPS[name]()))))


    # Operations on a container, which is changed in place between the calls.
    def at(ev, t):
        return lambda c: raises(lambda: ev(t, c))

    d0 = ds[0]
    exprs = {"x": x, "y": y, "xy": xy, "z": z, "1": Integer(1), "3": Integer(3)}
    trees = {k: v.rep for k, v in exprs.items()}
    maps = [{"x": 0.5, "y": 0.25}, {"x": 1.5, "y": 0.25}, {"y": 0.25}, {}, {"x": 0.5, "y": 0.25, "xy": 9.0}, {"y": 0.25, "x": 0.5}]
    reps = [{"x": "y"}, {"x": "z"}, {"x": "y", "y": "x"}, {"y": "x", "x": "y"}, {"xy": "z", "x": "1"}, {}]
    lists = [["x"], ["y"], ["x", "y"], ["y", "x"], [], ["xy", "x"]]
    rows = [[["x", "y"], ["xy", "1"]], [["x", "y"], ["xy", "3"]], [["y", "x"], ["xy", "3"]], [["x", "y"]], [["x"], ["y"]]]
    global CHANGED
    CHANGED = {}
    for name, expr in (("e", e), ("n", n), ("x", x)):
        CHANGED[f"f64 {name}"] = (lambda c, expr=expr: raises(lambda: expr.eval_f64(c)), dict, [{exprs[k]: v for k, v in m.items()} for m in maps])
        CHANGED[f"xreplace {name}"] = (lambda c, expr=expr: expr.xreplace(c), dict, [{exprs[k]: exprs[v] for k, v in m.items()} for m in reps])
    core_maps = [{trees[k]: v for k, v in m.items()} for m in maps]
    CHANGED["evaluator"] = (at(A, h.rep), dict, core_maps)
    CHANGED["recursive"] = (at(A.eval_recursive, h.rep), dict, core_maps)
    CHANGED["forward"] = (at(A.eval_forward, h.rep), dict, core_maps)
    CHANGED["transformer"] = (at(t1, h.rep), dict, [{trees[k]: trees[v] for k, v in m.items()} for m in reps])
    for name, heads in (("sort", False), ("sort heads", True)):
        CHANGED[name] = (lambda c, heads=heads: topological_sort(e.rep, heads=heads, exclude=c), set, [{trees[k] for k in m} for m in lists])
    CHANGED["split"] = (lambda c: topological_split(e.rep, exclude=c), set, [{trees[k] for k in m} for m in lists])
    CHANGED["targets"] = (lambda c: SubsFunc(h.rep, c)(*[G.rep, z.rep][: len(c)]), list, [[trees[k] for k in m] for m in lists])
    CHANGED["call"] = (lambda c: raises(lambda: s1.call(c)), list, [[trees[k] for k in m] for m in lists])
    CHANGED["function call"] = (lambda c: raises(lambda: fxy.call(c)), list, [[trees[k] for k in m] for m in lists])
    CHANGED["matrix"] = (lambda c: raises(lambda: sc.Matrix(c)), list, [[[exprs[k] for k in row] for row in m] for m in rows])
    CHANGED["compile"] = (lambda c: raises(lambda: sc.lambdify(c, xy + y)(0.5, 2.0)), list, [[exprs[k] for k in m] for m in lists[:5]])
    CHANGED["code"] = (lambda c: raises(lambda: (e.to_llvm_ir(c), M.to_llvm_ir(c))), list, [[exprs[k] for k in m] for m in lists[:5]])


def renew(container, content):
    """Give the container, and the lists in it, another content in place."""
    if isinstance(container, list):
        old = container[:]
        new = [renew(old[i], c) if i < len(old) and isinstance(c, list) else copied(c) for i, c in enumerate(content)]
        container[:] = new
    else:
        container.clear()
        container.update(content)
    return container


def copied(v):
    return [copied(i) for i in v] if isinstance(v, list) else v


def check_changed(name, rec, depth):
    """A container means what it holds at the time of the call."""
    fn, make, contents = CHANGED[name]

    def canon(v):
        return json.loads(json.dumps(CANON(v)))

    want = [in_child(lambda c=c: canon(fn(make(copied(c) if make is list else c)))) for c in contents]

    def run(seq):
        box = make()
        for step, i in enumerate(seq):
            got = canon(fn(renew(box, contents[i])))
            if got != want[i]:
                raise Violation(f"{name}: another result when the container was changed since the last call", contents=[repr(contents[j]) for j in seq[: step + 1]], got=got, alone=want[i])
            if canon(box) != canon(make(copied(contents[i]) if make is list else contents[i])):
                raise Violation(f"{name} changed its container", content=repr(contents[i]), now=repr(box))
        return len(seq)

    for seq in product(range(len(contents)), repeat=depth):
        rec.add("transitions", run(seq))
        rec.add("states")
        rec.add("traces_validated_against_impl")
    rec.outcome([name, depth])


def check_kept(what, n, rec):
    """Every container of n entries is left as it is: the same entries in the same order."""
    import protosym.simplecas as sc
    from protosym.core.evaluate import Evaluator, Transformer
    from protosym.core.tree import SubsFunc, forward_graph, topological_sort, topological_split

    x, y = sc.x, sc.y
    xy, sx = x * y, sc.sin(x)
    e = sc.sin(xy) + (x + y) ** 2 * sx + xy
    keys = [x, y, xy, sx, e, sc.f, sc.one, sc.Symbol("absent")]
    ev = Evaluator()
    ev.add_atom_generic(lambda a: 1)
    ev.add_op_generic(lambda h, args: sum(map(bool, args)))

    def kept(box, call):
        def entries():
            if isinstance(box, dict):
                return [(k, id(v)) for k, v in box.items()]
            if isinstance(box, set):
                return set(box)
            return [[id(v) for v in row] if isinstance(row, list) else id(row) for row in box]

        before = entries()
        for again in (1, 2):
            try:
                got = repr(call(box))
            except Exception as err:  # noqa - a refused call keeps its arguments too
                got = repr(type(err))
            if entries() != before:
                raise Violation(f"a container given to {what} was changed", now=repr(box)[:300])
            if again == 1:
                first = got
            elif got != first:
                raise Violation(f"{what}: another result the second time", container=repr(box)[:300], got=got, first=first)
        rec.add("states")
        rec.add("transitions", 2)
        rec.outcome(first)

    if what == "xreplace":
        for targets in permutations([*keys[:6], 1], n):
            for values in product([*keys[:5], 1], repeat=n):
                kept(dict(zip(targets, values)), e.xreplace)
    elif what == "values":
        for targets in permutations(keys, n):
            for values in product((0.0, 0.5, None), repeat=n):
                kept(dict(zip(targets, values)), e.eval_f64)
                trees = {k.rep: v for k, v in zip(targets, values)}
                kept(trees, lambda d: ev(e.rep, d))
                kept(trees, lambda d: ev.eval_recursive(e.rep, d))
                kept(dict(zip(trees, trees)), lambda d: Transformer()(e.rep, d))
    elif what == "exclude":
        for targets in permutations(keys, n):
            box = {k.rep for k in targets}
            for heads in (False, True):
                kept(box, lambda s: topological_sort(e.rep, exclude=s, heads=heads))
            kept(box, lambda s: topological_split(e.rep, exclude=s)[::2])
    elif what == "lists":
        for targets in product(keys, repeat=n):
            box = [k.rep for k in targets]
            kept(box, lambda given: SubsFunc(e.rep, given).nargs)
            kept(box, lambda given: SubsFunc(e.rep, [x.rep, y.rep]).call(given))
            kept(list(targets), lambda given: (e + 1).to_llvm_ir(given))
            kept(list(targets), lambda given: sc.Matrix([[e, x]]).to_llvm_ir(given))
            kept(list(targets), lambda given: e.as_function(x, y)(*given))
        graph = forward_graph(e.rep)
        kept(graph.atoms, lambda given: forward_graph(e.rep).operations)
        if n:
            for arg in product([x, y], repeat=n):
                for what_for in (x + 1, sc.Matrix([[x, 0, x + 1]])):
                    kept(list(arg), lambda given: sc.lambdify(given, what_for)(*range(len(given))))
    elif n:
        entries = [x, 0, sc.zero, sx, 1]
        for m in (1, 2):
            for values in product(entries, repeat=n * m):
                rows = [list(values[i * m : i * m + m]) for i in range(n)]
                kept(rows, sc.Matrix)
                kept(rows, lambda r: (sc.Matrix(r) + sc.Matrix(r)).diff(x))
                M = sc.Matrix(rows)
                for part in (M.elements, M.entrymap):
                    for call in (lambda p: M + M, lambda p: M.binop(M, sc.Mul), lambda p: M.diff(x), lambda p: M.tolist(), lambda p: M.tolist().clear(), lambda p: M.to_sympy(), lambda p: M.diff(x) + M, lambda p: M + M.diff(y)):
                        kept(part, call)
    rec.add("traces_validated_against_impl")


def wreck(v):
    """What the user does with a result: change everything that can be changed."""
    np, sympy, sc, Atom, Sym, ForwardGraph, Tree = CANON.t
    if isinstance(v, ForwardGraph):
        for part in (v.atoms, v.heads, v.operations):
            wreck(part)
    elif isinstance(v, np.ndarray):
        v.fill(9.0)
    elif isinstance(v, sympy.MatrixBase):
        v[0, 0] = 77
    elif isinstance(v, (list, tuple)):
        for part in v:
            wreck(part)
    if isinstance(v, list):
        v[:] = v[::-1][1:]
    elif isinstance(v, (set, dict)):
        v.clear()


def check_wrecked(first, rec):
    """Changing the result of one operation has no effect on any other."""

    def run():
        for _ in range(2):
            wreck(OPS[first]())
        for name in [first, *OPS]:
            got = json.loads(json.dumps(CANON(OPS[name]())))
            if got != BASE[name]:
                raise Violation(f"{name} gives another result after the result of {first} was changed", got=got, alone=BASE[name])
        return len(OPS) + 3

    rec.add("transitions", in_child(run))
    rec.add("states")
    rec.add("traces_validated_against_impl")
    rec.outcome(["wrecked", first])


def in_child(fn):
    """JSON result of fn in a copy of this process; errors are raised here."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            try:
                out = {"ok": fn()}
            except Violation as v:
                out = {"violation": v.message, "detail": v.detail}
            except BaseException:
                out = {"error": traceback.format_exc()[-2500:]}
            with os.fdopen(w, "wb") as fh:
                fh.write(json.dumps(out).encode())
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as fh:
            data = fh.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    _, status = os.waitpid(pid, 0)
    if not data:
        raise Violation(f"the process died (status {status})")
    out = json.loads(data)
    if "violation" in out:
        raise Violation(out["violation"], **out["detail"])
    if "error" in out:
        raise Violation("an operation failed", error=out["error"])
    return out["ok"]


def cases(tier):
    for name in CHANGED:
        yield ["changed", name, 4 if tier == "thorough" else 3]
    for what in ("xreplace", "values", "exclude", "lists", "rows"):
        for n in range(4):
            yield ["kept", what, n]
    for a in OPS:
        yield ["wrecked", a]
    for a in OPS:
        yield [a]
    if tier == "thorough":
        for p in product(OPS, repeat=2):
            yield list(p)


def check_case(prefix, rec):
    """All histories that begin like this."""
    if prefix[0] == "changed":
        return check_changed(prefix[1], rec, prefix[2])
    if prefix[0] == "kept":
        return check_kept(prefix[1], prefix[2], rec)
    if prefix[0] == "wrecked":
        return check_wrecked(prefix[1], rec)

    def history(names):
        before = {k: json.dumps(CANON(v)) for k, v in CONTAINERS.items()}
        held = []
        for i, name in enumerate(names):
            r = OPS[name]()
            got = json.loads(json.dumps(CANON(r)))
            if got != BASE[name]:
                raise Violation(f"{name} gives another result after {' '.join(names[:i][-6:])}", got=got, alone=BASE[name], history=names[: i + 1])
            if not name.startswith("f64_temps"):
                held.append((name, r, got))
            for k, v in CONTAINERS.items():
                if json.dumps(CANON(v)) != before[k]:
                    raise Violation(f"{name} changed the container {k} it was given", history=names[: i + 1])
        for name, r, got in held:
            if json.loads(json.dumps(CANON(r))) != got:
                raise Violation(f"the result of {name} was changed later", history=names)
        return len(names)

    order = list(OPS)
    if len(prefix) == 1:
        # (a, b) for every b, each in its own process ...
        for b in order:
            rec.add("transitions", in_child(lambda: history([prefix[0], b])))
            rec.add("states")
            rec.add("traces_validated_against_impl")
    # ... and the prefix followed by everything, forwards and backwards
    for tail in (order, order[::-1]):
        n = in_child(lambda: history([*prefix, *tail]))
        rec.add("transitions", n)
        rec.add("states", n)
        rec.add("traces_validated_against_impl")
        rec.maximum("history", n)
    rec.outcome(prefix)
    rec.sample(prefix)
