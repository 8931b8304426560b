"""C03: expressions that are no longer referenced are reclaimed."""
import gc
import weakref
from itertools import product

from mc import terms as T
from mc.framework import Violation

LEVEL = "model_checking"
RULE = (
    "states: (history of operations, shape of the expression) pairs, each run with fresh names; transitions: operations run on the real code; traces: "
    "histories after which no atom, tree, expression, matrix or function object made during them is left in the process"
)
ASSUMPTIONS = [
    "objects made by the first run of a history (constants made on demand) may be permanent; those of its second run, with other names, may not",
    "rules registered on an evaluator or differentiator are kept by it for as long as it is held",
    "the caches of SymPy and LLVM are not part of the library",
]

OPS = {}
SHAPES = {}
_counter = [0]


def op(fn):
    OPS[fn.__name__.rstrip("_")] = fn
    return fn


def fresh(kind="n"):
    _counter[0] += 1
    return f"{kind}{_counter[0]}"


def bounds(tier):
    n = 3 if tier == "thorough" else 2
    return (
        f"all histories of <= 2 of {len(OPS) or 60} operations (including failing ones) on 6 shapes of expression with fresh names (compiling only "
        f"once per history in quick); {'all triples of 24 operations; ' if n == 3 else ''}nesting 0..3000, sharing depth 0..200, sums of 0..200 operands, values that are "
        "objects, reference cycles through values, small integers and short names, the named constants"
    )


def prepare(tier):
    import llvmlite.binding  # noqa
    import numpy  # noqa
    import sympy

    import protosym.simplecas as sc
    import protosym.simplecas.lambdification  # noqa
    import protosym.simplecas.sympy_conversions  # noqa
    from protosym.core.atom import Atom, AtomType
    from protosym.core.differentiate import DiffProperties, diff_forward
    from protosym.core.evaluate import Evaluator, Transformer
    from protosym.core.sym import AtomFunc, AtomRule, HeadOp, HeadRule, PyFunc1, PyOp1, PyOpN, Sym, SymDifferentiator, star
    from protosym.core.tree import SubsFunc, Tr, Tree, forward_graph, topological_sort, topological_split

    global KINDS
    KINDS = (Atom, Tree, Sym, sc.Matrix, SubsFunc, type(sc.Symbol("x").as_function(sc.Symbol("x"))))
    Integer, Symbol, Function = sc.Integer, sc.Symbol, sc.Function

    class Env:
        """Fresh parts (or the named constants), and an expression made of them."""

        def __init__(self, shape, constants=False):
            if constants:
                self.x, self.y, self.f, self.g, self.n = sc.x, sc.y, sc.f, sc.g, Integer(2)
                self.e = SHAPES[shape](self)
                self.values = {self.x: 0.5, self.y: 0.25}
                return
            self.x, self.y = Symbol(fresh("x")), Symbol(fresh("y"))
            self.f, self.g = Function(fresh("f")), Function(fresh("g"))
            _counter[0] += 1
            self.n = Integer(10**6 + _counter[0])
            self.e = SHAPES[shape](self)
            self.values = {self.x: 0.5, self.y: 0.25}

    SHAPES.update(
        atom=lambda v: v.x,
        arith=lambda v: sc.sin(v.x * v.y + v.n) ** 2 - sc.cos(v.x),
        nary=lambda v: sc.Add(v.x, sc.Mul(v.x, v.y, v.n), v.n, v.x),
        calls=lambda v: v.f(v.g(v.x), v.x) + v.f(v.g(v.y), v.n),
        head=lambda v: v.f(v.x)(v.y, v.f(v.x)),
        tuple=lambda v: sc.List(v.x, v.x * v.y, v.n),
    )

    def fails(fn, *a, **k):
        """It is for other checks to say that the operation must fail."""
        try:
            return fn(*a, **k)
        except Exception:  # noqa
            return None

    def attempt(fn, *a, **k):
        """The operation may or may not apply to this shape."""
        try:
            return fn(*a, **k)
        except Exception:  # noqa
            return None

    ops = {
        "hold": lambda v: [v.e],
        "repr": lambda v: repr(v.e),
        "latex": lambda v: attempt(v.e.eval_latex),
        "ipython": lambda v: attempt(v.e._repr_latex_),
        "rep": lambda v: (repr(v.e.rep), str(v.e.rep)),
        "graph": lambda v: v.e.count_ops_graph(),
        "tree": lambda v: v.e.count_ops_tree(),
        "topo": lambda v: topological_sort(v.e.rep),
        "heads": lambda v: topological_sort(v.e.rep, heads=True, exclude={v.x.rep}),
        "split": lambda v: topological_split(v.e.rep),
        "fgraph": lambda v: forward_graph(v.e.rep),
        "f64": lambda v: attempt(v.e.eval_f64, v.values),
        "f64_fail": lambda v: fails(v.f(v.e).eval_f64, v.values),
        "f64_values": lambda v: sc.sin(v.e).eval_f64({v.e: 2.0}),
        "f64_missing": lambda v: (fails(sc.sin(v.e).eval_f64), fails(v.x.eval_f64), fails(sc.Add(v.n, v.y).eval_f64, {v.x: 1.0}), fails(v.f.eval_f64)),
        "f64_bad_value": lambda v: (fails((v.e + v.x).eval_f64, {v.x: "text"}), fails((v.x ** v.y).eval_f64, {v.x: 0.0, v.y: -1.0}), fails(sc.sin(v.e).eval_f64, {v.e: 1e400})),
        "diff": lambda v: attempt(v.e.diff, v.x),
        "diff2": lambda v: attempt(v.e.diff, v.y, 3),
        "diff_fail": lambda v: fails(v.f(v.e * v.x).diff, v.x),
        "diff_other": lambda v: v.e.diff(Symbol(fresh())),
        "args": lambda v: attempt(lambda: (v.e.head, v.e.args)),
        "binexp": lambda v: v.e.bin_expand(),
        "xreplace": lambda v: v.e.xreplace({v.x: v.y, v.y: v.n}),
        "xreplace_deep": lambda v: (v.e + v.e * v.x).xreplace({v.e: Symbol(fresh())}),
        "function": lambda v: v.e.as_function(v.x, v.y),
        "function_call": lambda v: v.e.as_function(v.x, v.y)(Symbol(fresh()), 3),
        "function_fail": lambda v: fails(v.e.as_function(v.x, v.y), v.x),
        "subs": lambda v: SubsFunc(v.e.rep, [v.x.rep, v.n.rep])(v.y.rep, v.f.rep),
        "operators": lambda v: (v.e + 1, 2 - v.e, v.e * v.e, v.e / v.n, 2**v.e, -v.e, +v.e),
        "operators_fail": lambda v: (fails(lambda: v.e + "a"), fails(lambda: None ** v.e), fails(v.e, 1.5)),
        "compare": lambda v: (v.e == v.x, hash(v.e), v.e != v.n, {v.e: 1, v.x: 2}),
        "malformed": lambda v: (fails(Tree, v.e.rep, 1), fails(Tree, v.e), fails(Tree.atom, v.e.rep), fails(type(v.e), 3), fails(Tree)),
        "matrix": lambda v: sc.Matrix([[v.e, v.x], [0, v.e * 2]]),
        "matrix_add": lambda v: sc.Matrix([[v.e, v.x]]) + sc.Matrix([[v.y, 0]]),
        "matrix_ops": lambda v: (lambda m: (m.tolist(), repr(m), m[0, 1], m.binop(m, sc.Mul), attempt(m.diff, v.x)))(sc.Matrix([[v.e, 0], [0, v.e]])),
        "matrix_fail": lambda v: (lambda m: (fails(lambda: m[2, 2]), fails(lambda: m + sc.Matrix([[v.e]])), fails(lambda: m + v.e)))(sc.Matrix([[v.e, 0]])),
        "matrix_bad": lambda v: (fails(sc.Matrix, [[v.e], [v.e, v.x]]), fails(sc.Matrix, v.e), fails(sc.Matrix, [[v.e, "a"]])),
        "sympy": lambda v: attempt(v.e.to_sympy),
        "sympy_back": lambda v: attempt(lambda: sc.Expr.from_sympy(v.e.to_sympy())),
        "sympy_new": lambda v: sc.Expr.from_sympy(sympy.sin(sympy.Symbol(fresh())) + 2),
        "sympy_fail": lambda v: fails(sc.Expr.from_sympy, sympy.Symbol(fresh()) + sympy.pi),
        "sympy_matrix": lambda v: attempt(lambda: sc.Matrix.from_sympy(sc.Matrix([[v.e, 0], [v.x, v.y]]).to_sympy())),
        "sympy_hook": lambda v: attempt(sympy.sympify, v.e),
        "lambdify": lambda v: attempt(lambda: sc.lambdify([v.x, v.y], v.e)(1, 2)),
        "lambdify_fail": lambda v: fails(sc.lambdify, [v.x, v.y], v.f(v.e)),
        "lambdify_fail2": lambda v: fails(sc.lambdify, [], v.e * v.x),
        "lambdify_matrix": lambda v: attempt(lambda: sc.lambdify([v.x, v.y], sc.Matrix([[v.e, 0], [v.x, 2]]))(1, 2)),
        "lambdify_matrix_fail": lambda v: fails(sc.lambdify, [v.x, v.y], sc.Matrix([[v.e, v.f(v.x)]])),
        "llvm_ir": lambda v: (attempt(v.e.to_llvm_ir, [v.x, v.y]), attempt(sc.Matrix([[v.e]]).to_llvm_ir, [v.x, v.y])),
        "wild": lambda v: (sc.Expr.new_wild(fresh()), star(v.e)),
    }

    def evaluator(v):
        ev = sc.Expr.new_evaluator(fresh(), tuple)
        a, b = sc.Expr.new_wild(fresh("a")), sc.Expr.new_wild(fresh("b"))
        ev[Symbol[a]] = PyFunc1(lambda s: (s,))(a)
        ev[AtomRule[a]] = AtomFunc(lambda t: (t,))(a)
        ev[HeadRule(a, b)] = HeadOp(lambda h, args: (h, *args))(a, b)
        ev[v.g(a)] = PyOp1(lambda r: ("g", r))(a)
        ev[v.f(star(a))] = PyOpN(lambda r: ("f", *r))(a)
        return ev(v.e), ev

    def evaluator_fail(v):
        ev = Evaluator()

        def bad(*args):
            raise ValueError(args)

        ev.add_atom_generic(lambda t: t)
        ev.add_opn(v.f.rep, bad)
        fails(ev, v.f.rep(v.e.rep))
        fails(ev.eval_recursive, v.f.rep(v.e.rep), {})

    def bad_rules(v):
        ev = sc.Expr.new_evaluator(fresh(), tuple)
        a, b = sc.Expr.new_wild(fresh("a")), sc.Expr.new_wild(fresh("b"))

        def register(p, c):
            ev[p] = c

        fails(register, v.f(a), PyOp1(float)(b))
        fails(register, v.f(a), v.e)
        fails(register, v.f(a), PyOpN(float)(a))

    def differentiator(v):
        d = SymDifferentiator(sc.Expr, add=sc.Add, mul=sc.Mul, zero=sc.zero, one=sc.one)
        a, b = sc.Expr.new_wild(fresh("a")), sc.Expr.new_wild(fresh("b"))
        d[v.f(a, b), a] = v.g(b) * a
        d[v.f(a, b), b] = b
        d[v.g(a), a] = v.f(a, a)
        d.add_distributive_rule(Function(fresh()))
        return d(v.f(v.g(v.x), v.g(v.x)), v.x), attempt(d, v.e, v.x)

    def core_diff(v):
        p = DiffProperties(zero=sc.zero.rep, one=sc.one.rep, add=v.f.rep, mul=v.g.rep)
        return attempt(diff_forward, v.f.rep(v.e.rep, v.g.rep(v.x.rep, v.x.rep)), v.x.rep, p)

    def transformer(v):
        t = Transformer()
        t.add_op1(v.g.rep, lambda a: v.f.rep(a, a))
        return t(v.e.rep), t(v.e.rep, {v.x.rep: v.y.rep})

    def subclass(v):
        class Mine(Sym):
            pass

        return Mine(v.e.rep), Mine.new_atom(fresh(), str)(fresh())

    # objects that the user goes on holding
    held_ev, held_tr = Evaluator(), Transformer()
    held_ev.add_atom_generic(repr)
    held_ev.add_op_generic(lambda h, args: (h is not None, *args))
    held_ev.add_op1(sc.sin.rep, lambda a: ("sin", a))
    held_tr.add_op1(sc.sin.rep, lambda a: sc.cos.rep(a))
    held_sym = sc.Expr.new_evaluator("held", str)
    wa, wb = sc.Expr.new_wild("held_a"), sc.Expr.new_wild("held_b")
    held_sym[AtomRule[wa]] = AtomFunc(str)(wa)
    held_sym[HeadRule(wa, wb)] = HeadOp(lambda h, args: ",".join(args))(wa, wb)
    held_sym[sc.sin(wa)] = PyOp1(lambda s: "sin" + s)(wa)
    held_f = Function("held_f")
    held_d = SymDifferentiator(sc.Expr, add=sc.Add, mul=sc.Mul, zero=sc.zero, one=sc.one)
    held_d[held_f(wa, wb), wa] = wb * wa
    held_d[held_f(wa, wb), wb] = held_f(wb, wa)
    held_d[sc.sin(wa), wa] = sc.cos(wa)
    held_fn = (sc.x + sc.sin(sc.y)).as_function(sc.x, sc.y)
    held_subs = SubsFunc((sc.x + sc.sin(sc.y)).rep, [sc.sin.rep, sc.x.rep])
    held_m = sc.Matrix([[sc.x, 0], [1, sc.y]])
    from protosym.simplecas.expr import bin_expand, count_ops_tree, diff, eval_f64, eval_latex, eval_repr
    from protosym.simplecas.sympy_conversions import eval_to_sympy

    def held_differentiator(v):
        u = held_f(v.x * v.e, v.x)
        return [attempt(held_d, u, v.x, n) for n in (0, 1, 2)], attempt(held_d, v.e, v.x, 2), attempt(held_d, v.f(v.x), v.x), attempt(held_d, u, u)

    def held_functions(v):
        return [
            held_fn(v.x, v.e), held_fn(v.e, 3), held_fn.call([v.x.rep, v.e.rep]), held_subs(v.f.rep, v.e.rep), held_subs.call((v.e.rep, v.x.rep)),
            attempt(held_fn, v.e), attempt(held_fn, v.e, "a"), attempt(held_subs, v.e.rep), attempt(held_subs, v.e, 1), attempt(held_subs.call, [v.e.rep] * 2),
        ]  # fmt: skip

    def held_matrix(v):
        other = sc.Matrix([[v.e, v.x], [v.y, 0]])
        return [held_m + other, other + held_m, held_m.binop(other, v.f), held_m.diff(v.x), attempt(other.diff, v.x), attempt(held_m.__add__, v.e)]

    def held_evaluator(v):
        u = v.f.rep(v.e.rep, sc.sin.rep(v.x.rep))
        return [
            held_ev(u), held_ev(u, {v.x.rep: 1}), held_ev.eval_recursive(u, {}), held_ev.eval_recursive(u, {v.e.rep: 1}), held_ev.eval_forward(u, {u: 1}),
            held_ev.evaluate(v.x.rep, {}), attempt(lambda: held_ev.eval_atom(v.x.rep)), attempt(lambda: held_ev.eval_operation(v.f.rep, [v.e, v.x])),
            held_tr(u), held_tr(u, {v.e.rep: v.x.rep}), held_tr.eval_recursive(u, {}), attempt(lambda: held_tr.eval_operation(v.f.rep, [v.x.rep])),
            held_sym(v.f(v.e, v.x)), held_sym(v.f(v.e, v.x), {v.x: "1"}), held_sym(v.e, {v.e: "2"}), held_sym(v.x), held_sym(sc.sin(v.x), {v.y: "y"}),
        ]  # fmt: skip

    def globals_(v):
        evs = (eval_repr, eval_latex, count_ops_tree, eval_f64, eval_to_sympy)
        return [
            *(attempt(ev, v.e) for ev in evs), *(attempt(ev, v.e, {v.x: 1}) for ev in evs), *(attempt(ev, v.e + v.x, {v.e: 0.5, v.x: 1.5}) for ev in evs),
            *(attempt(ev, v.x) for ev in evs), *(attempt(ev.evaluator.eval_recursive, v.e.rep, {}) for ev in evs), *(attempt(ev, v.f(v.e, v.f)) for ev in evs),
            bin_expand(v.e.rep), bin_expand(v.e.rep, {v.x.rep: v.y.rep}), bin_expand.eval_recursive(v.e.rep, {}), bin_expand(v.f.rep()), attempt(diff, v.e, v.x, 2),
            attempt(diff, v.e, v.e), attempt(diff, v.e, v.x, 0), sc.expressify(v.e), v.f(), v.f()(v.x), v.x(), type(v.e)(v.e.rep),
        ]  # fmt: skip

    ops.update(
        held_differentiator=held_differentiator, held_functions=held_functions, held_matrix=held_matrix, held_evaluator=held_evaluator, globals=globals_,
        evaluator=evaluator, evaluator_fail=evaluator_fail, bad_rules=bad_rules, differentiator=differentiator, core_diff=core_diff, transformer=transformer,
        subclass=subclass,
    )  # fmt: skip
    OPS.update(ops)

    class Value:
        """A value of a user's own atom type."""

    class EqValue:
        def __init__(self, n):
            self.n = n

        def __eq__(self, other):
            return isinstance(other, EqValue) and self.n == other.n

        def __hash__(self):
            return 1

    VALUE = AtomType("Value", object)

    def special(kind, n):
        """Histories that are not made of the operations above."""
        if kind == "deep":
            e = sc.sin(Symbol(fresh()))
            for _ in range(n):
                e = sc.cos(e)
            return [e.count_ops_graph(), e.diff(Symbol(fresh()))]
        if kind == "double":
            e = Symbol(fresh())
            for _ in range(n):
                e = e + e
            return [e.diff(e), e.count_ops_tree()]
        if kind == "wide":
            s = Symbol(fresh())
            return [sc.Add(*[s + i for i in range(n)]).count_ops_tree()]
        if kind == "values":
            vals = [Value() for _ in range(n)] + [EqValue(i) for i in range(n)]
            refs = [weakref.ref(v) for v in vals]
            trees = [Tr(VALUE(v)) for v in vals]
            if trees:
                big = trees[0](*trees)
                topological_sort(big)
            return refs
        if kind == "cycle":
            vals = [Value() for _ in range(n)]
            for i, v in enumerate(vals):
                v.expr = Tr(VALUE(vals[i - 1]))
                v.sym = sc.Expr(v.expr)
            return [weakref.ref(v) for v in vals]
        if kind == "quote":
            e = sc.sin(Symbol(fresh()))
            for _ in range(n):
                e = sc.Expr(Tr(VALUE(e))) + e
            return [e.count_ops_tree(), repr(e) if n < 8 else None]
        if kind == "plain":
            # small integers and short names, each for the first time after the freeze
            _counter[0] += 1
            if special.first:
                values = [10**6 + n, "first"]
            else:
                values = [*range(-100 * n - 100, -100 * n), *range(100 * n, 100 * n + 100), 2**n, -(2**n), 10**n, 2 ** (8 * n) - 1]
                values += [chr(97 + n) + c for c in " abcdefghijklmnopqrstuvwxyz0123456789_"] + [chr(97 + n), chr(65 + n), "_" * n, "x" * n]
            for v in values:
                if isinstance(v, int):
                    i = Integer(v)
                    sc.expressify(v)
                    e = sc.x + v
                    (e * e, e.diff(sc.x), e.eval_f64({sc.x: 1.0}), sc.Matrix([[v, 0]]) + sc.Matrix([[v, v]]), e.to_sympy(), sc.Expr.from_sympy(sympy.Integer(v)))
                else:
                    i = Symbol(v)
                    e = Function(v)(i) + Function(v)()
                    e = (repr(e), e.eval_latex(), e.to_sympy(), sc.Expr.new_wild(v), sc.Expr.from_sympy(sympy.Symbol(v)))
                i = e = None
            return []
        if kind == "rebuild":
            names = [fresh() for _ in range(3)]
            for _ in range(n):
                e = sc.sin(Symbol(names[0]) + Symbol(names[1])) * Function(names[2])(Symbol(names[0]))
                repr(e)
                e = None
            return []
        if kind == "keep":
            # dropping a whole keeps the parts that are still held
            s, t = Symbol(fresh()), Symbol(fresh())
            part = s * t
            whole = [sc.sin(part) + i for i in range(n)]
            del whole
            gc.collect()
            if s * t is not part or part.args != (s, t):
                raise Violation("a part that is still held was lost", n=n)
            return []
        raise ValueError(kind)

    global ENV, SPECIAL
    ENV, SPECIAL = Env, special


TRIPLE = ["repr", "latex", "tree", "f64", "f64_fail", "diff", "diff_fail", "binexp", "xreplace", "function_call", "function_fail", "operators",
          "operators_fail", "malformed", "matrix_ops", "sympy_back", "lambdify_fail", "evaluator", "evaluator_fail", "differentiator", "transformer",
          "subclass", "topo", "args"]  # fmt: skip
SLOW = ("lambdify", "lambdify_matrix")
# Their results are functions and tables, which may hold what they are made of.
FUNCTIONS = ("function", "evaluator", "differentiator", "hold")


def cases(tier):
    for shape in SHAPES:
        yield [[], shape]
        for o in OPS:
            yield [[o], shape]
            yield [[o], shape, "constants"]
    for p in product(OPS, repeat=2):
        if tier == "thorough" or not any(o in SLOW for o in p):
            for shape in SHAPES:
                yield [list(p), shape]
    if tier == "thorough":
        for p in product(TRIPLE, repeat=3):
            yield [list(p), "arith"]
            yield [list(p), "calls"]
    for o in OPS:
        if o not in FUNCTIONS:
            for shape in SHAPES:
                yield ["result", o, shape]
    big = 2 if tier == "thorough" else 1
    for n in [*range(20), 100, 500, 900, 1100, 1500 * big, 3000 * big]:
        yield ["deep", n]
    for n in [*range(0, 30), 60, 100, 200 * big]:
        yield ["double", n]
        yield ["wide", n]
    for kind in ("values", "cycle", "quote", "rebuild", "keep", "plain"):
        for n in range(12 * big):
            yield [kind, n]


def left():
    """Expression objects made since the last freeze that are still there."""
    return [o for o in gc.get_objects() if isinstance(o, KINDS)]


def run_history(names, shape, constants):
    env = ENV(shape, constants)
    keep = [OPS[n](env) for n in names]
    parts = [] if constants else [weakref.ref(o) for p in (env.x, env.y, env.f, env.g, env.n, env.e) for o in (p, p.rep)]
    del keep, env
    return parts


def parts_of(result):
    """The expressions that a result shows, and their parts."""
    todo, seen = [result], {}
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen[id(o)] = o
        if isinstance(o, (list, tuple, set, frozenset)):
            todo += o
        elif isinstance(o, dict):
            todo += [*o.keys(), *o.values()]
        elif type(o).__name__ == "ForwardGraph":
            todo += [o.atoms, o.heads, o.operations]
        elif hasattr(o, "tolist"):
            todo += [o.tolist()]
        elif hasattr(o, "rep"):
            todo.append(o.rep)
        elif hasattr(o, "children"):
            todo += [*o.children, o.value] if not o.children else o.children
    return seen


def check_result(o, shape, rec):
    """A result that is held keeps its own parts and nothing else."""
    OPS[o](ENV(shape))
    gc.collect()
    gc.freeze()
    result = OPS[o](ENV(shape))
    gc.collect()
    allowed = parts_of(result)

    def ours(v):
        if id(v) in allowed:
            return True
        if hasattr(v, "rep"):
            return ours(v.rep)
        # the list of the entries of a matrix
        return bool(getattr(v, "children", ())) and str(v.children[0]) == "List" and all(id(c) in allowed for c in v.children[1:])

    over = [v for v in left() if not ours(v)]
    if over:
        raise Violation(f"the result of {o} keeps {len(over)} objects that are not part of it", shape=shape, left=[type(v).__name__ + " " + repr(v)[:80] for v in over[:5]])
    rec.add("states")
    rec.add("transitions", 2)
    rec.add("traces_validated_against_impl")
    rec.outcome(["result", o, shape])


def check_case(case, rec):
    if case[0] == "result":
        gc.disable()
        return check_result(case[1], case[2], rec)
    if isinstance(case[0], list):
        names, shape = case[:2]

        def run():
            return run_history(names, shape, len(case) == 3 and not SPECIAL.first)
    else:
        kind, n = case

        def run():
            return SPECIAL(kind, n)

    gc.disable()
    SPECIAL.first = True
    parts = run()
    SPECIAL.first = False
    gc.collect()
    parts = [r() for r in parts if isinstance(r, weakref.ref) and r() is not None]
    if parts and isinstance(case[0], list):
        raise Violation("parts of the user's expression are still alive", left=[repr(p) for p in parts])
    del parts
    gc.freeze()
    # Something made here and held must be seen (the monitor works).
    probe = ENV("atom").x
    if not any(o is probe for o in left()):
        raise AssertionError("the monitor does not see a live expression")
    probe = None
    refs = run()
    gc.collect()
    over = left()
    if over:
        what = [type(o).__name__ + " " + str(o)[:60] for o in over[:5]]
        holders = [type(h).__name__ + " " + repr(h)[:120] for h in gc.get_referrers(over[-1]) if h is not over][:4]
        # Known: the key of the store holds the value, which here holds the atom.
        signature = "value-refers-back" if case[0] == "cycle" else None
        rec.fail(f"{len(over)} objects are still alive", signature=signature, left=what, held_by=holders)
        rec.add("known_finding_cases")
        return
    alive = [r for r in refs if isinstance(r, weakref.ref) and r() is not None]
    if alive:
        raise Violation("expressions or values of atoms are still alive", left=[repr(r()) for r in alive[:3]])
    rec.add("states")
    rec.add("transitions", 2 * (len(case[0]) if isinstance(case[0], list) else 1))
    rec.add("traces_validated_against_impl")
    rec.outcome(case)
    if rec.counts["states"] % 97 == 0:
        rec.sample(case)
