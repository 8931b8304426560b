"""C22: errors and interrupts leave everything usable."""
import ctypes
import gc
import os
import sys
import threading
from itertools import product

from mc import terms as T
from mc.framework import SRC, Rec, Violation, forked

LEVEL = "fault_enumeration"
INTERRUPTS = True
RULE = (
    "evaluations: runs of an operation on the real code with a fault at one enumerated point (k-th call of a user's rule, k-th hash/comparison/display of a "
    "user's value, missing rule, refused call, interrupt at the k-th place where CPython can deliver one), each followed by the audit: the very same exception "
    "reached the caller, a second run gives the undisturbed result (from another thread after an interrupt), every live object is the one its parts build, "
    "the global evaluators answer as before; distinct_nontrivial: (operation, fault point) pairs at which the fault was really delivered"
)
ASSUMPTIONS = [
    "interrupts are delivered by CPython 3.12's own mechanism (asynchronous exceptions, checked at the same places as signals) in frames of protosym and of "
    "weakref.py and what these call; an interrupt that CPython delivers in a weak reference callback is ignored by CPython and only the audit applies",
    "an interrupted registration may have taken place or not",
    "an interrupt inside SymPy, NumPy or LLVM is not enumerated",
]
OPS = {}
ERRORS = {}
PACKAGE = os.path.join(SRC, "protosym") + os.sep


class Stop(KeyboardInterrupt):
    """The interrupt that is delivered."""


class Custom(Exception):
    pass


class CustomBase(BaseException):
    pass


def bounds(tier):
    big = tier == "thorough"
    return (
        f"rules: every expression of <= {3 if big else 2} compounds over 3 atoms, 5 kinds of evaluator, 2 strategies, every call index, 14 exception types, "
        f"{'all pairs of faults, ' if big else ''}then recovery; user values: every call index of hash, equality and display in {8} operations; refused calls: all "
        f"{'triples' if big else 'pairs'} of {len(ERRORS) or 30}; interrupts: every delivery point of {len(OPS) or 60} operations on new and on existing expressions, and of the first use of {len(COLD)} of them in a process"
        + ("; all pairs of interrupts for operations with <= 130 points" if big else "")
    )


# ------------------------------------------------------------ interrupts


def points_of(code, memo={}):  # noqa: B006
    """Offsets at or in which an interrupt can be delivered."""
    p = memo.get(code)
    if p is None:
        import dis

        names = ("CALL", "CALL_FUNCTION_EX", "JUMP_BACKWARD")
        p = memo[code] = frozenset(i.offset for i in dis.get_instructions(code) if i.opname in names)
    return p


def traced_file(name, memo={}):  # noqa: B006
    r = memo.get(name)
    if r is None:
        r = memo[name] = name.startswith(PACKAGE) or os.path.basename(name) == "weakref.py"
    return r


class Ignored:
    """Exceptions that CPython had to ignore (in callbacks)."""

    count = 0

    @classmethod
    def hook(cls, info):
        cls.count += 1


class Trigger:
    """Evaluating trigger.fire in a trace function leaves the exception pending.

    It is delivered at the next place that checks for it.
    """

    fire = property(
        ctypes.PYFUNCTYPE(ctypes.c_int, ctypes.c_ulong, ctypes.py_object)(
            ("PyThreadState_SetAsyncExc", ctypes.pythonapi), ((1, "id"), (1, "exc", Stop))
        )
    )

    def __init__(self, ident):
        self._as_parameter_ = ident


class Tracer:
    """Counts the points of one run and makes one of them fire."""

    def __init__(self, k):
        self.k = k
        self.points = self.opcodes = 0
        self.fired = False
        self.log = []
        self.trigger = Trigger(threading.get_ident())

    def point(self, call):
        self.points += 1
        if not self.k:
            self.log.append(2 * self.opcodes + call)
        if self.points == self.k:
            sys.settrace(None)
            self.fired = True

    def local(self, frame, event, arg):
        if event == "opcode":
            self.opcodes += 1
            if frame.f_lasti in points_of(frame.f_code):
                self.point(0)
                if self.fired:
                    return self.trigger.fire
        return self.local

    def start(self, frame, event, arg):
        if not traced_file(frame.f_code.co_filename):
            return None
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
        self.point(1)
        if self.fired:
            return self.trigger.fire
        return self.local

    def different(self):
        """Numbers of the points with different places of delivery."""
        log = self.log
        # A call of a traced function has its point at the start of that.
        same = {i for i in range(1, len(log)) if log[i] & 1 and log[i] - 1 == log[i - 1]}
        return [i for i in range(1, len(log) + 1) if i not in same]


def interrupted(fn, k):
    """Run fn in a new thread with an interrupt at point k (none if k is 0).

    Returns (outcome, value, points, fired)
    """
    box = []

    def work():
        tracer = Tracer(k)
        result = None
        try:
            try:
                sys.settrace(tracer.start)
                value = fn()
            finally:
                sys.settrace(None)
            for _ in range(5):
                pass
            result = ("ok", value)
        except Stop:
            result = ("stop", None)
        except BaseException as e:  # noqa
            result = ("other", f"{type(e).__name__}: {e}")
        box.append((*result, tracer.different(), tracer.fired))

    t = threading.Thread(target=work, daemon=True)
    t.start()
    t.join(60)
    if t.is_alive():
        raise Violation("the interrupted operation does not end")
    return box.pop()


def elsewhere(fn, what):
    """Run fn in another thread: a lock left held blocks it."""
    box = []

    def work():
        try:
            box.append((True, fn()))
        except BaseException as e:  # noqa
            box.append((False, f"{type(e).__name__}: {e}"))

    t = threading.Thread(target=work, daemon=True)
    t.start()
    t.join(20)
    if t.is_alive():
        raise Violation(f"{what} blocks")
    ok, value = box.pop()
    if not ok:
        raise Violation(f"{what} fails with {value}")
    return value


# ------------------------------------------------------------ prepare


def prepare(tier, cold=False):
    import llvmlite.binding  # noqa
    import numpy
    import sympy

    import protosym.simplecas as sc
    import protosym.simplecas.lambdification as lam  # noqa
    import protosym.simplecas.sympy_conversions  # noqa
    from protosym.core.atom import Atom, AtomType
    from protosym.core.differentiate import DiffProperties, diff_forward
    from protosym.core.evaluate import Evaluator, Transformer
    from protosym.core.exceptions import BadRuleError, NoEvaluationRuleError
    from protosym.core.sym import AtomFunc, AtomRule, HeadOp, HeadRule, PyFunc1, PyOp1, PyOp2, PyOpN, Sym, SymDifferentiator, star
    from protosym.core.tree import ForwardGraph, SubsFunc, Tr, Tree, forward_graph, funcs_symbols, topological_sort, topological_split
    from protosym.simplecas.expr import ExprFunction

    g = globals()
    g.update(
        sc=sc, sympy=sympy, Atom=Atom, AtomType=AtomType, Tree=Tree, Tr=Tr, Sym=Sym, Evaluator=Evaluator, Transformer=Transformer, SubsFunc=SubsFunc,
        NoEvaluationRuleError=NoEvaluationRuleError, BadRuleError=BadRuleError, AtomFunc=AtomFunc, AtomRule=AtomRule, HeadOp=HeadOp, HeadRule=HeadRule,
        SymDifferentiator=SymDifferentiator, PyFunc1=PyFunc1, PyOp1=PyOp1, PyOp2=PyOp2, PyOpN=PyOpN, star=star, topological_sort=topological_sort,
    )  # fmt: skip

    def canon(v, memo=None):
        """Comparable form of a result, without any object of the library."""
        memo = {} if memo is None else memo
        if isinstance(v, Sym):
            return ("sym", type(v).__name__, canon(v.rep, memo))
        if isinstance(v, Tree):
            if id(v) not in memo:
                memo[id(v)] = (
                    ("tree", *(canon(c, memo) for c in v.children)) if v.children else ("atom", v.value.atom_type.name, repr(v.value.value))
                )
            return memo[id(v)]
        if isinstance(v, Atom):
            return ("atom", v.atom_type.name, repr(v.value))
        if isinstance(v, sc.Matrix):
            return ("matrix", v.shape, canon(v.tolist()), repr(v))
        if isinstance(v, ForwardGraph):
            return ("graph", canon(v.atoms), canon(v.heads), canon(v.operations))
        if isinstance(v, (list, tuple)):
            return ("seq", *(canon(i, memo) for i in v))
        if isinstance(v, (set, frozenset)):
            return ("set", *sorted(repr(canon(i, memo)) for i in v))
        if isinstance(v, numpy.ndarray):
            return ("array", v.tolist())
        if isinstance(v, sympy.Basic):
            return ("sympy", sympy.srepr(v))
        if isinstance(v, sympy.MatrixBase):
            return ("sympy matrix", sympy.srepr(v))
        if isinstance(v, (str, int, float, type(None), bool)):
            return v
        return type(v).__name__

    g["canon"] = canon
    Integer, Symbol, Function = sc.Integer, sc.Symbol, sc.Function
    BOX = AtomType("Box", object)

    class Mine(Sym):
        pass

    class Env:
        """Fresh parts.  The names are new in this process."""

        def __init__(self):
            self.x, self.y = Symbol("c22x"), Symbol("c22y")
            self.f, self.g = Function("c22f"), Function("c22g")
            self.n = Integer(220022)
            self.fx = self.f(self.x)
            self.e = sc.sin(self.x * self.y + self.n) ** 2 - sc.cos(self.x)
            self.v = {self.x: 0.5, self.y: 0.25}

    def op(name, fn, setup=None, observe=None):
        OPS[name] = (setup, fn, observe)

    # constructors
    op("atom", lambda v: sc.Symbol.atom_type("c22new"))
    op("atom_box", lambda v: BOX((1, "c22")))
    op("tr", lambda v: Tr(v.a), lambda v: setattr(v, "a", BOX("c22tr")))
    op("tree", lambda v: Tree(v.f.rep, v.y.rep))
    op("tree_call", lambda v: v.g.rep(v.x.rep, v.y.rep, v.x.rep))
    op("expr", lambda v: sc.Expr(v.t), lambda v: setattr(v, "t", v.f.rep(v.n.rep)))
    op("sym", lambda v: Mine(v.e.rep))
    op("symbol", lambda v: Symbol("c22new"))
    op("integer", lambda v: Integer(22002200))
    op("function", lambda v: Function("c22new")(v.x))
    op("new_atom", lambda v: canon(Mine.new_atom("c22", str)("c22")))
    op("wild", lambda v: sc.Expr.new_wild("c22wild"))
    op("call", lambda v: v.f(v.x, 3, v.fx))
    op("head_args", lambda v: (v.e.head, v.e.args))
    op("funcs_symbols", lambda v: canon(funcs_symbols(["c22a", "c22b"], ["c22c"])))
    # operators
    op("add", lambda v: v.x + v.fx)
    op("radd", lambda v: 5022 + v.x)
    op("sub", lambda v: v.y - v.x)
    op("rsub", lambda v: 5022 - v.x)
    op("mul", lambda v: v.y * v.x)
    op("div", lambda v: v.y / v.x)
    op("rdiv", lambda v: 5022 / v.x)
    op("pow", lambda v: v.y**v.x)
    op("rpow", lambda v: 5022**v.x)
    op("neg", lambda v: -v.fx)
    # traversal and evaluation
    op("topo", lambda v: topological_sort(v.e.rep))
    op("topo_heads", lambda v: topological_sort(v.e.rep, heads=True, exclude={v.y.rep}))
    op("split", lambda v: topological_split(v.e.rep))
    op("fgraph", lambda v: forward_graph(v.e.rep))
    op("repr", lambda v: repr(v.e))
    op("tree_repr", lambda v: (repr(v.e.rep), str(v.e.rep)))
    op("latex", lambda v: v.e._repr_latex_())
    op("f64", lambda v: v.e.eval_f64(v.v))
    op("count", lambda v: (v.e.count_ops_graph(), v.e.count_ops_tree()))

    def core_evaluator(v):
        ev = v.ev = Evaluator()
        ev.add_atom(Integer.atom_type, float)
        ev.add_atom_generic(lambda t: 2.5)
        ev.add_op1(sc.sin.rep, lambda a: ("sin", a))
        ev.add_op2(sc.Pow.rep, lambda a, b: ("pow", a, b))
        ev.add_opn(sc.Add.rep, lambda args: ("add", *args))
        ev.add_op_generic(lambda h, args: (str(h), *args))

    op("core_forward", lambda v: v.ev(v.fx.rep(v.e.rep)), core_evaluator)
    op("core_recursive", lambda v: v.ev.eval_recursive(v.fx.rep(v.e.rep), {v.x.rep: 1.5}), core_evaluator)
    op("core_values", lambda v: v.ev(v.f.rep(v.x.rep, v.y.rep), {v.x.rep: 1.5}), core_evaluator)
    op("new_evaluator", lambda v: core_evaluator(v) or v.ev(v.fx.rep))

    def transformer(v):
        v.tr = Transformer()
        v.tr.add_opn(sc.Add.rep, lambda args: v.g.rep(*args))

    op("transform", lambda v: v.tr(v.e.rep), transformer)
    op("binexp", lambda v: v.big.bin_expand(), lambda v: setattr(v, "big", sc.Add(v.x, v.y, sc.Mul(v.x, v.y, v.n), v.n)))
    # substitution
    op("xreplace", lambda v: v.e.xreplace({v.x: v.fx, v.y: 7}))
    op("as_function", lambda v: v.e.as_function(v.x, v.y)(v.fx, 4))
    op("function_call", lambda v: v.fn(v.fx, 4), lambda v: setattr(v, "fn", v.e.as_function(v.x, v.y)))
    op("subs", lambda v: SubsFunc(v.e.rep, [v.x.rep, sc.Pow.rep])(v.y.rep, v.f.rep))
    op("subs_call", lambda v: v.fn(v.y.rep, v.f.rep), lambda v: setattr(v, "fn", SubsFunc(v.e.rep, [v.x.rep, sc.Pow.rep])))
    # differentiation
    op("diff", lambda v: v.e.diff(v.x))
    op("diff2", lambda v: sc.sin(v.x * v.x).diff(v.x, 2))
    op("core_diff", lambda v: diff_forward(v.d.rep, v.x.rep, v.p), lambda v: (
        setattr(v, "d", sc.Mul(v.x, v.x, v.y) + v.x),
        setattr(v, "p", DiffProperties(zero=sc.zero.rep, one=sc.one.rep, add=sc.Add.rep, mul=sc.Mul.rep)),
    ))  # fmt: skip

    def differentiator(v):
        d = v.diff = SymDifferentiator(sc.Expr, add=sc.Add, mul=sc.Mul, zero=sc.zero, one=sc.one)
        v.wa, v.wb = sc.Expr.new_wild("c22wa"), sc.Expr.new_wild("c22wb")
        d[v.f(v.wa), v.wa] = v.g(v.wa)

    op("diff_rules", lambda v: v.diff(v.f(v.f(v.x) * v.x), v.x, 1), differentiator)

    def register_diff(v):
        v.diff[v.f(v.wa), v.wa] = v.wa * v.g(v.wa)

    op("register_diff", register_diff, differentiator, lambda v: v.diff(v.f(v.x), v.x))

    def register_diff2(v):
        v.diff[v.g(v.wa, v.wb), v.wb] = v.wa**v.wb

    op("register_diff2", register_diff2, differentiator, lambda v: attempt(lambda: v.diff(v.g(v.x, v.y), v.y)))
    op("distributive", lambda v: v.diff.add_distributive_rule(v.f), differentiator, lambda v: v.diff(v.f(v.x), v.x))
    op("new_differentiator", lambda v: differentiator(v) or v.diff(v.f(v.x), v.x))

    def sym_evaluator(v):
        ev = v.ev = sc.Expr.new_evaluator("c22ev", tuple)
        v.wa, v.wb = sc.Expr.new_wild("c22wa"), sc.Expr.new_wild("c22wb")
        ev[Symbol[v.wa]] = PyFunc1(lambda s: (s,))(v.wa)
        ev[AtomRule[v.wa]] = AtomFunc(lambda t: ("atom", str(t)))(v.wa)
        ev[HeadRule(v.wa, v.wb)] = HeadOp(lambda h, args: (str(h), *args))(v.wa, v.wb)
        ev[v.f(v.wa)] = PyOp1(lambda r: ("f", r))(v.wa)
        ev[v.g(star(v.wa))] = PyOpN(lambda r: ("g", *r))(v.wa)

    seen = lambda v: v.ev(v.f(v.g(v.x, v.n)) + v.x)  # noqa: E731
    op("sym_evaluator", seen, sym_evaluator)
    op("sym_values", lambda v: v.ev(v.f(v.e) + v.x, {v.e: (1,), v.x: ()}), sym_evaluator)

    def setter(pattern, call):
        def register(v):
            v.ev[pattern(v)] = call(v)

        return register

    for name, pattern, call in [
        ("op1", lambda v: v.f(v.wa), lambda v: PyOp1(lambda r: ("new", r))(v.wa)),
        ("op2", lambda v: v.wa + v.wb, lambda v: PyOp2(lambda r, s: ("new", r, s))(v.wa, v.wb)),
        ("opn", lambda v: v.g(star(v.wa)), lambda v: PyOpN(lambda r: ("new", *r))(v.wa)),
        ("atomtype", lambda v: Symbol[v.wa], lambda v: PyFunc1(lambda s: ("new", s))(v.wa)),
        ("atoms", lambda v: AtomRule[v.wa], lambda v: AtomFunc(lambda s: ("new", str(s)))(v.wa)),
        ("heads", lambda v: HeadRule(v.wa, v.wb), lambda v: HeadOp(lambda h, args: ("new", str(h), *args))(v.wa, v.wb)),
    ]:
        op("register_" + name, setter(pattern, call), sym_evaluator, seen)
    core_seen = lambda v: v.ev(sc.sin(v.x + v.n).rep)  # noqa: E731
    op("core_register", lambda v: v.ev.add_op1(sc.sin.rep, lambda a: ("new", a)), core_evaluator, core_seen)
    op("core_register_atom", lambda v: v.ev.add_atom(Symbol.atom_type, len), core_evaluator, core_seen)
    op("core_register_generic", lambda v: v.ev.add_op_generic(lambda h, a: ("new", *a)), core_evaluator, lambda v: v.ev(v.fx.rep))
    # matrices

    def matrices(v):
        v.m = sc.Matrix([[v.x, 0], [sc.sin(v.x), v.y]])
        v.k = sc.Matrix([[v.y, 3], [0, 1]])

    op("matrix", lambda v: sc.Matrix([[v.x, 0], [v.y + v.x, 1]]))
    op("matrix_add", lambda v: v.m + v.k, matrices, lambda v: (v.m, v.k))
    op("matrix_binop", lambda v: v.m.binop(v.k, v.f), matrices, lambda v: (v.m, v.k))
    op("matrix_diff", lambda v: v.m.diff(v.x), matrices, lambda v: v.m)
    op("matrix_show", lambda v: (v.m[1, 0], v.m[0, 1], v.m.tolist(), repr(v.m)), matrices, lambda v: v.m)
    op("matrix_sympy", lambda v: v.m.to_sympy(), matrices, lambda v: v.m)
    op("matrix_back", lambda v: sc.Matrix.from_sympy(v.s), lambda v: matrices(v) or setattr(v, "s", v.m.to_sympy()))
    # conversions and compilation
    op("to_sympy", lambda v: v.e.to_sympy())
    op("to_sympy_undef", lambda v: v.f(v.x, sc.List(v.y)).to_sympy())
    op("from_sympy", lambda v: sc.Expr.from_sympy(v.s), lambda v: setattr(v, "s", (v.fx + v.e).to_sympy()))

    def forget(v):
        sys.modules.pop("protosym.simplecas.sympy_conversions", None)
        sc.__dict__.pop("sympy_conversions", None)

    op("import", lambda v: v.e.to_sympy(), forget)
    op("llvm_ir", lambda v: v.e.to_llvm_ir([v.x, v.y]))
    op("llvm_ir_matrix", lambda v: v.m.to_llvm_ir([v.y, v.x]), matrices)
    op("lambdify", lambda v: sc.lambdify([v.x, v.y], sc.sin(v.x) * v.y)(1.5, 2.0))
    op("lambdify_matrix", lambda v: sc.lambdify([v.x, v.y], v.m)(1.5, 2.0), matrices)
    op("lambdify_call", lambda v: v.c(1.5, 2.0), lambda v: matrices(v) or setattr(v, "c", sc.lambdify([v.x, v.y], v.m)))

    # refused calls

    def registering(pattern, call):
        def fn(v):
            sym_evaluator(v)
            v.ev[pattern(v)] = call(v)

        return fn

    def bad_diff(v):
        differentiator(v)
        v.diff[v.f(v.wa, v.wa), v.wa] = v.wa

    ERRORS.update(
        tree_empty=lambda v: Tree(),
        tree_bad=lambda v: Tree(v.f.rep, 1),
        tree_bad_call=lambda v: v.f.rep(v.x.rep, v.x),
        tr_bad=lambda v: Tr(v.x.rep),
        expr_bad=lambda v: sc.Expr(1),
        call_bad=lambda v: v.f(v.x, "a"),
        add_bad=lambda v: v.x + "a",
        radd_bad=lambda v: None - v.x,
        pow_bad=lambda v: v.x**1.5,
        unhashable=lambda v: BOX([]),
        unhashable_symbol=lambda v: Symbol([1]),
        f64_symbol=lambda v: v.e.eval_f64(),
        f64_head=lambda v: v.f(v.n).eval_f64(),
        f64_domain=lambda v: (sc.zero ** (-1 * sc.one)).eval_f64(),
        f64_overflow=lambda v: sc.Integer(10**400).eval_f64(),
        f64_value=lambda v: sc.sin(v.x).eval_f64({v.x: "a"}),
        core_missing=lambda v: Evaluator()(v.e.rep),
        core_missing_recursive=lambda v: Evaluator().eval_recursive(v.e.rep, {}),
        rule_mismatch=registering(lambda v: v.f(v.wa), lambda v: PyOp1(float)(v.wb)),
        rule_star=registering(lambda v: v.f(v.wa), lambda v: PyOpN(float)(v.wa)),
        rule_call=registering(lambda v: v.f(v.wa), lambda v: float),
        rule_kind=registering(lambda v: AtomRule[v.wa], lambda v: PyOp1(float)(v.wa)),
        diff_rule=bad_diff,
        diff_missing=lambda v: v.f(v.x).diff(v.x),
        diff_missing2=lambda v: v.f(v.x, v.y).diff(v.x),
        diff_missing3=lambda v: sc.Add(v.y, sc.sin(v.g(v.y, v.f(v.x))), v.x).diff(v.x, 2),
        diff_missing_exponent=lambda v: (v.x**v.x).diff(v.x),
        function_few=lambda v: v.e.as_function(v.x, v.y)(v.x),
        function_bad=lambda v: v.e.as_function(v.x)("a"),
        as_function_bad=lambda v: v.e.as_function("a"),
        xreplace_bad=lambda v: v.e.xreplace({v.x: 1.5}),
        subs_many=lambda v: SubsFunc(v.e.rep, [v.x.rep])(v.x.rep, v.y.rep),
        subs_bad=lambda v: SubsFunc(v.e.rep, [v.x.rep])(1),
        matrix_rows=lambda v: sc.Matrix([[v.x], [v.y, 1]]),
        matrix_entry=lambda v: sc.Matrix([[v.x, "a"]]),
        matrix_shape=lambda v: sc.Matrix([[v.x]]) + sc.Matrix([[v.x, v.y]]),
        matrix_index=lambda v: sc.Matrix([[v.x]])[1, 0],
        matrix_diff=lambda v: sc.Matrix([[v.f(v.x), v.x]]).diff(v.x),
        sympy_refused=lambda v: v.f(v.x)(v.y).to_sympy(),
        sympy_back_refused=lambda v: sc.Expr.from_sympy(sympy.Symbol("c22x") + sympy.pi),
        lambdify_function=lambda v: sc.lambdify([v.x], v.f(v.x)),
        lambdify_symbol=lambda v: sc.lambdify([v.x], v.x + v.y),
        lambdify_matrix=lambda v: sc.lambdify([v.x], sc.Matrix([[v.x, v.f(v.x)]])),
        lambdify_call=lambda v: sc.lambdify([v.x, v.y], v.x + v.y)(1.0),
    )
    g.update(Env=Env, BOX=BOX, Mine=Mine)

    def probe():
        """What the global evaluators and constructors answer."""
        x, y = Symbol("x"), Symbol("c22probe")
        e = sc.sin(x * y + 2) ** 3 - sc.cos(x) / y
        if not (e is sc.sin(x * y + 2) ** 3 - sc.cos(x) / y):
            raise Violation("an expression built twice is two objects")
        d = e.diff(x)
        m = sc.Matrix([[e, 0], [x, d]])
        return canon([
            e, d, repr(e), e.eval_latex(), e.eval_f64({x: 0.5, y: 0.25}), e.count_ops_tree(), d.count_ops_graph(), sc.Add(x, y, d, e).bin_expand(),
            d.xreplace({x: y, y: x}), m + m, m.diff(x), sc.List(x, d).diff(y), topological_sort(d.rep, heads=True), d.to_sympy(),
        ])  # fmt: skip

    interrupted(lambda: Tree(sc.x.rep, sc.x.rep), 0)  # from now on every opcode is seen
    g["probe"] = probe
    if cold:
        return  # nothing has been used since the library was imported
    g["PROBE"] = probe()
    g["LLVM"] = ("lambdify", "lambdify_matrix", "lambdify_call")
    g["EXCEPTIONS"] = [
        KeyError("c22"), AttributeError("c22"), TypeError("c22"), IndexError("c22"), StopIteration("c22"), LookupError("c22"), ValueError("c22"),
        NoEvaluationRuleError("c22"), ZeroDivisionError("c22"), RecursionError("c22"), GeneratorExit("c22"), KeyboardInterrupt("c22"), Custom("c22"),
        CustomBase("c22"),
    ]  # fmt: skip


def attempt(fn):
    try:
        return fn()
    except Exception as e:  # noqa
        return f"{type(e).__name__}"


def census(what):
    """Every live object is the one that its parts build."""

    def wrong():
        for o in gc.get_objects():
            try:
                if isinstance(o, Sym):
                    again = type(o)(o.rep)
                elif isinstance(o, Tree):
                    again = Tree(*o.children) if o.children else Tr(o.value)
                elif isinstance(o, Atom):
                    again = o.atom_type(o.value)
                else:
                    continue
            except Exception as e:  # noqa
                return f"{type(o).__name__} that cannot be rebuilt ({type(e).__name__}: {e})"
            if again is not o:
                return f"two objects for {o!r}"
        return None

    if wrong():
        gc.collect()
        bad = wrong()
        if bad:
            raise Violation(f"after {what} there is a live {bad}")


def audit(what):
    census(what)
    if probe() != PROBE:
        raise Violation(f"after {what} other operations give other results", got=repr(probe())[:1500], want=repr(PROBE)[:1500])


# ------------------------------------------------------------ cases

# Operations for which nothing changes if their result exists already.
SAME = """topo topo_heads split fgraph repr tree_repr latex f64 count core_forward core_recursive core_values new_evaluator distributive sym_evaluator sym_values
register_op1 register_op2 register_opn register_atomtype register_atoms register_heads register_diff register_diff2 core_register core_register_atom
core_register_generic matrix_show matrix_sympy matrix_back to_sympy to_sympy_undef import llvm_ir llvm_ir_matrix lambdify lambdify_matrix lambdify_call
funcs_symbols new_atom""".split()


# Operations that the constructors of the parts do not use
COLD = """repr tree_repr latex f64 count binexp xreplace as_function subs diff diff2 core_diff diff_rules sym_evaluator new_evaluator transform
matrix_add matrix_diff matrix_show to_sympy to_sympy_undef from_sympy llvm_ir topo_heads fgraph funcs_symbols""".split()


def cases(tier):
    big = tier == "thorough"
    # long cases first
    if big:
        for name in OPS:
            if name not in LLVM:
                for r in range(8):
                    yield ["pairs", name, r, 8]
    for name in ["import", *(n for n in OPS if n != "import")]:
        m = 8 if name == "import" else 4 if big else 1
        for existing in (False, True):
            for r in range(m):
                if big or not existing or name not in SAME:
                    yield ["interrupt", name, existing, r, m]
    for name in COLD:
        for r in range(4):
            yield ["cold", name, r, 4 if big else 8 if name in ("import", "matrix_back", "from_sympy") else 4]
    n = 3 if big else 2
    for kind in RULES:
        for r in range(8):
            yield ["rule", kind, n, r, 8, big]
    for kind in ("hash", "eq", "show"):
        yield ["value", kind, 3 if big else 2]
    for first in ERRORS:
        yield ["errors", first, 3 if big else 2]
    yield ["reentrant"]
    for mask in range(8):
        yield ["diffrule", n, mask]


def check_case(case, rec):
    gc.disable()
    gc.collect()
    gc.freeze()
    sys.unraisablehook = Ignored.hook
    {"interrupt": check_interrupt, "cold": check_cold, "pairs": check_pairs, "rule": check_rule, "value": check_value, "errors": check_errors, "reentrant": check_reentrant, "diffrule": check_diffrule}[
        case[0]
    ](case, rec)


def undisturbed(name):
    setup, fn, observe = OPS[name]
    env = Env()
    if setup:
        setup(env)
    old = canon(observe(env)) if observe else None
    want = canon(fn(env))
    if canon(fn(env)) != want:
        raise AssertionError(f"{name} is not repeatable")
    new = canon(observe(env)) if observe else None
    return old, want, new


def make(name, existing):
    setup, fn, observe = OPS[name]
    env = Env()
    if setup:
        setup(env)
    held = fn(env) if existing else None
    return env, fn, observe, held


def recover(name, env, fn, observe, expected, what):
    old, want, new = expected
    if observe:
        got = elsewhere(lambda: canon(observe(env)), f"observing after {what}")
        if got not in (old, new):
            raise Violation(f"after {what} the objects involved are neither as before nor as after", got=got, before=old, after=new)
    first = elsewhere(lambda: fn(env), f"repeating the operation after {what}")
    if canon(first) != want:
        raise Violation(f"after {what} the operation gives another result", got=repr(canon(first))[:1500], want=repr(want)[:1500])
    second = fn(env)
    if isinstance(first, (Sym, Tree, Atom)) and first is not second:
        raise Violation(f"after {what} the operation gives two objects for one expression", expr=repr(first))
    if observe and canon(observe(env)) != new:
        raise Violation(f"after {what} and repeating the operation its effect is missing", got=canon(observe(env)), want=new)
    audit(what)


def fault(name, env, fn, k, what, rec):
    """One interrupt; returns whether it was delivered."""
    ignored = Ignored.count
    outcome, value, n, fired = interrupted(lambda: fn(env), k)
    if outcome == "other":
        raise Violation(f"{what}: the caller got {value} instead of the interrupt")
    if not fired:
        return None
    rec.add("evaluations")
    if outcome == "ok":
        if Ignored.count == ignored:
            raise Violation(f"{what}: the interrupt was swallowed")
        rec.add("ignored_by_cpython_in_callback")
        return False
    rec.add("distinct_nontrivial")
    return True


def check_interrupt(case, rec):
    _, name, existing, r, m = case
    expected = undisturbed(name)
    env, fn, _, held = make(name, existing)
    outcome, value, n, _ = interrupted(lambda: fn(env), 0)
    if outcome != "ok" or not n:
        raise AssertionError(f"{name}: {outcome} {value} with {n} points")
    del env, held, value
    rec.maximum("points_of_one_operation", len(n))
    for k in [*n, *range(n[-1] + 1, n[-1] + 10)][r::m]:
        env, fn, observe, held = make(name, existing)
        what = f"an interrupt at point {k} of {name}"
        if fault(name, env, fn, k, what, rec) is None:
            if k < n[-1] - 5 and name != "import":
                raise AssertionError(f"point {k} of {n[-1]} was not reached in {name}")
            break
        recover(name, env, fn, observe, expected, what)
        if existing and isinstance(held, (Sym, Tree, Atom)) and fn(env) is not held:
            raise Violation(f"after {what} the expression is another object", expr=repr(held))
        rec.outcome([name, existing, k])
        del env, held, observe
    rec.sample([name, existing, n[-1]])


def check_cold(case, rec):
    """An interrupt while something is used for the first time in a process."""
    _, name, r, m = case
    expected = undisturbed(name)

    def fresh(rec):
        for module in [n for n in sys.modules if n.partition(".")[0] == "protosym"]:
            del sys.modules[module]
        points_of.__defaults__[0].clear()
        prepare("quick", cold=True)
        gc.collect()
        gc.freeze()

        def count(child):
            env, fn, _, _ = make(name, False)
            outcome, value, n, _ = interrupted(lambda: fn(env), 0)
            child.samples.append([outcome, n])

        counted = Rec()
        forked(count, counted)
        ((outcome, n),) = counted.samples
        if outcome != "ok" or not n:
            raise AssertionError(f"{name}: {outcome} with {len(n)} points")
        rec.maximum("points_of_one_first_use", len(n))

        def once(child, k):
            env, fn, observe, _ = make(name, False)
            what = f"an interrupt at point {k} of the first {name} in a process"
            if fault(name, env, fn, k, what, child) is not None:
                recover(name, env, fn, observe, expected, what)
                child.outcome([name, "cold", k])

        for k in n[r::m]:
            forked(lambda child, k=k: once(child, k), rec)
        rec.sample([name, "cold", n[-1]])

    forked(fresh, rec)


def check_pairs(case, rec):
    _, name, r, m = case
    expected = undisturbed(name)
    env, fn, _, held = make(name, False)
    _, _, n, _ = interrupted(lambda: fn(env), 0)
    del env, held
    if len(n) > 130:
        return
    for k in [*n, n[-1] + 1, n[-1] + 2][r::m]:
        for j in [*n, n[-1] + 1, n[-1] + 2]:
            env, fn, observe, _ = make(name, False)
            what = f"interrupts at points {k} and {j} of {name}"
            if fault(name, env, fn, k, what, rec) is None:
                return
            if fault(name, env, fn, j, what, rec) is None:
                break
            recover(name, env, fn, observe, expected, what)
            rec.outcome([name, k, j])
            del env, observe


# ------------------------------------------------------------ failing rules


class Faulty:
    """Counts calls and raises at the chosen one."""

    def __init__(self):
        self.calls = 0
        self.at = 0
        self.exc = None

    def arm(self, at, exc):
        self.calls, self.at, self.exc = 0, at, exc

    def __call__(self, result):
        self.calls += 1
        if self.calls == self.at:
            raise self.exc
        return result


def _rules_core(f):
    ev = Evaluator()
    ev.add_atom(sc.Integer.atom_type, lambda v: f(("int", v)))
    ev.add_atom_generic(lambda t: f(("atom", str(t))))
    ev.add_op1(H["f"], lambda a: f(("f", a)))
    ev.add_op2(H["g"], lambda a, b: f(("g", a, b)))
    ev.add_opn(H["h"], lambda args: f(("h", *args)))
    return ev


def _rules_generic(f):
    ev = Evaluator()
    ev.add_atom_generic(lambda t: f(("atom", str(t))))
    ev.add_op_generic(lambda h, args: f((str(h), *args)))
    return ev


def _rules_transformer(f):
    ev = Transformer()
    ev.add_op2(H["g"], lambda a, b: f(H["h"](a, b)))
    ev.add_opn(H["h"], lambda args: f(H["g"](args[0], args[-1])))
    ev.add_atom(sc.Symbol.atom_type, lambda s: f(sc.Symbol(s + "_").rep))
    return ev


def _rules_sym(f):
    a, b = sc.Expr.new_wild("c22a"), sc.Expr.new_wild("c22b")
    E = sc.Expr
    ev = E.new_evaluator("c22", tuple)
    ev[sc.Integer[a]] = PyFunc1(lambda v: f(("int", v)))(a)
    ev[AtomRule[a]] = AtomFunc(lambda t: f(("atom", str(t))))(a)
    ev[E(H["f"])(a)] = PyOp1(lambda r: f(("f", r)))(a)
    ev[E(H["g"])(a, b)] = PyOp2(lambda r, s: f(("g", r, s)))(a, b)
    ev[HeadRule(a, b)] = HeadOp(lambda h, args: f((str(h), *args)))(a, b)
    return lambda t, values=None: ev(E(t), None if values is None else {E(k): v for k, v in values.items()})


RULES = {"core": _rules_core, "recursive": _rules_core, "generic": _rules_generic, "transformer": _rules_transformer, "sym": _rules_sym}
H = {}


def check_rule(case, rec):
    _, kind, n, r, m, pairs = case
    if not H:
        for name in "fgh":
            H[name] = sc.Function("c22" + name).rep
    leaves = [T.S("c22x"), T.S("c22y"), T.I(22)]
    ops = [(T.F("c22f"), 1), (T.F("c22g"), 2), (T.F("c22h"), 3)]
    levels = T.dag_terms(leaves, ops, n)
    every = [t for level in levels for t in level]
    memo = {}

    def build(t):
        if t not in memo:
            memo[t] = Tree(*map(build, t[1:])) if t[0] == "@" else {"I": sc.Integer, "S": sc.Symbol, "F": sc.Function}[t[0]](t[1]).rep
        return memo[t]

    def call(ev, tree, values):
        if kind == "recursive":
            return ev.eval_recursive(tree, values or {})
        return ev(tree) if values is None else ev(tree, values)

    quiet = RULES[kind](Faulty())
    swapped = {build(a): call(quiet, build(b), None) for a, b in zip(leaves, leaves[1:] + leaves[:1])}
    for index, t in enumerate(every):
        if index % m != r:
            continue
        tree = build(t)
        want = canon(call(quiet, tree, {}))
        faulty = Faulty()
        ev = RULES[kind](faulty)
        faulty.arm(0, None)
        if canon(call(ev, tree, {})) != want:
            raise Violation("two evaluators with the same rules differ", expr=T.show(t))
        total = faulty.calls
        small = index < (400 if pairs else 120)
        for k in range(1, total + 1):
            for exc in EXCEPTIONS if small else EXCEPTIONS[(index + k) % len(EXCEPTIONS) :][: 3 if pairs else 1]:
                second = [(k2, e2) for k2 in range(1, total + 1) for e2 in (exc, EXCEPTIONS[0])] if pairs and small and total < 7 else []
                for more in [None, *second]:
                    values = {build(T.S("c22unused")): want}
                    before = dict(values)
                    for at, e in [(k, exc)] + ([more] if more else []):
                        faulty.arm(at, e)
                        e.__traceback__ = e.__context__ = None
                        try:
                            got = call(ev, tree, values)
                        except BaseException as caught:  # noqa
                            if caught is not e:
                                raise Violation(
                                    "the caller got another exception than the one that the rule raised",
                                    expr=T.show(t), kind=kind, at=at, raised=repr(e), got=repr(caught),
                                ) from None  # fmt: skip
                        else:
                            raise Violation(
                                "the exception of the rule did not reach the caller", expr=T.show(t), kind=kind, at=at, raised=repr(e), got=repr(got)[:200]
                            )
                        rec.add("evaluations")
                    rec.add("distinct_nontrivial")
                    if values != before:
                        raise Violation("a failed evaluation changed the values it was given", expr=T.show(t), kind=kind)
                    faulty.arm(0, None)
                    got = canon(call(ev, tree, values))
                    if got != want:
                        raise Violation("after a failed evaluation another result", expr=T.show(t), kind=kind, at=k, got=repr(got)[:500], want=repr(want)[:500])
                    if more is None:
                        # a failure with other values, then none
                        faulty.arm(k, exc)
                        try:
                            call(ev, tree, dict(swapped))
                        except BaseException as caught:  # noqa
                            if caught is not exc:
                                raise Violation("the caller got another exception than the one that the rule raised", expr=T.show(t), kind=kind, raised=repr(exc), got=repr(caught)) from None
                        faulty.arm(0, None)
                        got = canon(call(ev, tree, None))
                        rec.add("evaluations")
                        if got != want:
                            raise Violation("after a failed evaluation with other values another result", expr=T.show(t), kind=kind, at=k, got=repr(got)[:500], want=repr(want)[:500])
                    if faulty.calls != total:
                        raise Violation("after a failed evaluation other rule calls", expr=T.show(t), kind=kind, at=k, got=faulty.calls, want=total)
        if index % 16 == r:
            if canon(call(quiet, tree, {})) != want:
                raise Violation("a failure in one evaluator changed another", expr=T.show(t))
        rec.outcome([kind, t, total])
    # a needed rule is missing, then added
    if kind in ("core", "recursive"):
        for t in every[r::m]:
            if t[0] != "@":
                continue
            tree = build(t)
            want = canon(call(quiet, tree, {}))
            ev = Evaluator()
            steps = [
                (lambda ev: ev.add_atom(sc.Integer.atom_type, lambda v: ("int", v)), lambda s: s[0] == "I"),
                (lambda ev: ev.add_atom_generic(lambda a: ("atom", str(a))), lambda s: s[0] == "S"),
                (lambda ev: ev.add_op1(H["f"], lambda a: ("f", a)), lambda s: s[0] == "@" and s[1] == T.F("c22f")),
                (lambda ev: ev.add_op2(H["g"], lambda a, b: ("g", a, b)), lambda s: s[0] == "@" and s[1] == T.F("c22g")),
                (lambda ev: ev.add_opn(H["h"], lambda args: ("h", *args)), lambda s: s[0] == "@" and s[1] == T.F("c22h")),
            ]
            subs = T.subterms(t)
            for i in range(len(steps)):
                missing = any(needed(s) for _, needed in steps[i:] for s in subs)
                for _ in range(2):
                    try:
                        got = call(ev, tree, {})
                    except NoEvaluationRuleError:
                        if not missing:
                            raise Violation("no-rule error although every rule is there", expr=T.show(t)) from None
                    else:
                        if missing:
                            raise Violation("a value although a rule is missing", expr=T.show(t), got=repr(got)[:300])
                    rec.add("evaluations")
                steps[i][0](ev)
            got = canon(call(ev, tree, {}))
            if got != want:
                raise Violation("after a no-rule error and adding the rule another result", expr=T.show(t), got=repr(got)[:500], want=repr(want)[:500])
            rec.add("distinct_nontrivial")
    memo.clear()
    audit("failing rules")
    rec.sample(case)


class Nasty:
    """A value whose hash, equality or display can fail."""

    calls = 0
    at = 0
    exc = None
    what = None

    def __init__(self, n):
        self.n = n

    @classmethod
    def arm(cls, what, at, exc):
        cls.what, cls.at, cls.exc, cls.calls = what, at, exc, 0

    @classmethod
    def step(cls, what):
        if what == cls.what:
            cls.calls += 1
            if cls.calls == cls.at:
                raise cls.exc

    def __hash__(self):
        self.step("hash")
        return self.n

    def __eq__(self, other):
        self.step("eq")
        return isinstance(other, Nasty) and other.n == self.n

    def __repr__(self):
        self.step("show")
        return f"nasty{self.n}"

    __str__ = __repr__


def check_value(case, rec):
    _, what, depth = case
    wrap = sc.Expr.new_atom("Wrap", object)
    table = {}

    def build(name):
        return {
            "atom": lambda: BOX(Nasty(5)),
            "tree": lambda: Tr(BOX(Nasty(6))),
            "call": lambda: Tr(BOX(Nasty(7)))(Tr(BOX(Nasty(7))), Tr(BOX(Nasty(8)))),
            "sym": lambda: wrap(Nasty(9)),
            "expr": lambda: wrap(Nasty(9)) + wrap(Nasty(10)) * 3,
            "subs": lambda: (wrap(Nasty(9)) + 1).xreplace({wrap(Nasty(9)): wrap(Nasty(11))}),
            "matrix": lambda: sc.Matrix([[wrap(Nasty(9)), 0]]).tolist()[0][0],
            "show": lambda: str(wrap(Nasty(12)).rep) + repr(wrap(Nasty(12)).rep) + repr(wrap(Nasty(12))) + repr(wrap(Nasty(13)) + 1),
        }[name]

    names = ["atom", "tree", "call", "sym", "expr", "subs", "matrix", "show"]
    for name in names:
        fn = build(name)
        for existing in (False, True):
            Nasty.arm(None, 0, None)
            held = fn() if existing else None
            want = canon(held if existing else fn())
            for exc in EXCEPTIONS:
                k = 0
                while True:
                    k += 1
                    Nasty.arm(what, k, exc)
                    exc.__traceback__ = exc.__context__ = None
                    try:
                        fn()
                    except BaseException as e:  # noqa
                        done = Nasty.calls < k
                        Nasty.arm(None, 0, None)
                        if done or e is not exc:
                            raise Violation("another exception than the one raised", op=name, at=k, raised=repr(exc), got=repr(e)) from None
                        del e
                    else:
                        reached = Nasty.calls >= k
                        Nasty.arm(None, 0, None)
                        if not reached:
                            break
                        # CPython ignores exceptions in weak reference callbacks
                    exc.__traceback__ = exc.__context__ = None
                    rec.add("evaluations")
                    got = elsewhere(fn, f"repeating {name} after a failing {what}")
                    if canon(got) != want:
                        raise Violation(f"after a failing {what} another result", op=name, at=k, got=repr(canon(got)), want=repr(want))
                    if existing and isinstance(held, (Sym, Tree, Atom)) and fn() is not held:
                        raise Violation(f"after a failing {what} another object", op=name, at=k)
                    del got
                    census(f"a failing {what} in {name}")
                    rec.add("distinct_nontrivial")
                    rec.outcome([what, name, existing, k])
                    if k > 500:
                        raise AssertionError("too many calls")
            table[name, existing] = k - 1
            del held
    audit(f"failing {what}")
    rec.sample([what, {f"{n} {e}": k for (n, e), k in table.items()}])


def check_errors(case, rec):
    _, first, depth = case
    env = Env()
    alone = {}

    def run(name):
        try:
            ERRORS[name](env)
        except Exception as e:  # noqa
            return type(e).__name__
        return None

    for name in ERRORS:
        alone[name] = run(name)
        if alone[name] is None:
            # whether it must be refused is for other checks to say
            rec.add("not_refused")
    audit("refused calls")
    for rest in product(ERRORS, repeat=depth - 1):
        for name in (first, *rest):
            got = run(name)
            rec.add("evaluations")
            if got != alone[name]:
                raise Violation("a refused call is answered in another way later", history=[first, *rest], call=name, got=got, want=alone[name])
        rec.add("distinct_nontrivial")
        if depth == 2 or rest[-1] == "matrix_index":
            audit(f"refused calls {[first, *rest]}")
    gc.collect()
    audit("refused calls")
    rec.outcome([first, sorted(alone.items())])
    rec.sample([first, alone[first]])


def check_diffrule(case, rec):
    """Needed derivative rules are missing, then added one by one."""
    _, n, mask = case
    X, Y, F_, G_ = T.S("c22x"), T.S("c22y"), T.F("c22f"), T.F("c22g")
    a, b = T.W("c22a"), T.W("c22b")
    table = [(F_, 0, (a,), T.app(G_, a, a)), (G_, 0, (b, a), T.mul(b, T.app(F_, a))), (G_, 1, (a, b), a)]
    cas = T.Cas()
    B = cas.build

    def new(rules):
        d = SymDifferentiator(sc.Expr, add=sc.Add, mul=sc.Mul, zero=sc.zero, one=sc.one)
        for rule in rules:
            register(d, rule)
        return d

    def register(d, rule):
        head, i, wilds, rhs = rule
        d[B(T.app(head, *wilds)), B(wilds[i])] = B(rhs)

    terms = T.flat(T.dag_terms([X, Y], [(F_, 1), (G_, 2), (T.ADD, 2), (T.MUL, 2)], n))
    full = new(table)
    first = [r for i, r in enumerate(table) if mask >> i & 1]
    later = [r for i, r in enumerate(table) if not mask >> i & 1]
    shared = new(first)  # asked for everything, with failures in between
    for t in terms:
        e = B(t)
        d = new(first)
        for done in range(len(later) + 1):
            rules = {(h, i): (w, rhs) for h, i, w, rhs in [*first, *later[:done]]}
            for s in (X, Y):
                try:
                    T.derive(t, s, rules)
                    missing = False
                except T.Unsupported:
                    missing = True
                for which in (d, d, shared) if not done else (d, d):
                    try:
                        got = which(e, B(s))
                    except Exception as err:
                        if not missing:
                            raise Violation("a derivative fails although every rule is there", expr=T.show(t), by=T.show(s), error=repr(err)) from None
                    else:
                        if missing:
                            raise Violation("a derivative although a rule is missing", expr=T.show(t), by=T.show(s), got=repr(got)[:300])
                        if got is not full(e, B(s)):
                            raise Violation("after failures another derivative", expr=T.show(t), by=T.show(s), got=repr(got)[:300])
                    rec.add("evaluations")
            if done < len(later):
                register(d, later[done])
        rec.outcome([mask, t])
    audit("missing derivative rules")
    rec.sample([mask, len(terms)])


def check_reentrant(case, rec):
    """A rule that evaluates with the same evaluator and fails inside."""
    if not H:
        for name in "fgh":
            H[name] = sc.Function("c22" + name).rep
    x = sc.Symbol("c22x").rep
    f, g_ = H["f"], H["g"]
    for exc in EXCEPTIONS:
        for depth in range(1, 6):
            for catch in range(0, depth + 1):
                for method in ("eval_forward", "eval_recursive"):
                    ev = Evaluator()
                    ev.add_atom_generic(str)
                    state = {"left": 0, "raise": True}

                    def rule(a, ev=ev, state=state, method=method, exc=exc, catch=catch):
                        if state["left"] == 0:
                            if state["raise"]:
                                raise exc
                            return "end"
                        state["left"] -= 1
                        here = state["left"]
                        try:
                            return ("in", getattr(ev, method)(f(x), {}))
                        except BaseException as e:  # noqa
                            if e is not exc:
                                raise Violation("another exception", got=repr(e)) from None
                            if here + 1 == catch:
                                return "caught"
                            raise

                    ev.add_op1(f, rule)
                    tree = g_(f(x), x)
                    ev.add_op2(g_, lambda a, b: (a, b))

                    def run(flag, ev=ev, state=state, method=method, tree=tree, depth=depth):
                        state.update({"left": depth, "raise": flag})
                        return getattr(ev, method)(tree, {})

                    want = run(False)
                    exc.__traceback__ = exc.__context__ = None
                    try:
                        got = run(True)
                    except BaseException as e:  # noqa
                        if e is not exc or catch:
                            raise Violation("the caller got another exception", raised=repr(exc), got=repr(e)) from None
                    else:
                        inner = "caught"
                        for _ in range(depth - catch):
                            inner = ("in", inner)
                        if not catch or got != (inner, str(x)):
                            raise Violation("wrong result after an exception caught by a rule", got=repr(got))
                    if run(False) != want:
                        raise Violation("after a failure inside a rule another result")
                    rec.add("evaluations")
                    rec.add("distinct_nontrivial")
    audit("failing rules that evaluate")
