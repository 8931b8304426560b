"""C25: optional packages are optional and modules can be imported in any order."""
import importlib
import os
import pkgutil
import sys
from itertools import product

from mc.framework import SRC, Violation, forked

LEVEL = "model_checking"
RULE = (
    "states: (packages that are missing, operations done so far) and (set of loaded modules); transitions: operations, a package becoming available, imports, "
    "each run on the real code in a process of its own; traces: histories after which every result is the one of a process in which everything was there"
)
ASSUMPTIONS = [
    "a missing package is one that no finder finds, so that its import raises ModuleNotFoundError; a package does not go away once it was there",
    "the compiled replacement rust_protosym is not installed",
]
PACKAGES = ("sympy", "numpy", "llvmlite")


def bounds(tier):
    n = 4 if tier == "thorough" else 3
    return (
        f"all 8 subsets of SymPy, NumPy and llvmlite missing x all histories of {n if n > 3 else '2'} steps over 11 operations and the missing packages becoming "
        f"available{'' if n > 3 else ', followed by all operations in two orders'}; every "
        f"module imported as the first one, every transition between reachable sets of loaded modules, every order of {n - 1} modules; every result compared with that of "
        "an undisturbed process"
    )


class Blind:
    """A finder that does not find the missing packages."""

    def __init__(self, missing, finder):
        self.missing, self.finder = missing, finder

    def find_spec(self, name, path=None, target=None):
        if name.partition(".")[0] in self.missing.names:
            self.missing.asked.append(name)
            return None
        return self.finder.find_spec(name, path, target)

    def __getattr__(self, name):
        return getattr(self.finder, name)


class Missing:
    """Import hook: the packages are not there, or were not loaded before."""

    def __init__(self, names):
        self.names = set(names)
        self.asked = []
        self.saved = {}
        for name in names:
            for m in list(sys.modules):
                if m == name or m.startswith(name + "."):
                    self.saved[m] = sys.modules.pop(m)
        # as it is when a package is not installed: no finder knows it
        sys.meta_path[:] = [Blind(self, finder) for finder in sys.meta_path]

    def install(self, name):
        self.names.discard(name)
        for m in [m for m in self.saved if m == name or m.startswith(name + ".")]:
            sys.modules[m] = self.saved.pop(m)


def prepare(tier):
    # loaded here only to be hidden: loading them in every process is slow
    import llvmlite.binding  # noqa
    import numpy  # noqa
    import sympy  # noqa

    import_all()  # so that the modules are compiled once
    import protosym.simplecas.sympy_conversions  # noqa

    for m in list(sys.modules):
        if m.partition(".")[0] == "protosym":
            del sys.modules[m]
    global WANT, MODULES
    MODULES = modules()
    WANT = {}

    def collect(r):
        import_all()
        for name, op in OPERATIONS.items():
            r.samples.append([name, op()])
        r.samples.append(["probe", probe()])
        r.samples.append(["core", core_probe()])

    from mc.framework import Rec

    r = Rec()
    r.MAX_SAMPLES = 1000
    forked(collect, r)
    if len(r.samples) != len(OPERATIONS) + 2:
        raise Violation("the undisturbed process did not finish")
    WANT = dict(r.samples)
    bad = {k: v for k, v in WANT.items() if isinstance(v, list) and v[:1] == ["error"]}
    if bad:
        raise Violation("operations fail although every package is there", got=bad)


def modules():
    """Every module of the package, found in the directory."""
    found = ["protosym"]
    for info in pkgutil.walk_packages([os.path.join(SRC, "protosym")], "protosym.", onerror=lambda name: None):
        found.append(info.name)
    # walk_packages imports packages: forget them
    for m in list(sys.modules):
        if m.partition(".")[0] == "protosym":
            del sys.modules[m]
    return sorted(m for m in found if not m.endswith("__main__"))


def import_all():
    import protosym.simplecas

    return protosym.simplecas


# -------------------------------------------------------------- operations


def outcome(fn):
    try:
        return fn()
    except ImportError:
        return ["missing"]
    except Exception as e:  # noqa
        return ["error", type(e).__name__, str(e)[:200]]


def parts():
    sc = import_all()
    x, y = sc.Symbol("x"), sc.Symbol("y")
    e = sc.sin(x * y) ** 2 + 3 * x - sc.cos(y)
    m = sc.Matrix([[x, 0, y + 1], [sc.sin(x), 2, x * y]])
    return sc, x, y, e, m


def op_texts():
    """Names that other packages know."""

    def run():
        sc = import_all()
        out = []
        for name in ("alpha", "x_1", "x1", "Gamma", "lambda", "I", "pi", "E", "sin", "Add", "beta_2", "S", "a b", "a_b_c", "xdot", "zoo", "nan", "oo", "gamma", "f"):
            for e in (sc.Symbol(name), sc.Function(name), sc.Function(name)(sc.Symbol(name)), sc.Symbol(name) ** 2 + sc.sin(sc.Symbol(name)) * 3):
                out.append([str(e), repr(e), e.eval_latex(), e._repr_latex_(), repr(e.rep), str(e.rep), repr(sc.Matrix([[e]]))])
        heads = [sc.List, sc.Add, sc.Mul, sc.Pow, sc.sin, sc.cos, sc.Function("g"), sc.Symbol("s"), sc.Integer(5), sc.List(sc.x), sc.Function("List"), sc.Function("g")(sc.y)]
        args = [sc.x, sc.Integer(-2), sc.x + sc.y, sc.List(sc.x, 1)]
        for head in heads:
            for n in range(4):
                for rest in ([sc.x] * n, args[:n], args[-n:] if n else []):
                    e = head(*rest)
                    row = []
                    for read in (str, lambda v: v.eval_latex(), lambda v: v._repr_latex_(), lambda v: v.count_ops_tree(), lambda v: v.count_ops_graph(), lambda v: repr(v.bin_expand()),
                                 lambda v: repr(v.rep), lambda v: v.eval_f64({sc.x: 0.5, sc.y: -1.5}), lambda v: repr(v.diff(sc.x)), lambda v: repr(v.xreplace({sc.x: sc.y}))):  # fmt: skip
                        try:
                            row.append(read(e))
                        except Exception as err:  # noqa
                            row.append(type(err).__name__)
                    out.append(row)
        for n in (0, -1, 10**30, True):
            out.append([str(sc.Integer(n)), sc.Integer(n).eval_latex(), repr(sc.Integer(n) ** n)])
        return out

    return outcome(run)


def op_sympy():
    import_all()
    return outcome(lambda: __import__("sympy").srepr(parts()[3].to_sympy()))


def op_sympy_matrix():
    return outcome(lambda: repr(parts()[4].to_sympy()))


def op_sympy_round():
    def run():
        sc, x, y, e, m = parts()
        s = e.to_sympy()
        n = sc.Matrix([[x * i + j if (i + j) % 7 == 0 else 0 for j in range(9)] for i in range(9)])
        return [repr(sc.Expr.from_sympy(s)), repr(sc.Matrix.from_sympy(m.to_sympy())), str(s - s), repr(sc.Matrix.from_sympy(n.to_sympy()))]

    return outcome(run)


def op_sympify():
    """SymPy's own hook."""

    def run():
        sc, x, y, e, m = parts()
        import sympy

        return [sympy.srepr(sympy.sympify(e)), sympy.srepr(sympy.Symbol("z") + e)]

    return outcome(run)


def op_lambdify():
    def run():
        sc, x, y, e, m = parts()
        return sc.lambdify([x, y], e)(0.5, 2.0)

    return outcome(run)


def op_lambdify_matrix():
    def run():
        sc, x, y, e, m = parts()
        return sc.lambdify([y, x], m)(0.5, 2.0).tolist()

    return outcome(run)


def op_llvm_ir():
    def run():
        sc, x, y, e, m = parts()
        return [e.to_llvm_ir([x, y]), m.to_llvm_ir([x, y])]

    return outcome(run)


def op_refused():
    def run():
        sc, x, y, e, m = parts()
        out = []
        for bad in (lambda: sc.Function("u")(x).to_llvm_ir([x]), lambda: sc.lambdify([x], "x"), lambda: sc.lambdify([x], sc.Function("u")(x)), lambda: sc.lambdify([], m)):
            try:
                out.append(repr(bad()))
            except Exception:  # noqa
                out.append("refused")
        return out

    return outcome(run)


def op_matrix():
    def run():
        sc, x, y, e, m = parts()
        n = m + m
        out = [repr(n), repr(m.diff(x)), repr(m.binop(m, sc.Mul)), m.shape, repr(m.tolist()), repr(m[1, 2])]
        for rows, cols in ((9, 8), (1, 70), (70, 1), (20, 20), (2, 0)):
            # large ones
            n = sc.Matrix([[x * i + j if (i + j) % 7 == 0 else 0 for j in range(cols)] for i in range(rows)])
            k = n + n
            out += [repr(n), repr(k.diff(x)), repr(n.binop(k, sc.Mul).tolist()), n.shape, repr(k[rows - 1, cols - 1]) if cols else 0]
            out.append(n.to_llvm_ir([x]) if cols else 0)
        e = sc.Add(*[sc.sin(x * i) for i in range(100)])
        out += [repr(e), repr(e.diff(x)), e.eval_f64({x: 0.5}), e.count_ops_tree(), repr(e.bin_expand()), e.to_llvm_ir([x]), e.eval_latex()]
        return out

    return outcome(run)


def op_base():
    return outcome(probe)


def op_core():
    return outcome(core_probe)


OPERATIONS = {
    "to_sympy": op_sympy, "sympy_matrix": op_sympy_matrix, "sympy_round": op_sympy_round, "sympify": op_sympify, "lambdify": op_lambdify,
    "lambdify_matrix": op_lambdify_matrix, "llvm_ir": op_llvm_ir, "refused": op_refused, "matrix": op_matrix, "base": op_base, "core": op_core,
    "texts": op_texts,
}  # fmt: skip
NEEDS = {
    "to_sympy": {"sympy"}, "sympy_matrix": {"sympy"}, "sympy_round": {"sympy"}, "sympify": {"sympy"}, "lambdify": {"llvmlite"},
    "lambdify_matrix": {"llvmlite", "numpy"},
}  # fmt: skip


def jsonable(v):
    return [jsonable(i) for i in v] if isinstance(v, (list, tuple)) else v


def probe():
    """What the library does without any optional package."""
    sc, x, y, e, m = parts()
    d = e.diff(x)
    f = sc.Function("f")
    out = [
        repr(e), e.eval_latex(), repr(d), repr(e.diff(x, 3)), e.eval_f64({x: 0.5, y: 2.0}), d.eval_f64({x: 0.5, y: 2.0}), e.count_ops_graph(), d.count_ops_tree(),
        repr(e.xreplace({x: y, y: f(x)})), repr(e.as_function(x, y)(y, 3)), repr(sc.Add(x, y, e).bin_expand()), repr(m), e._repr_latex_(), repr(f(x).rep),
    ]  # fmt: skip
    out.append(op_texts())
    if e is not sc.sin(x * y) ** 2 + 3 * x - sc.cos(y) or x is not sc.x or sc.Symbol("x") is not x:
        out.append("an expression built again is another object")
    for call in (lambda: f(x).diff(x), lambda: e.eval_f64(), lambda: x + "a", lambda: sc.Expr(1), lambda: sc.Matrix([[x]]) + m):
        try:
            out.append(repr(call()))
        except Exception as err:  # noqa
            out.append(type(err).__name__)
    return jsonable(out)


def core_probe():
    """The core alone."""
    from protosym.core.atom import AtomType
    from protosym.core.evaluate import Evaluator, Transformer
    from protosym.core.exceptions import BadRuleError, NoEvaluationRuleError
    from protosym.core.sym import PyFunc1, PyOpN, Sym, star
    from protosym.core.tree import SubsFunc, Tr, Tree, forward_graph, topological_sort

    K = AtomType("K", str)
    a, f = Tr(K("a")), Tr(K("f"))
    t = f(a, f(a))
    ev = Evaluator()
    ev.add_atom(K, len)
    ev.add_opn(f, sum)
    tr = Transformer()
    tr.add_opn(f, lambda args: a)
    out = [repr(t), ev(t), repr(tr(t)), repr(SubsFunc(t, [a])(f)), len(topological_sort(t)), repr(forward_graph(t).operations), Tree(f, a) is f(a)]

    class Mine(Sym):
        pass

    Name = Mine.new_atom("Name", str)
    w = Mine.new_wild("w")
    sev = Mine.new_evaluator("e", int)
    sev[Name[w]] = PyFunc1(len)(w)
    e = Mine(Name("h").rep(Name("abc").rep))
    sev[Mine(Name("h").rep(star(w).rep))] = PyOpN(sum)(w)
    out += [sev(e), repr(e), str(e)]
    try:
        sev[Mine(Name("h").rep(w.rep))] = PyOpN(sum)(w)
    except BadRuleError:
        out.append("refused")
    try:
        Evaluator()(a)
    except NoEvaluationRuleError:
        out.append("no rule")
    return jsonable(out)


# ------------------------------------------------------------------- cases


def cases(tier):
    yield ["graph"]
    n = 4 if tier == "thorough" else 3
    for missing in product((False, True), repeat=3):
        absent = [p for p, m in zip(PACKAGES, missing) if m]
        for first in OPERATIONS:
            yield ["packages", absent, first, n]
        for p in absent:
            yield ["packages", absent, "+" + p, n]
    for m in MODULES:
        yield ["order", m, 3 if n > 3 else 2]
    yield ["names"]


def check_case(case, rec):
    globals()["check_" + case[0]](case, rec)


def check_packages(case, rec):
    """Depth first over all histories; every step in a copy of the process."""
    _, absent, first, depth = case

    def explore(r, hook, path, left):
        step = path[-1]
        if step.startswith("+"):
            hook.install(step[1:])
        else:
            asked = len(hook.asked)
            got = OPERATIONS[step]()
            want = WANT[step] if not NEEDS.get(step, set()) & hook.names else ["missing"]
            if jsonable(got) != want:
                raise Violation("another result than with every package there", missing=sorted(hook.names), history=path, got=got, expected=want)
            if want != ["missing"] and len(hook.asked) > asked:
                r.add("asked_for_missing")
        r.add("states")
        r.add("transitions")
        r.add("traces_validated_against_impl")
        r.outcome([absent, path])
        if left == 1 and depth == 3:
            # the last step: all operations in one process, in two orders
            for order in (list(OPERATIONS), list(OPERATIONS)[::-1]):
                forked(lambda child: [explore(child, hook, [*path, nxt], 0) for nxt in order], r)
        elif left:
            for nxt in [*OPERATIONS, *("+" + p for p in sorted(hook.names))]:
                if left == 1 and step == nxt:
                    continue
                forked(lambda child: explore(child, hook, [*path, nxt], left - 1), r)

    def begin(r):
        hook = Missing(absent)
        import_all()
        explore(r, hook, [first], depth - 1)

    forked(begin, rec)


def loaded():
    return frozenset(m for m in sys.modules if m.partition(".")[0] == "protosym")


def load(name):
    try:
        mod = importlib.import_module(name)
    except Exception as e:  # noqa
        raise Violation("importing a module fails", module=name, loaded=sorted(loaded() - {name}), error=repr(e)) from None
    if not name.endswith("sympy_conversions") and "sympy" not in name:
        return mod
    return mod


def after(r):
    """Whatever is loaded works, and the rest can be loaded."""
    for what, run in (("core", op_core), ("probe", op_base), *(OPERATIONS.items())):
        got = jsonable(run())
        if got != WANT[what]:
            raise Violation("another result after importing in this order", operation=what, got=got, expected=WANT[what])
        r.add("traces_validated_against_impl")
    sc = import_all()
    for name in MODULES:
        mod = load(name)
        for k, v in vars(mod).items():
            if k.startswith("_") or type(v).__name__ == "module" or k not in vars(sc):
                continue
            if isinstance(v, type) and v.__module__.startswith("protosym") and vars(sc)[k] is not v:
                raise Violation("a class exists twice", name=k, module=name)


def check_graph(case, rec):
    """Every transition between reachable sets of loaded modules."""
    seen = {}
    todo = [()]
    while todo:
        path = todo.pop()
        for m in MODULES:
            def run(r, path=path, m=m):
                for p in path:
                    load(p)
                before = loaded()
                load(m)
                now = loaded()
                if m not in now or not before <= now:
                    raise Violation("importing a module removes others", order=[*path, m])
                r.samples.append(sorted(now))
                if now not in seen:
                    after(r)
                elif jsonable(probe()) != WANT["probe"] or jsonable(core_probe()) != WANT["core"]:
                    raise Violation("another result after importing in this order", order=[*path, m])

            from mc.framework import Rec

            r = Rec()
            forked(run, r)
            rec.add("transitions")
            for k, v in r.counts.items():
                rec.add(k, v)
            state = frozenset(r.samples[0])
            if state not in seen:
                seen[state] = (*path, m)
                todo.append((*path, m))
    rec.add("states", len(seen))
    rec.sample({" ".join(p): len(s) for s, p in seen.items()})
    rec.outcome(sorted(map(sorted, seen)))


def check_order(case, rec):
    _, first, n = case
    for rest in product(MODULES, repeat=n - 1):
        order = [first, *rest]
        if len(set(order)) < n:
            continue

        def run(r, order=order):
            for m in order:
                load(m)
            if jsonable(probe()) != WANT["probe"] or jsonable(core_probe()) != WANT["core"]:
                raise Violation("another result after importing in this order", order=order)
            r.add("traces_validated_against_impl")

        forked(run, rec)
        rec.add("states")
        rec.add("transitions", n)
        rec.outcome(order)


def check_names(case, rec):
    """The exported names exist and are the same objects everywhere."""

    def run(r):
        for name in MODULES:
            mod = load(name)
            for k in getattr(mod, "__all__", ()):
                if not hasattr(mod, k):
                    raise Violation("an exported name does not exist", module=name, name=k)
                r.add("states")
        ns = {}
        exec("from protosym.simplecas import *", ns)  # noqa: S102
        sc = import_all()
        for k in sc.__all__:
            if ns[k] is not getattr(sc, k):
                raise Violation("the exported name is another object", name=k)
        r.add("transitions", len(MODULES) + 1)
        r.add("traces_validated_against_impl")

    forked(run, rec)
