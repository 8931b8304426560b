"""C07: evaluation applies exactly the registered rules."""
from itertools import combinations, product

from mc import terms as T
from mc.terms import F, I, S, ADD, MUL, POW, SIN, COS

LEVEL = "model_checking"
RULE = (
    "states: (rule table, expression DAG, value assignment) triples; transitions: evaluations on the real code by each strategy; "
    "traces: results compared with a recursive free evaluation (rules build a record of how they were called)"
)
ASSUMPTIONS = ["rules are opaque to the evaluator, so free (recording) rules and rules with falsy results represent all rules"]
f, g, h = F("f"), F("g"), F("h")
x, y = S("x"), S("y")
SPECIAL = (None, 0, "", False, 0.0, (), 7, "v")


class NoRule(Exception):
    pass


def bounds(tier):
    k = 3 if tier == "thorough" else 2
    return (
        f"all 288 rule tables (atom rules x generic atom rule x f: none/binary/n-ary x g: none/unary/n-ary x generic head rule x free/falsy results) x all DAGs "
        f"with <= {k} compounds (f/2, g/1) over x, 2, f x value assignments of <= 2 subexpressions with 8 kinds of values; values in dictionaries of 5 kinds; h/0..h/40; "
        "transformers with every rule subset; float evaluation of all DAGs with <= 2 compounds (quick) or 3 (thorough) of Add, Mul, pow, sin, cos over x, y, "
        "-1, 2 at 5 points, with explicit values for compounds; n-ary sums and products up to 60 operands; integers up to 10**300, and sin and cos of them; 130..5000 operands"
    )


TABLES = list(product((0, 1), (0, 1), (0, 1), (0, 2, 3), (0, 1, 3), (0, 1), (0, 1)))


def prepare(tier):
    global CORE, CAS, TERMS, TERMS3, FTERMS
    CORE, CAS = T.Core(), T.Cas()
    levels = T.dag_terms([x, I(2), f], [(f, 2), (g, 1)], 3)
    TERMS = T.flat(levels[:3])
    TERMS3 = levels[3]
    FTERMS = T.flat(T.dag_terms([x, y, I(-1), I(2)], [(ADD, 2), (MUL, 2), (POW, 2), (SIN, 1), (COS, 1)], 2))
    FTERMS += T.flat(T.dag_terms([x, I(3)], [(T.F("Add"), 3), (T.F("Mul"), 3), (POW, 2), (SIN, 1)], 2))
    if tier == "thorough":
        FTERMS += T.dag_terms([x, I(-2)], [(ADD, 2), (MUL, 2), (POW, 2), (SIN, 1), (COS, 1)], 3)[3]


def cases(tier):
    for i in range(len(TABLES)):
        yield ["table", i, TERMS if tier == "thorough" else None]
    if tier == "thorough":
        for i in range(len(TABLES)):
            for part in range(4):
                yield ["table3", i, part]
    for i in range(0, len(FTERMS), 40):
        yield ["float", i]
    for mask in range(16):
        yield ["transform", mask]
    for n in range(61):
        yield ["nary", n]
    for mask in range(64):
        yield ["types", mask]
    for n in (130, 260, 520, 1030, 2060, 5000):
        yield ["large", n]
    yield ["arity"]
    yield ["raising"]
    for n in range(6):
        yield ["objects", n]
    for n in range(0, len(TABLES), 36):
        yield ["dicts", n]
    yield ["sym"]
    yield ["float-api"]


def reference(t, values, table, memo):
    """Free evaluation; table = (S rule, I rule, generic atom, f, g, generic head, falsy)."""
    if t in values:
        return values[t]
    if t in memo:
        return memo[t]
    has_s, has_i, gen_atom, rf, rg, gen_op, falsy = table
    if t[0] != "@":
        if (t[0] == "S" and has_s) or (t[0] == "I" and has_i):
            r = {"S": None, "I": ""}[t[0]] if falsy else (t[0], t[1])
        elif gen_atom:
            r = 0 if falsy else ("generic", t)
        else:
            raise NoRule
    else:
        argvals = [reference(a, values, table, memo) for a in t[2:]]
        kind = {f: rf, g: rg}.get(t[1], 0)
        if kind in (1, 2):
            if len(argvals) != kind:
                raise NoRule
            r = None if falsy else (t[1][1], *argvals)
        elif kind == 3:
            r = False if falsy else (t[1][1] + "*", tuple(argvals))
        elif gen_op:
            r = () if falsy else ("generic", t[1], tuple(argvals))
        else:
            raise NoRule
    memo[t] = r
    return r


def make_evaluator(table):
    from protosym.core.evaluate import Evaluator

    has_s, has_i, gen_atom, rf, rg, gen_op, falsy = table
    ev = Evaluator()
    if has_s:
        ev.add_atom(CORE.types["S"], lambda v: None if falsy else ("S", v))
    if has_i:
        ev.add_atom(CORE.types["I"], lambda v: "" if falsy else ("I", v))
    if gen_atom:
        ev.add_atom_generic(lambda a: 0 if falsy else ("generic", CORE.read(a)))
    B = CORE.build
    if rf == 2:
        ev.add_op2(B(f), lambda a, b: None if falsy else ("f", a, b))
    elif rf == 3:
        ev.add_opn(B(f), lambda args: False if falsy else ("f*", args))  # keeps what it is given
    if rg == 1:
        ev.add_op1(B(g), lambda a: None if falsy else ("g", a))
    elif rg == 3:
        ev.add_opn(B(g), lambda args: False if falsy else ("g*", args))
    if gen_op:
        ev.add_op_generic(lambda head, args: () if falsy else ("generic", CORE.read(head), args))
    return ev


def frozen(v):
    """The value with every argument sequence that a rule kept as a tuple."""
    return tuple(map(frozen, v)) if isinstance(v, (list, tuple)) else v


def assignments(t, rich):
    yield {}
    universe = sorted(T.subterms(t), key=repr) + [f, y]
    for s in dict.fromkeys(universe):
        for v in SPECIAL if rich else SPECIAL[:3]:
            yield {s: v}
    if rich:
        for s, u in combinations(dict.fromkeys(universe), 2):
            yield {s: None, u: "w"}
            yield {s: 7, u: 0}


def compare(ev, t, values, table, rec, case):
    from protosym.core.exceptions import NoEvaluationRuleError

    try:
        want = ("value", reference(t, values, table, {}))
    except NoRule:
        want = ("no rule",)
    expr = CORE.build(t)
    given = {CORE.build(k): v for k, v in values.items()}
    strategies = {
        "call": lambda: ev(expr, given),
        "forward": lambda: ev.eval_forward(expr, given),
        "recursive": lambda: ev.eval_recursive(expr, given),
        "evaluate": lambda: ev.evaluate(expr, given),
    }
    if not values:
        strategies["no values"] = lambda: ev(expr)
    for name, run in strategies.items():
        try:
            got = ("value", frozen(run()))
        except NoEvaluationRuleError:
            got = ("no rule",)
        rec.add("transitions")
        rec.add("traces_validated_against_impl")
        if got != want or repr(got) != repr(want):
            rec.fail(
                f"{name}: {T.show(t)} values {({T.show(k): v for k, v in values.items()})} table {table}: {got!r} instead of {want!r}",
                case=case,
            )
    if list(given.values()) != list(values.values()) or len(given) != len(values):
        rec.fail("the dictionary of values was changed", case=case)
    rec.outcome(want)


def check_case(case, rec):
    kind = case[0]
    if kind in ("table", "table3"):
        table = TABLES[case[1]]
        ev = make_evaluator(table)
        terms = TERMS if kind == "table" else TERMS3[case[2] :: 4]
        for t in terms:
            for values in assignments(t, kind == "table"):
                rec.add("states")
                compare(ev, t, values, table, rec, [kind, case[1], T.show(t)])
        rec.sample(f"table {table}, {len(terms)} expressions")
    elif kind == "float":
        for t in FTERMS[case[1] : case[1] + 40]:
            float_case(t, rec, case)
    elif kind == "transform":
        transform(case[1], rec, case)
    elif kind == "nary":
        nary(case[1], rec, case)
    elif kind == "types":
        types(case[1], rec, case)
    elif kind == "large":
        large(case[1], rec, case)
    elif kind == "arity":
        arity(rec, case)
    elif kind == "raising":
        raising(rec, case)
    elif kind == "objects":
        objects(case[1], rec, case)
    elif kind == "dicts":
        dicts(case[1], rec, case)
    elif kind == "sym":
        sym(rec, case)
    else:
        float_api(rec, case)


def dicts(first, rec, case):
    """Values in dictionaries of other classes: only what they contain is given."""
    from collections import OrderedDict, defaultdict

    from protosym.core.exceptions import NoEvaluationRuleError

    class Missing(dict):
        def __missing__(self, key):
            return "missing"

    class Plain(dict):
        pass

    makes = [OrderedDict, Plain, Missing, lambda d: defaultdict(lambda: "made", d), lambda d: defaultdict(int, d)]
    for table in TABLES[first : first + 36]:
        ev = make_evaluator(table)
        for t in TERMS[:: 5 if len(TERMS) > 60 else 1]:
            for values in assignments(t, False):
                try:
                    want = ("value", reference(t, values, table, {}))
                except NoRule:
                    want = ("no rule",)
                expr = CORE.build(t)
                given = {CORE.build(k): v for k, v in values.items()}
                for n, make in enumerate(makes):
                    kept = make(given)
                    for name, run in (("call", ev), ("forward", ev.eval_forward), ("recursive", ev.eval_recursive)):
                        try:
                            got = ("value", frozen(run(expr, kept)))
                        except NoEvaluationRuleError:
                            got = ("no rule",)
                        rec.add("transitions")
                        rec.add("traces_validated_against_impl")
                        if got != want or repr(got) != repr(want):
                            rec.fail(f"{name}: {T.show(t)} with values in a dictionary of kind {n} {({T.show(k): v for k, v in values.items()})} table {table}: {got!r} instead of {want!r}", case=case)
                    if dict(kept) != given:
                        rec.fail(f"the dictionary of kind {n} was changed", case=case)
                rec.add("states")
    rec.outcome(("dicts", first))


POINTS = [{x: 0.75, y: -1.5}, {x: -0.5, y: 2.0}, {x: 3.0, y: 0.25}, {x: 0.0, y: 1.0}, {x: 1e-3, y: -2.0}]


def near(got, want, scale, rec, case, what):
    rec.add("transitions")
    rec.add("traces_validated_against_impl")
    if not isinstance(got, (int, float)) or not T.close(got, want, scale):
        rec.fail(f"{what}: {got!r} instead of {want!r}", case=case)


def float_case(t, rec, case):
    from protosym.core.exceptions import NoEvaluationRuleError as NoRuleError

    expr = CAS.build(t)
    for env in POINTS:
        rec.add("states")
        values = {CAS.build(k): v for k, v in env.items()}
        try:
            want, scale = T.scaled(t, env)
        except T.Undefined:
            # There may be no number, but there is never anything else.
            try:
                got = expr.eval_f64(values)
            except (ArithmeticError, ValueError, NoRuleError):
                continue
            if not isinstance(got, (int, float)):
                rec.fail(f"eval_f64 of {T.show(t)} at {env[x]}, {env[y]}: {got!r} is no real number", case=case)
            continue
        near(expr.eval_f64(values), want, scale, rec, case, f"eval_f64 of {T.show(t)} at {env[x]}, {env[y]}")
        rec.outcome(want)
    # explicit values for compound subexpressions
    env = POINTS[0]
    for s in T.subterms(t):
        if s[0] == "@" or s[0] == "I":
            val = 1.25
            t2 = T.substitute(t, {s: S("_v")})
            try:
                want, scale = T.scaled(t2, {**env, S("_v"): val})
            except T.Undefined:
                continue
            values = {CAS.build(k): v for k, v in env.items()}
            values[CAS.build(s)] = val
            near(expr.eval_f64(values), want, scale, rec, case, f"eval_f64 of {T.show(t)} with {T.show(s)} = {val}")


def transform(mask, rec, case):
    """Transformers leave what has no rule alone."""
    from protosym.core.evaluate import Transformer

    B = CORE.build
    tr = Transformer()
    Fh, Gh = B(F("F")), B(F("G"))
    if mask & 1:
        tr.add_opn(B(f), lambda args: Fh(*args))
    if mask & 2:
        tr.add_op1(B(g), lambda a: a)
    if mask & 4:
        tr.add_atom(CORE.types["S"], lambda v: Gh)
    if mask & 8:
        tr.add_atom(CORE.types["I"], lambda v: CORE.Tr(CORE.types["I"](v + 1)))

    def ref(t, values):
        if t in values:
            return values[t]
        if t[0] == "S":
            return F("G") if mask & 4 else t
        if t[0] == "I":
            return I(t[1] + 1) if mask & 8 else t
        if t[0] != "@":
            return t
        args = [ref(a, values) for a in t[2:]]
        if t[1] == f and mask & 1:
            return T.app(F("F"), *args)
        if t[1] == g and mask & 2:
            return args[0]
        return T.app(t[1], *args)

    terms = TERMS + TERMS3[:: 1 if mask in (0, 1, 15) else 7]
    terms += [T.app(c, *a) for c in (h, T.app(g, x), T.app(f, x, x)) for a in ((), (x,), (T.app(g, x), T.app(f, x, I(2)), x))]
    for t in terms:
        for values in ({}, {x: T.app(h, x)}, {T.app(g, x): x}, {t: y}):
            rec.add("states")
            want = B(ref(t, values))
            expr = B(t)
            given = {B(k): B(v) for k, v in values.items()}
            for name, got in (("call", tr(expr, given)), ("forward", tr.eval_forward(expr, given)), ("recursive", tr.eval_recursive(expr, given))):
                rec.add("transitions")
                rec.add("traces_validated_against_impl")
                if got is not want:
                    rec.fail(f"transformer {mask} {name}: {T.show(t)} -> {got}", case=case)


def large(n, rec, case):
    """Many arguments, subexpressions and values, far beyond any small table."""
    import math

    from protosym.core.evaluate import Evaluator, Transformer

    B = CORE.build
    rec.add("states")
    xs = [B(S(f"x{i}")) for i in range(n)]
    fr, gr = B(f), B(g)
    args = [xs[i % 5] if i % 3 else xs[i] for i in range(n)]
    names = [str(a) for a in args]
    ev, generic = Evaluator(), Evaluator()
    ev.add_atom(CORE.types["S"], lambda v: v)
    ev.add_opn(fr, list)
    ev.add_op1(gr, lambda v: ("g", v))
    generic.add_atom_generic(lambda a: str(a))
    generic.add_op_generic(lambda head, args: [*args] if head is fr else ("g", *args))
    tr = Transformer()
    tr.add_op1(gr, lambda v: v)
    e, nested = fr(*args), fr(*[gr(a) for a in args], fr(*args[::-1]))
    want = [*[("g", v) for v in names], names[::-1]]
    values = {v: i for i, v in enumerate(xs)}
    held = dict(values)
    parts = {gr(v): i for i, v in enumerate(xs)}
    results = []
    for each in (ev, generic):
        for run in (each, lambda t, v=None: each.eval_recursive(t, v or {})):
            results += [(run(e), names), (run(nested), want), (run(e, values), [values[a] for a in args])]
            results += [(run(nested, values), [*[("g", values[a]) for a in args], [values[a] for a in args[::-1]]])]
            results += [(run(nested, parts), [*[parts[gr(a)] for a in args], names[::-1]])]
    results += [(tr(nested), fr(*args, fr(*args[::-1])))]
    deep, count = xs[0], 0
    for i in range(n):
        deep = gr(deep) if i % 2 else fr(deep, xs[i])
    counter = Evaluator()
    counter.add_atom_generic(lambda a: 1)
    counter.add_op_generic(lambda head, args: sum(args) + 1)
    results += [(counter(deep), 1 + n + n - n // 2), (counter(e), n + 1)]
    for got, right in results:
        rec.add("transitions")
        rec.add("traces_validated_against_impl")
        if got != right:
            rec.fail(f"{n} arguments: wrong value", case=case)
    if values != held:
        rec.fail("the values were changed", case=case)
    sc = CAS.sc
    syms = [sc.Symbol(f"x{i}") for i in range(n)]
    env = {s: 0.5 + i / n for i, s in enumerate(syms)}
    v = list(env.values())
    near(sc.Add(*syms).eval_f64(env), math.fsum(v), n, rec, case, f"sum of {n}")
    near(sc.Add(*syms, *syms[::-1]).eval_f64(env), 2 * math.fsum(v), n, rec, case, f"sum of {n} twice")
    near(sc.Mul(*syms).eval_f64(env), math.prod(v), math.prod(v), rec, case, f"product of {n}")
    near(sc.Mul(*[syms[0], syms[-1]] * n).eval_f64({syms[0]: 2.0, syms[-1]: 0.5}), 1.0, 1.0, rec, case, f"product of {n} pairs")
    near(sc.Add(*[sc.sin(s) * s for s in syms]).eval_f64(env), math.fsum(math.sin(a) * a for a in v), n, rec, case, f"sum of {n} products")


def nary(n, rec, case):
    """Any number of arguments, in order; sums and products as floats."""
    import math

    from protosym.core.evaluate import Evaluator

    B = CORE.build
    ev = Evaluator()
    ev.add_atom(CORE.types["S"], lambda v: v)
    ev.add_opn(B(h), list)
    t = T.app(h, *[S(f"x{i % 7}") for i in range(n)], T.app(h, *[S(f"y{i}") for i in range(n)]))
    want = [f"x{i % 7}" for i in range(n)] + [[f"y{i}" for i in range(n)]]
    rec.add("states")
    for got in (ev(B(t)), ev.eval_recursive(B(t), {})):
        rec.add("transitions")
        rec.add("traces_validated_against_impl")
        if got != want:
            rec.fail(f"{n} arguments: {got}", case=case)
    if not n:
        return
    sc = CAS.sc
    sets = [
        [float(i + 1) for i in range(n)],
        [(-1) ** i * 1.5**i for i in range(n)],
        [1e16 if i == 0 else (-1e16 if i == n - 1 and n > 1 else 1.0) for i in range(n)],
        [1e300] + [0.5] * (n - 1),
    ]
    for vals in sets:
        syms = [sc.Symbol(f"x{i}") for i in range(n)]
        env = dict(zip(syms, vals))
        near(sc.Add(*syms).eval_f64(env), math.fsum(vals), max(map(abs, vals)), rec, case, f"sum of {n}")
        near(sc.Mul(*syms).eval_f64(env), math.prod(vals), abs(math.prod(vals)), rec, case, f"product of {n}")
        t = sc.sin(sc.Add(*syms, *syms))
        if abs(math.fsum(vals)) < 100:
            near(t.eval_f64(env), math.sin(2 * math.fsum(vals)), max(map(abs, vals)), rec, case, f"sin of sum of {n}")
    for value in (n, -n, 2**n, -(2**n), 10**n + 1, 10 ** (5 * n) + 7, 2**53 + n, 2**64 - n, 10**300 - n):
        near(sc.Integer(value).eval_f64(), float(value), abs(float(value)), rec, case, f"integer {value}")
        near((sc.x + value).eval_f64({sc.x: 0.0}), float(value), abs(float(value)), rec, case, f"x + {value}")
        # Nothing is lost on the way to the functions, however large the argument.
        for name, function, real in (("sin", sc.sin, math.sin), ("cos", sc.cos, math.cos)):
            near(function(sc.Integer(value)).eval_f64(), real(float(value)), 1.0, rec, case, f"{name} of {value}")
            for a in (float(value), value + 0.5, 1.0 / (value or 7), value * math.pi):
                near(function(sc.x).eval_f64({sc.x: a}), real(a), 1.0, rec, case, f"{name} of x at {a}")
                near(function(sc.x * sc.x).eval_f64({sc.x: a}) if abs(a) < 1e150 else 0.0, real(a * a) if abs(a) < 1e150 else 0.0, 1.0, rec, case, f"{name} of x*x at {a}")


def types(mask, rec, case):
    """Rules belong to atom types and heads, not to their names."""
    from protosym.core.atom import AtomType
    from protosym.core.evaluate import Evaluator, Transformer
    from protosym.core.exceptions import NoEvaluationRuleError
    from protosym.core.tree import Tree

    kinds = [AtomType("Same", str), AtomType("Same", str), AtomType("Same", int), AtomType("Other", str)]
    values = ("v", "v", 1, "v")
    atoms = [CORE.Tr(k(v)) for k, v in zip(kinds, values)]
    for make, generic_atom, generic_op in product((Evaluator, Transformer), (0, 1), (0, 1)):
        ev = make()
        for i in range(4):
            if mask >> i & 1:
                ev.add_atom(kinds[i], lambda v, i=i: (i, v))
        for i in (0, 1):
            if mask >> (4 + i) & 1:
                ev.add_op1(atoms[i], lambda a, i=i: ("op", i, a))
        if generic_atom:
            ev.add_atom_generic(lambda t: ("atom", atoms.index(t)))
        if generic_op:
            ev.add_op_generic(lambda hd, args: ("head", atoms.index(hd), *args))
        for i in range(4):
            if mask >> i & 1:
                want = (i, values[i])
            elif generic_atom:
                want = ("atom", i)
            else:
                want = atoms[i] if make is Transformer else None
            probes = [(atoms[i], want)]
            for j in range(4):
                if want is None:
                    w = None
                elif j < 2 and mask >> (4 + j) & 1:
                    w = ("op", j, want)
                elif generic_op:
                    w = ("head", j, want)
                elif make is Evaluator:
                    w = None
                elif isinstance(want, Tree):
                    w = atoms[j](atoms[i])
                else:
                    continue
                probes.append((atoms[j](atoms[i]), w))
            for t, want in probes:
                rec.add("states")
                for run in (ev, lambda t: ev.eval_recursive(t, {}), lambda t: ev.eval_forward(t, {})):
                    try:
                        got = run(t)
                    except NoEvaluationRuleError:
                        got = None
                    rec.add("transitions")
                    rec.add("traces_validated_against_impl")
                    if got != want:
                        rec.fail(f"{make.__name__} rules {mask:06b}: an atom or call {t!r} of another type: {got!r} instead of {want!r}", case=case)
        rec.outcome((mask, generic_atom, generic_op))


def arity(rec, case):
    """A rule of a fixed number of arguments is never called with another one,
    and an error of a rule reaches the caller."""
    from protosym.core.evaluate import Evaluator

    B = CORE.build
    called = []

    def rule1(a):
        called.append((a,))
        return a

    def rule2(a, b):
        called.append((a, b))
        return (a, b)

    def default(a, b=None):
        called.append((a, b))
        return (a, b)

    class Boom(TypeError):
        pass

    def fails(*args):
        called.append(args)
        raise Boom

    for n, m in product(range(5), (1, 2)):
        ev = Evaluator()
        ev.add_atom(CORE.types["S"], lambda v: v)
        ev.add_op1(B(f), rule1) if m == 1 else ev.add_op2(B(f), rule2)
        ev.add_op1(B(g), fails)
        ev.add_op2(B(h), fails)
        ev.add_opn(B(F("k")), fails)
        ev.add_op1(B(F("d")), default)
        args = [S(f"x{i}") for i in range(n)]
        for run in (ev, lambda t: ev.eval_recursive(t, {}), lambda t: ev.eval_forward(t, {})):
            rec.add("states")
            for t in (T.app(f, *args), T.app(F("d"), *args), T.app(g, *args), T.app(h, *args), T.app(F("k"), *args), T.app(F("k"), T.app(g, *args))):
                called.clear()
                try:
                    got = run(B(t))
                except Boom:
                    got = Boom
                except TypeError:
                    got = None
                names = tuple(f"x{i}" for i in range(n))
                if t[1] == f:
                    want = ({1: "x0", 2: names}[m], [names]) if n == m else (None, [])
                elif t[1] == F("d"):
                    want = {1: (("x0", None), [("x0", None)]), 2: (names, [names])}.get(n, (None, []))
                else:
                    inner = t[2:] == (T.app(g, *args),)
                    want = (Boom, [([*names],) if t[1] == F("k") and not inner else names])
                rec.add("transitions")
                rec.add("traces_validated_against_impl")
                if (got, [tuple(map(frozen, c)) for c in called]) != (want[0], [tuple(map(frozen, c)) for c in want[1]]):
                    rec.fail(f"{T.show(t)} with a rule of {m} arguments: {got!r} after the calls {called}, instead of {want}", case=case)
                rec.outcome(repr(want))


PLACES = ("atom", "generic atom", "op1", "op2", "opn", "generic head")


def place(ev, where, rule, read):
    """Register the rule at a place; an expression for it, and what the rule gets."""
    B = CORE.build
    if where == "atom":
        ev.add_atom(CORE.types["I"], rule)
        return I(7), (7,)
    if where == "generic atom":
        ev.add_atom_generic(lambda t: rule(read(t)))
        return F("k"), (F("k"),)
    if where == "op1":
        ev.add_op1(B(g), rule)
        return T.app(g, x), ("x",)
    if where == "op2":
        ev.add_op2(B(g), rule)
        return T.app(g, x, y), ("x", "y")
    if where == "opn":
        ev.add_opn(B(g), lambda args: rule(*args))
        return T.app(g, x, y, x), ("x", "y", "x")
    ev.add_op_generic(lambda head, args: rule(read(head), *args))
    return T.app(F("k"), x), (F("k"), "x")


def evaluators(where):
    """Evaluators in which everything has a rule, except for what is tested."""
    from protosym.core.evaluate import Evaluator, Transformer

    for cls in (Evaluator, Transformer):
        for generic in (0, 1):
            ev = cls()
            ev.add_atom(CORE.types["S"], lambda v: v)
            ev.add_op1(CORE.build(f), lambda a: ("f", a))
            if generic:
                ev.add_atom_generic(lambda t: "generic")
                ev.add_op_generic(lambda head, args: "generic")
            yield ev


def raising(rec, case):
    """Whatever a rule raises is what the caller gets, whichever other rules there are."""
    from protosym.core.exceptions import NoEvaluationRuleError

    class Own(NoEvaluationRuleError):
        pass

    errors = [
        NoEvaluationRuleError("a"), Own("b"), KeyError("x"), KeyError(CORE.build(g)), AttributeError("value"), TypeError("c"), IndexError(0), LookupError(),
        StopIteration(3), RecursionError(), NotImplementedError(), ValueError(), OverflowError(), ZeroDivisionError(), ImportError(), RuntimeError(),
        StopAsyncIteration(), GeneratorExit(), KeyboardInterrupt(), SystemExit(0), BaseException(), Exception(), AssertionError(), MemoryError(),
    ]  # fmt: skip
    for where in PLACES:
        for ev in evaluators(where):
            for error in errors:
                def rule(*args, error=error):
                    raise error

                t, _ = place(ev, where, rule, CORE.read)
                for term in (t, T.app(f, t)):
                    for run in (ev, lambda e, v: ev.evaluate(e, v), ev.eval_recursive, ev.eval_forward):
                        rec.add("states")
                        rec.add("transitions")
                        error.__traceback__ = None
                        try:
                            got = run(CORE.build(term), {})
                        except BaseException as e:  # noqa
                            if e is error:
                                rec.add("traces_validated_against_impl")
                                continue
                            got = e
                        rec.fail(f"the {where} rule raised {error!r} for {T.show(term)}, the evaluation gave {got!r}", case=case)
                rec.outcome([where, repr(error)])


def objects(n, rec, case):
    """Rules can be objects of any kind that can be called."""
    import functools

    def base(*args):
        return args

    class Falsy:
        def __call__(self, *args):
            return args

        def __bool__(self):
            return False

    class Sized(list):
        def __call__(self, *args):
            return args

    class Odd:
        def __call__(self, *args):
            return args

        def __eq__(self, other):
            return True

        def __hash__(self):
            return 1

    class Broken(Odd):
        def __bool__(self):
            raise RuntimeError

        __eq__ = __ne__ = __len__ = __hash__ = __bool__

    class Made(tuple):
        def __new__(cls, *args):
            return tuple.__new__(tuple, args)

    class Methods:
        def method(self, *args):
            return args

        @staticmethod
        def static(*args):
            return args

        @classmethod
        def cls_method(cls, *args):
            return args

    rules = [base, Falsy(), Sized(), Odd(), Broken(), Made, Methods().method, Methods.static, Methods.cls_method, functools.partial(base), functools.partial(base, *()), lambda *args: args]
    where = PLACES[n]
    read = CORE.read
    for ev in evaluators(where):
        for k, rule in enumerate(rules):
            for last in (rule, rules[k - 1]):  # a second registration
                t, want = place(ev, where, last, read)
                for run in (ev, ev.eval_recursive, ev.eval_forward):
                    rec.add("states")
                    rec.add("transitions")
                    got = run(CORE.build(t), {})
                    if got != want:
                        rec.fail(f"the {where} rule {type(last).__name__} for {T.show(t)} gave {got!r} instead of {want!r}", case=case)
                    if (got := run(CORE.build(T.app(f, t)), {})) != ("f", want):
                        rec.fail(f"the {where} rule {type(last).__name__} for f({T.show(t)}) gave {got!r} instead of {('f', want)!r}", case=case)
                rec.add("traces_validated_against_impl")
    rec.outcome([where, len(rules)])


def sym(rec, case):
    """Rules given as patterns reach the right expressions."""
    from protosym.core.exceptions import NoEvaluationRuleError
    from protosym.core.sym import AtomFunc, AtomRule, HeadOp, HeadRule, PyFunc1, PyOp1, PyOp2, PyOpN, star

    sc = CAS.sc
    Expr, a, b = sc.Expr, sc.a, sc.b
    X, Y = sc.x, sc.y
    H3 = sc.Function("h")
    forms = {
        "int": lambda ev: ev.__setitem__(sc.Integer[a], PyFunc1(lambda v: ("int", v))(a)),
        "sym": lambda ev: ev.__setitem__(sc.Symbol[b], PyFunc1(lambda v: ("sym", v))(b)),
        "fun": lambda ev: ev.__setitem__(sc.Function[a], PyFunc1(lambda v: ("fun", v))(a)),
        "atom": lambda ev: ev.__setitem__(AtomRule[a], AtomFunc(lambda t: ("atom", CAS_read(t)))(a)),
        "head": lambda ev: ev.__setitem__(HeadRule(a, b), HeadOp(lambda hd, args: ("head", CAS_read(hd), tuple(args)))(a, b)),
        "sin": lambda ev: ev.__setitem__(sc.sin(a), PyOp1(lambda v: ("sin", v))(a)),
        "pow": lambda ev: ev.__setitem__(a**b, PyOp2(lambda u, v: ("pow", u, v))(a, b)),
        "add": lambda ev: ev.__setitem__(sc.Add(star(a)), PyOpN(lambda args: ("add", tuple(args)))(a)),
        "g": lambda ev: ev.__setitem__(sc.g(b, a), PyOp2(lambda u, v: ("g", u, v))(b, a)),
        "ff": lambda ev: ev.__setitem__(sc.f(X)(star(b)), PyOpN(lambda args: ("fx", tuple(args)))(b)),
    }

    def CAS_read(tree):
        return T.read_tree(tree, CAS.kinds)

    def ref(t, values, on):
        if t in values:
            return values[t]
        if t[0] != "@":
            key = {"I": "int", "S": "sym", "F": "fun"}.get(t[0])
            if key in on:
                return (key, t[1])
            if "atom" in on:
                return ("atom", t)
            raise NoRule
        args = tuple(ref(c, values, on) for c in t[2:])
        key = {SIN: "sin", POW: "pow", ADD: "add", F("g"): "g", T.app(F("f"), S("x")): "ff"}.get(t[1])
        if key in on:
            if key in ("add", "ff"):
                return ({"ff": "fx"}.get(key, key), args)
            return (key, *args)
        if "head" in on:
            return ("head", t[1], args)
        raise NoRule

    exprs = [
        X, sc.Integer(3), sc.f, sc.sin(X), sc.sin(3), X**Y, Y**X, (X + Y) + 1, sc.Add(X, Y, X, 2), sc.Add(X), sc.g(X, 2), sc.g(2, sc.sin(X)),
        sc.f(X)(Y, Y), sc.f(X)(), sc.f(Y)(X), sc.f(X), H3(X, Y, 1), sc.sin(H3(X)), sc.sin(sc.sin(X ** sc.sin(X))), X * Y, sc.f(sc.sin), sc.List(X, 1),
    ]
    names = list(forms)
    for mask in range(1 << len(names)):
        on = {n for i, n in enumerate(names) if mask >> i & 1}
        ev = Expr.new_evaluator("ev", object)
        for n in names:
            if n in on:
                forms[n](ev)
        for e in exprs:
            t = CAS.read(e)
            for values in ({}, {S("x"): None}, {SIN_X: 0}):
                rec.add("states")
                try:
                    want = ("value", ref(t, values, on))
                except NoRule:
                    want = ("no rule",)
                try:
                    got = ("value", ev(e, {CAS.build(k): v for k, v in values.items()}) if values else ev(e))
                except NoEvaluationRuleError:
                    got = ("no rule",)
                rec.add("transitions")
                rec.add("traces_validated_against_impl")
                if got != want:
                    rec.fail(f"rules {sorted(on)}: {e} with {values}: {got} instead of {want}", case=case)
                rec.outcome(want)


SIN_X = T.app(SIN, S("x"))


def float_api(rec, case):
    from protosym.core.exceptions import NoEvaluationRuleError

    sc = CAS.sc
    X, Y = sc.x, sc.y
    for e in (X, sc.sin(X), sc.f(1), sc.List(1), sc.a, sc.Add(1, Y), sc.f, sc.sin(sc.f(X)), sc.Mul(0, X), X**0):
        rec.add("states")
        rec.add("transitions")
        try:
            got = e.eval_f64()
        except NoEvaluationRuleError:
            continue
        rec.fail(f"eval_f64 of {e} gave {got} without a rule", case=case)
    # no real number: anything finite would be wrong
    for e, a, b in ((X**Y, -8.0, 0.5), (X**Y, -8.0, 1 / 3), (X**Y, -0.5, -1.5), (X**Y, 0.0, -1.0), (X**Y, 0.0, -0.5), (1 / X, 0.0, 1.0), (sc.sin(X**Y), -2.0, 2.5), (X**Y * 0, -2.0, 0.25), (sc.Pow(-8, Y), 1.0, 0.5)):
        rec.add("states")
        rec.add("transitions")
        try:
            got = e.eval_f64({X: a, Y: b})
        except (ValueError, ArithmeticError):
            continue
        if not isinstance(got, float) or abs(got) < 1e300:
            rec.fail(f"eval_f64 of {e} at {a}, {b} gave {got!r}", case=case)
    for e, values, want in (
        (X, {X: 0.0}, 0.0),
        (sc.f(X), {sc.f(X): 2.5}, 2.5),
        (sc.f(X) + 1, {sc.f(X): 0}, 1.0),
        (X + Y, {X: 1, Y: 2}, 3.0),
        (sc.Integer(1), {sc.one: 5.0}, 5.0),
        (X + 1, {X: 1.0, sc.one: 5.0}, 6.0),
        (sc.a + 1, {sc.a: 2.0}, 3.0),
        (sc.Mul(X), {X: -4.0}, -4.0),
        (sc.Add(X), {X: -4.0}, -4.0),
    ):
        rec.add("states")
        before = dict(values)
        near(e.eval_f64(values), want, abs(want), rec, case, f"eval_f64 of {e} with {values}")
        if values != before:
            rec.fail("the dictionary of values was changed", case=case)
