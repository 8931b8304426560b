"""C09: the latest rule wins, tables are isolated, bad rules change nothing."""
from itertools import product

from mc import terms as T
from mc.terms import F, I, S, W, ADD, MUL, POW, SIN

LEVEL = "model_checking"
RULE = (
    "states: histories of registrations (accepted and refused) on two tables of the same kind, with evaluations between every two; transitions: "
    "registrations and evaluations on the real code; traces: evaluations compared with a dictionary model of the latest rules"
)
ASSUMPTIONS = ["rules are opaque, so rules that return a tag identify which rule was applied"]
f, g = F("f"), F("g")
x, y = S("x"), S("y")


class NoRule(Exception):
    pass


def bounds(tier):
    d = (5, 4, 4) if tier == "thorough" else (4, 3, 3)
    return (
        f"all histories of <= {d[0]} registrations out of 18 (core evaluators), <= {d[1]} out of 48 including 26 refused ones (pattern evaluators), "
        f"<= {d[2]} out of 26 including 8 refused ones (differentiators), on two tables; all histories of <= {d[0] if d[0] == 4 else 6} rules of arity 1, 2, 3 for one head, and of <= {4 if d[0] == 4 else 5} rules for compound and zero-argument heads and atom types of equal names; of <= {4 if d[0] == 4 else 5} registrations of one function in 9 ways; every probe evaluated after every step; every pattern of up to 3 (star) wildcards with every call of 6 kinds of function; all 64 pairs of registrations made by a rule in the middle of an evaluation (returning, raising, evaluating again)"
    )


def prepare(tier):
    global CORE, CAS
    CORE, CAS = T.Core(), T.Cas()


def cases(tier):
    d = (5, 4, 4) if tier == "thorough" else (4, 3, 3)
    for first in product(range(18), repeat=2):
        yield ["core", list(first), d[0]]
    for first in range(48):
        for second in range(0, 48, 4):
            yield ["sym", [first], [second, second + 4], d[1]]
    for first in range(26):
        yield ["diff", [first], [0, 26], d[2]]
    for first in range(8):
        yield ["arity", [first], 6 if tier == "thorough" else 4]
    for first in range(len(HEAD_OPS)):
        yield ["heads", [first], 5 if tier == "thorough" else 4]
    for op in range(len(INSIDE_OPS)):
        for other in range(len(INSIDE_OPS)):
            yield ["inside", op, other]
    for first in range(len(SAME_OPS)):
        yield ["same", [first], 4 if tier == "thorough" else 3]
    yield ["patterns"]
    yield ["fresh"]


def check_case(case, rec):
    kind = case[0]
    if kind == "core":
        head, depth = case[1], case[2]
        for n in range(0, depth - 1):
            for tail in product(range(18), repeat=n):
                run_core([*head, *tail], rec, case)
    elif kind in ("sym", "diff"):
        run = run_sym if kind == "sym" else run_diff
        total = 48 if kind == "sym" else 26
        lo, hi = case[2]
        if lo == 0:
            run(case[1], rec, case)
        for n in range(0, case[3] - 1):
            for second in range(lo, hi):
                for tail in product(range(total), repeat=n):
                    run([*case[1], second, *tail], rec, case)
    elif kind == "arity":
        for n in range(case[2]):
            for tail in product(range(8), repeat=n):
                run_arity([*case[1], *tail], rec, case)
    elif kind == "heads":
        for n in range(case[2]):
            for tail in product(range(len(HEAD_OPS)), repeat=n):
                run_heads([*case[1], *tail], rec, case)
    elif kind == "same":
        for n in range(case[2] + 1):
            for tail in product(range(len(SAME_OPS)), repeat=n):
                run_same([*case[1], *tail], rec, case)
    elif kind == "patterns":
        patterns(rec, case)
    elif kind == "inside":
        inside(case, rec)
    else:
        fresh(rec, case)


# --------------------------------------------------------- core evaluators

PROBES = [x, I(2), T.app(g, x), T.app(f, x, I(2)), T.app(f, T.app(g, x), T.app(g, I(2))), T.app(F("h"), x), f]


def evaluate(t, model):
    if t[0] != "@":
        rule = model.get(("atom", t[0]))
        if rule is not None:
            return (rule, t[1])
        if "generic atom" in model:
            return (model["generic atom"], t)
        raise NoRule
    args = [evaluate(a, model) for a in t[2:]]
    rule = model.get(("head", t[1]))
    if rule is not None:
        return (rule, tuple(args))
    if "generic head" in model:
        return (model["generic head"], t[1], tuple(args))
    raise NoRule


def core_op(op, evs, models, step):
    which, op = divmod(op, 9)
    ev, model = evs[which], models[which]
    tag = f"r{step}"
    B = CORE.build
    if op == 0:
        ev.add_atom(CORE.types["S"], lambda v: (tag, v))
        model["atom", "S"] = tag
    elif op == 1:
        ev.add_atom(CORE.types["I"], lambda v: (tag, v))
        model["atom", "I"] = tag
    elif op == 2:
        ev.add_atom_generic(lambda a: (tag, CORE.read(a)))
        model["generic atom"] = tag
    elif op == 3:
        ev.add_op1(B(g), lambda a: (tag, (a,)))
        model["head", g] = tag
    elif op == 4:
        ev.add_opn(B(g), lambda args: (tag, tuple(args)))
        model["head", g] = tag
    elif op == 5:
        ev.add_op2(B(f), lambda a, b: (tag, (a, b)))
        model["head", f] = tag
    elif op == 6:
        ev.add_opn(B(f), lambda args: (tag, tuple(args)))
        model["head", f] = tag
    elif op == 7:
        ev.add_op_generic(lambda h, args: (tag, CORE.read(h), tuple(args)))
        model["generic head"] = tag
    else:
        ev.add_op1(B(F("h")), lambda a: (tag, (a,)))
        model["head", F("h")] = tag


def run_core(history, rec, case):
    from protosym.core.evaluate import Evaluator
    from protosym.core.exceptions import NoEvaluationRuleError

    evs, models = [Evaluator(), Evaluator()], [{}, {}]
    rec.add("states")
    last = len(history) - 1
    for step, op in enumerate(history):
        core_op(op, evs, models, step)
        rec.add("transitions")
        for which in (0, 1):
            # all strategies at the end, one in between
            for t in PROBES if step == last else PROBES[2:5]:
                try:
                    want = evaluate(t, models[which])
                except NoRule:
                    want = None
                expr = CORE.build(t)
                for run in (evs[which], lambda e: evs[which].eval_recursive(e, {})) if step == last else (evs[which],):
                    try:
                        got = run(expr)
                    except NoEvaluationRuleError:
                        got = None
                    rec.add("traces_validated_against_impl")
                    if got != want:
                        rec.fail(f"after {history[:step + 1]}: {T.show(t)} on table {which}: {got!r} instead of {want!r}", case=["core", history])
    rec.outcome([sorted(map(repr, m)) for m in models])
    if last == 3 and history[0] == history[3]:
        rec.sample(f"core history {history}")


# ------------------------------------------------------ pattern evaluators


def sym_ops():
    """(name, refused?, function(ev, tag), model key)"""
    from protosym.core.sym import AtomFunc, AtomRule, HeadOp, HeadRule, PyFunc1, PyOp1, PyOp2, PyOpN, star

    sc = CAS.sc
    a, b = sc.a, sc.b
    F2 = sc.f

    def atom(t):
        return PyFunc1(lambda v: (t, v))

    def op1(t):
        return PyOp1(lambda u: (t, (u,)))

    def op2(t):
        return PyOp2(lambda u, v: (t, (u, v)))

    def opn(t):
        return PyOpN(lambda args: (t, tuple(args)))

    def gen_atom(t):
        return AtomFunc(lambda v: (t, T.read_tree(v, CAS.kinds)))

    def gen_head(t):
        return HeadOp(lambda h, args: (t, T.read_tree(h, CAS.kinds), tuple(args)))

    def put(pattern, call):
        return lambda ev, t: ev.__setitem__(pattern(), call(t))

    good = [
        (put(lambda: sc.Symbol[a], lambda t: atom(t)(a)), ("atom", "S")),
        (put(lambda: sc.Integer[b], lambda t: atom(t)(b)), ("atom", "I")),
        (put(lambda: AtomRule[a], lambda t: gen_atom(t)(a)), "generic atom"),
        (put(lambda: HeadRule(a, b), lambda t: gen_head(t)(a, b)), "generic head"),
        (put(lambda: sc.g(a), lambda t: op1(t)(a)), ("head", g)),
        (put(lambda: sc.g(star(a)), lambda t: opn(t)(a)), ("head", g)),
        (put(lambda: sc.g(b), lambda t: op1(t)(b)), ("head", g)),
        (put(lambda: F2(a, b), lambda t: op2(t)(a, b)), ("head", f)),
        (put(lambda: F2(b, a), lambda t: op2(t)(b, a)), ("head", f)),
        (put(lambda: F2(star(b)), lambda t: opn(t)(b)), ("head", f)),
        (lambda ev, t: ev.add_op(sc.Function("h"), op1(t)), ("head", F("h"))),
    ]
    bad = [
        put(lambda: sc.g(a), lambda t: op1(t)(b)),
        put(lambda: sc.g(a), lambda t: op2(t)(a, a)),
        put(lambda: F2(a, b), lambda t: op2(t)(b, a)),
        put(lambda: F2(a, b), lambda t: op1(t)(a)),
        put(lambda: F2(a, b), lambda t: opn(t)(a)),
        put(lambda: sc.g(a), lambda t: opn(t)(a)),
        put(lambda: F2(star(a)), lambda t: opn(t)(b)),
        put(lambda: sc.g(a), lambda t: (lambda u: (t, (u,)))),
        put(lambda: sc.g(a), lambda t: atom(t)(a)),
        put(lambda: sc.g(a), lambda t: gen_atom(t)(a)),
        put(lambda: F2(a, b), lambda t: gen_head(t)(a, b)),
        put(lambda: AtomRule[a], lambda t: op1(t)(a)),
        put(lambda: HeadRule(a, b), lambda t: op2(t)(a, b)),
    ]
    bad2 = [
        put(lambda: AtomRule[a], lambda t: gen_atom(t)(b)),
        put(lambda: HeadRule(a, b), lambda t: gen_head(t)(b, a)),
        put(lambda: sc.Symbol[a], lambda t: op1(t)(a)),
        put(lambda: sc.Symbol[a], lambda t: gen_atom(t)(a)),
        put(lambda: sc.Integer[a], lambda t: atom(t)(b)),
        put(lambda: AtomRule[a], lambda t: atom(t)(a)),
        put(lambda: F2(star(a), b), lambda t: op2(t)(a, b)),
        put(lambda: sc.g(a), lambda t: None),
        put(lambda: HeadRule(a, b), lambda t: gen_atom(t)(a)),
        put(lambda: AtomRule[a], lambda t: gen_head(t)(a, b)),
        lambda ev, t: ev.add_op(sc.g, lambda u: u),
        lambda ev, t: ev.add_op(sc.g, atom(t)),
        put(lambda: sc.g(a), lambda t: op1(t)),
    ]
    ops = []
    for which, refused in ((0, bad), (1, bad2)):
        ops += [(which, fn, key) for fn, key in good] + [(which, fn, None) for fn in refused]
    return ops


SYM_OPS = None


def run_sym(history, rec, case):
    from protosym.core.exceptions import BadRuleError, NoEvaluationRuleError

    global SYM_OPS
    if SYM_OPS is None:
        SYM_OPS = sym_ops()
        assert len(SYM_OPS) == 48
    Expr = CAS.sc.Expr
    evs, models = [Expr.new_evaluator("e0", object), Expr.new_evaluator("e1", object)], [{}, {}]
    rec.add("states")
    last = len(history) - 1
    for step, op in enumerate(history):
        which, fn, key = SYM_OPS[op]
        tag = f"r{step}"
        try:
            fn(evs[which], tag)
        except BadRuleError:
            if key is not None:
                rec.fail(f"registration {op} was refused", case=["sym", history])
        else:
            if key is None:
                rec.fail(f"bad registration {op} was accepted", case=["sym", history])
            models[which][key] = tag
        rec.add("transitions")
        for i in (0, 1):
            for t in PROBES if step == last else PROBES[2:5]:
                try:
                    want = evaluate(t, models[i])
                except NoRule:
                    want = None
                try:
                    got = evs[i](CAS.build(t))
                except NoEvaluationRuleError:
                    got = None
                rec.add("traces_validated_against_impl")
                if got != want:
                    rec.fail(f"after {history[:step + 1]}: {T.show(t)} on table {i}: {got!r} instead of {want!r}", case=["sym", history])
    rec.outcome([sorted(map(repr, m)) for m in models])
    if len(history) == 3 and history[0] > history[2]:
        rec.sample(f"pattern history {history}")


# ---------------------------------------------------------- differentiators

p, q = F("p"), F("q")
a, b, c = W("a"), W("b"), W("c")
DIFF_PROBES = [
    T.app(p, x), T.app(q, x, y), T.app(q, y, x), T.app(q, T.app(p, x), x), T.app(p, T.app(p, T.app(p, x))), T.pow_(x, I(3)), T.sin(x),
    T.add(T.app(p, y), x), T.mul(x, T.app(q, T.mul(x, x), y)),
]  # fmt: skip
DIFF_GOOD = [
    (p, 0, T.app(p, a), a, T.mul(a, I(3))),
    (p, 0, T.app(p, b), b, T.app(F("P"), b)),
    (q, 0, T.app(q, a, b), a, T.mul(a, b)),
    (q, 0, T.app(q, b, a), b, T.app(F("Q0"), b, a)),
    (q, 1, T.app(q, a, b), b, T.app(F("Q1"), a, b)),
    (q, 1, T.app(q, c, a), a, I(7)),
    (POW, 0, T.pow_(a, b), a, T.mul(b, T.pow_(a, T.add(b, I(-1))))),
    (SIN, 0, T.sin(a), a, T.cos(a)),
]
ENV = {x: 3, y: -2}


def derive(t, model):
    """Reference derivative under a model of the rules (no built in rules)."""
    rules = {k: v for k, v in model.items()}
    h = t[1] if t[0] == "@" else None
    if t == x:
        return I(1)
    if h is None:
        return I(0)
    if (h, None) in rules:
        return T.app(h, *(derive(arg, model) for arg in t[2:]))
    if not any(x in T.subterms(arg) for arg in t[2:]):
        return I(0)
    if h == ADD:
        return T.add(*(derive(arg, model) for arg in t[2:]))
    if h == MUL:
        args = t[2:]
        return T.add(*(T.mul(*args[:i], derive(arg, model), *args[i + 1 :]) for i, arg in enumerate(args)))
    parts = []
    for i, arg in enumerate(t[2:]):
        if x not in T.subterms(arg):
            continue
        if (h, i) not in rules:
            raise NoRule
        wilds, rhs = rules[h, i]
        parts.append(T.mul(T.substitute(rhs, dict(zip(wilds, t[2:]))), derive(arg, model)))
    return T.add(*parts)


def diff_op(op, ds, models):
    """Apply an operation; returns whether it has to be refused."""
    which, op = divmod(op, 13)
    d, model = ds[which], models[which]
    B = CAS.build
    if op < 8:
        head, index, lhs, wild, rhs = DIFF_GOOD[op]
        d[B(lhs), B(wild)] = B(rhs)
        model[head, index] = (lhs[2:], rhs)
        return False
    if op == 8:
        d.add_distributive_rule(B(F("L")))
        d.add_distributive_rule(B(p))
        model[p, None] = model[F("L"), None] = "distributive"
        return False
    if which == 0:
        if op == 9:
            d[B(T.app(p, a))] = B(a)
        elif op == 10:
            d[B(T.app(p, a)), B(b)] = B(a)
        elif op == 11:
            d[B(T.app(q, a, a)), B(a)] = B(a)
        else:
            d[B(T.app(p, a)), B(a), B(a)] = B(a)
    else:
        if op == 9:
            d[B(T.app(q, a, b)), B(c)] = B(I(0))
        elif op == 10:
            d[[B(T.app(q, a, b)), B(b)]] = B(a)
        elif op == 11:
            d[(B(T.app(q, b, b)), B(b))] = B(a)
        else:
            d[(B(T.app(p, a)),)] = B(a)
    return True


def run_diff(history, rec, case):
    from protosym.core.sym import SymDifferentiator

    sc = CAS.sc
    ds = [SymDifferentiator(sc.Expr, add=sc.Add, mul=sc.Mul, zero=sc.zero, one=sc.one) for _ in range(2)]
    models = [{}, {}]
    rec.add("states")
    last = len(history) - 1
    for step, op in enumerate(history):
        bad = op % 13 >= 9
        try:
            diff_op(op, ds, models)
        except TypeError:
            if not bad:
                raise
        else:
            if bad:
                rec.fail(f"bad derivative rule {op} was accepted", case=["diff", history])
        rec.add("transitions")
        for i in (0, 1):
            for t in DIFF_PROBES if step == last else DIFF_PROBES[:4]:
                try:
                    want = derive(t, models[i])
                except NoRule:
                    want = None
                try:
                    got = ds[i](CAS.build(t), sc.x)
                except Exception:  # any failure will do, a value will not
                    got = None
                if got is not None:
                    got = CAS.read(got)
                rec.add("traces_validated_against_impl")
                if (got is None) != (want is None) or (want is not None and not T.same_value(got, want, ENV)):
                    rec.fail(f"after {history[:step + 1]}: derivative of {T.show(t)} on table {i}: {got} instead of {want}", case=["diff", history])
    rec.outcome([sorted(map(repr, m)) for m in models])
    if len(history) == 3 and history[0] > history[2]:
        rec.sample(f"differentiator history {history}")


ARITY_RULES = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3)]
ARITY_PROBES = [T.app(q, *args) for args in ((x,), (x, y), (y, x), (x, x), (x, y, y), (y, x, y), (x, x, x), (y, y, x))]


def run_arity(history, rec, case):
    """Rules of different arity for the same head: only the latest counts."""
    from protosym.core.evaluate import Evaluator
    from protosym.core.sym import SymDifferentiator

    sc = CAS.sc
    B = CAS.build
    rec.add("states")
    d = SymDifferentiator(sc.Expr, add=sc.Add, mul=sc.Mul, zero=sc.zero, one=sc.one)
    ev = Evaluator()
    ev.add_atom(CORE.types["S"], lambda v: v)
    rules, latest = {}, None
    for step, op in enumerate(history):
        if op < 5:
            index, arity = ARITY_RULES[op]
            rhs = T.app(F(f"R{step}"), *(a, b, c)[:arity])
            d[B(T.app(q, *(a, b, c)[:arity])), B((a, b, c)[index])] = B(rhs)
            rules[q, index] = ((a, b, c)[:arity], rhs)
        elif op == 5:
            ev.add_op1(CORE.build(q), (lambda step: lambda u: (step, u))(step))
            latest = (step, 1)
        elif op == 6:
            ev.add_op2(CORE.build(q), (lambda step: lambda u, v: (step, u, v))(step))
            latest = (step, 2)
        else:
            ev.add_opn(CORE.build(q), (lambda step: lambda args: (step, *args))(step))
            latest = (step, None)
        rec.add("transitions")
    for t in [*ARITY_PROBES, T.app(q)]:
        args = t[2:]
        wanted = [i for i, arg in enumerate(args) if arg == x]
        if all((q, i) in rules and len(rules[q, i][0]) == len(args) for i in wanted):
            want = T.add(*(T.substitute(rules[q, i][1], dict(zip((a, b, c), args))) for i in wanted)) if wanted else I(0)
        else:
            want = None
        try:
            got = CAS.read(d(B(t), sc.x))
        except Exception:  # any failure will do, a value will not
            got = None
        rec.add("traces_validated_against_impl")
        if (got is None) != (want is None) or (want is not None and flat_sum(got) != flat_sum(want)):
            rec.fail(f"after {history}: derivative of {T.show(t)}: {got} instead of {want}", case=case)
        names = tuple(arg[1] for arg in args)
        want = (latest[0], *names) if latest is not None and latest[1] in (None, len(args)) else None
        try:
            got = ev(CORE.build(t))
        except Exception:
            got = None
        rec.add("traces_validated_against_impl")
        if got != want:
            rec.fail(f"after {history}: {T.show(t)} evaluates to {got} instead of {want}", case=case)
    rec.outcome([sorted(map(repr, rules.items())), latest])


# Heads of every form and atom types of equal names: (what, which one)
HEAD_OPS = [("type", 0), ("type", 1), ("type", 2), ("head", 0), ("head", 1), ("head", 2), ("head", 3), ("generic", "head"), ("generic", "atom"), ("refused", 0)]


def run_heads(history, rec, case):
    """Rules for compound, numeric and zero-argument heads and for types that only differ as objects."""
    from protosym.core.atom import AtomType
    from protosym.core.evaluate import Evaluator, Transformer
    from protosym.core.exceptions import BadRuleError, NoEvaluationRuleError
    from protosym.core.tree import Tr

    if not HEADS_WORLD:
        types = [AtomType("N", int), AtomType("N", int), AtomType("N", str)]
        atoms = [Tr(types[0](1)), Tr(types[1](1)), Tr(types[2]("1"))]
        u = atoms[0]
        HEADS_WORLD.append((types, atoms, [u, u(atoms[1]), u(), u(u)(atoms[1], u)]))
    types, atoms, heads = HEADS_WORLD[0]
    sym = CAS.sc.Expr.new_evaluator("heads", object)
    evs = [Evaluator(), Transformer(), sym.evaluator]
    by_type, by_head, generic = {}, {}, {}
    rec.add("states")
    for step, (what, which) in enumerate(HEAD_OPS[i] for i in history):
        for ev in evs:
            if what == "type":
                ev.add_atom(types[which], lambda v, step=step: (step, v))
            elif what == "head":
                (ev.add_opn if step % 2 or ev is evs[2] else ev.add_op1)(heads[which], lambda a, step=step: (step,))
            elif which == "head":
                ev.add_op_generic(lambda h, args, step=step: ("?", step))
            elif which == "atom":
                ev.add_atom_generic(lambda a, step=step: ("?", step))
        if what == "type":
            by_type[which] = step
        elif what == "head":
            by_head[which] = step
        elif what == "generic":
            generic[which] = step
        else:
            a, b = CAS.sc.a, CAS.sc.b
            for pattern, call in ((CAS.sc.Expr(heads[1])(a), CORE_OP1(b)), (CAS.sc.Expr(heads[2])(a, b), CORE_OP1(a))):
                try:
                    sym[pattern] = call
                except BadRuleError:
                    continue
                rec.fail("a bad rule for a compound head was accepted", case=case)
        rec.add("transitions")
    for n, ev in enumerate(evs):
        probes = [("type", i, t) for i, t in enumerate(atoms)] + [("head", i, hd(atoms[0])) for i, hd in enumerate(heads)]
        for what, which, t in probes:
            rules = by_type if what == "type" else by_head
            if which in rules:
                want = (rules[which], atoms[which].value.value) if what == "type" else (rules[which],)
            elif ("atom" if what == "type" else "head") in generic:
                want = ("?", generic["atom" if what == "type" else "head"])
            else:
                want = t if n == 1 else None
            values = {} if what == "type" else {atoms[0]: atoms[0]}
            for run in (ev, ev.eval_recursive):
                try:
                    got = run(t, values)
                except NoEvaluationRuleError:
                    got = None
                rec.add("traces_validated_against_impl")
                if got != want:
                    rec.fail(f"after {[HEAD_OPS[i] for i in history]}: {t!r} on table {n}: {got!r} instead of {want!r}", case=case)
    rec.outcome([sorted(by_type), sorted(by_head), sorted(generic)])


HEADS_WORLD = []
# One function registered in several ways: (head, way, which function)
SAME_OPS = [(hd, way, 0) for hd in (f, g) for way in ("op1", "op2", "opn")] + [(f, "opn", 1), (f, "op2", 1), (None, "generic", 0)]


def run_same(history, rec, case):
    """The same function object is registered in different ways: the latest way counts."""
    from protosym.core.evaluate import Evaluator, Transformer
    from protosym.core.exceptions import NoEvaluationRuleError

    functions = [lambda *args: (0, args), lambda *args: (1, args)]
    B = CORE.build
    evs, model = [Evaluator(), Transformer()], {}
    rec.add("states")
    for hd, way, which in (SAME_OPS[i] for i in history):
        for ev in evs:
            if way == "generic":
                ev.add_op_generic(functions[which])
            else:
                getattr(ev, "add_" + way)(B(hd), functions[which])
        model[hd] = (way, which)
        rec.add("transitions")
    for ev in evs:
        for hd, n in product((f, g), (1, 2)):
            t, args = B(T.app(hd, *[x, y][:n])), [1, 2][:n]
            way, which = model.get(hd) or model.get(None) or (None, None)
            if way is None:
                continue
            if way == "generic":
                want = (which, (B(hd), args))
            elif way == "opn":
                want = (which, (args,))
            else:
                want = (which, tuple(args))
                if n != int(way[2]):
                    continue
            for run in (ev, ev.eval_recursive):
                try:
                    got = run(t, {B(x): 1, B(y): 2})
                except NoEvaluationRuleError:
                    got = None
                rec.add("traces_validated_against_impl")
                if repr(got).replace("(1,)", "[1]").replace("(1, 2)", "[1, 2]") != repr(want).replace("(1,)", "[1]").replace("(1, 2)", "[1, 2]"):
                    rec.fail(f"after {[SAME_OPS[i] for i in history]}: {t}: {got!r} instead of {want!r}", case=case)
    rec.outcome(sorted(map(repr, model.items())))



def patterns(rec, case):
    """All patterns of up to two (star) wildcards with all calls of up to two wildcards."""
    from protosym.core.exceptions import BadRuleError, NoEvaluationRuleError
    from protosym.core.sym import AtomFunc, AtomRule, HeadOp, HeadRule, PyFunc1, PyOp1, PyOp2, PyOpN, star

    sc = CAS.sc
    wilds = {"a": sc.a, "b": sc.b, "c": sc.Expr.new_wild("c")}
    parts = {**wilds, "*a": star(sc.a), "*b": star(sc.b), "**a": star(star(sc.a))}
    # no wildcards, although they have the names of some: nothing that is left to a rule
    parts.update({"'a": sc.Symbol("a"), "f'a": sc.Function("a"), "g(a)": sc.g(sc.a)})
    tame = [p for p in parts if p not in ("'a", "f'a", "g(a)")]
    sides = [p for n in range(4) for p in product(tame, repeat=n)]
    sides += [p for n in (1, 2) for p in product(parts, repeat=n) if p not in sides]
    left = {("call", p): sc.g(*[parts[i] for i in p]) for p in sides}
    left.update({("atoms", (p,)): AtomRule[parts[p]] for p in parts})
    left.update({("heads", p): HeadRule(*[parts[i] for i in p]) for p in sides if len(p) == 2})
    left.update({("symbols", (p,)): sc.Symbol[parts[p]] for p in parts})

    def tag(name):
        return lambda *args: name

    ops = {"op1": (PyOp1, 1), "op2": (PyOp2, 2), "opn": (PyOpN, 1), "func1": (PyFunc1, 1), "atom": (AtomFunc, 1), "head": (HeadOp, 2)}
    good = {("call", "op1"), ("call", "op2"), ("call", "opn"), ("atoms", "atom"), ("heads", "head"), ("symbols", "func1")}
    probes = [x, I(1), T.app(g), T.app(g, x), T.app(g, x, y), T.app(f, x)]
    for (kind, given), pattern in left.items():
        for name, (make, count) in ops.items():
            for args in product(parts, repeat=count):
                if name == "opn":
                    fits = given == ("*" + args[0],)
                else:
                    fits = given == args
                want = fits and (kind, name) in good
                if name != "opn" and fits and not set(given) <= set(wilds):
                    continue  # a star for a function without, or no wildcard on both sides: not specified
                if name == "opn" and not set(given + args) <= set(tame):
                    fits = False
                    if given == ("*" + args[0],) or args[0] not in tame and given == args:
                        continue
                for before in (False, True):
                    ev = sc.Expr.new_evaluator("patterns", object)
                    if before:
                        ev[sc.g(star(sc.a))] = PyOpN(tag("0"))(sc.a)
                        ev[sc.Symbol[sc.a]] = PyFunc1(tag("0"))(sc.a)
                    try:
                        ev[pattern] = make(tag("1"))(*[parts[i] for i in args])
                    except BadRuleError:
                        done = False
                    else:
                        done = True
                    rec.add("states")
                    rec.add("transitions")
                    if done != want:
                        rec.fail(f"the rule {name}({', '.join(args)}) for {kind} ({', '.join(given)}) was {'accepted' if done else 'refused'}", case=case)
                    if done:
                        continue
                    for t in probes:
                        wanted = "0" if before and (t == x or t[0] == "@" and t[1] == g) else None
                        try:
                            got = ev(CAS.build(t))
                        except NoEvaluationRuleError:
                            got = None
                        if got != wanted:
                            rec.fail(f"after the refused rule {name}({', '.join(args)}) for {kind} ({', '.join(given)}): {T.show(t)} gives {got!r}", case=case)
                    rec.add("traces_validated_against_impl")
    rec.outcome("patterns")


# What the rule of the middle of an evaluation registers
INSIDE_OPS = ["op g", "op f", "type I", "type S", "generic head", "generic atom", "op f twice", "nothing"]


def register(ev, name, tag):
    B = CORE.build
    if name == "op g":
        ev.add_opn(B(g), lambda args: (tag, "g"))
    elif name.startswith("op f"):
        if name.endswith("twice"):
            ev.add_opn(B(f), lambda args: ("never", "f"))
        ev.add_opn(B(f), lambda args: (tag, "f"))
    elif name == "type I":
        ev.add_atom(CORE.types["I"], lambda v: (tag, "I"))
    elif name == "type S":
        ev.add_atom(CORE.types["S"], lambda v: (tag, "S"))
    elif name == "generic head":
        ev.add_op_generic(lambda h, args: (tag, "head"))
    elif name == "generic atom":
        ev.add_atom_generic(lambda a: (tag, "atom"))


def inside(case, rec):
    """A rule registers rules in the middle of an evaluation: they are in force afterwards."""
    from protosym.core.evaluate import Evaluator, Transformer
    from protosym.core.exceptions import NoEvaluationRuleError

    first, second = (INSIDE_OPS[i] for i in case[1:])
    k = F("k")
    probes = {t: CORE.build(t) for t in (x, I(2), T.app(g, x), T.app(f, x), T.app(F("h"), x), f)}
    names = {x: ("type S", "S"), I(2): ("type I", "I"), T.app(g, x): ("op g", "g"), T.app(f, x): ("op f", "f")}

    class Stop(Exception):
        pass

    def new(kind):
        return CAS.sc.Expr.new_evaluator("inside", object).evaluator if kind == 2 else (Evaluator, Transformer)[kind]()

    for kind, end, same, before, way in product(range(3), range(3), (True, False), (True, False), range(3)):
        ev, other = new(kind), new(kind)
        for table in (ev, other):
            table.add_atom_generic(lambda a: ("0", "atom"))
            table.add_op_generic(lambda h, args: ("0", "head"))
            if before:
                register(table, "op g", "0")
                register(table, "type S", "0")
        target = ev if same else other

        def rule(*args):
            register(target, first, "1")
            if end == 1:
                raise Stop
            if end == 2:
                # an evaluation in the middle, with a registration afterwards
                target(CORE.build(T.app(f, I(2))))
            register(target, second, "2")
            return ("k", "k")

        ev.add_op2(CORE.build(k), rule)
        whole = CORE.build(T.app(f, T.app(k, x, I(2)), T.app(g, y)))
        try:
            (ev, ev.eval_recursive, ev.eval_forward)[way](whole, {})
        except Stop:
            if end != 1:
                raise
        rec.add("states")
        for n, table in enumerate((ev, other)):
            here = table is target
            made = [] if not here else [(first, "1")] if end == 1 else [(first, "1"), (second, "2")]
            model = {"generic atom": "0", "generic head": "0"}
            if before:
                model.update({"op g": "0", "type S": "0"})
            for name, tag in made:
                model["op f" if name.startswith("op f") else name] = tag
            for t, expr in probes.items():
                key, text = names.get(t, (None, None))
                if key not in model:
                    key, text = ("generic head", "head") if t[0] == "@" else ("generic atom", "atom")
                want = (model[key], text)
                for run in (table, table.eval_recursive, table.eval_forward):
                    try:
                        got = run(expr, {})
                    except NoEvaluationRuleError:
                        got = None
                    rec.add("traces_validated_against_impl")
                    if got != want:
                        rec.fail(f"rules {first!r} and {second!r} registered inside a rule of table 0 (kind {kind}, end {end}, same {same}, way {way}): {T.show(t)} on table {n}: {got!r} instead of {want!r}", case=case)
    rec.outcome([first, second])


def CORE_OP1(wild):
    from protosym.core.sym import PyOp1

    return PyOp1(lambda u: u)(wild)


def flat_sum(t):
    """The terms of a sum, without zeros and factors of one."""
    if t[0] == "@" and t[1] == ADD:
        return sorted((u for arg in t[2:] for u in flat_sum(arg)), key=repr)
    if t[0] == "@" and t[1] == MUL:
        factors = [u for arg in t[2:] for u in flat_product(arg)]
        return [] if I(0) in factors else [factors[0] if len(factors) == 1 else (tuple(factors) or I(1))]
    return [] if t == I(0) else [t]


def flat_product(t):
    if t[0] == "@" and t[1] == MUL:
        return [u for arg in t[2:] for u in flat_product(arg)]
    return [] if t == I(1) else [t]


def fresh(rec, case):
    """New and built-in tables are not affected by what happened before."""
    from protosym.core.evaluate import Evaluator, Transformer
    from protosym.core.exceptions import BadRuleError, NoEvaluationRuleError
    from protosym.core.sym import SymDifferentiator

    sc = CAS.sc
    before = [str(sc.sin(sc.x) + sc.x**2), (sc.sin(sc.x) * sc.x).diff(sc.x), (sc.x + 1).count_ops_tree(), sc.sin(1).eval_f64(), sc.sin(sc.x).eval_latex()]
    for op in range(18):
        core_op(op, [Evaluator(), Transformer()], [{}, {}], 0)
    for op in range(26):
        ds = [SymDifferentiator(sc.Expr, add=sc.Add, mul=sc.Mul, zero=sc.zero, one=sc.one) for _ in range(2)]
        try:
            diff_op(op, ds, [{}, {}])
        except TypeError:
            pass
        rec.add("transitions")
    for which, fn, key in sym_ops():
        try:
            fn(sc.Expr.new_evaluator("e", object), "t")
        except BadRuleError:
            if key is not None:
                raise
        rec.add("transitions")
    after = [str(sc.sin(sc.x) + sc.x**2), (sc.sin(sc.x) * sc.x).diff(sc.x), (sc.x + 1).count_ops_tree(), sc.sin(1).eval_f64(), sc.sin(sc.x).eval_latex()]
    if before != after:
        rec.fail(f"built-in tables changed: {before} {after}", case=case)
    for t in PROBES:
        for make, bridge in ((Evaluator, CORE), (lambda: sc.Expr.new_evaluator("n", object), CAS)):
            try:
                got = make()(bridge.build(t))
            except NoEvaluationRuleError:
                continue
            rec.fail(f"a new evaluator evaluates {T.show(t)} to {got}", case=case)
        if Transformer()(CORE.build(t)) is not CORE.build(t):
            rec.fail(f"a new transformer changes {T.show(t)}", case=case)
        rec.add("states")
        rec.add("traces_validated_against_impl")
    d = SymDifferentiator(sc.Expr, add=sc.Add, mul=sc.Mul, zero=sc.zero, one=sc.one)
    for e in (sc.sin(sc.x), sc.x**2, sc.f(sc.x)):
        try:
            got = d(e, sc.x)
        except Exception:
            continue
        rec.fail(f"a new differentiator differentiates {e} to {got}", case=case)
    # registering on the global table is allowed, late and replaceable
    u = sc.Function("late_rule")
    e = u(sc.x) * sc.x
    for rhs in (sc.a, sc.a + 1, sc.Integer(3)):
        sc.diff[u(sc.a), sc.a] = rhs
        got = CAS.read(e.diff(sc.x))
        want = T.derive(CAS.read(e), x, {(F("late_rule"), 0): ((W("a"),), CAS.read(rhs))})
        if not T.same_value(got, want, ENV):
            rec.fail(f"late rule {rhs}: {got} instead of {want}", case=case)
