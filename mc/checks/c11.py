"""C11: user-defined derivative rules are applied as the chain rule."""
from itertools import permutations, product

from mc import terms as T
from mc.terms import F, I, S, W, ADD, MUL, POW, SIN, COS

LEVEL = "model_checking"
RULE = (
    "states: (rule table, expression, symbol) triples; transitions: registrations and differentiations on the real code; traces: derivatives whose exact "
    "value equals that of the chain rule instantiated by the reference, or that fail exactly when a needed rule is missing"
)
ASSUMPTIONS = ["patterns have distinct wildcards as arguments; derivatives are compared by value (see C10)"]
x, y, z = S("x"), S("y"), S("z")
p, q, r, L = F("p"), F("q"), F("r"), F("L")
a, b, c, d = W("a"), W("b"), W("c"), W("d")
class Env(dict):
    def __missing__(self, symbol):
        kind, name = symbol
        self[symbol] = sum(map(ord, name)) % 23 - 11 or 12
        return self[symbol]


ENVS = [Env({x: 3, y: -2, z: 5, S("k"): 4, a: 7, b: -5, c: 11, d: -13}), Env({x: -5, y: 7, z: 2, S("k"): -3, a: 5, b: 3, c: -7, d: 2})]
BUILTIN = {(SIN, 0): ((a,), T.cos(a)), (COS, 0): ((a,), T.mul(I(-1), T.sin(a))), (POW, 0): ((a, b), T.mul(b, T.pow_(a, T.add(b, I(-1)))))}

# right hand sides by arity, written with wildcards 0, 1, 2 of the pattern
RHS = {
    1: [lambda u: u, lambda u: I(1), lambda u: I(0), lambda u: I(5), lambda u: T.mul(u, u), lambda u: T.app(p, u), lambda u: T.app(F("P"), u),
        lambda u: T.app(F("P"), T.app(p, u), u), lambda u: T.add(I(1), T.pow_(T.app(p, u), I(2))), lambda u: S("k"), lambda u: T.cos(u)],
    2: [lambda u, v: u, lambda u, v: v, lambda u, v: I(1), lambda u, v: I(0), lambda u, v: T.mul(u, v), lambda u, v: T.app(q, v, u), lambda u, v: T.app(q, u, v),
        lambda u, v: T.app(F("Q"), u, v), lambda u, v: T.add(T.app(p, u), T.sin(v), u), lambda u, v: T.app(F("Q"), u, u), lambda u, v: T.app(F("Q"), v), lambda u, v: S("k")],
    3: [lambda u, v, w: u, lambda u, v, w: w, lambda u, v, w: T.app(F("R"), u, v, w), lambda u, v, w: T.mul(v, T.app(r, w, u, v)), lambda u, v, w: I(2), lambda u, v, w: T.app(F("R"), w)],
}  # fmt: skip


# Functions, with texts and values in common
HEADS = [p, S("p"), W("p"), F("5"), I(5), S("5"), F("p(y)"), T.app(p, y), T.app(S("p"), y), T.app(p), T.app(T.app(p)), F(""), F("Tr(Function('p'))"), T.app(p, y, z), T.app(F("p"), T.app(p, y))]


def bounds(tier):
    return (
        "unary, binary and ternary functions: all tables of right hand sides out of 11 / 12 x 12 / 6 x 6 x 6 (bare wildcards, constants, zero, the function "
        "itself, swapped and repeated wildcards), wildcard names in every order, every subset of missing rules, arities up to "
        f"{20 if tier == 'thorough' else 9} with one rule per position, 16..520 with rules for some or all; rules for 1..3 arguments with calls of 1..4; distributive heads; all pairs of 15 heads of every kind, some with the same text; expressions with every combination of dependent arguments, with wildcards in them, nested to depth 3 and inside sums, "
        "products and powers; differentiators with other sum, product, zero and one; orders 1 and 2"
    )


def prepare(tier):
    global CAS
    CAS = T.Cas()


def cases(tier):
    for i in range(len(RHS[1])):
        yield ["unary", i]
    for i, j in product(range(len(RHS[2])), repeat=2):
        yield ["binary", i, j]
    for i, j, k in product(range(len(RHS[3])), repeat=3):
        yield ["ternary", i, j, k]
    for missing in range(8):
        yield ["missing", missing]
    for n in range(1, 21 if tier == "thorough" else 10):
        yield ["arity", n]
    for n in (16, 20, 33, 65, 130, 260, 520):
        yield ["large", n]
    for n in range(0, 5):
        yield ["distributive", n]
    for i in range(6):
        yield ["other", i]
    for i in range(len(HEADS)):
        yield ["heads", i]
    for n, m in product(range(1, 4), range(1, 5)):
        yield ["count", n, m]
    yield ["global"]


def terms_for(arity, head, tier=None):
    """Applications of the head with every combination of arguments, nested."""
    pool = [x, y, I(2), T.app(p, x), T.mul(x, y)]
    if arity == 1:
        inner = pool + [T.app(head, T.app(head, x)), T.add(T.app(head, x), y), T.pow_(T.app(head, x), I(2)), T.app(head, T.sin(x)), T.mul(T.app(head, x), T.app(head, y), x)]
        out = [T.app(head, t) for t in inner] + inner
    elif arity == 2:
        out = [T.app(head, u, v) for u in pool for v in pool]
        h = head
        out += [T.app(h, T.app(h, x, y), T.app(h, y, x)), T.app(h, T.app(h, x, x), y), T.mul(T.app(h, x, y), T.app(h, y, x), y), T.add(T.app(h, I(2), T.app(p, x)), x), T.sin(T.app(h, x, x))]
    else:
        small = [x, y, T.app(p, x)]
        out = [T.app(head, *args) for args in product(small, repeat=3)]
        out += [T.app(head, T.app(head, x, y, x), x, I(1)), T.mul(x, T.app(head, y, T.mul(x, x), z))]
    # what is differentiated may contain the wildcards of the rules
    wild = [T.mul(b, x), T.mul(a, x), T.add(d, x), a, b, T.app(p, T.mul(a, b, x))]
    out += [T.app(head, *args) for args in product(wild[: 4 if arity > 2 else 6], repeat=arity)]
    return out


def new_differentiator():
    from protosym.core.sym import SymDifferentiator

    sc = CAS.sc
    dd = SymDifferentiator(sc.Expr, add=sc.Add, mul=sc.Mul, zero=sc.zero, one=sc.one)
    rules = dict(BUILTIN)
    B = CAS.build
    for (head, i), (wilds, rhs) in BUILTIN.items():
        dd[B(T.app(head, *wilds)), B(wilds[i])] = B(rhs)
    return dd, rules


def register(dd, rules, head, index, wilds, rhs, rec):
    B = CAS.build
    dd[B(T.app(head, *wilds)), B(wilds[index])] = B(rhs)
    rules[head, index] = (wilds, rhs)
    rec.add("transitions")


def compare(dd, rules, t, s, rec, case, order=1, zero_ok=True):
    rec.add("states")
    rec.add("transitions")
    want = t
    try:
        for _ in range(order):
            want = T.derive(want, s, rules)
    except T.Unsupported:
        want = None
    if want is None and order > 1:
        return
    try:
        got = dd(CAS.build(t), CAS.build(s), order) if order != 1 else dd(CAS.build(t), CAS.build(s))
    except Exception as e:
        try:
            again = dd(CAS.build(t), CAS.build(s), order)
        except Exception as e2:
            if type(e2) is not type(e):
                rec.fail(f"derivative of {T.show(t)} by {T.show(s)} failed in two ways: {e!r}, {e2!r}", case=case, rules=show_rules(rules))
        else:
            rec.fail(f"derivative of {T.show(t)} by {T.show(s)} failed and then gave {again}", case=case, rules=show_rules(rules))
        if want is not None:
            rec.fail(f"derivative of {T.show(t)} by {T.show(s)} failed: {e!r}", case=case, rules=show_rules(rules))
        rec.add("traces_validated_against_impl")
        return
    if want is None:
        if zero_ok:
            rec.fail(f"derivative of {T.show(t)} by {T.show(s)} is {got} although a rule is missing", case=case, rules=show_rules(rules))
        return
    if dd(CAS.build(t), CAS.build(s), order) is not got:
        rec.fail(f"derivative of {T.show(t)} by {T.show(s)} changed", case=case, rules=show_rules(rules))
    got = CAS.read(got)
    for env in ENVS:
        if T.same_value(got, want, env) is False:
            rec.fail(f"derivative {order} of {T.show(t)} by {T.show(s)} is {T.show(got)[:300]}, expected {T.show(want)[:300]}", case=case, rules=show_rules(rules))
    rec.add("traces_validated_against_impl")
    try:
        rec.outcome(T.value(got, ENVS[0]))
    except T.Undefined:
        pass


def show_rules(rules):
    return {f"{T.show(k[0])}/{k[1]}": (v if isinstance(v, str) else f"{[T.show(w) for w in v[0]]} -> {T.show(v[1])}") for k, v in rules.items()}


def check_case(case, rec):
    kind = case[0]
    if kind == "unary":
        for wild in (a, b, d):
            dd, rules = new_differentiator()
            register(dd, rules, p, 0, (wild,), RHS[1][case[1]](wild), rec)
            for t in terms_for(1, p):
                for s in (x, y, z):
                    compare(dd, rules, t, s, rec, case)
                compare(dd, rules, t, x, rec, case, order=2)
    elif kind == "binary":
        for first, second in product(permutations((a, b, d), 2), permutations((a, b), 2)):
            dd, rules = new_differentiator()
            register(dd, rules, p, 0, (b,), T.app(F("P"), b), rec)
            register(dd, rules, q, 0, first, RHS[2][case[1]](*first), rec)
            register(dd, rules, q, 1, second, RHS[2][case[2]](*second), rec)
            for t in terms_for(2, q):
                for s in (x, y):
                    compare(dd, rules, t, s, rec, case)
            if first == (a, b) == second:
                for t in terms_for(2, q):
                    compare(dd, rules, t, x, rec, case, order=2)
                    compare(dd, rules, t, z, rec, case)
        rec.sample(show_rules({k: v for k, v in rules.items() if k[0] == q}))
    elif kind == "ternary":
        for wilds in permutations((a, b, c)):
            dd, rules = new_differentiator()
            register(dd, rules, p, 0, (c,), T.app(F("P"), c), rec)
            for i in range(3):
                register(dd, rules, r, i, wilds, RHS[3][case[1 + i]](*wilds), rec)
            for t in terms_for(3, r):
                compare(dd, rules, t, x, rec, case)
    elif kind == "missing":
        missing = case[1]
        for head, n in ((p, 1), (q, 2), (r, 3)):
            wilds = (b, a, d)[:n]
            dd, rules = new_differentiator()
            register(dd, rules, F("p2"), 0, (a,), T.app(F("P"), a), rec)
            for i in range(n):
                if not missing >> i & 1:
                    register(dd, rules, head, i, wilds, T.app(F("D"), *wilds, I(i)), rec)
            pool = [x, y, I(2), T.app(F("p2"), x), T.add(x, y)]
            for args in product(pool, repeat=n):
                t = T.app(head, *args)
                for s in (x, y, z):
                    compare(dd, rules, t, s, rec, case)
                    compare(dd, rules, T.mul(y, T.add(t, x)), s, rec, case)
                    compare(dd, rules, T.app(F("p2"), t), s, rec, case)
    elif kind == "arity":
        n = case[1]
        wilds = tuple(W(f"w{i}") for i in range(n))
        for order in (wilds, wilds[::-1]):
            dd, rules = new_differentiator()
            for i in range(n):
                register(dd, rules, F("big"), i, order, T.app(F("D"), I(i), *order), rec)
            for k in range(n):
                args = [y] * n
                args[k] = x
                compare(dd, rules, T.app(F("big"), *args), x, rec, case)
                args[k] = T.app(F("big"), *[x] * n)
                compare(dd, rules, T.app(F("big"), *args), x, rec, case)
                compare(dd, rules, T.app(F("big"), *[S(f"v{i}") if i != k else x for i in range(n)]), x, rec, case) if False else None
            compare(dd, rules, T.app(F("big"), *[x] * n), x, rec, case)
            compare(dd, rules, T.app(F("big"), *[(x, y)[i % 2] for i in range(n)]), x, rec, case)
    elif kind == "large":
        large(case[1], rec, case)
    elif kind == "count":
        count(case[1], case[2], rec, case)
    elif kind == "heads":
        heads(HEADS[case[1]], rec, case)
    elif kind == "distributive":
        distributive(case[1], rec, case)
    elif kind == "other":
        other(case[1], rec, case)
    else:
        global_table(rec, case)


def large(n, rec, case):
    """Functions of many arguments, with rules for some of them or all."""
    wilds = tuple(W(f"w{i}") for i in range(n))
    chosen = sorted({0, 1, 8, 9, 10, n // 2, n - 2, n - 1, *range(n - 1, 0, -n // 6)})
    dd, rules = new_differentiator()
    for i in chosen:
        register(dd, rules, F("large"), i, wilds, (T.app(F("D"), I(i), *wilds), wilds[-1 - i], T.mul(wilds[i], wilds[0]))[i % 3], rec)
    for i in chosen:
        args = [y if j % 3 else S(f"v{j}") for j in range(n)]
        args[i] = x
        compare(dd, rules, T.app(F("large"), *args), x, rec, case)
        args[i] = T.mul(x, y, T.app(F("large"), *args))
        compare(dd, rules, T.app(F("large"), *args), x, rec, case)
    compare(dd, rules, T.app(F("large"), *[x if i in chosen else y for i in range(n)]), x, rec, case)
    compare(dd, rules, T.app(F("large"), *[T.mul(x, S(f"v{i}")) if i in chosen else y for i in range(n)]), x, rec, case)
    if len(chosen) < n:
        compare(dd, rules, T.app(F("large"), *[x] * n), x, rec, case)  # a rule is missing
    # a sum of very many calls
    compare(dd, rules, T.add(*[T.app(F("large"), *[x if j == i else S(f"u{k}_{j % 4}") for j in range(n)]) for k in range(3) for i in chosen]), x, rec, case)


def count(n, m, rec, case):
    """A rule for n arguments says nothing about calls with m."""
    wilds = (b, a, d)[:n]
    for mask, other in product(range(1, 2**n), (False, True)):
        dd, rules = new_differentiator()
        head = F("w")
        for i in range(n):
            if mask >> i & 1:
                register(dd, rules, head, i, wilds, T.app(F("D"), *wilds, I(i)), rec)
        if other and m != n and m <= 3:
            # rules for another number of arguments at the other positions
            for i in range(m):
                if i >= n or not mask >> i & 1:
                    register(dd, rules, head, i, (a, d, b)[:m], T.app(F("E"), *(a, d, b)[:m], I(i)), rec)
        for args in product((x, y, T.sin(x), I(2)), repeat=m):
            t = T.app(head, *args)
            for whole in (t, T.mul(y, T.add(t, x)), T.sin(t)):
                for s in (x, y):
                    known = {k: v for k, v in rules.items() if k[0] != head or len(v[0]) == m}
                    compare(dd, known, whole, s, rec, case)


def heads(h1, rec, case):
    """Each head has its own rules, whatever its kind and its text."""
    for h2 in HEADS:
        if h1 == h2:
            continue
        for both in (0, 1, 2):
            dd, rules = new_differentiator()
            register(dd, rules, h1, 0, (a,), T.app(F("P"), a), rec)
            register(dd, rules, h1, 1, (a, b), T.app(F("Q"), a, b), rec)
            if both == 1:
                register(dd, rules, h2, 0, (a,), T.mul(a, I(3)), rec)
                register(dd, rules, h2, 1, (a, b), T.add(a, b), rec)
            elif both == 2:
                dd.add_distributive_rule(CAS.build(h2))
                t = T.app(h2, x, y)
                got = CAS.read(dd(CAS.build(t), CAS.build(x)))
                if got != T.app(h2, I(1), I(0)):
                    rec.fail(f"distributive head: {T.show(t)} gave {T.show(got)}", case=case)
            for t in (T.app(h1, x), T.app(h2, x), T.app(h1, y, x), T.app(h2, y, x), T.app(h1, T.app(h2, x)), T.app(h2, T.app(h1, x)), T.add(T.app(h1, x), T.app(h2, y, x))):
                if both != 2 or h2 not in {s[1] for s in T.subterms(t) if s[0] == "@"}:
                    compare(dd, rules, t, x, rec, case)


def distributive(n, rec, case):
    pool = [x, y, T.app(p, x), T.sin(x), I(4)]
    for with_rule, args in product((0, 1), product(pool, repeat=min(n, 3))):
        args = list(args) + [x] * (n - len(args))
        dd, rules = new_differentiator()
        register(dd, rules, p, 0, (a,), T.app(F("P"), a), rec)
        dd.add_distributive_rule(CAS.build(L))
        rules[L, None] = "distributive"
        if with_rule and n:
            register(dd, rules, L, 0, (a, b, c, d)[:n], I(9), rec)
        t = T.app(L, *args)
        want = T.app(L, *[T.derive(u, x, rules) for u in args])
        got = CAS.read(dd(CAS.build(t), CAS.build(x)))
        rec.add("states")
        if len(got) != len(want) or got[1] != L:
            rec.fail(f"distributive head: {T.show(t)} gave {T.show(got)}", case=case)
        for env in ENVS:
            if any(T.same_value(u, v, env) is False for u, v in zip(got[2:], want[2:])):
                rec.fail(f"distributive head: {T.show(t)} gave {T.show(got)}", case=case)
        rec.add("traces_validated_against_impl")
        if n:
            nested = T.app(L, t, x, T.app(L))
            got = CAS.read(dd(CAS.build(nested), CAS.build(x)))
            if got[1] != L or len(got) != 5 or got[4] != T.app(L) or got[2][1] != L or len(got[2]) != n + 2 or got[3] != I(1):
                rec.fail(f"distributive head: {T.show(nested)} gave {T.show(got)}", case=case)
            # no rule for an undeclared head even if its arguments are lists
            compare(dd, rules, T.app(F("nolist"), *args), x, rec, case)


def other(i, rec, case):
    """Differentiators with their own sum, product, zero and one."""
    from protosym.core.sym import Sym, SymDifferentiator

    sc = CAS.sc
    if i < 3:
        cls, wrap = sc.Expr, (lambda tree: sc.Expr(tree))
    else:

        class Other(Sym):
            pass

        cls, wrap = Other, (lambda tree: Other(tree))
    plus, times, nul, eins = F("Plus"), F("Times"), [S("nul"), I(0), T.app(F("nul"))][i % 3], [I(1), S("eins"), I(1)][i % 3]

    def B(t):
        return wrap(CAS.build(t).rep)

    dd = SymDifferentiator(cls, add=B(plus), mul=B(times), zero=B(nul), one=B(eins))
    rules = {}
    for head, wilds, rhs in ((p, (a,), T.app(F("P"), a)), (q, (a, b), T.app(F("Q"), a, b))):
        for j in range(len(wilds)):
            dd[B(T.app(head, *wilds)), B(wilds[j])] = B(T.app(rhs[1], *rhs[2:], I(j)))
            rules[head, j] = (wilds, T.app(rhs[1], *rhs[2:], I(j)))

    # compare in the usual notation
    back = {plus: ADD, times: MUL, nul: I(0), eins: I(1)}
    atoms = [x, y, I(3)]
    level = atoms + [T.app(p, x), T.app(times, x, x, y), T.app(plus, x, y, x), T.app(q, x, y)]
    pool = level + [T.app(h, *args) for h, n in ((p, 1), (q, 2), (plus, 2), (times, 2), (times, 3)) for args in product(level, repeat=n)]
    for t in pool:
        rec.add("states")
        rec.add("transitions")
        got = dd(B(t), B(x))
        if type(got) is not cls:
            rec.fail(f"the derivative has class {type(got).__name__}", case=case)
        got = T.substitute(T.read_tree(got.rep, CAS.kinds), back)
        want = T.derive(T.substitute(t, back), x, rules)
        for env in ENVS:
            if T.same_value(got, want, env) is False:
                rec.fail(f"other heads: derivative of {T.show(t)} is {T.show(got)[:300]}", case=case)
        rec.add("traces_validated_against_impl")
    # the usual names mean nothing here
    for h in (ADD, MUL, SIN, POW):
        try:
            got = dd(B(T.app(h, x, x)), B(x))
        except Exception:
            rec.add("traces_validated_against_impl")
            continue
        rec.fail(f"a rule for {T.show(h)} came from nowhere: {got}", case=case)


def global_table(rec, case):
    """Rules added to the built-in table, as the documentation shows."""
    sc = CAS.sc
    rules = dict(BUILTIN)
    tan, atan2 = F("tan"), F("my_atan2")
    X = sc.x
    register(sc.diff, rules, tan, 0, (a,), T.add(I(1), T.pow_(T.app(tan, a), I(2))), rec)
    register(sc.diff, rules, atan2, 0, (b, a), T.mul(a, T.pow_(T.add(T.pow_(a, I(2)), T.pow_(b, I(2))), I(-1))), rec)
    register(sc.diff, rules, atan2, 1, (a, b), T.mul(I(-1), a, T.pow_(T.add(T.pow_(a, I(2)), T.pow_(b, I(2))), I(-1))), rec)
    level = [x, y, T.app(tan, x), T.mul(x, y), T.sin(x)]
    pool = [T.app(tan, u) for u in level] + [T.app(atan2, u, v) for u in level for v in level] + [T.app(tan, T.app(atan2, T.app(tan, x), y))]
    for t in pool:
        for s in (x, y):
            for order in (1, 2):
                compare(sc.diff, rules, t, s, rec, case, order)
                got = CAS.build(t).diff(CAS.build(s), order)
                if got is not sc.diff(CAS.build(t), CAS.build(s), order):
                    rec.fail("method and operator disagree", case=case)
    m = sc.Matrix([[CAS.build(t)] for t in pool])
    for t, row in zip(pool, m.diff(X).tolist()):
        if row[0] is not CAS.build(t).diff(X):
            rec.fail("matrix and expression disagree", case=case)
    assert L
