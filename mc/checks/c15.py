"""C15: binary expansion only regroups sums and products."""
import functools
from itertools import product

from mc import terms as T
from mc.terms import F, I, S, ADD, MUL, POW, SIN, LIST

LEVEL = "model_checking"
RULE = (
    "states: expression DAGs with sums and products of every arity; transitions: expansions on the real code; traces: results that are the left fold of the "
    "reference, are unchanged by a second expansion and have the same value"
)
ASSUMPTIONS = ["sums and products of no operands are outside the property"]
x, y, z, f = S("x"), S("y"), S("z"), F("f")
ENV = {x: 3, y: -2, z: 7}


def bounds(tier):
    k = 4 if tier == "thorough" else 3
    return (
        f"all DAGs with <= {k - 1} compounds of Add and Mul of 1..4 operands, pow, sin, f/0, List over x, y, 2 and <= {k} with 1..3 operands over x; arities "
        "1..200 of each; every order of 3 kinds of operands up to 7, of 2 up to 9; nesting depth 0..100; sharing depth 0..150; Add and Mul used as arguments and as parts of heads; sums, products and lists of 260..5000 operands"
    )


def prepare(tier):
    global CAS, POOL
    CAS = T.Cas()
    pool = {}
    k = 4 if tier == "thorough" else 3
    ops = [(ADD, n) for n in range(1, 5)] + [(MUL, n) for n in range(1, 5)] + [(POW, 2), (SIN, 1), (f, 0), (LIST, 2)]
    for t in T.flat(T.dag_terms([x, y, I(2)] if tier == "thorough" else [x, I(2)], ops, k - 1)):
        pool[t] = None
    ops = [(ADD, 1), (ADD, 2), (ADD, 3), (MUL, 2), (MUL, 3), (POW, 2), (SIN, 1)]
    for t in T.flat(T.dag_terms([x], ops, k if tier == "quick" else 3)):
        pool[t] = None
    for t in T.flat(T.dag_terms([x, ADD], [(ADD, 3), (MUL, 1), (f, 1)], 2, compound_heads=True)):
        pool[t] = None
    POOL = list(pool)


def cases(tier):
    for i in range(0, len(POOL), 200):
        yield ["pool", i]
    for n in range(1, 201):
        yield ["arity", n]
    for n in (260, 520, 1030, 2060, 5000):
        yield ["large", n]
    for n in range(101):
        yield ["deep", n]
    for n in range(151):
        yield ["shared", n]
    for n in range(2, 10):
        for first in range(3):
            yield ["mixed", n, first]
    for p, q, r in product(range(1, 9), repeat=3):
        yield ["nested", p, q, r]


def expand(t, memo):
    if t[0] != "@":
        return t
    r = memo.get(t)
    if r is None:
        args = [expand(a, memo) for a in t[2:]]
        if t[1] in (ADD, MUL) and args:
            r = args[0]
            for a in args[1:]:
                r = ("@", t[1], r, a)
        else:
            r = ("@", t[1], *args)
        memo[t] = r
    return r


def check(t, rec, case):
    if any(s[0] == "@" and s[1] in (ADD, MUL) and len(s) == 2 for s in T.subterms(t)):
        return
    rec.add("states")
    e = CAS.build(t)
    want_t = expand(t, {})
    want = CAS.fresh(want_t)
    for name, got in (("method", e.bin_expand()), ("function", CAS.sc.Expr(CAS.sc.bin_expand(e.rep)))):
        rec.add("transitions")
        rec.add("traces_validated_against_impl")
        if got is not want:
            rec.fail(f"{name}: {T.show(t)} expands to {T.show(CAS.read(got))[:300]} instead of {T.show(want_t)[:300]}", case=case)
    if want.bin_expand() is not want:
        rec.fail(f"expanding {T.show(t)} again changes it", case=case)
    rec.add("transitions")
    try:
        if T.value(t, ENV) != T.value(CAS.read(got), ENV) and T.differ(t, CAS.read(got), ENV):
            rec.fail(f"expanding {T.show(t)} changes its value", case=case)
    except (T.Undefined, KeyError):
        pass
    rec.outcome(hash(want_t))


def check_case(case, rec):
    kind = case[0]
    sc = CAS.sc
    if kind == "pool":
        for t in POOL[case[1] : case[1] + 200]:
            check(t, rec, ["pool", case[1], T.show(t)])
        rec.sample(T.show(t))
    elif kind == "large":
        n = case[1]
        xs = [sc.Symbol(f"x{i}") for i in range(n)]
        for h, other in ((sc.Add, sc.Mul), (sc.Mul, sc.Add)):
            for args in (xs, xs[::-1], [sc.x] * n, [sc.x, sc.y] * (n // 2), [sc.Integer(i) for i in range(n)], [other(v, sc.x) for v in xs], [sc.sin(v) for v in xs]):
                want = functools.reduce(h, args)
                outer = functools.reduce(h, [sc.x, sc.y, want])
                for e, right in ((h(*args), want), (h(sc.x, sc.y, h(*args)), outer), (sc.List(*args, h(*args)), sc.List(*args, want)), (sc.sin(h(*args)), sc.sin(want)), (want, want)):
                    rec.add("states")
                    rec.add("transitions")
                    rec.add("traces_validated_against_impl")
                    if e.bin_expand() is not right:
                        rec.fail(f"{n} operands: wrong expansion", case=case)
            inner = functools.reduce(other, xs)
            if h(*[other(*xs)] * n).bin_expand() is not functools.reduce(h, [inner] * n):
                rec.fail(f"{n} sums of {n} operands: wrong expansion", case=case)
    elif kind == "arity":
        n = case[1]
        xs = [S(f"x{i}") for i in range(n)]
        for h in (ADD, MUL):
            other = MUL if h == ADD else ADD
            for args in (xs, xs[::-1], [x] * n, [(x, y)[i % 2] for i in range(n)], [T.app(other, v, x, v) for v in xs], [I(i) for i in range(n)]):
                t = T.app(h, *args)
                got = CAS.build(t).bin_expand()
                rec.add("states")
                rec.add("transitions")
                rec.add("traces_validated_against_impl")
                if got is not CAS.fresh(expand(t, {})):
                    rec.fail(f"{n} operands: wrong expansion", case=case)
            for h2 in (LIST, f, SIN, POW):
                t = T.app(h2, *xs, T.app(h, *xs))
                got = CAS.build(t).bin_expand()
                rec.add("transitions")
                if got is not CAS.fresh(expand(t, {})):
                    rec.fail(f"{n} operands inside {T.show(h2)}: wrong expansion", case=case)
    elif kind == "nested":
        p, q, r = case[1:]
        t = T.app(ADD, *[T.app(MUL, *[T.app(ADD, *[S(f"x{k}") for k in range(r)], T.sin(x)) for j in range(q)], S(f"y{i}")) for i in range(p)])
        check(t, rec, case)
        t = T.app(MUL, *[T.app(MUL, *[T.app(MUL, *[S(f"x{j + k}") for k in range(r)]) for j in range(q)]) for i in range(p)])
        check(t, rec, case)
    elif kind == "mixed":
        # every order of kinds of operands: integers, symbols, compounds
        n, first = case[1:]
        kinds = 3 if n <= 7 else 2
        if first >= kinds:
            return
        for colours in product(range(kinds), repeat=n - 1):
            for distinct in (False, True):
                args = []
                for i, c in enumerate((first, *colours)):
                    j = i if distinct else 0
                    args.append((T.sin(S(f"x{j}")), S(f"x{j}"), I(j))[c])
                for h in (ADD, MUL):
                    check(T.app(h, *args), rec, case)
            if n <= 5:
                inner = [(T.mul(x, y), T.add(x, z, y), I(2))[c] for c in (first, *colours)]
                check(T.add(*inner), rec, case)
                check(T.mul(*inner), rec, case)
    elif kind == "deep":
        t = u = x
        for i in range(case[1]):
            t = T.app((ADD, MUL)[i % 2], y, t, I(i))
            u = T.sin(T.app((MUL, ADD)[i % 2], u))
        check(t, rec, case)
        check(u, rec, case)
    else:
        # shared families are built directly (as trees they would be exponential)
        e = w = sc.x
        for i in range(case[1]):
            h = (sc.Add, sc.Mul)[i % 2]
            e = h(e, sc.y, e)
            w = h(h(w, sc.y), w)
        rec.add("states")
        rec.add("transitions", 2)
        rec.add("traces_validated_against_impl")
        if e.bin_expand() is not w or w.bin_expand() is not w:
            rec.fail(f"sharing depth {case[1]}: wrong expansion", case=case)
