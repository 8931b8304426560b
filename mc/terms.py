"""Reference terms: plain nested tuples, independent of the code under test.

    ("I", 3)  ("S", "x")  ("F", "f")  ("W", "a")        atoms
    ("@", head, arg1, ...)                               compounds

plus enumeration, conversion to and from the real objects, and the simple
reference semantics used by several checks.
"""

from __future__ import annotations

import hashlib
from fractions import Fraction
from itertools import product


def I(n):  # noqa: E743
    return ("I", n)


def S(name):
    return ("S", name)


def F(name):
    return ("F", name)


def W(name):
    return ("W", name)


def app(head, *args):
    return ("@", head, *args)


ADD, MUL, POW, SIN, COS, LIST = F("Add"), F("Mul"), F("pow"), F("sin"), F("cos"), F("List")


def add(*a):
    return ("@", ADD, *a)


def mul(*a):
    return ("@", MUL, *a)


def pow_(a, b):
    return ("@", POW, a, b)


def sin(a):
    return ("@", SIN, a)


def cos(a):
    return ("@", COS, a)


def lst(*a):
    return ("@", LIST, *a)


def is_atom(t):
    return t[0] != "@"


def head(t):
    return t[1]


def args(t):
    return t[2:]


def tup(x):
    """Terms read back from JSON."""
    return tuple(tup(i) for i in x) if isinstance(x, (list, tuple)) else x


def show(t):
    """Compact text of a term for messages."""
    if is_atom(t):
        return f"{t[1]}"
    return f"{show(t[1])}({', '.join(show(a) for a in t[2:])})"


# ---------------------------------------------------------------- structure


def subterms(t, heads=False, seen=None):
    """Set of distinct subterms (reached through heads too if asked)."""
    if seen is None:
        seen = set()
    if t in seen:
        return seen
    seen.add(t)
    if t[0] == "@":
        for c in t[1:] if heads else t[2:]:
            subterms(c, heads, seen)
    return seen


def reachable(t, heads, exclude):
    """Subterms reachable from t without entering an excluded one."""
    if t in exclude:
        return set()
    seen = {t}
    todo = [t]
    while todo:
        s = todo.pop()
        if s[0] == "@":
            for c in s[1:] if heads else s[2:]:
                if c not in exclude and c not in seen:
                    seen.add(c)
                    todo.append(c)
    return seen


def atoms_of(t, heads=False):
    return {s for s in subterms(t, heads) if s[0] != "@"}


def tree_size(t):
    return 1 + sum(tree_size(a) for a in t[2:]) if t[0] == "@" else 1


def substitute(t, mapping, memo=None):
    """Simultaneous replacement, heads included, outermost first."""
    if memo is None:
        memo = {}
    if t in mapping:
        return mapping[t]
    if t[0] != "@":
        return t
    r = memo.get(t)
    if r is None:
        r = memo[t] = ("@", *(substitute(c, mapping, memo) for c in t[1:]))
    return r


# -------------------------------------------------------------- enumeration


def dag_terms(leaves, ops, kmax, compound_heads=False):
    """All terms with at most kmax distinct compound subterms, by that number.

    ``ops`` is a list of (head term, arity).  With ``compound_heads`` every
    smaller compound is also used as a head with one argument, or with each
    number of arguments that it lists.
    """
    by_size = [[(t, frozenset()) for t in leaves]]
    for k in range(1, kmax + 1):
        found = {}
        pool = [p for level in by_size for p in level]

        def close(h, prefix, sub, arity):
            if arity == 0:
                t = ("@", h, *prefix)
                if len(sub) == k - 1 and t not in sub and t not in found:
                    found[t] = sub | {t}
                return
            for a, asub in pool:
                s = sub | asub
                if len(s) <= k - 1:
                    close(h, prefix + (a,), s, arity - 1)

        for h, arity in ops:
            close(h, (), frozenset(), arity)
        if compound_heads:
            for h, hsub in pool:
                if h[0] == "@" and len(hsub) <= k - 1:
                    for n in (1,) if compound_heads is True else compound_heads:
                        close(h, (), hsub, n)
        by_size.append(list(found.items()))
    return [[t for t, _ in level] for level in by_size]


def flat(levels):
    return [t for level in levels for t in level]


def doubling(op2, leaf, n):
    """Heavily shared family: n levels, each using the previous one twice."""
    t = leaf
    for _ in range(n):
        t = ("@", op2, t, t)
    return t


# ------------------------------------------------------ reference semantics


class Undefined(Exception):
    """The reference value does not exist at this point."""


def _pseudo(name, *vals):
    """A fixed arbitrary rational for an opaque function application."""
    digest = hashlib.blake2b(repr((name, vals)).encode(), digest_size=4).digest()
    n = int.from_bytes(digest, "big")
    return Fraction(n % 4093 - 2046, (n >> 16) % 7 + 1) or Fraction(5, 3)


def power(a, b):
    if b.denominator == 1:
        if a == 0 and b < 0:
            raise Undefined
        size = max(a.numerator.bit_length(), a.denominator.bit_length())
        if size * abs(b) <= 4000:
            return a ** int(b)
    return _pseudo("pow", a, b)


def value(t, env, memo=None):
    """Exact value of a term; sin, cos and unknown heads are opaque functions."""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t[0] == "@":
        h = t[1]
        vals = [value(a, env, memo) for a in t[2:]]
        if any(isinstance(v, tuple) for v in vals) and h != LIST:
            r = _pseudo(repr(h), *vals)
        elif h == ADD:
            r = sum(vals, Fraction(0))
        elif h == MUL:
            r = Fraction(1)
            for v in vals:
                r *= v
        elif h == POW and len(vals) == 2:
            r = power(*vals)
        elif h == LIST:
            r = tuple(vals)
        else:
            r = _pseudo(repr(h), *vals)
    elif t[0] == "I":
        r = Fraction(t[1])
    else:
        r = Fraction(env[t])
    memo[t] = r
    return r


# ------------------------------------------- bridge to the core level (Tree)


class Core:
    """Build and read protosym.core trees with a private set of atom types."""

    def __init__(self):
        from protosym.core.atom import AtomType
        from protosym.core.tree import Tr

        self.Tr = Tr
        self.types = {
            "I": AtomType("Integer", int),
            "S": AtomType("Symbol", str),
            "F": AtomType("Function", str),
            "W": AtomType("Wild", str),
        }
        self.kinds = {id(v): k for k, v in self.types.items()}
        self.memo = {}

    def build(self, t):
        """The tree of a term; everything built is kept alive by the memo."""
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.fresh(t, self.build)
        return r

    def fresh(self, t, rec=None):
        if t[0] == "@":
            rec = rec or self.fresh
            return rec(t[1])(*[rec(a) for a in t[2:]])
        return self.Tr(self.types[t[0]](t[1]))

    def read(self, tree):
        return read_tree(tree, self.kinds)


def read_tree(tree, kinds, memo=None):
    """Reference term of a real tree, by walking children and value only."""
    if memo is None:
        memo = {}
    todo = [tree]
    while todo:
        t = todo[-1]
        if id(t) in memo:
            todo.pop()
            continue
        children = t.children
        if not isinstance(children, tuple):
            raise AssertionError(f"children is {type(children).__name__}")
        if not children:
            atom = t.value
            kind = kinds.get(id(atom.atom_type))
            memo[id(t)] = (kind if kind is not None else repr(atom.atom_type), atom.value)
            todo.pop()
            continue
        missing = [c for c in children if id(c) not in memo]
        if missing:
            todo.extend(missing)
        else:
            memo[id(t)] = ("@", *(memo[id(c)] for c in children))
            todo.pop()
    return memo[id(tree)]


class Cas:
    """Build and read protosym.simplecas expressions."""

    def __init__(self):
        import protosym.simplecas as sc
        from protosym.core.sym import Sym

        self.sc = sc
        self.makers = {"I": sc.Integer, "S": sc.Symbol, "F": sc.Function, "W": sc.Expr.new_wild}
        # The kind of an atom is found from a probe of each kind.
        self.probes = [sc.Integer(0), sc.Symbol("x"), sc.Function("f"), sc.Expr.new_wild("a")]
        self.kinds = {id(p.rep.value.atom_type): k for p, k in zip(self.probes, "ISFW")}
        self.memo = {}
        assert issubclass(sc.Expr, Sym)

    def build(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.fresh(t, self.build)
        return r

    def fresh(self, t, rec=None):
        if t[0] == "@":
            rec = rec or self.fresh
            return rec(t[1])(*[rec(a) for a in t[2:]])
        return self.makers[t[0]](t[1])

    def read(self, expr):
        return read_tree(expr.rep, self.kinds)


def deep(make, leaf, n):
    t = leaf
    for _ in range(n):
        t = make(t)
    return t


def tuples(pool, n):
    return product(pool, repeat=n)


# ------------------------------------------------------- float evaluation


def fvalue(t, env, memo=None):
    """Float value of a term and the largest magnitude met on the way.

    Raises Undefined where the value does not exist, overflows, or is too
    badly conditioned to be compared (sine of a large number).
    """
    import math

    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    try:
        if t[0] == "@":
            h = t[1]
            pairs = [fvalue(a, env, memo) for a in t[2:]]
            vals = [v for v, _ in pairs]
            scale = max([m for _, m in pairs], default=0.0)
            if h == ADD:
                v = math.fsum(vals)
            elif h == MUL:
                v = math.prod(vals)
            elif h == POW:
                v = math.pow(*vals)
            elif h in (SIN, COS):
                if scale > 1e3:
                    raise Undefined
                v = (math.sin if h == SIN else math.cos)(*vals)
            else:
                raise Undefined
        elif t[0] == "I":
            v, scale = float(t[1]), 0.0
        else:
            v, scale = float(env[t]), 0.0
    except (OverflowError, ValueError, ZeroDivisionError):
        raise Undefined from None
    if v != v or v in (math.inf, -math.inf):
        raise Undefined
    r = memo[t] = (v, max(scale, abs(v)))
    return r


def close(got, want, scale):
    return abs(got - want) <= 1e-9 * max(scale, abs(want), 1e-300) or got == want


def scaled(t, env):
    """Like fvalue, refusing values whose conditioning is hopeless."""
    v, scale = fvalue(t, env)
    if scale > 1e12:
        raise Undefined
    return v, scale


# ---------------------------------------------------- reference derivative


class Unsupported(Exception):
    """No derivative rule applies to a part that depends on the variable."""


ZERO, ONE = I(0), I(1)


def derive(t, s, rules=None, memo=None):
    """Textbook derivative as a term.

    ``rules`` maps (head, index) to (wildcards, right hand side) and
    (head, None) to "distributive".
    """
    rules = rules or {}
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t == s:
        r = ONE
    elif t[0] != "@":
        r = ZERO
    else:
        h, a = t[1], t[2:]
        if h == LIST or rules.get((h, None)) == "distributive":
            r = ("@", h, *(derive(c, s, rules, memo) for c in a))
        elif not any(s in subterms(c) for c in a):
            r = ZERO
        elif h == ADD:
            r = add(*(derive(c, s, rules, memo) for c in a))
        elif h == MUL:
            r = add(*(mul(*a[:i], derive(c, s, rules, memo), *a[i + 1 :]) for i, c in enumerate(a)))
        else:
            parts = []
            for i, c in enumerate(a):
                if s not in subterms(c):
                    continue
                rule = rules.get((h, i))
                if rule is None:
                    if h == SIN:
                        outer = cos(c)
                    elif h == COS:
                        outer = mul(I(-1), sin(c))
                    elif h == POW and i == 0 and len(a) == 2:
                        outer = mul(a[1], pow_(c, add(a[1], I(-1))))
                    else:
                        raise Unsupported
                else:
                    wilds, rhs = rule
                    outer = substitute(rhs, dict(zip(wilds, a)))
                parts.append(mul(outer, derive(c, s, rules, memo)))
            r = add(*parts)
    memo[t] = r
    return r


def mvalue(t, env, memo=None):
    """Value to 60 digits; unknown heads are fixed generic analytic functions."""
    import mpmath

    mp = mpmath.mp
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t[0] == "@":
        h = t[1]
        vals = [mvalue(a, env, memo) for a in t[2:]]
        if any(isinstance(v, tuple) for v in vals) and h != LIST:
            raise Undefined
        if h == ADD:
            r = mp.fsum(vals)
        elif h == MUL:
            r = mp.fprod(vals)
        elif h == POW and len(vals) == 2:
            if vals[0] == 0 and (vals[1].imag != 0 or vals[1].real < 0):
                raise Undefined
            if abs(vals[1]) > 1e6 or abs(vals[0]) > 1e2000:
                raise Undefined
            r = mp.power(*vals)
        elif h in (SIN, COS) and len(vals) == 1:
            if abs(vals[0]) > 1e6:
                raise Undefined
            r = (mp.sin if h == SIN else mp.cos)(vals[0])
        elif h == LIST:
            r = tuple(vals)
        else:
            seed = int.from_bytes(hashlib.blake2b(repr(h).encode(), digest_size=2).digest(), "big")
            if any(abs(v) > 1e6 for v in vals):
                raise Undefined
            r = mp.fsum(mp.sin(v * (i + 2) / 7 + seed) * mp.cos(v + i) for i, v in enumerate(vals)) + seed
    elif t[0] == "I":
        r = mp.mpc(t[1])
    else:
        r = mp.mpc(env[t])
    memo[t] = r
    return r


def differ(t, u, env):
    """True if the values are certainly different (to 60 digits)."""
    import mpmath

    with mpmath.mp.workdps(120):
        point = {k: mpmath.mpf(v) + mpmath.mpf(1) / 7 if v else mpmath.mpf(0) for k, v in env.items()}
        try:
            a, b = mvalue(t, point), mvalue(u, point)
        except (Undefined, ZeroDivisionError, OverflowError, ValueError):
            return False
        if not isinstance(a, tuple):
            a = (a,)
        if not isinstance(b, tuple):
            b = (b,)
        if len(a) != len(b):
            return True
        flat = [(p, q) for p, q in zip(a, b)]
        for p, q in flat:
            if isinstance(p, tuple) or isinstance(q, tuple):
                return p != q
            if abs(p - q) > mpmath.mpf(10) ** -60 * (1 + max(abs(p), abs(q))):
                return True
        return False


def same_value(t, u, env):
    """Compare two terms at a point; None if undefined there.

    Exact pseudo-values decide quickly that terms agree (there sine, cosine and
    general powers are arbitrary functions without identities); a difference
    counts only if real values differ as well.
    """
    if t == u:
        try:
            value(t, env)
        except Undefined:
            return None
        return True
    try:
        if value(t, env) == value(u, env):
            return True
    except Undefined:
        return None
    return not differ(t, u, env)
