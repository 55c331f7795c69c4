"""Hash-consed term language with canonical forms.

Sorts: 'I' (mathematical integers), 'R' (reals), 'B' (booleans), 'L' (vector lambda).
Numeric terms are kept in polynomial normal form over atoms; finite sums over
symbolic ranges are kept in an "einsum" normal form (flattened, additive bodies
split, connected components factored, bound variables canonically labelled), so
that most equalities between array programs are decided by term identity.
"""
from fractions import Fraction
from itertools import permutations, count as _count
import math

_table = {}
_ids = _count()


class T:
    __slots__ = ("op", "args", "sort", "id", "fv", "h", "__weakref__")

    def __repr__(self):
        return pretty(self)

    # operators (used by the interpreter and by specifications)
    def __add__(self, o): return add(self, lift(o)) if okn(o) else NotImplemented
    __radd__ = __add__
    def __sub__(self, o): return sub(self, lift(o)) if okn(o) else NotImplemented
    def __rsub__(self, o): return sub(lift(o), self) if okn(o) else NotImplemented
    def __mul__(self, o): return mul(self, lift(o)) if okn(o) else NotImplemented
    __rmul__ = __mul__
    def __truediv__(self, o): return div(self, lift(o)) if okn(o) else NotImplemented
    def __rtruediv__(self, o): return div(lift(o), self) if okn(o) else NotImplemented
    def __floordiv__(self, o): return idiv(self, lift(o)) if okn(o) else NotImplemented
    def __rfloordiv__(self, o): return idiv(lift(o), self) if okn(o) else NotImplemented
    def __mod__(self, o): return imod(self, lift(o)) if okn(o) else NotImplemented
    def __rmod__(self, o): return imod(lift(o), self) if okn(o) else NotImplemented
    def __pow__(self, o): return power(self, o if isinstance(o, int) else lift(o)) if okn(o) else NotImplemented
    def __rpow__(self, o): return power(lift(o), self) if okn(o) else NotImplemented
    def __neg__(self): return neg(num_of(self))
    def __pos__(self): return self
    def __abs__(self): return absT(self)
    def __lt__(self, o): return lt(self, lift(o)) if okn(o) else NotImplemented
    def __le__(self, o): return le(self, lift(o)) if okn(o) else NotImplemented
    def __gt__(self, o): return lt(lift(o), self) if okn(o) else NotImplemented
    def __ge__(self, o): return le(lift(o), self) if okn(o) else NotImplemented
    def __and__(self, o): return and_(self, lift(o))
    __rand__ = __and__
    def __or__(self, o): return or_(self, lift(o))
    __ror__ = __or__
    def __invert__(self): return not_(self)

    def __bool__(self):
        if self is TRUE:
            return True
        if self is FALSE:
            return False
        if self.op == "num":
            return self.args[0] != 0
        raise SymbolicBool(self)


class SymbolicBool(Exception):
    def __init__(self, t):
        Exception.__init__(self, "truth value of a symbolic term: %s" % (t,))
        self.t = t


EMPTY = frozenset()


def _mk(op, args, sort, fv, h):
    key = (op, args, sort)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.sort, t.fv, t.h = op, args, sort, fv, h
        t.id = next(_ids)
        _table[key] = t
    return t


def _join(ts):
    fv = EMPTY
    h = 0
    for t in ts:
        if t.fv:
            fv = (fv | t.fv) if fv else t.fv
        if t.h > h:
            h = t.h
    return fv, h


# ---------------------------------------------------------------- leaves
def num(x):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        f = Fraction(x)
    elif isinstance(x, Fraction):
        f = x
    else:
        x = float(x)
        if x != x or x in (float("inf"), float("-inf")):
            # infinities are kept symbolic
            name = "nan" if x != x else ("inf" if x > 0 else "-inf")
            if name == "-inf":
                return neg(var("inf", "R"))
            return var(name, "R")
        f = Fraction(x)
        # decimal literals are read as the exact decimal they denote
        g = Fraction(repr(x))
        f = g
    return _mk("num", (f,), "I" if f.denominator == 1 else "R", EMPTY, 0)


def var(name, sort):
    key = ("var", (name,), sort)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.sort, t.h = "var", (name,), sort, 0
        t.id = next(_ids)
        t.fv = frozenset([t])
        _table[key] = t
    return t


def bvar(i, sort="I"):
    return _mk("bv", (i,), sort, EMPTY, 0)


_fresh = _count()


def fresh(prefix="v", sort="I"):
    return var("%s!%d" % (prefix, next(_fresh)), sort)


TRUE = _mk("true", (), "B", EMPTY, 0)
FALSE = _mk("false", (), "B", EMPTY, 0)
ZERO = num(0)
ONE = num(1)
NAT = set()      # variables known to be non-negative (dimensions)
_POS = set()     # variables known to be >= 1


def okn(o):
    import numpy as np
    return isinstance(o, (T, int, float, Fraction, bool, np.bool_, np.integer, np.floating))


def lift(x):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, (int, Fraction, float)):
        return num(x)
    import numpy as np
    if isinstance(x, np.bool_):
        return TRUE if bool(x) else FALSE
    if isinstance(x, np.integer):
        return num(int(x))
    if isinstance(x, np.floating):
        return num(float(x))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x[()])
    raise TypeError("cannot lift %r" % (type(x),))


def num_of(t):
    """boolean terms used as numbers"""
    if t.sort == "B":
        return ite(t, ONE, ZERO)
    return t


def is_num(t):
    return t.op == "num"


def val(t):
    return t.args[0]


# ---------------------------------------------------------------- polynomials
def _poly_items(t):
    """dict mono -> coef"""
    if t.op == "num":
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == "poly":
        return dict(t.args)
    return {((t, 1),): Fraction(1)}


def _mono_key(m):
    return tuple((a.id, e) for a, e in m)


def _from_items(d, sort=None):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(d.items(), key=lambda mc: _mono_key(mc[0])))
    if sort is None:
        sort = "I"
        for m, c in items:
            if c.denominator != 1 or any(a.sort != "I" for a, e in m):
                sort = "R"
                break
    fv, h = _join([a for m, c in items for a, e in m])
    return _mk("poly", items, sort, fv, h)


def add(*ts):
    d = {}
    for t in ts:
        t = num_of(t)
        for m, c in _poly_items(t).items():
            d[m] = d.get(m, 0) + c
    return _from_items(d)


def scale(t, q):
    if q == 1:
        return t
    return _from_items({m: c * q for m, c in _poly_items(num_of(t)).items()})


def neg(t):
    return scale(t, Fraction(-1))


def sub(a, b):
    return add(a, neg(num_of(b)))


def _mono_mul(m1, m2):
    """returns T (may be poly when sqrt collapses) or mono"""
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    extra = None
    # cancel inv(x)*x ; sqrt(x)^2 = x
    for a in list(d):
        if a.op == "inv" and a in d:
            x = a.args[0]
            if x in d:
                k = min(d[a], d[x])
                d[a] -= k
                d[x] -= k
    for a in list(d):
        if a.op == "fn" and a.args[0] == "sqrt" and d[a] >= 2:
            k = d[a] // 2
            d[a] -= 2 * k
            for _ in range(k):
                extra = a.args[1] if extra is None else mul(extra, a.args[1])
    m = tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda ae: ae[0].id))
    return m, extra


def mul(a, b):
    a = num_of(a)
    b = num_of(b)
    if a.op == "num":
        return scale(b, a.args[0]) if a.args[0] != 0 else ZERO
    if b.op == "num":
        return scale(a, b.args[0]) if b.args[0] != 0 else ZERO
    pa, pb = _poly_items(a), _poly_items(b)
    # (p) * inv(p) = 1 for compound p
    d = {}
    extras = []
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m, ex = _mono_mul(m1, m2)
            if ex is None:
                d[m] = d.get(m, 0) + c1 * c2
            else:
                extras.append(mul(_from_items({m: c1 * c2}), ex))
    r = _from_items(d)
    if extras:
        r = add(r, *extras)
    return r


def inv(t):
    t = num_of(t)
    if t.op == "num":
        if t.args[0] == 0:
            return var("inv0", "R")
        return num(1 / t.args[0])
    it = _poly_items(t)
    if len(it) == 1:
        (m, c), = it.items()
        r = num(1 / c)
        for a, e in m:
            if a.op == "inv":
                x = a.args[0]
            elif a.op == "fn" and a.args[0] == "exp":
                x = fn("exp", neg(a.args[1]))
            else:
                x = _mk("inv", (a,), "R", a.fv, a.h)
            for _ in range(e):
                r = mul(r, x)
        return r
    # make monic w.r.t. first monomial
    items = sorted(it.items(), key=lambda mc: _mono_key(mc[0]))
    c = items[-1][1]
    p = scale(t, 1 / c)
    return scale(_mk("inv", (p,), "R", p.fv, p.h), 1 / c)


def to_real(t):
    return t


def div(a, b):
    a = num_of(a)
    b = num_of(b)
    if a is b and b.op != "num":
        return ONE
    # exact polynomial quotient by scalar multiple
    if b.op == "poly" and a.op == "poly":
        ia, ib = dict(a.args), dict(b.args)
        if set(ia) == set(ib):
            qs = {ia[m] / ib[m] for m in ia}
            if len(qs) == 1:
                return num(qs.pop())
    return mul(a, inv(b))


def power(a, k):
    a = num_of(a)
    if isinstance(k, T):
        if k.op == "num" and k.args[0].denominator == 1:
            k = int(k.args[0])
        elif k.op == "num" and k.args[0] == Fraction(1, 2):
            return fn("sqrt", a)
        else:
            # a ** k : powers share the base atom, exponents add up
            return fn("pow", a, k)
    if k == 0:
        return ONE
    if k < 0:
        return inv(power(a, -k))
    if k > 40:
        return fn("pow", a, num(k))
    r = a
    for _ in range(k - 1):
        r = mul(r, a)
    return r


def content_norm(t):
    """scale a polynomial so that its first coefficient has absolute value 1"""
    it = _poly_items(t)
    if not it:
        return t
    items = sorted(it.items(), key=lambda mc: _mono_key(mc[0]))
    lead = [c for m, c in items if m != ()]
    if not lead:
        return t
    if t.sort == "I":
        g = 0
        for m, c in items:
            if m != ():
                g = math.gcd(g, int(c))
        if g > 1:
            return _from_items({m: c / g for m, c in it.items()})
        return t
    return scale(t, 1 / abs(lead[0]))


# ---------------------------------------------------------------- booleans
def _floorfrac(t):
    """integer poly possibly with fractional constant after normalisation: floor for <=0"""
    it = _poly_items(t)
    c = it.get((), Fraction(0))
    if c.denominator != 1:
        # p + c <= 0 with p integer  <=>  p + ceil(c) <= 0
        it[()] = Fraction(math.ceil(c))
        return _from_items(it)
    return t


def le0(d):
    if d.op == "num":
        return TRUE if d.args[0] <= 0 else FALSE
    isint = d.sort == "I"
    d = content_norm(d)
    if isint:
        d = _floorfrac(d)
    if d.op in ("poly", "var") or True:
        if nonneg_syntactic(neg(d)):
            return TRUE
        if isint and nonneg_syntactic(sub(d, ONE)):
            return FALSE
    return _mk("le", (d,), "B", d.fv, d.h)


def lt0(d):
    if d.op == "num":
        return TRUE if d.args[0] < 0 else FALSE
    if d.sort == "I":
        return le0(add(d, ONE))
    d = content_norm(d)
    return _mk("lt", (d,), "B", d.fv, d.h)


def nonneg_syntactic(t):
    """quick syntactic check that t >= 0, from NAT/_POS variables only"""
    if t.op == "num":
        return t.args[0] >= 0
    low = Fraction(0)
    for m, c in _poly_items(t).items():
        if m == ():
            low += c
            continue
        if c < 0:
            return False
        if all(a in NAT or a.op == "bv" or (a.op == "mod") or (a.op == "fn" and a.args[0] in ("sqrt", "exp")) or e % 2 == 0 for a, e in m):
            if all(a in _POS for a, e in m):
                low += c
            continue
        return False
    return low >= 0


def eq0(d):
    if d.op == "num":
        return TRUE if d.args[0] == 0 else FALSE
    isint = d.sort == "I"
    d = content_norm(d)
    it = _poly_items(d)
    items = sorted(it.items(), key=lambda mc: _mono_key(mc[0]))
    if isint and it.get((), Fraction(0)).denominator != 1:
        return FALSE
    lead = [c for m, c in items if m != ()][0]
    if lead < 0:
        d = neg(d)
    return _mk("eq", (d,), "B", d.fv, d.h)


def le(a, b): return le0(sub(a, b))
def lt(a, b): return lt0(sub(a, b))


def eq(a, b):
    if a.sort == "B" and b.sort == "B":
        return iff(a, b)
    return eq0(sub(a, b))


def ne(a, b): return not_(eq(a, b))


def iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE: return b
    if b is TRUE: return a
    if a is FALSE: return not_(b)
    if b is FALSE: return not_(a)
    return and_(or_(not_(a), b), or_(a, not_(b)))


def not_(t):
    if t is TRUE: return FALSE
    if t is FALSE: return TRUE
    if t.op == "not": return t.args[0]
    if t.op == "le": return lt0(neg(t.args[0]))
    if t.op == "lt": return le0(neg(t.args[0]))
    if t.op == "and": return or_(*[not_(x) for x in t.args])
    if t.op == "or": return and_(*[not_(x) for x in t.args])
    if t.sort != "B":
        return eq0(num_of(t))
    return _mk("not", (t,), "B", t.fv, t.h)


def bool_of(t):
    if t.sort == "B":
        return t
    return not_(eq0(t))


def and_(*ts):
    out = []
    seen = set()
    for t in ts:
        t = bool_of(t)
        for x in (t.args if t.op == "and" else (t,)):
            if x is TRUE or x in seen:
                continue
            if x is FALSE:
                return FALSE
            seen.add(x)
            out.append(x)
    for x in out:
        if not_(x) in seen if x.op in ("le", "lt", "not", "eq") else False:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    fv, h = _join(out)
    return _mk("and", tuple(out), "B", fv, h)


def or_(*ts):
    out = []
    seen = set()
    for t in ts:
        t = bool_of(t)
        for x in (t.args if t.op == "or" else (t,)):
            if x is FALSE or x in seen:
                continue
            if x is TRUE:
                return TRUE
            seen.add(x)
            out.append(x)
    for x in out:
        if x.op in ("le", "lt", "not", "eq") and not_(x) in seen:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    fv, h = _join(out)
    return _mk("or", tuple(out), "B", fv, h)


def implies(a, b): return or_(not_(a), b)


def ite(c, a, b):
    c = bool_of(c)
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.sort == "B" and b.sort == "B":
        return and_(or_(not_(c), a), or_(c, b))
    a = num_of(a)
    b = num_of(b)
    if c.op == "not":
        return ite(c.args[0], b, a)
    if c.op == "lt":      # canonical polarity: le
        return ite(not_(c), b, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b: return a
    # ite(c1, ite(c2, x, y), y) = ite(c1&c2, x, y)
    if a.op == "ite" and a.args[2] is b:
        return ite(and_(c, a.args[0]), a.args[1], b)
    if b.op == "ite" and b.args[1] is a:
        return ite(or_(c, b.args[0]), a, b.args[2])
    sort = "I" if a.sort == "I" and b.sort == "I" else "R"
    fv, h = _join((c, a, b))
    return _mk("ite", (c, a, b), sort, fv, h)


def minT(a, b): return ite(le(a, b), a, b)
def maxT(a, b): return ite(le(a, b), b, a)


def absT(t):
    t = num_of(t)
    if t.op == "num":
        return num(abs(t.args[0]))
    if nonneg_syntactic(t):
        return t
    # canonical sign
    it = sorted(_poly_items(t).items(), key=lambda mc: _mono_key(mc[0]))
    if it[0][1] < 0:
        t = neg(t)
    return ite(le0(neg(t)), t, neg(t))


# ---------------------------------------------------------------- integer division
def idiv(a, b):
    a = num_of(a); b = num_of(b)
    if a.op == "num" and b.op == "num" and b.args[0] != 0:
        return num(a.args[0] // b.args[0])
    if b is ONE:
        return floorT(a)
    if a.sort != "I" or b.sort != "I":
        return floorT(div(a, b))
    if a is b:
        return ONE
    # (q*b + r) // b = q + r//b, per monomial divisible by b
    q, r = _divsplit(a, b)
    if q is not ZERO:
        return add(q, idiv(r, b))
    if r is ZERO:
        return ZERO
    # (x mod b)//b = 0
    if r.op == "mod" and r.args[1] is b:
        return ZERO
    if r.op == "idiv":
        return idiv(r.args[0], mul(r.args[1], b))
    fv, h = _join((r, b))
    return _mk("idiv", (r, b), "I", fv, h)


def _divsplit(a, b):
    q, r = {}, {}
    if b.op == "num":
        k = b.args[0]
        for m, c in _poly_items(a).items():
            if (c / k).denominator == 1:
                q[m] = c / k
            else:
                r[m] = c
        return _from_items(q), _from_items(r)
    ib = _poly_items(b)
    if len(ib) == 1:
        (mb, cb), = ib.items()
        for m, c in _poly_items(a).items():
            d = dict(m)
            ok = (c / cb).denominator == 1
            for at, e in mb:
                if d.get(at, 0) < e:
                    ok = False
                    break
                d[at] -= e
            if ok:
                mm = tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda ae: ae[0].id))
                q[mm] = q.get(mm, 0) + c / cb
            else:
                r[m] = c
        return _from_items(q), _from_items(r)
    return ZERO, a


def imod(a, b):
    a = num_of(a); b = num_of(b)
    if a.op == "num" and b.op == "num" and b.args[0] != 0:
        return num(a.args[0] % b.args[0])
    if a.sort != "I" or b.sort != "I":
        return sub(a, mul(b, floorT(div(a, b))))
    if b is ONE:
        return ZERO
    q, r = _divsplit(a, b)
    a = r
    if a is ZERO:
        return ZERO
    if a.op == "num" and b.op == "num":
        return num(a.args[0] % b.args[0])
    if a.op == "mod" and a.args[1] is b:
        return a
    if a.op == "mod" and _divsplit(a.args[1], b)[1] is ZERO:
        return imod(a.args[0], b)
    fv, h = _join((a, b))
    return _mk("mod", (a, b), "I", fv, h)


def floorT(t):
    if t.sort == "I":
        return t
    if t.op == "num":
        return num(math.floor(t.args[0]))
    return _mk("floor", (t,), "I", t.fv, t.h)


# ---------------------------------------------------------------- functions
def fn(name, *args):
    """built-in real functions: sqrt exp log pow sin cos tan ..."""
    args = tuple(num_of(a) for a in args)
    if name == "sqrt":
        a = args[0]
        if a.op == "num":
            q = a.args[0]
            if q >= 0:
                n, d = math.isqrt(q.numerator), math.isqrt(q.denominator)
                if n * n == q.numerator and d * d == q.denominator:
                    return num(Fraction(n, d))
    elif name == "exp":
        if args[0] is ZERO:
            return ONE
    elif name == "log":
        if args[0] is ONE:
            return ZERO
        if args[0].op == "fn" and args[0].args[0] == "exp":
            return args[0].args[1]
    elif name == "pow":
        a, k = args
        if k is ONE: return a
        if k is ZERO: return ONE
    fv, h = _join(args)
    return _mk("fn", (name,) + args, "R", fv, h)


UF = {}     # name -> (argsorts, ressort)


def app(name, args, sort="R"):
    args = tuple(args)
    sig = tuple(a.sort for a in args)
    fv, h = _join(args)
    t = _mk("app", (name,) + args, sort, fv, h)
    return t


# ---------------------------------------------------------------- binders
def subst(t, m, _memo=None):
    """replace free variables / bvars (T -> T)"""
    if not m:
        return t
    keys = frozenset(m)
    memo = {} if _memo is None else _memo
    hasbv = any(k.op == "bv" for k in m)

    def go(t):
        r = m.get(t)
        if r is not None:
            return r
        if not hasbv and not (t.fv & keys):
            return t
        r = memo.get(t)
        if r is None:
            r = memo[t] = rebuild(t, go)
        return r
    return go(t)


def _has_bv(t, bvs):
    raise NotImplementedError


def rebuild(t, go):
    op, a = t.op, t.args
    if op in ("num", "var", "bv", "true", "false"):
        return t
    if op == "poly":
        out = ZERO
        parts = []
        simple = {}
        for m, c in a:
            na = [(go(x), x, e) for x, e in m]
            if all(n is x for n, x, e in na):
                simple[m] = simple.get(m, 0) + c
            else:
                p = num(c)
                for n, x, e in na:
                    for _ in range(e):
                        p = mul(p, n)
                parts.append(p)
        return add(_from_items(simple), *parts) if parts else _from_items(simple)
    if op == "inv": return inv(go(a[0]))
    if op == "le": return le0(go(a[0]))
    if op == "lt": return lt0(go(a[0]))
    if op == "eq": return eq0(go(a[0]))
    if op == "not": return not_(go(a[0]))
    if op == "and": return and_(*[go(x) for x in a])
    if op == "or": return or_(*[go(x) for x in a])
    if op == "ite":
        c = go(a[0])
        if c is TRUE: return go(a[1])
        if c is FALSE: return go(a[2])
        return ite(c, go(a[1]), go(a[2]))
    if op == "idiv": return idiv(go(a[0]), go(a[1]))
    if op == "mod": return imod(go(a[0]), go(a[1]))
    if op == "floor": return floorT(go(a[0]))
    if op == "fn": return fn(a[0], *[go(x) for x in a[1:]])
    if op == "app": return app(a[0], [go(x) for x in a[1:]], t.sort)
    if op == "lam":
        vs, dims, body = open_lam(t)
        return mk_lam([go(d) for d in dims], vs, go(body))
    if op == "sum":
        vs, dims, body = open_sum(t)
        return mk_sum([(v, go(d)) for v, d in zip(vs, dims)], go(body))
    raise AssertionError(op)


def replace(t, m):
    """replace whole subterms (closed ones), T -> T"""
    memo = dict(m)

    def go(t):
        r = memo.get(t)
        if r is None:
            r = memo[t] = rebuild(t, go)
        return r
    return go(t)


def _close(vs, body):
    h = body.h
    bvs = [bvar(h + 1 + i) for i in range(len(vs))]
    return bvs, subst(body, dict(zip(vs, bvs))), h


def _replace_raw(t, m):
    """structural replacement of bvs by fresh vars, going through the constructors"""
    memo = {}
    lo = min(k.args[0] for k in m)

    def go(t):
        r = m.get(t)
        if r is not None:
            return r
        if t.op in ("num", "var", "bv", "true", "false"):
            return t
        r = memo.get(t)
        if r is None:
            if t.op in ("sum", "lam"):
                # inner binders use lower indices: rebuild through open
                r = rebuild(t, go)
            else:
                r = rebuild(t, go)
            memo[t] = r
        return r
    return go(t)


_open_cache = {}


def open_lam(t):
    r = _open_cache.get(t)
    if r is None:
        dims, bvs, body = t.args
        vs = [fresh("l") for _ in dims]
        NAT.update(vs)
        r = _open_cache[t] = (vs, dims, _replace_raw(body, dict(zip(bvs, vs))))
    return r


def mk_lam(dims, vs, body):
    one = {v: ZERO for v, d in zip(vs, dims) if d is ONE and v in body.fv}
    if one: body = subst(body, one)
    bvs, b, h = _close(vs, body)
    assert b.h <= h
    dims = tuple(dims)
    fv, _ = _join(dims + (b,))
    fv = fv
    return _mk("lam", (dims, tuple(bvs), b), "L", fv, h + len(vs))


def lam(dims, f):
    vs = [fresh("l") for _ in dims]
    return mk_lam(tuple(lift(d) for d in dims), vs, f(*vs))


def open_sum(t):
    r = _open_cache.get(t)
    if r is None:
        dims, bvs, body = t.args
        vs = [fresh("k") for _ in dims]
        NAT.update(vs)
        r = _open_cache[t] = (vs, dims, _replace_raw(body, dict(zip(bvs, vs))))
    return r


SUM_RULES = []    # callables (vs, dims, body) -> T or None ; matched on single components


def _skey(t, memo):
    """structural key, independent of creation order (strings)"""
    r = memo.get(t)
    if r is None:
        op, a = t.op, t.args
        if op in ("num", "var", "bv"):
            r = op + ":" + str(a[0])
        elif op == "poly":
            r = "(" + "+".join(sorted(str(c) + "*" + "*".join(sorted(_skey(x, memo) + "^" + str(e) for x, e in m)) for m, c in a)) + ")"
        elif op in ("and", "or"):
            r = op + "(" + ",".join(sorted(_skey(x, memo) for x in a)) + ")"
        elif op in ("sum", "lam"):
            r = op + "(" + ",".join(_skey(x, memo) for x in a[0]) + "|" + ",".join(str(b.args[0]) for b in a[1]) + "|" + _skey(a[2], memo) + ")"
        else:
            r = op + "(" + ",".join(x if isinstance(x, str) else _skey(x, memo) for x in a) + ")"
        memo[t] = r
    return r


_skmemo = {}


def range_len(d):
    """max(d,0)"""
    if nonneg_syntactic(d):
        return d
    return ite(le0(neg(d)), d, ZERO)


UNROLL = 24


def sumT(lo, hi, f):
    """Sum of f(k) for lo <= k < hi"""
    lo = lift(lo); hi = lift(hi)
    n = sub(hi, lo)
    if n.op == "num":
        if n.args[0] <= UNROLL:
            return add(ZERO, *[lift(f(add(lo, num(i)))) for i in range(max(0, int(n.args[0])))])
    v = fresh("k")
    return mk_sum([(v, n)], lift(f(add(v, lo))))


def solve_for(e, v):
    """e == 0 with e linear in v with coefficient +-1 : returns v's value, or None"""
    it = _poly_items(e)
    c = None
    rest = {}
    for m, k in it.items():
        if len(m) == 1 and m[0][0] is v and m[0][1] == 1:
            c = k
        else:
            if any(v in a.fv for a, ex in m):
                return None
            rest[m] = k
    if c is None:
        return None
    r = scale(_from_items(rest), Fraction(-1) / c)
    if r.sort != "I":
        return None
    return r


def inrange(e, n):
    return and_(le0(neg(e)), lt0(sub(e, n)))


def _conj(c):
    return list(c.args) if c.op == "and" else [c]


def mk_sum(vds, body):
    """canonical sum; vds = [(var, length)] ranges 0..length-1, lengths independent of vars
    (dependent lengths: outer variables first)"""
    body = num_of(lift(body))
    vds = list(vds)
    if not vds:
        return body
    # concrete small ranges are unrolled
    for i, (v, d) in enumerate(vds):
        if d.op == "num" and d.args[0] <= UNROLL and not any(v in d2.fv for _, d2 in vds[i + 1:]):
            rest = vds[:i] + vds[i + 1:]
            n = max(0, int(d.args[0]))
            return add(ZERO, *[mk_sum(rest, subst(body, {v: num(j)})) for j in range(n)])
    # dependent ranges -> nest
    vs = [v for v, _ in vds]
    for i, (v, d) in enumerate(vds):
        for w in vs:
            if w in d.fv:
                if len(vds) == 1:
                    break
                # sum over v innermost
                inner = mk_sum([(v, d)], body)
                return mk_sum([x for j, x in enumerate(vds) if j != i], inner)
    out = []
    for m, c in _poly_items(body).items():
        out.append(scale(_sum_mono(vds, m), c))
    return add(ZERO, *out)


def _sum_mono(vds, m):
    if not m:
        r = ONE
        for v, d in vds:
            r = mul(r, range_len(d))
        return r
    factors = []
    vds = list(vds)
    vset = {v for v, _ in vds}
    expand = False
    for a, e in m:
        if a.op == "sum" and (a.fv & vset):
            vs, dims, b = None, None, None
            # flatten if dims independent of the outer vars
            if not any(d.fv & vset for d in a.args[0]):
                for _ in range(e):
                    dims, bvs, bb = a.args
                    vs = [fresh("k") for _ in dims]
                    bb = _replace_raw(bb, dict(zip(bvs, vs)))
                    vds += list(zip(vs, dims))
                    factors += _factors(bb)
                    if bb.op == "poly" and len(bb.args) > 1:
                        expand = True
                continue
        factors += [a] * e
    if expand:
        b = ONE
        for f in factors:
            b = mul(b, f)
        return mk_sum(vds, b)
    return _sum_factors(vds, factors)


def _factors(b):
    """factor list of a single-monomial term (coef must be one) else [b]"""
    if b.op == "poly":
        if len(b.args) == 1:
            (mm, c), = b.args
            out = [] if c == 1 else [num(c)]
            for a, e in mm:
                out += [a] * e
            return out
        return [b]
    return [b]


def _prod(fs):
    r = ONE
    for f in fs:
        r = mul(r, f)
    return r


def _sum_factors(vds, factors):
    vset = {v for v, _ in vds}
    # delta elimination
    for i, f in enumerate(factors):
        if f.op == "ite" and (f.args[0].fv & vset):
            c, a, b = f.args
            for v, n in vds:
                if v not in c.fv:
                    continue
                for cj in _conj(c):
                    if cj.op == "eq" and v in cj.fv:
                        e = solve_for(cj.args[0], v)
                        if e is None:
                            continue
                        rest = [x for j, x in enumerate(factors) if j != i]
                        others = [(w, d) for w, d in vds if w is not v]
                        if any(v in d.fv for _, d in others):
                            continue
                        g = mul(sub(a, b), _prod(rest))
                        cc = and_(*[x for x in _conj(c) if x is not cj])
                        hit = subst(ite(cc, g, ZERO), {v: e})
                        hit = ite(inrange(e, n), hit, ZERO)
                        t1 = mk_sum(others, hit)
                        t2 = mk_sum(vds, mul(b, _prod(rest))) if b is not ZERO else ZERO
                        return add(t1, t2)
            # a window of constant width
            for v, n in vds:
                if v not in c.fv or any(v in d.fv for _, d in vds):
                    continue
                los, his = [], []
                for cj in _conj(c):
                    if cj.op == "le" and v in cj.fv:
                        p0 = subst(cj.args[0], {v: ZERO})
                        k = sub(cj.args[0], p0)
                        if k is v: his.append((neg(p0), cj))
                        elif k is neg(v): los.append((p0, cj))
                if not los and not his:
                    continue
                los.append((ZERO, None))
                his.append((sub(n, ONE), None))
                best = None
                for lo, c1 in los:
                    for hi, c2 in his:
                        w = sub(hi, lo)
                        if w.op == "num" and (c1 is not None or c2 is not None) and -1 <= w.args[0] <= 7 and (best is None or w.args[0] < best[0]):
                            best = (int(w.args[0]), lo, c1, c2)
                if best is None:
                    continue
                w, lo, c1, c2 = best
                rest = [x for j, x in enumerate(factors) if j != i]
                free = [x for x in _conj(c) if not (x.fv & vset)]
                if free and b is not ZERO:
                    bound = and_(*[x for x in _conj(c) if x.fv & vset])
                    return ite(and_(*free), mk_sum(vds, mul(ite(bound, a, b), _prod(rest))), mk_sum(vds, mul(b, _prod(rest))))
                others = [(x, d) for x, d in vds if x is not v]
                g = mul(sub(a, b), _prod(rest))
                cc = and_(*[x for x in _conj(c) if x is not c1 and x is not c2])
                hits = []
                for q in range(w + 1):
                    e = add(lo, num(q))
                    hits.append(ite(inrange(e, n), subst(ite(cc, g, ZERO), {v: e}), ZERO))
                t1 = mk_sum(others, add(ZERO, *hits))
                t2 = mk_sum(vds, mul(b, _prod(rest))) if b is not ZERO else ZERO
                return add(t1, t2)
            # pull out conjuncts free of the bound variables
            if b is ZERO:
                free = [x for x in _conj(c) if not (x.fv & vset)]
                if free:
                    bound = [x for x in _conj(c) if x.fv & vset]
                    rest = [x for j, x in enumerate(factors) if j != i]
                    inner = mk_sum(vds, mul(ite(and_(*bound), a, ZERO), _prod(rest)))
                    return ite(and_(*free), inner, ZERO)
        elif f.op == "ite" and not (f.args[0].fv & vset) and (f.fv & vset):
            # condition does not depend on the bound variables
            c, a, b = f.args
            rest = _prod([x for j, x in enumerate(factors) if j != i])
            return ite(c, mk_sum(vds, mul(a, rest)), mk_sum(vds, mul(b, rest)))
    # div/mod reindexing
    for v, n in vds:
        dm = _divmod_occ(v, factors)
        if dm is not None:
            mth, = dm
            q, r = _divsplit(n, mth)
            if r is ZERO and not (mth.fv & vset):
                va, vb = fresh("k"), fresh("k")
                fs = [_subst_divmod(f, v, mth, va, vb) for f in factors]
                others = [(w, d) for w, d in vds if w is not v]
                return mk_sum(others + [(va, q), (vb, mth)], _prod(fs))
    # connected components
    comps = []   # list of (set vars, [factors])
    free = []
    for f in factors:
        s = f.fv & vset
        if not s:
            free.append(f)
            continue
        hit = [c for c in comps if c[0] & s]
        new = [set(s), [f]]
        for c in hit:
            new[0] |= c[0]
            new[1] = c[1] + new[1]
            comps.remove(c)
        comps.append(new)
    r = _prod(free)
    used = set()
    for s, fs in comps:
        used |= s
    for v, d in vds:
        if v not in used:
            r = mul(r, range_len(d))
    for s, fs in comps:
        r = mul(r, _component([(v, d) for v, d in vds if v in s], fs))
    return r


def _directions(t, v):
    pos = neg_ = 0
    for x in subterms([t], into_binders=True):
        if x.op == "poly" and v in x.fv:
            for m, c in x.args:
                if any(a is v for a, e in m):
                    if c > 0: pos += 1
                    else: neg_ += 1
    return pos, neg_


def _component(vds, fs):
    vs = [v for v, _ in vds]
    body = _prod(fs)
    if body.op == "poly" and len(body.args) > 1:
        return mk_sum(vds, body)
    for rule in SUM_RULES:
        r = rule(vds, fs, body)
        if r is not None:
            return r
    if len(vds) == 1:
        # the direction in which the variable runs: the one with fewer decreasing occurrences
        v, n = vds[0]
        pos, neg_ = _directions(body, v)
        if neg_ and v not in n.fv:
            rb = subst(body, {v: sub(sub(n, ONE), v)})
            c0 = ONE
            if rb.op == "poly" and len(rb.args) == 1:
                c0 = num(rb.args[0][1])
                rb = _from_items({rb.args[0][0]: Fraction(1)})
            if not (rb.op == "poly" and len(rb.args) > 1):
                rp, rn = _directions(rb, v)
                if rn < neg_ or rn == neg_ and _skey(subst(rb, {v: bvar(body.h + 1)}), _skmemo) < _skey(subst(body, {v: bvar(body.h + 1)}), _skmemo):
                    return mul(c0, mk_sum(vds, rb))
    # canonical labelling
    best = None
    perms = permutations(range(len(vds))) if len(vds) <= 4 else [tuple(range(len(vds)))]
    h = body.h
    dset = [d for _, d in vds]
    for p in perms:
        bvs = [bvar(h + 1 + i) for i in range(len(vds))]
        m = {vds[p[i]][0]: bvs[i] for i in range(len(vds))}
        b = subst(body, m)
        dims = tuple(vds[p[i]][1] for i in range(len(vds)))
        if len(vds) == 1:
            best = (None, dims, tuple(bvs), b)
            break
        key = (tuple(_skey(d, _skmemo) for d in dims), _skey(b, _skmemo))
        if best is None or key < best[0]:
            best = (key, dims, tuple(bvs), b)
    _, dims, bvs, b = best
    if b.op == "poly" and not (len(b.args) == 1 and b.args[0][1] == 1):
        # normalisation changed shape under relabelling; treat generically
        pass
    fv, _ = _join(dims + (b,))
    dh = max([d.h for d in dims] + [0])
    assert b.h <= h, "bound-variable capture"
    return _mk("sum", (dims, bvs, b), "I" if b.sort == "I" else "R", fv, max(h, dh) + len(bvs))


def _divmod_occ(v, factors):
    """if v occurs only inside idiv(v,m)/mod(v,m) for a single m: return (m,)"""
    found = set()
    ok = [True]
    seen = set()

    def go(t):
        if t in seen or not ok[0] or v not in t.fv:
            return
        seen.add(t)
        if t is v:
            ok[0] = False
            return
        if t.op in ("idiv", "mod") and t.args[0] is v and v not in t.args[1].fv:
            found.add(t.args[1])
            return
        for x in children(t):
            go(x)
    for f in factors:
        go(f)
    if not ok[0] or not found:
        return None
    if len(found) == 1:
        return (found.pop(),)
    # several moduli: choose the one that is a divisor of all the others (innermost)
    for m in found:
        if all(_divsplit(x, m)[1] is ZERO for x in found):
            return (m,)
    return None


def _subst_divmod(t, v, m, va, vb):
    memo = {}

    def go(t):
        if v not in t.fv:
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if t.op in ("idiv", "mod") and t.args[0] is v:
            mm = t.args[1]
            if mm is m:
                r = va if t.op == "idiv" else vb
            else:
                q, rr = _divsplit(mm, m)
                # v = va*m+vb ; v // (q m) = va // q ; v % (q m) = (va % q)*m + vb
                r = idiv(va, q) if t.op == "idiv" else add(mul(imod(va, q), m), vb)
        else:
            r = rebuild(t, go)
        memo[t] = r
        return r
    return go(t)


def children(t):
    op, a = t.op, t.args
    if op in ("num", "var", "bv", "true", "false"):
        return ()
    if op == "poly":
        return [x for m, c in a for x, e in m]
    if op in ("sum", "lam"):
        return list(a[0]) + [a[2]]
    return [x for x in a if isinstance(x, T)]


def subterms(ts, into_binders=False):
    seen = set()
    stack = list(ts)
    while stack:
        t = stack.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op in ("sum", "lam"):
            if into_binders:
                stack.extend(children(t))
            else:
                stack.extend(t.args[0])
            continue
        stack.extend(children(t))
    return seen


# ---------------------------------------------------------------- evaluation
def evaluate(t, env, _memo=None):
    """env: variable name -> number ; function name -> callable (index args numbers, lam args numpy arrays)"""
    import numpy as np
    memo = {} if _memo is None else _memo

    def go(t, benv):
        if not benv:
            r = memo.get(t)
            if r is not None:
                return r
        op, a = t.op, t.args
        if op == "num":
            q = a[0]
            r = int(q) if q.denominator == 1 else float(q)
        elif op == "var":
            if a[0] == "inf": r = float("inf")
            elif a[0] == "nan": r = float("nan")
            elif a[0] in env: r = env[a[0]]
            else: raise KeyError(a[0])
        elif op == "bv":
            r = benv[a[0]]
        elif op == "true": r = True
        elif op == "false": r = False
        elif op == "poly":
            r = 0
            for m, c in a:
                x = int(c) if c.denominator == 1 else float(c)
                for at, e in m:
                    x = x * go(at, benv) ** e
                r = r + x
        elif op == "inv":
            r = np.float64(1.0) / go(a[0], benv)
        elif op == "le": r = bool(go(a[0], benv) <= 0)
        elif op == "lt": r = bool(go(a[0], benv) < 0)
        elif op == "eq": r = bool(go(a[0], benv) == 0)
        elif op == "not": r = not go(a[0], benv)
        elif op == "and": r = all(go(x, benv) for x in a)
        elif op == "or": r = any(go(x, benv) for x in a)
        elif op == "ite":
            r = go(a[1], benv) if go(a[0], benv) else go(a[2], benv)
        elif op == "idiv": r = go(a[0], benv) // go(a[1], benv)
        elif op == "mod": r = go(a[0], benv) % go(a[1], benv)
        elif op == "floor": r = math.floor(go(a[0], benv))
        elif op == "fn":
            xs = [go(x, benv) for x in a[1:]]
            if a[0] == "pow": r = np.float64(xs[0]) ** xs[1]
            elif a[0] in env: r = env[a[0]](*xs)
            elif a[0] == "normcdf": r = __import__("scipy.stats").stats.norm.cdf(xs[0])
            else: r = getattr(np, a[0])(np.float64(xs[0]), *xs[1:])
        elif op == "app":
            xs = [go(x, benv) for x in a[1:]]
            r = env[a[0]](*xs)
        elif op in ("lam", "sum"):
            dims = [int(go(d, benv)) for d in a[0]]
            names = [b.args[0] for b in a[1]]
            be = dict(benv or {})
            if op == "sum":
                r = 0
                for idx in np.ndindex(*[max(d, 0) for d in dims]):
                    be.update(zip(names, idx))
                    r = r + go(a[2], be)
            else:
                r = np.zeros([max(d, 0) for d in dims])
                for idx in np.ndindex(*r.shape):
                    be.update(zip(names, idx))
                    r[idx] = go(a[2], be)
        else:
            raise AssertionError(op)
        if not benv:
            memo[t] = r
        return r
    return go(t, None)


# ---------------------------------------------------------------- printing
def pretty(t, depth=0):
    if depth > 12:
        return "..."
    op, a = t.op, t.args
    P = lambda x: pretty(x, depth + 1)
    if op == "num": return str(a[0])
    if op == "var": return a[0]
    if op == "bv": return "#%d" % a[0]
    if op in ("true", "false"): return op
    if op == "poly":
        out = []
        for m, c in a[:40]:
            s = "*".join(P(x) + ("^%d" % e if e > 1 else "") for x, e in m)
            if not m: s = str(c)
            elif c == -1: s = "-" + s
            elif c != 1: s = str(c) + "*" + s
            out.append(s)
        if len(a) > 40: out.append("...[%d terms]" % len(a))
        return "(" + " + ".join(out) + ")"
    if op == "le": return "(%s <= 0)" % P(a[0])
    if op == "lt": return "(%s < 0)" % P(a[0])
    if op == "eq": return "(%s == 0)" % P(a[0])
    if op == "inv": return "1/(%s)" % P(a[0])
    if op in ("sum", "lam"):
        return "%s{%s}(%s)" % (op, ",".join("%s<%s" % (P(b), P(d)) for d, b in zip(a[0], a[1])), P(a[2]))
    if op in ("fn", "app"):
        return "%s(%s)" % (a[0], ",".join(P(x) for x in a[1:]))
    return "%s(%s)" % (op, ",".join(P(x) for x in a))
