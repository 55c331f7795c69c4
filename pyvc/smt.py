"""Proof engine: canonical-form comparison first, then z3 (cvc5 as a second back end)."""
import sys, time
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3
from . import terms as tm
from .terms import *
from fractions import Fraction

z3.set_param("smt.random_seed", 1)


class Stats:
    def __init__(self):
        self.solver_s = 0.0
        self.queries = 0
        self.by_canon = 0
        self.by_z3 = 0
        self.by_cvc5 = 0


STATS = Stats()


class Facts:
    """Assumptions attached to uninterpreted functions: instantiated on every application."""

    def __init__(self):
        self.on_app = {}     # fname -> list of f(args)->list of T
        self.always = []

    def copy(self):
        f = Facts()
        f.on_app = {k: list(v) for k, v in self.on_app.items()}
        f.always = list(self.always)
        return f

    def add(self, fname, f):
        self.on_app.setdefault(fname, []).append(f)


class Z:
    """term -> z3 translation"""

    def __init__(self):
        self.memo = {}
        self.side = []      # z3 side conditions (sqrt, floor ...)
        self.funcs = {}

    def real(self, t):
        e = self.tr(t)
        return z3.ToReal(e) if e.sort() == z3.IntSort() else e

    def tr(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._tr(t)
        return r

    def const(self, t):
        nm = "c!%d" % t.id
        return z3.Int(nm) if t.sort == "I" else (z3.Bool(nm) if t.sort == "B" else z3.Real(nm))

    def _tr(self, t):
        op, a = t.op, t.args
        if op == "num":
            q = a[0]
            return z3.IntVal(int(q)) if q.denominator == 1 else z3.RealVal("%d/%d" % (q.numerator, q.denominator))
        if op in ("var", "bv"):
            nm = str(a[0]) if op == "var" else "bv%d" % a[0]
            return z3.Int(nm) if t.sort == "I" else (z3.Bool(nm) if t.sort == "B" else z3.Real(nm))
        if op == "true": return z3.BoolVal(True)
        if op == "false": return z3.BoolVal(False)
        if op == "poly":
            isint = t.sort == "I"
            parts = []
            for m, c in a:
                if isint:
                    e = None if (c == 1 and m) else z3.IntVal(int(c))
                else:
                    e = None if (c == 1 and m) else z3.RealVal("%d/%d" % (c.numerator, c.denominator))
                for at, ex in m:
                    x = self.tr(at) if isint else self.real(at)
                    for _ in range(ex):
                        e = x if e is None else e * x
                parts.append(e)
            return z3.Sum(parts) if len(parts) > 1 else parts[0]
        if op == "inv":
            x = self.real(a[0])
            return z3.RealVal(1) / x
        if op in ("le", "lt", "eq"):
            x = self.tr(a[0])
            if x.sort() == z3.IntSort():
                z = z3.IntVal(0)
            else:
                z = z3.RealVal(0)
            return x <= z if op == "le" else (x < z if op == "lt" else x == z)
        if op == "not": return z3.Not(self.tr(a[0]))
        if op == "and": return z3.And([self.tr(x) for x in a])
        if op == "or": return z3.Or([self.tr(x) for x in a])
        if op == "ite":
            if t.sort == "I":
                return z3.If(self.tr(a[0]), self.tr(a[1]), self.tr(a[2]))
            return z3.If(self.tr(a[0]), self.real(a[1]), self.real(a[2]))
        if op == "idiv": return self.tr(a[0]) / self.tr(a[1])
        if op == "mod": return self.tr(a[0]) % self.tr(a[1])
        if op == "floor": return z3.ToInt(self.real(a[0]))
        if op == "fn":
            nm = a[0]
            xs = [self.real(x) for x in a[1:]]
            if nm == "sqrt":
                c = self.const(t)
                self.side.append(z3.Implies(xs[0] >= 0, z3.And(c >= 0, c * c == xs[0])))
                return c
            f = z3.Function("fn_" + nm, *([z3.RealSort()] * (len(xs) + 1)))
            e = f(*xs)
            if nm == "exp":
                self.side.append(e > 0)
                self.side.append(z3.Implies(xs[0] >= 0, e >= 1))
                self.side.append(z3.Implies(xs[0] <= 0, e <= 1))
            if nm == "normcdf":
                self.side.append(z3.And(e > 0, e < 1))
            if nm == "pow":
                self.side.append(z3.Implies(xs[0] > 0, e > 0))
            return e
        if op == "app":
            if any(x.sort == "L" for x in a[1:]):
                return self.const(t)
            sig = []
            xs = []
            for x in a[1:]:
                e = self.tr(x)
                sig.append(e.sort())
                xs.append(e)
            rs = z3.IntSort() if t.sort == "I" else (z3.BoolSort() if t.sort == "B" else z3.RealSort())
            if not xs:
                return self.const(t)
            nm = a[0] + "/" + "".join(str(s)[0] for s in sig)
            return z3.Function(nm, *(sig + [rs]))(*xs)
        if op == "sum":
            return self.const(t)
        raise AssertionError("cannot translate " + op)


def surely_pos(b):
    """product of positive extents and positive constants"""
    it = tm._poly_items(b)
    return bool(it) and all(c > 0 and all(at in tm._POS for at, e in m) for m, c in it.items())


def idiv_bound(h):
    """x//b <= c  gives  x < (c+1)*b ;  x//b >= c  gives  x >= c*b   (b > 0)"""
    it = tm._poly_items(h.args[0])
    for m, c in it.items():
        if len(m) == 1 and m[0][0].op == "idiv" and m[0][1] == 1 and c in (1, -1):
            x, b = m[0][0].args
            if not surely_pos(b):
                continue
            rest = sub(h.args[0], scale(m[0][0], c))
            if c == 1:
                return lt(x, mul(sub(ONE, rest), b))
            return le(mul(rest, b), x)
    return None


class Ctx:
    """a list of hypotheses with a z3 solver attached"""

    def __init__(self, hyps, facts, prover, parent=None):
        self.hyps = []
        for h in hyps:
            h = bool_of(h)
            for x in (h.args if h.op == "and" else [h]):
                self.hyps.append(x)
                if x.op == "le" and x.args[0].sort == "I":
                    d = idiv_bound(x)
                    if d is not None and d is not TRUE:
                        self.hyps.append(d)
        self.hypset = set(self.hyps)
        self.facts = facts
        self.prover = prover
        self.cache = {}
        self.z = None

    def extend(self, *hs):
        hs = [h for h in hs if h is not TRUE and h not in self.hypset]
        if not hs:
            return self
        return Ctx(self.hyps + hs, self.facts, self.prover)

    def _solver(self):
        if self.z is None:
            self.z = Z()
            self.s = z3.Solver()
            self.s.set("timeout", 400 * self.prover.scale)
            self.nside = 0
            self.seen_apps = set()
            self._assert(self.hyps)
        return self.s

    def _assert(self, ts):
        todo = list(ts) + (list(self.facts.always) if not self.seen_apps else [])
        depth = 0
        while todo and depth < 3:
            for t in todo:
                self.s.add(self.z.tr(t))
            new = self._facts_for(todo)
            todo = new
            depth += 1
        while self.nside < len(self.z.side):
            self.s.add(self.z.side[self.nside])
            self.nside += 1

    def _facts_for(self, ts):
        out = []
        for t in ts:
            for x in t.fv:
                if x in NAT and x not in self.seen_apps:
                    self.seen_apps.add(x)
                    self.s.add(self.z.tr(x) >= (1 if x in tm._POS else 0))
        for x in subterms(ts):
            if x.op == "mod" and x not in self.seen_apps:
                self.seen_apps.add(x)
                a, b = x.args
                out.append(implies(lt(ZERO, b), and_(le(ZERO, x), lt(x, b))))
                out.append(implies(lt(ZERO, b), eq(a, add(mul(b, idiv(a, b)), x))))
            if x.op == "idiv" and x not in self.seen_apps:
                self.seen_apps.add(x)
                a, b = x.args
                r = sub(a, mul(b, x))
                out.append(implies(lt(ZERO, b), and_(le(ZERO, r), lt(r, b))))
                out.append(implies(and_(lt(ZERO, b), le(ZERO, a)), le(ZERO, x)))
                # a < b*c  ->  a//b < c for the hypotheses around
            if x.op == "app" and x not in self.seen_apps:
                self.seen_apps.add(x)
                for f in self.facts.on_app.get(x.args[0], ()):
                    out += [y for y in f(x.args[1:]) if y is not TRUE]
        return out

    def decide(self, c):
        c = bool_of(c)
        if c is TRUE: return True
        if c is FALSE: return False
        if c in self.hypset: return True
        n = not_(c)
        if n in self.hypset: return False
        if c in self.cache: return self.cache[c]
        if n in self.cache:
            r = self.cache[n]
            return None if r is None else not r
        s = self._solver()
        t0 = time.time()
        zc = self.z.tr(c)
        self._assert(self._facts_for([c]))
        STATS.queries += 1
        s.push()
        s.add(z3.Not(zc))
        r = s.check()
        s.pop()
        if r == z3.unknown: self.prover.unknowns += 1
        if r == z3.unsat:
            res = True
        else:
            s.push()
            s.add(zc)
            r2 = s.check()
            s.pop()
            if r2 == z3.unknown: self.prover.unknowns += 1
            res = False if r2 == z3.unsat else None
        STATS.solver_s += time.time() - t0
        self.cache[c] = res
        return res

    def consistent(self):
        s = self._solver()
        t0 = time.time()
        r = s.check()
        STATS.solver_s += time.time() - t0
        return r != z3.unsat


_needs = {}


def needs_simp(t):
    r = _needs.get(t)
    if r is None:
        r = t.op in ("ite", "mod", "idiv", "floor") or any(needs_simp(x) for x in children(t))
        _needs[t] = r
    return r


_hbv = {}


def _has_bv(t):
    """mentions a bound variable that is not bound inside t"""
    r = _hbv.get(t)
    if r is None:
        r = _hbv[t] = _free_bv(t, 0)
    return r


def _free_bv(t, depth):
    return any(x.op == "bv" for x in subterms([t])) and t.op not in ("lam", "sum") and _loose(t)


def _loose(t):
    def go(t, bound):
        if t.op == "bv":
            return t not in bound
        if t.op in ("lam", "sum"):
            b2 = bound | set(t.args[1])
            return any(go(d, bound) for d in t.args[0]) or go(t.args[2], b2)
        return any(go(c, bound) for c in children(t))
    return go(t, frozenset())


def linear(g):
    return not any(x.op == "poly" and any(sum(e for _, e in m) > 1 for m, c in x.args) for x in subterms([g]))


def proportional(a, b):
    """polynomials equal up to a non-zero factor"""
    a, b = dict(tm._poly_items(a).items()), dict(tm._poly_items(b).items())
    if not a or a.keys() != b.keys():
        return False
    m = next(iter(a))
    return all(a[k] * b[m] == b[k] * a[m] for k in a)


class Result:
    def __init__(self, ok, how="", model=None, goal=None, reason=""):
        self.ok, self.how, self.model, self.goal, self.reason = ok, how, model, goal, reason

    def __bool__(self):
        return self.ok


class Prover:
    def __init__(self, facts=None, timeout=10000, use_cvc5=False):
        self.facts = facts or Facts()
        self.timeout = timeout
        self.use_cvc5 = use_cvc5
        self.deadline = None
        self.defs = {}
        self.scale = 1
        self.unknowns = 0

    def ctx(self, hyps):
        return Ctx(hyps, self.facts, self)

    # -------------------------------------------------- context simplification
    def simp(self, t, ctx):
        memo = {}

        def go(t):
            if not needs_simp(t):
                return t
            r = memo.get(t)
            if r is not None:
                return r
            r = self._simp1(t, ctx, go)
            memo[t] = r
            return r
        return go(t)

    def _simp1(self, t, ctx, go):
        op, a = t.op, t.args
        if op == "ite":
            c = go(a[0])
            d = ctx.decide(c)
            if d is True: return go(a[1])
            if d is False: return go(a[2])
            x = self.simp(a[1], ctx.extend(c))
            y = self.simp(a[2], ctx.extend(not_(c)))
            if x is not y and x.sort != "B":
                # c ? x : y where x==y whenever c : collapse delta on equality
                if c.op == "eq":
                    for v in sorted(c.fv, key=lambda v: v.id):
                        e = solve_for(c.args[0], v) if v.sort == "I" else None
                        if e is not None and v.op == "var":
                            if subst(x, {v: e}) is subst(y, {v: e}):
                                return y
                            break
            return ite(c, x, y)
        if op in ("le", "lt", "eq") and t.sort == "B":
            x = go(a[0])
            r = le0(x) if op == "le" else (lt0(x) if op == "lt" else eq0(x))
            return r
        if op == "and":
            out = []
            for x in a:
                y = go(x)
                d = ctx.decide(y)
                if d is True: continue
                if d is False: return FALSE
                out.append(y)
            return and_(*out)
        if op == "or":
            out = []
            for x in a:
                y = go(x)
                d = ctx.decide(y)
                if d is True: return TRUE
                if d is False: continue
                out.append(y)
            return or_(*out)
        if op == "mod":
            x, m = go(a[0]), go(a[1])
            if ctx.decide(and_(le(ZERO, x), lt(x, m))) is True:
                return x
            qr = self._polydiv(x, m, ctx)
            return qr[1] if qr else imod(x, m)
        if op == "idiv":
            x, m = go(a[0]), go(a[1])
            if ctx.decide(and_(le(ZERO, x), lt(x, m))) is True:
                return ZERO
            qr = self._polydiv(x, m, ctx)
            return qr[0] if qr else idiv(x, m)
        if op in ("sum", "lam"):
            vs, dims, body = (open_sum if op == "sum" else open_lam)(t)
            dims = [go(d) for d in dims]
            rng = []
            for v, d in zip(vs, dims):
                rng += [le(ZERO, v), lt(v, d)]
            c2 = ctx.extend(*rng)
            b = self.simp(body, c2)
            if op == "lam":
                return mk_lam(dims, vs, b)
            r = self._range_split(vs, dims, b, ctx)
            if r is None:
                r = mk_sum(list(zip(vs, dims)), b)
            if r is not t and needs_simp(r) and not (r.op == "sum" and r.args[2] is t.args[2]):
                if r.op in ("ite", "poly"):
                    return self.simp(r, ctx)
            return r
        return rebuild(t, go)

    def _polydiv(self, x, m, ctx):
        """quotient and remainder by an extent which is a sum, when they are polynomials"""
        if m.op != "poly" or x.op != "poly" or len(tm._poly_items(m)) < 2: return None
        X, seen = tm._poly_items(x), []
        for mono, c in tm._poly_items(m).items():
            if mono == () or c.denominator != 1: continue
            q = {}
            for xm, xc in X.items():
                d = dict(xm)
                if all(d.get(a, 0) >= e for a, e in mono) and (xc / c).denominator == 1:
                    for a, e in mono: d[a] -= e
                    q[tuple((a, d[a]) for a, _ in xm if d[a])] = xc / c
            if not q: continue
            q = tm._from_items(q, "I")
            r = sub(x, mul(q, m))
            if q in seen or x in (q, r): continue
            seen.append(q)
            if ctx.decide(and_(le(ZERO, r), lt(r, m))) is True: return q, r
        return None

    def _range_split(self, vs, dims, b, ctx):
        """Sum_{v<n} with ite(v<=e ..) factors: split the range when 0<=e+1<=n is provable"""
        if len(vs) != 1:
            return None
        v, n = vs[0], dims[0]
        for x in subterms([b]):
            if x.op != "ite" or v not in x.args[0].fv:
                continue
            for c in (x.args[0].args if x.args[0].op in ("and", "or") else (x.args[0],)):
                if c.op != "le" or v not in c.fv:
                    continue
                it = dict(tm._poly_items(c.args[0]))
                k = it.pop(((v, 1),), None)
                rest = tm._from_items(it)
                if k is None or v in rest.fv or rest.sort != "I":
                    continue
                if k == 1:       # v + rest <= 0 : v < 1-rest
                    cut = sub(ONE, rest)
                elif k == -1:    # v >= rest
                    cut = rest
                else:
                    continue
                if ctx.decide(and_(le(ZERO, cut), le(cut, n))) is not True:
                    continue
                lo = self.simp(b, ctx.extend(le(ZERO, v), lt(v, cut)))
                w = fresh("k")
                NAT.add(w)
                hi = self.simp(subst(b, {v: add(w, cut)}), ctx.extend(le(ZERO, w), lt(w, sub(n, cut))))
                r1 = self._range_split([v], [cut], lo, ctx)
                r2 = self._range_split([w], [sub(n, cut)], hi, ctx)
                if r1 is None: r1 = mk_sum([(v, cut)], lo)
                if r2 is None: r2 = mk_sum([(w, sub(n, cut))], hi)
                return add(r1, r2)
        return None

    # -------------------------------------------------- proving
    def prove(self, hyps, goal, depth=0, timeout=None, splits=0):
        goal = bool_of(goal)
        if goal is TRUE:
            STATS.by_canon += 1
            return Result(True, "canonical")
        ctx = hyps if isinstance(hyps, Ctx) else self.ctx(hyps)
        if goal.op == "and":
            how = []
            for g in goal.args:
                r = self.prove(ctx, g, depth, timeout, splits)
                if not r:
                    return r
                how.append(r.how)
            return Result(True, "+".join(sorted(set("+".join(how).split("+")))))
        if goal.op == "or" and any(x.op in ("lt", "le", "not", "eq") for x in goal.args) and depth < 4:
            # implication: move negated atoms to the hypotheses, prove the last conjunct/equation
            conj = [x for x in goal.args if x.op in ("and",)]
            eqs = [x for x in goal.args if x.op == "eq"]
            main = conj[0] if conj else (eqs[0] if eqs else None)
            if main is not None:
                rest = [not_(x) for x in goal.args if x is not main]
                r = self.prove(ctx.extend(*rest), main, depth + 1, timeout, splits)
                if r:
                    return r
        ctx, goal = self._rewrite_eqs(ctx, goal)
        g = goal
        for _ in range(3):
            g2 = self.simp(g, ctx)
            if g2 is g:
                break
            g = g2
        if g is TRUE:
            STATS.by_canon += 1
            return Result(True, "canonical")
        if self.defs and depth == 0 and splits == 0:
            # recursive definitions involving sums: unfold once
            u = []
            for x in sorted(subterms([g]), key=lambda x: x.id):
                if x.op == "app" and x.args[0] in self.defs and not _has_bv(x) and len(u) < 6:
                    d = self.simp(self.defs[x.args[0]](tuple(x.args[1:])), ctx)


                    if any(y.op in ("sum", "lam") for y in subterms([d])):
                        u.append(eq(x, d))
            if u:
                ctx = ctx.extend(*u)
        if g.op == "and":
            return self.prove(ctx, g, depth, timeout, splits)
        if g.op == "eq":
            g = self._clear_denoms(g, ctx)
            if g is TRUE:
                STATS.by_canon += 1
                return Result(True, "canonical")
            # case split on a remaining ite inside an equation
        if g.op == "eq":
            g2 = self._split_mod(g)
            if g2 is not g:
                return self.prove(ctx, g2, depth, timeout, splits)
        g2 = self._align_sums(g, ctx)
        if g2 is not g:
            return self.prove(ctx, g2, depth, timeout, splits)
        if splits < 10 and depth < 6:
            c = self._split_cond(g, ctx)
            if c is not None:
                r1 = self.prove(ctx.extend(c), g, depth, timeout, splits + 1)
                if not r1:
                    return r1
                r2 = self.prove(ctx.extend(not_(c)), g, depth, timeout, splits + 1)
                if not r2:
                    return r2
                return Result(True, "+".join(sorted(set(r1.how.split("+") + r2.how.split("+")))))
        if g.op == "eq" and depth < 2 and self._is_fact(ctx, g):
            STATS.by_canon += 1
            return Result(True, "canonical")
        if depth == 0 and linear(g) and ctx.decide(g) is True:
            STATS.by_z3 += 1
            return Result(True, "z3")
        lem = []
        if depth < 4:
            lem = self._lemmas(ctx, g, depth)
        lem = lem + self._extremal(ctx, g)
        if depth == 0: lem = lem + self._normal_forms(ctx)
        r = self._smt(ctx, g, lem, timeout or self.timeout)
        return r

    def _split_mod(self, g):
        """(x mod q*b) // b  ==  x//b - q*(x // (q*b))   for positive q, b"""
        m = {}
        for t in subterms([g]):
            if t.op == "idiv" and t.args[0].op == "mod" and surely_pos(t.args[1]) and surely_pos(t.args[0].args[1]):
                x, M = t.args[0].args
                b = t.args[1]
                q, r = tm._divsplit(M, b)
                if r is ZERO:
                    m[t] = sub(idiv(x, b), mul(q, idiv(x, M)))
        if not m or not any(t.op == "idiv" and t.args[0] is k.args[0].args[0] for t in subterms([g]) for k in m):
            return g
        return replace(g, m)

    def _align_sums(self, g, ctx):
        """sums over ranges that differ by a constant: unfold the longer ones"""
        sums = [x for x in subterms([g]) if x.op == "sum"]
        if not sums:
            return g
        groups = {}
        for x in sums:
            for pos, d in enumerate(x.args[0]):
                c = tm._poly_items(d).get((), Fraction(0))
                groups.setdefault((len(x.args[0]), sub(d, num(c))), []).append((c, x, pos))
        m = {}
        for (nd, base), lst in groups.items():
            if base is ZERO:
                continue
            cs = {c for c, _, _ in lst}
            c0 = min(cs)
            if len(cs) == 1 or max(cs) - c0 > 6:
                continue
            d0 = add(base, num(c0))
            if ctx.decide(le(ZERO, d0)) is not True:
                continue
            for c, x, pos in lst:
                if c == c0 or x in m:
                    continue
                vs, dims, body = open_sum(x)
                if any(vs[pos] in d.fv for d in dims):
                    continue
                oth = [(w, d) for i, (w, d) in enumerate(zip(vs, dims)) if i != pos]
                r = mk_sum([(vs[pos], d0)] + oth, body)
                for j in range(int(c - c0)):
                    r = add(r, mk_sum(oth, subst(body, {vs[pos]: add(d0, num(j))})))
                m[x] = r
        return replace(g, m) if m else g

    def _split_cond(self, g, ctx):
        """condition of an ite (outside binders) to split on: integer comparisons first"""
        best = None
        for x in subterms([g]):
            if x.op != "ite":
                continue
            for c in (x.args[0].args if x.args[0].op in ("and", "or") else (x.args[0],)):
                if c.op == "not": c = c.args[0]
                if c.op not in ("eq", "le") or c.args[0].sort != "I":
                    continue
                if ctx.decide(c) is not None:
                    continue
                k = (0 if c.op == "eq" else 1, c.id)
                if best is None or k < best[0]:
                    best = (k, c)
        return best[1] if best else None

    def _rewrite_eqs(self, ctx, goal):
        """use integer equations v == e among the hypotheses to eliminate v"""
        for _ in range(6):
            done = True
            for h in ctx.hyps:
                if h.op != "eq":
                    continue
                for v in sorted(h.fv, key=lambda v: -v.id):
                    if v.sort != "I" or not (v in goal.fv):
                        continue
                    e = solve_for(h.args[0], v)
                    if e is None or v in e.fv:
                        continue
                    m = {v: e}
                    goal = subst(goal, m)
                    ctx = Ctx([subst(x, m) for x in ctx.hyps], ctx.facts, self)
                    done = False
                    break
                if not done:
                    break
            if done:
                break
        return ctx, goal

    def _clear_denoms(self, g, ctx):
        d = g.args[0]
        for _ in range(6):
            # only top-level inv atoms
            invs = [a for m, c in tm._poly_items(d).items() for a, e in m if a.op == "inv"]
            if not invs:
                break
            x = max(invs, key=lambda a: a.h * 1000 + a.id)
            p = x.args[0]
            # max power of x
            k = max(e for m, c in tm._poly_items(d).items() for a, e in m if a is x)
            out = ZERO
            for m, c in tm._poly_items(d).items():
                e = dict(m).get(x, 0)
                rest = tm._from_items({tuple((a, ee) for a, ee in m if a is not x): c})
                out = add(out, mul(rest, power(p, k - e) if k - e else ONE))
            d = out
        return eq0(d)

    def _lemmas(self, ctx, g, depth):
        lem = []
        atoms = [x for x in subterms([g] + [h for h in ctx.hyps if h.op != "le"])]
        sums = sorted([x for x in atoms if x.op == "sum"], key=lambda x: x.id)
        lams = sorted([x for x in atoms if x.op == "app" and any(y.sort == "L" for y in x.args[1:])], key=lambda x: x.id)
        if depth >= 3:
            return lem
        # whole-goal combination: all sums in the goal over the same range
        if g.op in ("eq", "le", "lt") and sums:
            p = self._combine(g.args[0])
            if p is not None:
                vs, dims, body, rest = p
                rng = []
                for v, d in zip(vs, dims):
                    rng += [le(ZERO, v), lt(v, d)]
                if rest is ZERO or g.op == "le":
                    cg = eq0(body) if g.op == "eq" else (le0(body) if g.op == "le" else None)
                    if cg is not None and self.prove(ctx.extend(*rng), cg, depth + 1, 2000):
                        s = mk_sum(list(zip(vs, dims)), body)
                        lem.append(eq0(sub(g.args[0], rest)) if g.op == "eq" else le0(sub(g.args[0], rest)))
        # non-negativity of sums
        if g.op in ("le", "lt") or any(h.op in ("le", "lt") and any(s in subterms([h]) for s in sums) for h in ctx.hyps):
            for s in sums[:12]:
                vs, dims, body = open_sum(s)
                rng = []
                for v, d in zip(vs, dims):
                    rng += [le(ZERO, v), lt(v, d)]
                c2 = ctx.extend(*rng)
                if self._quick(c2, le(ZERO, body)):
                    lem.append(le(ZERO, s))
                    if len(dims) == 1 and body.sort == "I" and self._quick(c2, le(body, ONE)):
                        lem.append(or_(le(s, dims[0]), lt(dims[0], ZERO)))
                elif self._quick(c2, le(body, ZERO)):
                    lem.append(le(s, ZERO))
        # pairwise congruence
        def pairs(xs):
            for i in range(len(xs)):
                for j in range(i):
                    yield xs[j], xs[i]
        n = 0
        for x, y in pairs(sums[:14]):
            if len(x.args[0]) != len(y.args[0]):
                continue
            if [d.id for d in x.args[0]] != [d.id for d in y.args[0]]:
                if not all(ctx.decide(eq(d1, d2)) is True for d1, d2 in zip(x.args[0], y.args[0])):
                    continue
            vs, dims, body = open_sum(x)
            b2 = tm._replace_raw(y.args[2], dict(zip(y.args[1], vs)))
            rng = []
            for v, d in zip(vs, dims):
                rng += [le(ZERO, v), lt(v, d)]
            n += 1
            if n > 40: break
            if self.prove(ctx.extend(*rng), eq(body, b2), depth + 1, 1500):
                lem.append(eq(x, y))
        n = 0
        for x, y in pairs(lams[:24]):
            if x.args[0] != y.args[0] or len(x.args) != len(y.args):
                continue
            n += 1
            if n > 120: break
            ok = True
            for a, b in zip(x.args[1:], y.args[1:]):
                if a is b:
                    continue
                if a.sort != "L" or b.sort != "L":
                    if a.sort == b.sort == "L" or not self._quick(ctx, eq(a, b)):
                        ok = False
                        break
                    continue
                if len(a.args[0]) != len(b.args[0]) or not all(d1 is d2 or ctx.decide(eq(d1, d2)) is True for d1, d2 in zip(a.args[0], b.args[0])):
                    ok = False
                    break
                vs, dims, body = open_lam(a)
                b2 = tm._replace_raw(b.args[2], dict(zip(b.args[1], vs)))
                rng = []
                for v, d in zip(vs, dims):
                    rng += [le(ZERO, v), lt(v, d)]
                if not self.prove(ctx.extend(*rng), eq(body, b2), depth + 1, 1500):
                    ok = False
                    break
            if ok:
                lem.append(eq(x, y))
        return lem

    def _is_fact(self, ctx, g):
        """an instance of a known fact, after simplification"""
        for x in sorted([x for x in subterms([g]) if x.op == "app" and x.args[0] in ctx.facts.on_app and not _has_bv(x)], key=lambda x: x.id)[:12]:
            for f in ctx.facts.on_app[x.args[0]]:
                for y in f(x.args[1:]):
                    if not any(z.op == "eq" for z in ([y] + list(y.args) if y.op in ("or", "and") else [y])): continue
                    for _ in range(3):
                        z, y = y, self.simp(y, ctx)
                        if z is y: break
                    if y is g: return True
                    if y.op == "eq":
                        y = self._clear_denoms(y, ctx)
                        if y is g or (y.op == "eq" and proportional(y.args[0], g.args[0])):
                            return True
        return False

    def _normal_forms(self, ctx):
        """functions of whole arrays met in the hypotheses, equal to their simplified form"""
        lem = getattr(ctx, "_nf", None)
        if lem is None:
            lem = ctx._nf = []
            for x in sorted(subterms([h for h in ctx.hyps if h.op in ("le", "lt")]), key=lambda x: x.id):
                if x.op == "app" and x.args[0] in ("min_", "max_") and needs_simp(x) and not _has_bv(x):
                    y = x
                    for _ in range(3):
                        z, y = y, self.simp(y, ctx)
                        if z is y: break
                    if y is not x: lem.append(eq(x, y))
                    if len(lem) > 8: break
        return lem

    def _extremal(self, ctx, g):
        """min_/max_ of a family: bounds every member met in the obligation, and is attained"""
        atoms = sorted(subterms([g] + list(ctx.hyps)), key=lambda x: x.id)
        ext = [x for x in atoms if x.op == "app" and x.args[0] in ("min_", "max_") and len(x.args) == 2 and x.args[1].op == "lam"]
        if not ext:
            return []
        lem = []
        apps = [x for x in atoms if x.op == "app" and x.args[0] not in ("min_", "max_") and not _has_bv(x)]
        for e in ext[:8]:
            if _has_bv(e):
                continue
            vs, dims, body = open_lam(e.args[1])
            inst = []
            sk = [var("at!%d!%d" % (e.id, i), "I") for i in range(len(vs))]
            bt = subterms([body])
            used = [v for v in vs if v in bt]
            for pat in sorted([x for x in bt if x.op == "app" and used and all(v in x.args[1:] for v in used)], key=lambda x: x.id)[:3]:
                for x in apps:
                    if x.args[0] != pat.args[0] or len(x.args) != len(pat.args) or x is pat:
                        continue
                    m = {v: ZERO for v in vs if v not in used}
                    for a, b in zip(pat.args[1:], x.args[1:]):
                        if a in vs and a not in m:
                            m[a] = b
                    if all(v in m for v in vs) and m not in inst:
                        inst.append(m)
            sk_rng = and_(*[and_(le(ZERO, s_), lt(s_, d)) for s_, d in zip(sk, dims)])
            lem.append(implies(and_(*[lt(ZERO, d) for d in dims]), and_(sk_rng, eq(e, subst(body, dict(zip(vs, sk)))))))
            inst.append(dict(zip(vs, sk)))
            for m in inst[:12]:
                rng = and_(*[and_(le(ZERO, m[v]), lt(m[v], d)) for v, d in zip(vs, dims)])
                b = subst(body, m)
                lem.append(implies(rng, le(e, b) if e.args[0] == "min_" else le(b, e)))
        return lem

    def _combine(self, p):
        """p = sum_i coef_i * Sum_i + rest, all Sums over identical single ranges"""
        groups = {}
        rest = ZERO
        for m, c in tm._poly_items(p).items():
            ss = [(a, e) for a, e in m if a.op == "sum" and len(a.args[0]) == 1]
            if len(ss) != 1 or ss[0][1] != 1:
                rest = add(rest, tm._from_items({m: c}))
                continue
            s = ss[0][0]
            coef = tm._from_items({tuple(x for x in m if x[0] is not s): c})
            groups.setdefault(s.args[0], []).append((coef, s))
        if len(groups) != 1:
            return None
        (dims, lst), = groups.items()
        vs, _, b0 = open_sum(lst[0][1])
        body = ZERO
        for coef, s in lst:
            b = tm._replace_raw(s.args[2], dict(zip(s.args[1], vs)))
            body = add(body, mul(coef, b))
        # constants times the range length can be absorbed too
        return vs, dims, body, rest

    def _quick(self, ctx, goal):
        goal = self.simp(goal, ctx)
        if goal is TRUE:
            return True
        return ctx.decide(goal) is True

    def _smt(self, ctx, g, lem, timeout):
        z = Z()
        c = Ctx([], ctx.facts, self)
        s = z3.Solver()
        timeout *= self.scale
        s.set("timeout", timeout)
        c.z, c.s, c.nside, c.seen_apps = z, s, 0, set()
        c._assert(ctx.hyps + lem)
        zg = z.tr(g)
        c._assert(c._facts_for([g]))
        s.add(z3.Not(zg))
        while c.nside < len(z.side):
            s.add(z.side[c.nside])
            c.nside += 1
        t0 = time.time()
        STATS.queries += 1
        r = s.check()
        STATS.solver_s += time.time() - t0
        if r == z3.unsat:
            STATS.by_z3 += 1
            return Result(True, "z3")
        if r == z3.sat:
            return Result(False, "z3", self._model(s.model()), g, "z3: counter-model of the abstracted obligation")
        reason = s.reason_unknown()
        # second chance: nonlinear tactic
        t0 = time.time()
        try:
            s2 = z3.Then("simplify", "purify-arith", "smt").solver()
            s2.set("timeout", timeout)
            s2.add(s.assertions())
            r = s2.check()
            STATS.solver_s += time.time() - t0
            if r == z3.unsat:
                STATS.by_z3 += 1
                return Result(True, "z3")
        except z3.Z3Exception:
            pass
        if self.use_cvc5:
            rr = self._cvc5(s, timeout)
            if rr == "unsat":
                STATS.by_cvc5 += 1
                return Result(True, "cvc5")
            reason += "; cvc5: %s" % rr
        return Result(False, "z3", None, g, "unknown: " + reason)

    def _cvc5(self, s, timeout):
        try:
            import cvc5
            t0 = time.time()
            slv = cvc5.Solver()
            slv.setOption("tlimit-per", str(timeout))
            slv.setLogic("ALL")
            p = cvc5.InputParser(slv)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, s.to_smt2(), "q")
            sm = p.getSymbolManager()
            out = "unknown"
            while True:
                cmd = p.nextCommand()
                if cmd.isNull():
                    break
                o = str(cmd.invoke(slv, sm)).strip()
                if o in ("sat", "unsat", "unknown"):
                    out = o
            STATS.solver_s += time.time() - t0
            return out
        except Exception as e:
            return "error %s" % e

    def _model(self, m):
        out = {}
        for d in m.decls():
            if d.arity() == 0:
                v = m[d]
                try:
                    if z3.is_int_value(v):
                        out[d.name()] = v.as_long()
                    elif z3.is_rational_value(v):
                        out[d.name()] = float(v.numerator_as_long()) / float(v.denominator_as_long())
                    elif z3.is_algebraic_value(v):
                        a = v.approx(20)
                        out[d.name()] = float(a.numerator_as_long()) / float(a.denominator_as_long())
                    elif z3.is_bool(v):
                        out[d.name()] = z3.is_true(v)
                except Exception:
                    pass
            else:
                try:
                    ent = {}
                    fi = m[d]
                    for i in range(fi.num_entries()):
                        e = fi.entry(i)
                        key = tuple(float(e.arg_value(j).as_fraction()) if not z3.is_int_value(e.arg_value(j)) else e.arg_value(j).as_long() for j in range(e.num_args()))
                        v = e.value()
                        ent[key] = v.as_long() if z3.is_int_value(v) else float(v.as_fraction())
                    ev = fi.else_value()
                    try:
                        els = ev.as_long() if z3.is_int_value(ev) else float(ev.as_fraction())
                    except Exception:
                        els = None
                    out[d.name()] = (ent, els)
                except Exception:
                    pass
        return out
