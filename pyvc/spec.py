"""Specification worlds.

A contract is a scenario  spec(S): it builds inputs, calls functions of /repo through S.call and
states postconditions.  The same text is used in two worlds:
  Sym  - inputs are symbolic (all sizes, all reals); S.call executes the real source symbolically and
         every statement becomes an obligation for the prover;
  Conc - inputs are drawn at random (or from a counter-model); S.call runs the real function and every
         statement is evaluated (replay of counterexamples, cross-check of the verifier).
"""
import math, time, traceback, random, zlib, itertools
import numpy as np
from . import terms as tm
from .terms import *
from . import arr
from .arr import SArr, Buf, Unsupported, asarr, from_fn, is_scalar
from . import interp
from .interp import Engine, PyRaise, SymSeq, Obligation, Closure, PathPruned
from .smt import STATS


class Skip(Exception):
    """concrete draw rejected by a precondition"""


class SpecError(Exception):
    pass


class Failed(Exception):
    def __init__(self, label, detail):
        Exception.__init__(self, "%s: %s" % (label, detail))
        self.label, self.detail = label, detail


REGISTRY = {}     # property -> [Contract]


class Contract:
    def __init__(self, prop, name, fn, funcs, bounded=None, runs=40, conc_only=None, sym=True, search=None, conc=True, paths=256, timeout=20000, opts=None):
        self.prop, self.name, self.fn, self.funcs = prop, name, fn, funcs
        self.bounded, self.runs, self.sym, self.conc = bounded, runs, sym, conc
        self.paths, self.timeout = paths, timeout
        self.opts = opts or {}
        self.search = search or 4 * runs


def contract(prop, name, funcs=(), **kw):
    def deco(f):
        for p in (prop if isinstance(prop, (list, tuple)) else [prop]):
            REGISTRY.setdefault(p, []).append(Contract(p, name, f, list(funcs), **kw))
        return f
    return deco


def module(name):
    import importlib, sys
    importlib.import_module(name)
    return sys.modules[name]


class World:
    def dims(self, names, **k):
        return [self.dim(n, **k) for n in names.split()]

    def opt(self, name, choices):
        raise NotImplementedError


# ================================================================== symbolic
class Sym(World):
    symbolic = True

    def __init__(self, E, case=None):
        self.E = E
        self.calls = []
        self.case = case or {}
        self.names = {}
        self.assumed = []
        self.checks = 0

    # ---- inputs
    def dim(self, name, lo=1, hi=4):
        if name in self.case:
            return self.case[name]
        v = var(name, "I")
        NAT.add(v)
        if lo >= 1:
            tm._POS.add(v)
        if lo > 1:
            self.E.base_hyps.append(le(num(lo), v)) if le(num(lo), v) not in self.E.base_hyps else None
        return v

    def int(self, name, lo=None, hi=None):
        v = var(name, "I")
        self._bounds(v, lo, hi)
        return v

    def index(self, name, n):
        v = var(name, "I")
        NAT.add(v)
        self._hyp(lt(v, lift(n)))
        return v

    def _hyp(self, h):
        h = bool_of(h)
        if h is not TRUE and h not in self.E.base_hyps:
            self.E.base_hyps.append(h)
            self.E._ctx = None

    def _bounds(self, v, lo, hi):
        if lo is not None: self._hyp(le(lift(lo), v))
        if hi is not None: self._hyp(le(v, lift(hi)))

    def real(self, name, lo=None, hi=None, pos=False, **k):
        v = var(name, "R")
        self._bounds(v, lo, hi)
        if pos: self._hyp(lt(ZERO, v))
        return v

    def bool(self, name):
        return self.case[name]

    def choice(self, name, options):
        return options[self.case[name]]

    def arr(self, name, shape, sort="R", pos=False, nonneg=False, lo=None, hi=None, distinct=False, increasing=False, **k):
        shape = tuple(lift(d) for d in shape)
        if pos: self._fact(name, lambda a: [lt(ZERO, app(name, a, sort))])
        if nonneg: self._fact(name, lambda a: [le(ZERO, app(name, a, sort))])
        if lo is not None: self._fact(name, lambda a: [le(lift(lo), app(name, a, sort))])
        if hi is not None: self._fact(name, lambda a: [le(app(name, a, sort), lift(hi))])
        if name in self.names:
            raise SpecError("array %s drawn twice" % name)
        self.names[name] = shape
        return SArr(Buf(shape, lambda idx: app(name, idx, sort), sort, name))

    def iarr(self, name, shape, lo=0, hi=None):
        """integers in [lo, hi)"""
        return self.arr(name, shape, sort="I", lo=lo, hi=(sub(lift(hi), ONE) if hi is not None else None))

    def _fact(self, name, f):
        key = (name, f.__code__.co_code, tuple(c.cell_contents for c in (f.__closure__ or ())) if f.__closure__ else ())
        seen = self.E.__dict__.setdefault("_factkeys", set())
        try:
            if key in seen: return
            seen.add(key)
        except TypeError:
            pass
        self.E.facts.add(name, f)

    def fact(self, name, f):
        """f(args) -> list of assumptions about the input array/function `name`"""
        seen = self.E.__dict__.setdefault("_factkeys2", set())
        if (name, f.__code__) in seen: return
        seen.add((name, f.__code__))
        self.E.facts.add(name, f)

    def stochastic(self, name, n, m=None):
        """row-stochastic matrix: entries >= 0, rows sum to one"""
        m = n if m is None else m
        A = self.arr(name, (n, m), nonneg=True)
        n_, m_ = lift(n), lift(m)

        def rule(vds, fs, body):
            if len(vds) == 1 and body.op == "app" and body.args[0] == name and body.args[-1] is vds[0][0] and vds[0][1] is m_ \
                    and vds[0][0] not in body.args[1].fv:
                return ONE
            if len(vds) > 1:
                for f in fs:
                    if f.op == "app" and f.args[0] == name:
                        v = f.args[-1]
                        d = [q for w, q in vds if w is v]
                        if d and d[0] is m_ and v not in f.args[1].fv and all(v not in h.fv for h in fs if h is not f) and all(v not in q.fv for w, q in vds):
                            return tm.mk_sum([q for q in vds if q[0] is not v], tm._prod([h for h in fs if h is not f]))
        self._rule(name, rule)
        return A

    def simplex(self, name, n):
        w = self.arr(name, (n,), nonneg=True)
        n_ = lift(n)

        def rule(vds, fs, body):
            if len(vds) == 1 and body.op == "app" and body.args[0] == name and body.args[-1] is vds[0][0] and vds[0][1] is n_:
                return ONE
        self._rule(name, rule)
        if n_.op == "num":
            return self._closed(name, w, (), int(n_.args[0]))
        return w

    def _closed(self, name, A, lead, n):
        """concrete length: the last probability is one minus the others"""
        last = lambda i: sub(ONE, add(ZERO, *[app(name, tuple(i) + (num(k),)) for k in range(n - 1)]))
        if not lead:
            self._hyp(le(ZERO, last(())))
        return SArr(Buf(A.shp, lambda idx: ite(eq(idx[-1], num(n - 1)), last(idx[:-1]), app(name, idx)), "R", name))

    def _rule(self, name, rule):
        seen = self.E.__dict__.setdefault("_rules", {})
        if name in seen: return
        seen[name] = rule
        tm.SUM_RULES.append(rule)

    def fun(self, name, nargs=1):
        """uninterpreted real function, applied elementwise"""
        def g(*xs):
            if all(is_scalar(x) for x in xs):
                return app(name, [lift(x) for x in xs])
            return arr.elementwise(lambda *t: app(name, t), *xs, sort="R")
        g._model_ = True
        return g

    def rowfun(self, name, out, arity=None):
        """function of vectors evaluated row by row; out: number of outputs (or a shape tuple)"""
        outs = out if isinstance(out, tuple) else (out,)
        outs = tuple(lift(o) for o in outs)

        def g(*args):
            arrs = [asarr(a) for a in args]
            lead = arr.broadcast_shapes([a.shp[:-1] for a in arrs] + [()])
            snaps = [(a.snap(), a.shp) for a in arrs]
            nl = len(lead)

            def el(idx):
                l, o = idx[:nl], idx[nl:]
                rows = []
                for f, sh in snaps:
                    li = arr.bindex(sh[:-1], l)
                    rows.append(tm.lam([sh[-1]], lambda k: num_of(f(li + (k,)))))
                return app(name, tuple(o) + tuple(rows))
            r = SArr(Buf(lead + outs, el, "R"))
            return r
        g._model_ = True

        def row(r):
            if not isinstance(r, SArr): return r
            return tm.lam([r.shp[-1]], lambda k: num_of(r.at((k,))))
        g.raw = lambda idx, *rows: app(name, tuple(lift(i) for i in idx) + tuple(row(r) for r in rows))
        return g

    def wrapfun(self, f):
        """a python function supplied by the specification, called by the program"""
        f._model_ = True
        return f

    # ---- running the program
    def call(self, f, *args, **kw):
        r = self.E.call(f, args, kw)
        self.calls.append(r)
        return r

    def method(self, obj, name, *args, **kw):
        m = self.E.getattr(obj, name)
        return self.call(m, *args, **kw)

    def attr(self, obj, name):
        r = self.E.getattr(obj, name)
        self.calls.append(r)
        return r

    def getitem(self, obj, key):
        return self.E.getitem(obj, key)

    def override(self, f, model):
        self.E.override(f, model)

    def inside(self, f):
        return f

    def cell(self, A, *idx):
        return A.at(tuple(lift(i) for i in idx)) if isinstance(A, SArr) else asarr(A).at(tuple(lift(i) for i in idx))

    # ---- logic
    def require(self, c):
        self.E.assume(c)

    def sum(self, lo, hi, f): return sumT(lo, hi, lambda k: lift(f(k)))
    def ite(self, c, a, b): return ite(bool_of(lift(c)), lift(a), lift(b))
    def sqrt(self, x): return fn("sqrt", lift(x))
    def exp(self, x): return fn("exp", lift(x))
    def log(self, x): return fn("log", lift(x))
    def sin(self, x): return fn("sin", lift(x))
    def floor(self, x): return floorT(lift(x))
    def fmin(self, a, b): return minT(lift(a), lift(b))
    def fmax(self, a, b): return maxT(lift(a), lift(b))
    def abs(self, a): return absT(lift(a))
    def eq(self, a, b, tol=None): return eq(lift(a), lift(b))
    def le(self, a, b, tol=None): return le(lift(a), lift(b))
    def lt(self, a, b): return lt(lift(a), lift(b))
    def and_(self, *a): return and_(*[lift(x) for x in a])
    def or_(self, *a): return or_(*[lift(x) for x in a])
    def not_(self, a): return not_(lift(a))
    def implies(self, a, b): return implies(lift(a), lift(b))
    def idiv(self, a, b): return idiv(lift(a), lift(b))
    def mod(self, a, b): return imod(lift(a), lift(b))
    def num(self, x): return lift(x)
    def frac(self, a, b): return num(Fraction(a, b))
    tiny = 0
    def eq0(self, a): return eq0(num_of(lift(a)))
    def le0(self, a): return le0(num_of(lift(a)))
    def quot(self, a, b): return div(num_of(lift(a)), num_of(lift(b)))
    def sq(self, a): return power(lift(a), 2)
    def note(self, **k): pass
    def forall_given(self, label, shape, pre, f):
        self.forall(label, shape, lambda *i: implies(bool_of(lift(pre(*i))), bool_of(lift(f(*i)))))

    def lemma(self, label, n, pre, fs):
        """proved over n arbitrary reals, with no other hypothesis: pre implies each of fs in turn; the result, applied to terms,
        is the instance to use as a hypothesis elsewhere (steps)"""
        vs = [tm.var("lm%d_%s" % (i, label.replace(" ", "_")), "R") for i in range(n)]
        hy = [bool_of(lift(pre(*vs)))]
        for j, f in enumerate(fs):
            g = bool_of(lift(f(*vs)))
            self.checks += 1
            self.E.obligs.append(Obligation("lemma: %s (step %d)" % (label, j + 1), list(hy), g, "spec"))
            hy.append(g)
        return lambda *ts: self.implies(pre(*ts), self.and_(*[f(*ts) for f in fs]))

    def steps(self, label, shape, pre, fs, using=()):
        """for all indices, pre implies each of fs, every one with the help of those before it and of the lemma instances given"""
        vs, hy = [], []
        for d in shape:
            v = fresh("q")
            NAT.add(v)
            vs.append(v)
            hy.append(lt(v, lift(d)))
        n = len(self.E.hyps)
        self.E.hyps += hy + [bool_of(lift(pre(*vs)))] + [bool_of(lift(u(*vs))) for u in using]
        self.E._ctx = None
        try:
            for j, f in enumerate(fs):
                g = bool_of(lift(f(*vs)))
                self.check(label + (" (step %d)" % (j + 1) if j + 1 < len(fs) else ""), g)
                self.E.hyps.append(g)
                self.E._ctx = None
        finally:
            del self.E.hyps[n:]
            self.E._ctx = None

    # ---- statements
    def check(self, label, c):
        self.checks += 1
        c = lift(c) if not isinstance(c, T) else c
        self.E.obligs.append(Obligation(label, list(self.E.base_hyps + self.E.hyps), bool_of(c), "spec"))

    def forall(self, label, shape, f):
        lit = [i for i, d in enumerate(shape) if lift(d).op == "num" and 1 < lift(d).args[0] <= 4]
        if lit and len(lit) < len(shape):
            for v in range(int(lift(shape[lit[0]]).args[0])):
                i = lit[0]
                self.forall(label, tuple(shape[:i]) + tuple(shape[i + 1:]), lambda *ix, i=i, v=v: f(*(ix[:i] + (num(v),) + ix[i:])))
            return
        vs = []
        hy = []
        for d in shape:
            d = lift(d)
            if d is tm.ONE:
                vs.append(num(0))
                continue
            v = fresh("q")
            NAT.add(v)
            vs.append(v)
            hy += [lt(v, d)]
        # concrete small shapes are enumerated (keeps element closures simple)
        if all(lift(d).op == "num" for d in shape):
            n = 1
            for d in shape: n *= int(lift(d).args[0])
            if n <= 64:
                for idx in np.ndindex(*[int(lift(d).args[0]) for d in shape]):
                    self.checks += 1
                    c = f(*[num(i) for i in idx])
                    self.E.obligs.append(Obligation("%s %s" % (label, list(idx)), list(self.E.base_hyps + self.E.hyps), bool_of(lift(c)), "spec"))
                return
        self.checks += 1
        nh = len(self.E.hyps)
        self.E.hyps += [h for h in hy if h is not TRUE]
        self.E._ctx = None
        try:
            c = f(*vs)
            self.E.obligs.append(Obligation(label, list(self.E.base_hyps + self.E.hyps), bool_of(lift(c)), "spec"))
        finally:
            del self.E.hyps[nh:]
            self.E._ctx = None

    def shape(self, label, A, shape):
        A = asarr(A)
        if len(A.shp) != len(shape):
            self.check(label + ": number of dimensions", FALSE)
            return
        for i, (a, b) in enumerate(zip(A.shp, shape)):
            self.check("%s: extent of axis %d" % (label, i), eq(a, lift(b)))

    def frozen(self, A):
        """snapshot of an input array, to state that it was not modified"""
        f = A.snap()
        return f

    def unchanged(self, label, A, snap):
        self.forall(label, A.shp, lambda *i: eq(A.at(tuple(i)), snap(tuple(i))))

    def array(self, shape, f, sort="R"):
        vs = tuple(fresh("a") for _ in shape)
        NAT.update(vs)
        t = lift(f(*vs))       # evaluated now: the program may modify the arrays f reads
        return from_fn(shape, lambda idx: subst(t, dict(zip(vs, idx))), sort)

    def concrete(self, x):
        return x

    def expect_raise(self, f, *a, **k):
        try:
            self.call(f, *a, **k)
        except PyRaise as e:
            return e.exc
        return None

    def warned(self):
        return or_(FALSE, *[TRUE for e in self.E.events if e.kind == "warn"])


# ================================================================== concrete
class FunEnv:
    def __init__(self, seed):
        self.seed = seed

    def coef(self, name, *key):
        h = zlib.crc32(repr((self.seed, name) + tuple(int(k) if isinstance(k, (int, np.integer)) else k for k in key)).encode())
        return (h % 2000003) / 1000001.5 - 1.0


class Conc(World):
    symbolic = False

    def __init__(self, seed, case=None, model=None, style=None, rtol=1e-6):
        self.seed = seed
        self.rng = np.random.RandomState(seed % (2**31))
        self.case = case or {}
        self.model = model or {}
        self.env = {}
        self.inputs = {}
        self.calls = []
        self.rtol = rtol
        self.style = style if style is not None else seed % 4
        self.funs = FunEnv(seed)
        self.checks = 0
        self.scale = 1.0
        self.warnings = []

    def _log(self, name, v):
        self.inputs[name] = v
        return v

    def dim(self, name, lo=1, hi=4):
        if name in self.case:
            return self.case[name]
        if name in self.model and isinstance(self.model[name], int):
            v = max(lo, min(self.model[name], max(hi, 6)))
        else:
            v = int(self.rng.randint(lo, max(hi, lo) + 1))
        self.env[name] = v
        return self._log(name, v)

    def int(self, name, lo=None, hi=None):
        lo = -5 if lo is None else int(lo)
        hi = lo + 10 if hi is None else int(hi)
        if name in self.model and isinstance(self.model[name], int) and lo <= self.model[name] <= hi:
            v = self.model[name]
        else:
            v = int(self.rng.randint(lo, hi + 1))
        self.env[name] = v
        return self._log(name, v)

    def index(self, name, n):
        return self.int(name, 0, int(n) - 1)

    def _draw(self, shape):
        s = self.style
        if s == 0:
            return self.rng.randn(*shape)
        if s == 1:
            return self.rng.randint(-3, 4, size=shape).astype(float)
        if s == 2:
            return self.rng.randn(*shape) * 10 ** self.rng.uniform(-2, 2)
        return self.rng.uniform(0, 1, size=shape)

    def real(self, name, lo=None, hi=None, pos=False, **k):
        m = self.model.get(name)
        if isinstance(m, (int, float)) and not isinstance(m, bool) and abs(m) < 1e8:
            v = float(m)
        elif lo is not None and hi is not None:
            r = self.rng.rand()
            if r < 0.08: v = float(lo)
            elif r < 0.16: v = float(hi)
            else: v = float(lo) + (float(hi) - float(lo)) * self.rng.rand()
        else:
            v = float(self._draw((1,))[0])
            if lo is not None: v = float(lo) + abs(v)
            if hi is not None: v = float(hi) - abs(v)
            if pos: v = abs(v) + 0.05
        self.env[name] = v
        return self._log(name, v)

    def bool(self, name):
        return self.case[name]

    def choice(self, name, options):
        return options[self.case[name]]

    def arr(self, name, shape, sort="R", pos=False, nonneg=False, lo=None, hi=None, **k):
        shape = tuple(int(d) for d in shape)
        if sort == "I":
            a = self.rng.randint(int(lo), int(hi) + 1, size=shape)
        elif lo is not None and hi is not None:
            a = float(lo) + (float(hi) - float(lo)) * self.rng.rand(*shape)
        else:
            a = self._draw(shape)
            if lo is not None: a = float(lo) + abs(a)
            if hi is not None: a = float(hi) - abs(a)
            if nonneg: a = abs(a)
            if pos: a = abs(a) + 0.05
        a = np.asarray(a)
        for nm, tab in self.model.items():
            if nm.split("/")[0] == name and isinstance(tab, tuple):
                for key, v in tab[0].items():
                    try:
                        ik = tuple(int(x) for x in key)
                        if all(0 <= i < d for i, d in zip(ik, shape)) and len(ik) == len(shape) and abs(v) < 1e6:
                            a[ik] = v
                    except Exception:
                        pass
        self.env[name] = (lambda b: lambda *i: b[tuple(int(x) for x in i)])(a.copy())
        self._log(name, a.copy())
        return a

    def iarr(self, name, shape, lo=0, hi=None):
        return self.arr(name, shape, sort="I", lo=lo, hi=hi - 1)

    def fact(self, name, f):
        pass

    def stochastic(self, name, n, m=None):
        m = n if m is None else m
        a = self.rng.dirichlet(np.ones(int(m)), size=int(n))
        if self.style == 1:
            a = np.where(self.rng.rand(int(n), int(m)) < 0.4, 0.0, a)
            for i in range(int(n)):
                if a[i].sum() == 0: a[i, self.rng.randint(int(m))] = 1.0
            a = a / a.sum(axis=1)[:, None]
        self.env[name] = (lambda b: lambda *i: b[tuple(int(x) for x in i)])(a.copy())
        self._log(name, a.copy())
        return a

    def simplex(self, name, n):
        a = self.rng.dirichlet(np.ones(int(n)))
        self.env[name] = (lambda b: lambda *i: b[tuple(int(x) for x in i)])(a.copy())
        self._log(name, a.copy())
        return a

    def fun(self, name, nargs=1):
        c = [self.funs.coef(name, i) for i in range(2 * nargs + 2)]

        def g(*xs):
            r = c[0]
            for i, x in enumerate(xs):
                x = np.asarray(x, dtype=float) if not np.isscalar(x) else x
                r = r + c[2 * i + 1] * x + 0.5 * np.tanh(c[2 * i + 2] + x)
            return r
        self.env[name] = g
        return g

    def rowfun(self, name, out, arity=None):
        outs = out if isinstance(out, tuple) else (out,)
        outs = tuple(int(o) for o in outs)
        coef = self.funs.coef

        def raw(idx, *rows):
            idx = tuple(int(i) for i in idx)
            z = coef(name, "c", *idx)
            r = 0.0
            for a, row in enumerate(rows):
                for j, x in enumerate(np.asarray(row, dtype=float).ravel()):
                    z = z + coef(name, "w", *idx, a, j) * x
                    r = r + 0.3 * coef(name, "l", *idx, a, j) * x
            return np.tanh(z) + r

        def g(*args):
            args = [np.asarray(a, dtype=float) for a in args]
            lead = np.broadcast_shapes(*[a.shape[:-1] for a in args])
            bs = [np.broadcast_to(a, lead + a.shape[-1:]) for a in args]
            R = np.zeros(lead + outs)
            for l in np.ndindex(*lead):
                for o in np.ndindex(*outs):
                    R[l + o] = raw(o, *[b[l] for b in bs])
            return R
        g.raw = raw
        no = len(outs)
        self.env[name] = lambda *a: raw(a[:no], *a[no:])
        return g

    def wrapfun(self, f):
        return f

    def call(self, f, *args, **kw):
        import warnings
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            with np.errstate(all="ignore"):
                r = f(*args, **kw)
        self.warnings += [x for x in w if issubclass(x.category, UserWarning)]
        self.calls.append(r)
        return r

    def method(self, obj, name, *args, **kw):
        return self.call(getattr(obj, name), *args, **kw)

    def attr(self, obj, name):
        r = getattr(obj, name)
        self.calls.append(r)
        return r

    def getitem(self, obj, key):
        return obj[key]

    def override(self, f, model):
        pass

    def cell(self, A, *idx):
        return np.asarray(A)[tuple(int(i) for i in idx)]

    def require(self, c):
        if not bool(c):
            raise Skip()

    def sum(self, lo, hi, f):
        r = 0.0
        for k in range(int(lo), int(hi)):
            r = r + f(k)
        return r
    def ite(self, c, a, b): return a if c else b
    def sqrt(self, x): return math.sqrt(x) if x >= 0 else float("nan")
    def floor(self, x): return math.floor(x)
    def exp(self, x): return math.exp(x)
    def log(self, x): return math.log(x)
    def sin(self, x): return math.sin(x)
    def fmin(self, a, b): return min(a, b)
    def fmax(self, a, b): return max(a, b)
    def abs(self, a): return abs(a)

    def eq(self, a, b, tol=None):
        if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
            return bool(a) == bool(b)
        a, b = complex(a), complex(b)
        if a == b: return True
        t = self.rtol if tol is None else tol
        r = abs(a - b) <= t * (1.0 + max(abs(a), abs(b)))
        if not r:
            self.last = (a.real if a.imag == 0 else a, b.real if b.imag == 0 else b)
        return r

    def le(self, a, b, tol=None):
        a, b = float(a), float(b)
        t = self.rtol if tol is None else tol
        r = a <= b + t * (1.0 + max(abs(a) if np.isfinite(a) else 0, abs(b) if np.isfinite(b) else 0))
        if not r: self.last = (a, b)
        return r
    def lt(self, a, b): return float(a) < float(b)
    def and_(self, *a): return all(bool(x) for x in a)
    def or_(self, *a): return any(bool(x) for x in a)
    def not_(self, a): return not a
    def implies(self, a, b): return (not a) or bool(b)
    def idiv(self, a, b): return a // b
    def mod(self, a, b): return a % b
    def num(self, x): return x
    def frac(self, a, b): return a / b
    tiny = 1e-7
    def eq0(self, a):
        a = float(a)
        self.last = a
        return abs(a) <= 1e-9
    def le0(self, a):
        a = float(a)
        self.last = a
        return a <= 1e-9
    def quot(self, a, b):
        with np.errstate(all="ignore"):
            return np.float64(a) / np.float64(b)
    def sq(self, a): return a * a
    def note(self, **k):
        for n_, v in k.items():
            v = np.array(v)
            self.inputs[n_] = v.copy() if v.ndim else v.item()
            self.env[n_] = ((lambda b: lambda *i: b[tuple(int(q) for q in i)])(v.copy())) if v.ndim else v.item()
    def forall_given(self, label, shape, pre, f):
        self.forall(label, shape, lambda *i: bool(f(*i)) if pre(*i) else True)

    def lemma(self, label, n, pre, fs):
        return lambda *ts: True

    def steps(self, label, shape, pre, fs, using=()):
        for j, f in enumerate(fs):
            self.forall_given(label + (" (step %d)" % (j + 1) if j + 1 < len(fs) else ""), shape, pre, f)

    def check(self, label, c):
        self.checks += 1
        self.last = getattr(self, "last", None)
        if not bool(c):
            raise Failed(label, "values %s" % (self.last,))

    def forall(self, label, shape, f):
        for idx in np.ndindex(*[int(d) for d in shape]):
            self.checks += 1
            self.last = None
            if not bool(f(*idx)):
                raise Failed(label, "at index %s: values %s" % (list(idx), self.last))

    def shape(self, label, A, shape):
        s = np.shape(A)
        if tuple(s) != tuple(int(d) for d in shape):
            raise Failed(label, "shape %s, expected %s" % (s, tuple(int(d) for d in shape)))

    def frozen(self, A):
        return np.array(A, copy=True)

    def unchanged(self, label, A, snap):
        if not (np.shape(A) == np.shape(snap) and np.array_equal(A, snap)):
            raise Failed(label, "argument modified from %s to %s" % (snap, A))

    def array(self, shape, f, sort="R"):
        shape = tuple(int(d) for d in shape)
        r = np.zeros(shape, dtype={"R": float, "I": int, "B": bool}[sort])
        for i in np.ndindex(*shape):
            r[i] = f(*i)
        return r

    def expect_raise(self, f, *a, **k):
        try:
            self.call(f, *a, **k)
        except Exception as e:
            return e
        return None

    def warned(self):
        return len(self.warnings) > 0
