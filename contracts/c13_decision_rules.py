"""C13: decision rules interpolate their values and answer every form of call consistently."""
import types
import itertools
import numpy as np
from pyvc.spec import contract, module
from contracts.c01_grids import assume_mlinspace, prodn, flat

dr = module("dolo.numeric.decision_rule")
grids = module("dolo.numeric.grids")
proc = module("dolo.numeric.processes")

CASES = []
for d, exo, (m, kind) in itertools.product((1, 2), ("empty", "unstructured", "cartesian"), (("linear", "u"), ("cubic", "u"), ("linear", "n"))):
    CASES.append(dict(d=d, exo=exo, method=m, grid=kind))


class Coefs:
    def __init__(self, kind, gg, V):
        self.kind, self.gg, self.shp = kind, gg, V.shp
        self.V = V.snap()


def use_interpolation_contract(S):
    """the interpolation library: filter then evaluate is one function of the grid, the values and the point"""
    if not S.symbolic: return
    from interpolation.splines import eval_linear, eval_cubic
    from interpolation.splines.prefilter_cubic import prefilter_cubic
    from pyvc.arr import asarr

    def same(g1, g2):
        assert len(g1) == len(g2)
        for x, y in zip(g1, g2):
            if isinstance(x, tuple):
                for a, b in zip(x, y): S.check("interpolation uses one grid", S.eq(a, b))
            else:
                S.check("interpolation uses one grid", x is y or S.eq(asarr(x).shp[0], asarr(y).shp[0]))
                S.forall("interpolation uses one grid", (asarr(x).shp[0],), lambda k: S.eq(S.cell(x, k), S.cell(y, k)))

    def ev(kind, gg, sh, V, s):
        s = asarr(s)
        assert len(sh) == len(gg) + 1, (sh, gg)
        for k, g in enumerate(gg):
            S.check("values have the size of the grid", S.eq(sh[k], g[2] if isinstance(g, tuple) else asarr(g).shp[0]))
        S.check("points have one coordinate per axis", S.eq(s.shp[1], len(gg)))
        return S.array((s.shp[0], sh[-1]), lambda p, q: itp_term(S, kind, gg, lambda *ix: V(tuple(ix) + (q,)), [s.at((p, S.num(k))) for k in range(len(gg))]))

    def m_linear(gg, V, s):
        V = asarr(V)
        return ev("linear", gg, V.shp, V.snap(), s)

    def m_cubic(gg, C, s):
        same(gg, C.gg)
        return ev("cubic", gg, C.shp, C.V, s)
    S.override(eval_linear, m_linear)
    S.override(eval_cubic, m_cubic)
    S.override(prefilter_cubic, lambda gg, V: Coefs("cubic", gg, asarr(V)))


def itp_term(S, kind, gg, V, pt):
    from pyvc import terms as tm
    from pyvc.arr import asarr
    ns, rep = [], []
    for g in gg:
        if isinstance(g, tuple):
            rep += [tm.lift(x) for x in g]
            ns.append(tm.lift(g[2]))
        else:
            a = asarr(g)
            ns.append(a.shp[0])
            rep.append(tm.lam([a.shp[0]], lambda k, a=a: tm.num_of(a.at((k,)))))
    return tm.app("itp_" + kind, tuple(rep) + (tm.lam(ns, lambda *ix: tm.num_of(V(*ix))),) + tuple(tm.num_of(tm.lift(x)) for x in pt))


def itp(S, kind, gg, ns, V, pt):
    """interpolation of the values V (function of a multi-index) on the grid gg at a point"""
    if S.symbolic:
        return itp_term(S, kind, gg, V, pt)
    from interpolation.splines import eval_linear, eval_cubic
    from interpolation.splines.prefilter_cubic import prefilter_cubic
    A = np.zeros(tuple(ns) + (1,))
    for ix in np.ndindex(*ns): A[ix + (0,)] = V(*ix)
    p = np.array(pt, dtype=float)[None, :]
    return (eval_cubic(gg, prefilter_cubic(gg, A), p) if kind == "cubic" else eval_linear(gg, A, p))[0, 0]


def draw_grid(S, d, kind, tag):
    """a cartesian grid with d axes: (object, extents, representation for the interpolation library, axis points)"""
    if kind == "u":
        ns = [S.dim("n%s%d" % (tag, k), lo=3, hi=5) for k in range(d)]
        a = [S.real("a%s%d" % (tag, k)) for k in range(d)]
        w = [S.real("w%s%d" % (tag, k), pos=True) for k in range(d)]
        if not S.symbolic: w = [x + 0.1 for x in w]
        b = [x + y for x, y in zip(a, w)]
        g = S.call(grids.UniformCartesianGrid, a, b, ns)
        return g, ns, tuple((a[k], b[k], ns[k]) for k in range(d)), lambda k, i: a[k] + (b[k] - a[k]) * S.quot(i, ns[k] - 1)
    ns = [S.dim("n%s%d" % (tag, k), lo=2, hi=4) for k in range(d)]
    xs = [S.arr("x%s%d" % (tag, k), (ns[k],), increasing=True) for k in range(d)]
    if not S.symbolic:
        xs = [np.cumsum(np.abs(x) + 0.05) for x in xs]
        S.note(**{"x%s%d" % (tag, k): xs[k] for k in range(d)})
    g = S.call(grids.NonUniformCartesianGrid, xs)
    return g, ns, tuple(xs), lambda k, i: S.cell(xs[k], i)


class Rule:
    def __init__(self, S):
        c = S.case
        self.S, self.d, self.kind = S, c["d"], c["method"]
        assume_mlinspace(S)
        use_interpolation_contract(S)
        self.endo, self.ns, self.gg, self.ax = draw_grid(S, self.d, c["grid"], "s")
        self.N = prodn(self.ns)
        self.exo_kind = c["exo"]
        self.proc = None
        if self.exo_kind == "empty":
            self.exo, self.M, self.gm, self.nm = S.call(grids.EmptyGrid), 1, (), []
        elif self.exo_kind == "unstructured":
            self.M = S.dim("M", hi=3)
            self.exo = S.call(grids.UnstructuredGrid, S.arr("m", (self.M, 2)))
        else:
            self.exo, self.nm, self.gm, self.axm = draw_grid(S, 1, c["grid"], "m")
            self.M = self.nm[0]
        self.nx = S.dim("nx", hi=2)
        self.X = S.arr("X", (self.M, self.N, self.nx))
        self.dr = S.call(dr.DecisionRule, self.exo, self.endo, interp_method=self.kind, dprocess=self.proc)

    def at_is(self, i, q, pt):
        """decision q in exogenous state i at the point pt"""
        S = self.S
        if self.exo_kind == "cartesian":
            return self.at_ms([self.axm(0, i)], q, pt)
        return itp(S, self.kind, self.gg, self.ns, lambda *ix: S.cell(self.X, i, flat(self.ns, ix), q), pt)

    def at_ms(self, m, q, pt):
        S = self.S
        return itp(S, self.kind, self.gm + self.gg, self.nm + self.ns, lambda *ix: S.cell(self.X, ix[0], flat(self.ns, ix[1:]), q), list(m) + list(pt))


def points(S, u, name, n):
    """points around the grid; concrete draws stay inside (extrapolation is the library's affair)"""
    P = S.arr(name, (n, u.d))
    if not S.symbolic:
        P = np.array([[u.ax(k, 0) + (u.ax(k, u.ns[k] - 1) - u.ax(k, 0)) * (0.5 + 0.5 * np.tanh(P[p, k])) for k in range(u.d)] for p in range(n)]).reshape(n, u.d)
        S.note(**{name: P})
    return P


@contract("C13", "interpolated decision rule", ["dolo.numeric.decision_rule." + f for f in ("DecisionRule.__init__", "DecisionRule.set_values", "DecisionRule.eval_is", "DecisionRule.eval_s", "DecisionRule.eval_ms", "DecisionRule.eval_ijs", "get_coefficients", "eval_is", "eval_ms", "eval_s")],
          bounded="1 or 2 endogenous axes, at most 1 cartesian exogenous axis (any number of points)", opts={"cases": CASES}, runs=140)
def _(S):
    u = Rule(S)
    f = S.frozen(u.X)
    S.method(u.dr, "set_values", u.X)
    S.unchanged("values unchanged", u.X, f)
    n = S.dim("np", hi=3)
    P = points(S, u, "P", n)
    pt = lambda p: [S.cell(P, p, k) for k in range(u.d)]
    i = S.index("i", u.M)
    R = S.method(u.dr, "eval_is", i, P)
    S.shape("decisions", R, (n, u.nx))
    S.forall("interpolates the values of the exogenous state", (n, u.nx), lambda p, q: S.eq(S.cell(R, p, q), u.at_is(i, q, pt(p))))
    if u.exo_kind == "empty":
        for lab, Q in (("without exogenous state", S.method(u.dr, "eval_s", P)), ("any exogenous value", S.method(u.dr, "eval_ms", S.arr("mm", (n, 1)), P)), ("any transition", S.method(u.dr, "eval_ijs", 0, 0, P))):
            S.shape(lab, Q, (n, u.nx))
            S.forall(lab, (n, u.nx), lambda p, q: S.eq(S.cell(Q, p, q), u.at_is(0, q, pt(p))))
    elif u.exo_kind == "unstructured":
        j = S.index("j", u.M)
        Q = S.method(u.dr, "eval_ijs", i, j, P)
        S.forall("transition to state j", (n, u.nx), lambda p, q: S.eq(S.cell(Q, p, q), u.at_is(j, q, pt(p))))
    else:
        mm = S.arr("mm", (n, 1))
        if not S.symbolic:
            mm = u.axm(0, 0) + (u.axm(0, u.M - 1) - u.axm(0, 0)) * (0.5 + 0.5 * np.tanh(mm))
            S.note(mm=mm)
        Q = S.method(u.dr, "eval_ms", mm, P)
        S.forall("exogenous value", (n, u.nx), lambda p, q: S.eq(S.cell(Q, p, q), u.at_ms([S.cell(mm, p, 0)], q, pt(p))))
        J = S.dim("J", hi=2)
        y = S.arr("y", (u.M, J, 1))
        if not S.symbolic:
            y = u.axm(0, 0) + (u.axm(0, u.M - 1) - u.axm(0, 0)) * (0.5 + 0.5 * np.tanh(y))
            S.note(y=y)
        g = S.call(proc.GDP, S.arr("xm", (u.M, 1)), y, S.arr("wm", (u.M, J)), grid=u.exo)
        u.dr.dprocess = g
        j = S.index("j", J)
        Q = S.method(u.dr, "eval_ijs", i, j, P)
        S.forall("transition to integration node j", (n, u.nx), lambda p, q: S.eq(S.cell(Q, p, q), u.at_ms([S.cell(y, i, j, 0)], q, pt(p))))
    if not S.symbolic:
        for m in range(u.M):
            S.check("values at the grid points", np.allclose(u.dr.eval_is(m, u.endo.nodes), np.asarray(u.X)[m], atol=1e-8))
        u.X[...] = 0
        Z = S.method(u.dr, "eval_is", i, P)
        S.check("later changes of the given values have no effect", np.array_equal(Z, R))


@contract("C13", "linear rule reproduces affine functions", ["dolo.numeric.decision_rule.DecisionRule"], sym=False, bounded="1 to 3 endogenous axes with 2 to 5 points", runs=40)
def _(S):
    d = 1 + S.seed % 3
    kind = "un"[(S.seed // 3) % 2]
    method = "linear" if kind == "n" or S.seed % 2 else "cubic"
    g, ns, gg, ax = draw_grid(S, d, kind, "s")
    c = S.arr("c", (d + 1, 2))
    f = lambda s: c[0] + s @ c[1:]
    M = S.dim("M", hi=3)
    r = dr.DecisionRule(grids.UnstructuredGrid(np.arange(M)[:, None]), g, interp_method=method, values=np.stack([(m + 1) * f(g.nodes) for m in range(M)]))
    lo, hi = np.array([ax(k, 0) for k in range(d)]), np.array([ax(k, ns[k] - 1) for k in range(d)])
    P = lo + (hi - lo) * S.rng.rand(7, d)
    for m in range(M):
        S.check("affine function", np.allclose(r(m, P), (m + 1) * f(P), atol=1e-7))


@contract("C13", "forms of call", ["dolo.numeric.decision_rule.CallableDecisionRule.__call__"])
def _(S):
    n, ns, nm, nx = S.dim("n", hi=3), S.dim("ns", hi=3), S.dim("nm", hi=2), S.dim("nx", hi=2)
    hs, hi, hm = S.rowfun("hs", nx), S.rowfun("hi", nx), S.rowfun("hm", nx)
    one = lambda i: S.array((1,), lambda k: i.at(()) if hasattr(i, 'shp') else i)
    r = S.call(dr.CallableDecisionRule)

    def both(m, s):
        assert len(np.shape(m)) == len(np.shape(s)) == 2 if not S.symbolic else m.ndim == s.ndim == 2
        S.check("as many exogenous vectors as states", S.eq(m.shape[0], s.shape[0]))
        return hm(m, s)

    def two(s):
        assert s.ndim == 2
        return s
    r.eval_s, r.eval_is, r.eval_ms = S.wrapfun(lambda s: hs(two(s))), S.wrapfun(lambda i, s: hi(one(i), two(s))), S.wrapfun(both)
    s, s1, m, m1 = S.arr("s", (n, ns)), S.arr("s1", (ns,)), S.arr("m", (n, nm)), S.arr("m1", (nm,))
    i = S.index("i", 4)
    row = lambda a, k, p: S.array((k,), lambda q: S.cell(a, p, q))

    def same(lab, R, lead, ref):
        S.shape(lab, R, lead + (nx,))
        S.forall(lab, lead + (nx,), lambda *ix: S.eq(S.cell(R, *ix), ref(*ix)))
    same("one state", S.call(r, s1), (), lambda q: hs.raw((q,), s1))
    same("several states", S.call(r, s), (n,), lambda p, q: hs.raw((q,), row(s, ns, p)))
    same("index, one state", S.call(r, i, s1), (), lambda q: hi.raw((q,), one(i), s1))
    same("index, several states", S.call(r, i, s), (n,), lambda p, q: hi.raw((q,), one(i), row(s, ns, p)))
    same("one exogenous vector, one state", S.call(r, m1, s1), (), lambda q: hm.raw((q,), m1, s1))
    same("several exogenous vectors and states", S.call(r, m, s), (n,), lambda p, q: hm.raw((q,), row(m, nm, p), row(s, ns, p)))
    same("one exogenous vector, several states", S.call(r, m1, s), (n,), lambda p, q: hm.raw((q,), m1, row(s, ns, p)))
    same("several exogenous vectors, one state", S.call(r, m, s1), (n,), lambda p, q: hm.raw((q,), row(m, nm, p), s1))


@contract("C13", "constant decision rule", ["dolo.numeric.decision_rule.ConstantDecisionRule." + f for f in ("__init__", "eval_s", "eval_is", "eval_ms")])
def _(S):
    n, ns, nx = S.dim("n", hi=3), S.dim("ns", hi=3), S.dim("nx", hi=3)
    x = S.arr("x", (nx,))
    r = S.call(dr.ConstantDecisionRule, x)
    s, s1, m = S.arr("s", (n, ns)), S.arr("s1", (ns,)), S.arr("m", (n, 1))
    for lab, R in (("states", S.call(r, s)), ("index and states", S.call(r, S.index("i", 3), s)), ("exogenous and states", S.call(r, m, s))):
        S.shape(lab, R, (n, nx))
        S.forall(lab, (n, nx), lambda p, q: S.eq(S.cell(R, p, q), S.cell(x, q)))
    R = S.call(r, s1)
    S.shape("one state", R, (nx,))
    S.forall("one state", (nx,), lambda q: S.eq(S.cell(R, q), S.cell(x, q)))


@contract("C13", "decision rule given by formulas", ["dolo.numeric.decision_rule.CustomDR"], sym=False, bounded="random formulas over one model", runs=10)
def _(S):
    from contracts.models_lib import model
    m = model()
    c = [float(np.round(v, 3)) for v in S.arr("c", (6,))]
    vals = {"n": "%r + %r*k + %r*aux" % tuple(c[:3]), "i": "exp(%r*k*z) + beta*k + %r" % tuple(c[3:5]), "aux": "%r*z + k*aux2" % c[5], "aux2": "k + delta + e_z"}
    vals = {k: vals[k] for k in (list(vals) if S.seed % 2 else list(vals)[::-1])}
    r = S.call(dr.CustomDR, vals, model=m)
    cal = m.calibration
    s, e = S.arr("s", (3, 2)), S.arr("e", (3, 1))
    s = np.clip(s, -2, 2)
    R = S.call(r, e, s)
    z, k = s[:, 0], s[:, 1]
    aux = c[5] * z + k * (k + cal["delta"] + e[:, 0])
    S.shape("one decision per control", R, (3, 2))
    S.forall("first control", (3,), lambda p: S.eq(R[p, 0], c[0] + c[1] * k[p] + c[2] * aux[p]))
    S.forall("second control", (3,), lambda p: S.eq(R[p, 1], np.exp(c[3] * k[p] * z[p]) + cal["beta"] * k[p] + c[4]))
    R1 = S.call(r, e[0], s[0])
    S.shape("one state", R1, (2,))
    S.forall("one state", (2,), lambda q: S.eq(R1[q], R[0, q]))
