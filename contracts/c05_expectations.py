"""C05: residuals and values are expectations over the shock, state by state."""
import types
import numpy as np
from pyvc.spec import contract, module
from contracts.c02_markov_products import draw_chain

ti = module("dolo.algos.time_iteration")
vi = module("dolo.algos.value_iteration")
iti = module("dolo.algos.improved_time_iteration")
proc = module("dolo.numeric.processes")
dist = module("dolo.numeric.distribution")


def draw_process(S, ragged=False):
    """a discretized process of either kind; returns (process, number of states, dimension, node(i,k), number of successors, inode(i,j,k), weight(i,j))"""
    if S.case["process"] == "mc":
        n, d, x, P = draw_chain(S, "m", n=S.dim("n", hi=3), d=S.dim("d", hi=2))
        p = S.call(proc.MarkovChain, P, x)
        return p, n, d, lambda i, k: S.cell(x, i, k), n, lambda i, j, k: S.cell(x, j, k), lambda i, j: S.cell(P, i, j)
    if S.case["process"] == "gdp":
        n, J, d = S.dim("n", hi=3), S.dim("J", hi=3), S.dim("d", hi=2)
        x, y, w = S.arr("x", (n, d)), S.arr("y", (n, J, d)), S.arr("w", (n, J))
        g = types.SimpleNamespace(nodes=x)
        p = S.call(proc.GDP, x, y, w, grid=g)
        return p, n, d, lambda i, k: S.cell(x, i, k), J, lambda i, j, k: S.cell(y, i, j, k), lambda i, j: S.cell(w, i, j)
    J, d = S.dim("J", hi=3), S.dim("d", hi=2)
    y, w = S.arr("y", (J, d)), S.simplex("w", J)
    p = S.call(dist.FiniteDistribution, y, w)
    return p, 1, d, lambda i, k: 0.0, J, lambda i, j, k: S.cell(y, j, k), lambda i, j: S.cell(w, j)


CASES = {"cases": [{"process": "mc"}, {"process": "gdp"}, {"process": "iid"}]}


def pair(S, i, j):
    return S.array((2,), lambda k: S.ite(S.eq(k, 0), i, j))


def decision(S, h):
    """a decision rule of which only eval_ijs is known"""
    return types.SimpleNamespace(eval_ijs=S.wrapfun(lambda i, j, s: h(pair(S, i, j), s)))


class Setup:
    def __init__(self, S):
        self.S = S
        self.p, self.n, self.d, self.node, self.J, self.inode, self.w = draw_process(S)
        self.N, self.ns, self.nx = S.dim("N", hi=3), S.dim("ns", hi=2), S.dim("nx", hi=2)
        self.np = S.dim("np", hi=2)
        self.s, self.x = S.arr("s", (self.N, self.ns)), S.arr("xx", (self.n, self.N, self.nx))
        self.parms = S.arr("parms", (self.np,))
        self.g, self.h = S.rowfun("g", self.ns), S.rowfun("h", self.nx)

    def vec(self, n, f): return self.S.array((n,), f)
    def M(self, i): return self.vec(self.d, lambda k: self.node(i, k))
    def M2(self, i, j): return self.vec(self.d, lambda k: self.inode(i, j, k))
    def row(self, n): return self.vec(self.ns, lambda k: self.S.cell(self.s, n, k))
    def ctl(self, i, n): return self.vec(self.nx, lambda k: self.S.cell(self.x, i, n, k))
    def nxt(self, i, j, n): return self.vec(self.ns, lambda k: self.g.raw((k,), self.M(i), self.row(n), self.ctl(i, n), self.M2(i, j), self.parms))
    def dec(self, h, nh, i, j, n):
        return self.vec(nh, lambda k: h.raw((k,), pair(self.S, i, j), self.nxt(i, j, n)))


@contract("C05", "residuals of the arbitrage equations", ["dolo.algos.time_iteration.residuals_simple"], opts=CASES)
def _(S):
    u = Setup(S)
    f = S.rowfun("f", u.nx)
    fz = S.frozen(u.x)
    R = S.call(ti.residuals_simple, f, u.g, u.s, u.x, decision(S, u.h), u.p, u.parms)
    S.shape("one residual per state and control", R, (u.n, u.N, u.nx))
    S.forall("residual is the weighted sum over successors", (u.n, u.N, u.nx), lambda i, n, k: S.eq(S.cell(R, i, n, k), S.sum(0, u.J, lambda j: u.w(i, j) * f.raw(
        (k,), u.M(i), u.row(n), u.ctl(i, n), u.M2(i, j), u.nxt(i, j, n), u.dec(u.h, u.nx, i, j, n), u.parms))))
    S.unchanged("controls unchanged", u.x, fz)


@contract("C05", "residuals when decisions of tomorrow are shocked too", ["dolo.algos.improved_time_iteration.euler_residuals"], opts=CASES)
def _(S):
    u = Setup(S)
    f = S.rowfun("f", u.nx)
    nodiff = lambda q: S.wrapfun(lambda *a, diff=False: q(*a))
    fz = S.frozen(u.x)
    calls = []
    dr = decision(S, u.h)
    dr.set_values = S.wrapfun(lambda v: calls.append(v))
    R = S.call(iti.euler_residuals, nodiff(f), nodiff(u.g), u.s, u.x, dr, u.p, u.parms, diff=False, set_dr=True)
    S.check("the decision rule is updated once", len(calls) == 1)
    S.shape("one residual per state and control", R, (u.n, u.N, u.nx))
    S.forall("residual is the weighted sum over successors", (u.n, u.N, u.nx), lambda i, n, k: S.eq(S.cell(R, i, n, k), S.sum(0, u.J, lambda j: u.w(i, j) * f.raw(
        (k,), u.M(i), u.row(n), u.ctl(i, n), u.M2(i, j), u.nxt(i, j, n), u.dec(u.h, u.nx, i, j, n), u.parms))))
    S.forall("the decision rule takes the given values", (u.n, u.N, u.nx), lambda i, n, k: S.eq(S.cell(calls[0], i, n, k), S.cell(u.x, i, n, k)))
    S.call(iti.euler_residuals, nodiff(f), nodiff(u.g), u.s, u.x, dr, u.p, u.parms, diff=False, set_dr=False)
    S.check("or is left alone", len(calls) == 1)
    S.unchanged("controls unchanged", u.x, fz)


@contract("C05", "derivatives with respect to decisions of tomorrow", ["dolo.algos.improved_time_iteration.euler_residuals"], opts={"noxcheck": True, **CASES})
def _(S):
    u = Setup(S)
    f = S.rowfun("f", u.nx)
    D = S.rowfun("D", (u.nx, u.nx))
    nodiff = lambda q: S.wrapfun(lambda *a, diff=False: q(*a))
    if S.symbolic:
        # against the contract of the numerical jacobian: (value, derivative), the derivative being that of f in its sixth argument
        from pyvc import terms as tm
        from dolo.numeric.optimize.newton import SerialDifferentiableFunction

        def model(ff):
            def ev(X):
                a = S.E.call(ff, (X,), {})
                return (a, D(*current[-1]))
            return S.wrapfun(ev)
        S.override(SerialDifferentiableFunction, model)
        current = []

        def ff(*a, diff=False):
            current.append(a)
            return f(*a)
        fun = S.wrapfun(ff)
        dval = lambda *a: D.raw(*a)
    else:
        fun = nodiff(f)

        def dval(kl, *rows):
            k, l = int(kl[0]), int(kl[1])
            X = np.array(rows[5], dtype=float)
            e = np.zeros(len(X)); h = 1e-6; e[l] = h
            up, dn = list(rows), list(rows)
            up[5], dn[5] = X + e, X - e
            return (f.raw((k,), *up) - f.raw((k,), *dn)) / (2 * h)
    R, JR, SI = S.call(iti.euler_residuals, fun, nodiff(u.g), u.s, u.x, decision(S, u.h), u.p, u.parms, diff=False, with_jres=True, set_dr=False)
    S.shape("derivatives", JR, (u.n, u.J, u.N, u.nx, u.nx))
    S.shape("future states", SI, (u.n, u.J, u.N, u.ns))
    args = lambda i, j, n: (u.M(i), u.row(n), u.ctl(i, n), u.M2(i, j), u.nxt(i, j, n), u.dec(u.h, u.nx, i, j, n), u.parms)
    S.forall("residual", (u.n, u.N, u.nx), lambda i, n, k: S.eq(S.cell(R, i, n, k), S.sum(0, u.J, lambda j: u.w(i, j) * f.raw((k,), *args(i, j, n)))))
    S.forall("future states", (u.n, u.J, u.N, u.ns), lambda i, j, n, k: S.eq(S.cell(SI, i, j, n, k), u.g.raw((k,), u.M(i), u.row(n), u.ctl(i, n), u.M2(i, j), u.parms)))
    S.forall("weighted derivative", (u.n, u.J, u.N, u.nx, u.nx), lambda i, j, n, k, l: S.eq(S.cell(JR, i, j, n, k, l), u.w(i, j) * dval((k, l), *args(i, j, n)), 1e-4))


@contract("C05", "value of following a policy", ["dolo.algos.value_iteration.update_value"], opts=CASES)
def _(S):
    u = Setup(S)
    nv = S.dim("nv", hi=2)
    v = S.arr("v", (u.n, u.N, nv))
    val, hv = S.rowfun("val", nv), S.rowfun("hv", nv)
    fz = S.frozen(v)
    R = S.call(vi.update_value, val, u.g, u.s, u.x, v, decision(S, u.h), decision(S, hv), u.p, u.parms)
    S.shape("one value per state", R, (u.n, u.N, nv))
    S.forall("value is the weighted sum over successors", (u.n, u.N, nv), lambda i, n, k: S.eq(S.cell(R, i, n, k), S.sum(0, u.J, lambda j: u.w(i, j) * val.raw(
        (k,), u.M(i), u.row(n), u.ctl(i, n), S.array((nv,), lambda q: S.cell(v, i, n, q)), u.M2(i, j), u.nxt(i, j, n), u.dec(u.h, u.nx, i, j, n), u.dec(hv, nv, i, j, n), u.parms))))
    S.unchanged("values unchanged", v, fz)


@contract("C05", "value of a choice", ["dolo.algos.value_iteration.choice_value"], opts={"cases": [{"process": "mc"}, {"process": "iid"}]})
def _(S):
    u = Setup(S)
    i, n, beta = S.index("i", u.n), S.index("row", u.N), S.real("beta")
    fel, hv = S.rowfun("fel", 1), S.rowfun("hv", 2)
    s, x = u.row(n), u.ctl(i, n)
    one = lambda j: S.array((1,), lambda k: j)
    V = S.call(vi.choice_value, u.g, fel, i, s, x, S.wrapfun(lambda j, q: hv(one(j), q)), u.p, u.parms, beta)
    S.shape("a value", V, (1,))
    S.check("felicity plus discounted expectation", S.eq(S.cell(V, 0), fel.raw((0,), u.M(i), s, x, u.parms) + beta * S.sum(0, u.J, lambda j: u.w(i, j) * hv.raw((0,), one(j), u.nxt(i, j, n)))))


@contract("C05", "expected change of tomorrow's decisions", ["dolo.algos.improved_time_iteration.d_filt_dx", "dolo.algos.improved_time_iteration.ssmul", "dolo.algos.improved_time_iteration.Operator.__init__", "dolo.algos.improved_time_iteration.Operator.apply"], opts={"cases": [{"via": "function"}, {"via": "operator"}]})
def _(S):
    n, J, N, nx, ns = S.dim("n", hi=3), S.dim("J", hi=3), S.dim("N", hi=3), S.dim("nx", hi=2), S.dim("ns", hi=2)
    M, F, pi = S.arr("M", (n, J, N, nx, nx)), S.arr("F", (n, J, N, ns)), S.arr("pi", (n, N, nx))
    h = S.rowfun("h", nx)
    dr = decision(S, h)
    got = []
    dr.set_values = S.wrapfun(lambda v: got.append(S.frozen(v)))
    p0 = S.array((n, N, nx), lambda *i: S.cell(pi, *i))
    fM, fF, fp = S.frozen(M), S.frozen(F), S.frozen(pi)
    if S.case["via"] == "function":
        R = S.call(iti.d_filt_dx, pi, M, F, n, N, nx, dr)
    else:
        L = S.call(iti.Operator, M, F, dr)
        R = S.method(L, "apply", pi)
        S.unchanged("argument unchanged", pi, fp)
    S.check("the decision rule is set once", len(got) == 1)
    S.unchanged("to the given values", p0, got[0])
    S.shape("result", R, (n, N, nx))
    S.forall("sum over successors", (n, N, nx), lambda i, q, k: S.eq(S.cell(R, i, q, k), S.sum(0, J, lambda j: S.sum(0, nx, lambda l: S.cell(M, i, j, q, k, l) * h.raw(
        (l,), pair(S, i, j), S.array((ns,), lambda t: S.cell(F, i, j, q, t)))))))
    S.unchanged("matrices unchanged", M, fM)
    S.unchanged("states unchanged", F, fF)


@contract("C05", "linear operator of improved time iteration", ["dolo.algos.improved_time_iteration.Operator", "dolo.algos.improved_time_iteration.invert_jac", "dolo.algos.invert.solve_gu"], sym=False,
          bounded="1 to 3 exogenous states, 3 to 5 points, 1 or 2 controls, contracting operators", runs=20)
def _(S):
    from dolo.numeric.decision_rule import DecisionRule
    from dolo.numeric.grids import UnstructuredGrid, UniformCartesianGrid as CartesianGrid
    n, N, nx = S.dim("n", hi=3), 3 + S.dim("N", hi=2), S.dim("nx", hi=2)
    eg = CartesianGrid([0.0], [1.0], [N])
    P = S.stochastic("P", n)
    dr = DecisionRule(UnstructuredGrid(np.arange(n, dtype=float)[:, None]), eg, interp_method="cubic")
    A = 0.2 * np.clip(S.arr("A", (n, n, N, nx, nx)), -1, 1) * np.asarray(P)[:, :, None, None, None]
    F = np.abs(np.clip(S.arr("F", (n, n, N, 1)), -1, 1))
    res = S.arr("res", (n, N, nx))
    dres = np.eye(nx) * 2 + 0.3 * np.clip(S.arr("D", (n, N, nx, nx)), -1, 1)
    f = [S.frozen(v) for v in (res, dres, A, F)]
    tot, nn, lam = S.call(iti.invert_jac, res, dres, A, F, dr, tol=1e-12)
    b = np.linalg.solve(dres, res[..., None])[..., 0]
    L = iti.Operator(A, F, dr)
    K = L.as_matrix()
    v = S.arr("v", (n, N, nx))
    S.check("matrix of the operator", np.allclose(K @ v.ravel(), L.matvec(v.ravel()), atol=1e-10))
    S.check("shape", L.shape == K.shape == (n * N * nx,) * 2)
    S.check("inverse of the linearised system", np.allclose(tot.ravel(), np.linalg.solve(np.eye(len(K)) - K, b.ravel()), atol=1e-8))
    for a, q, nm in zip((res, dres, A, F), f, ("residuals", "derivatives", "matrices", "states")):
        S.unchanged(nm + " unchanged", a, q)


@contract("C05", "expectations on random models", ["dolo.algos.time_iteration.residuals_simple", "dolo.algos.improved_time_iteration.euler_residuals"], sym=False,
          bounded="random models with 1 or 2 states, controls and shocks, Markov chains of 1 to 4 states or 2 to 31 independent shocks", runs=40)
def _(S):
    from contracts.c24_iterations import Toy
    t = Toy(S)
    sh = (t.n, len(t.s), t.nx)
    x, y = S.rng.normal(size=sh), S.rng.normal(size=sh)
    dr = t.rule(y)
    want = t.residuals(x, dr)
    k = x.copy()
    S.note(kind=t.kind, x=x, y=y)
    R = ti.residuals_simple(t.f, t.g, t.s, x, dr, t.dp, t.p)
    S.check("residuals", np.allclose(R, want, atol=1e-9))
    er = iti.euler_residuals
    R = er(t.f, t.g, t.s, x, dr, t.dp, t.p, diff=False, set_dr=False)
    S.check("residuals of improved time iteration", np.allclose(R, want, atol=1e-9))
    R, J, fut = er(t.f, t.g, t.s, x, dr, t.dp, t.p, diff=False, with_jres=True, set_dr=False)
    S.check("residuals with derivatives", np.allclose(R, want, atol=1e-9))
    for i in range(t.n):
        for j, (w, M, _) in enumerate(t.successors(i)):
            S.check("weighted derivatives with respect to tomorrow's decisions", np.allclose(J[i, j], -w * t.A, atol=1e-5))
            S.check("future states", np.allclose(fut[i, j], t.g(t.here(i), t.s, x[i], M, t.p)))
    S.check("decisions unchanged", np.array_equal(x, k))
    R = er(t.f, t.g, t.s, x, dr, t.dp, t.p, diff=False)
    S.check("tomorrow's rule is today's", np.allclose(R, t.residuals(x, t.rule(x)), atol=1e-9))
