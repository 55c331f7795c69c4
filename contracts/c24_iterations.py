"""C24: results of iterative solution methods."""
import types
import warnings
import numpy as np
from pyvc.spec import contract, module
from contracts.c05_expectations import draw_process
from contracts.models_lib import model, RBC

ti = module("dolo.algos.time_iteration")
vi = module("dolo.algos.value_iteration")
iti = module("dolo.algos.improved_time_iteration")
eg = module("dolo.algos.egm")
nw = module("dolo.numeric.optimize.newton")
ncp = module("dolo.numeric.optimize.ncpsolve")
Q = "dolo.algos."


class Rule:
    """a decision rule known by its values at nodes"""
    _model_ = True

    def __init__(self, S, name, nodes, shape, args=()):
        self.S, self.name, self.shape, self.args = S, name, shape, args
        self.values = None
        self.endo_grid = types.SimpleNamespace(nodes=nodes)

    def set_values(self, v):
        self.values = self.S.array(v.shape, lambda *i: self.S.cell(v, *i))

    def _havoc_(self):
        if self.values is not None:
            from pyvc import terms as tm
            nm = tm.fresh("rule").args[0]
            self.values = self.S.array(self.shape, lambda *i: tm.app(nm, tuple(i)))


def unknown(S, name, shape):
    from pyvc import terms as tm
    nm = tm.fresh(name).args[0]
    return S.array(shape, lambda *i: tm.app(nm, tuple(i)))


def image(S, name, out, *arrays):
    """uninterpreted function of whole arrays"""
    from pyvc import terms as tm
    L = tuple(tm.lam(list(a.shp), lambda *k, a=a: a.at(k)) for a in arrays)
    return S.array(out, lambda *i: tm.app(name, tuple(i) + L))


class Setup:
    def __init__(self, S, bounds=True, extra=()):
        self.S = S
        self.p, self.n, self.d, self.node, self.J, self.inode, self.w = draw_process(S)
        self.N, self.ns, self.nx = S.dim("N", hi=3), S.dim("ns", hi=2), S.dim("nx", hi=2)
        self.s = S.arr("s", (self.N, self.ns))
        self.parms, self.x0 = S.arr("parms", (S.dim("np", hi=2),)), S.arr("x0", (self.nx,))
        self.lb, self.ub = S.rowfun("lb", self.nx), S.rowfun("ub", self.nx)
        F = {"arbitrage": S.wrapfun(lambda *a: None), "transition": S.wrapfun(lambda *a: None)}
        if bounds: F.update(arbitrage_lb=self.lb, arbitrage_ub=self.ub)
        self.F = F
        self.grid = {"endo": types.SimpleNamespace(nodes=self.s), "exo": types.SimpleNamespace(name="exo")}
        self.calib = {"controls": self.x0, "parameters": self.parms}
        self.model = types.SimpleNamespace(exogenous=None, functions=F, calibration=self.calib, discretize=S.wrapfun(lambda *a, **k: (self.grid, self.p)),
                                           symbols={"states": Names(self.ns), "controls": Names(self.nx)})
        self.sh = (self.n, self.N, self.nx)

    def m(self, i): return self.S.array((self.d,), lambda k: self.node(i, k))
    def row(self, n): return self.S.array((self.ns,), lambda k: self.S.cell(self.s, n, k))


def Names(n):
    """a list of n names"""
    from pyvc.interp import SymSeq
    return SymSeq(n, lambda k: "name")


def quiet(S):
    S.override(ti.IterationsPrinter, S.wrapfun(lambda *a, **k: Quiet()))


class Quiet:
    _model_ = True

    def print_header(self, *a, **k): pass
    def print_iteration(self, *a, **k): pass
    def print_finished(self, *a, **k): pass


@contract("C24", "time iteration", [Q + "time_iteration.time_iteration"], conc=False,
          opts={"loops": "last", "cases": [{"process": p, "con": c, "guess": g, "details": d} for p, c, g, d in (("mc", 1, 0, 1), ("gdp", 0, 0, 1), ("mc", 0, 1, 1), ("iid", 1, 1, 0), ("mc", 2, 0, 1))]
                + [{"process": p, "con": 1, "guess": g, "details": 1, "_unroll": 1} for p, g in (("mc", 0), ("mc", 1), ("gdp", 2))],
                "assumes": ["newton, ncpsolve return a value (C07)", "residuals_simple (C05)", "SerialDifferentiableFunction (C19)", "DecisionRule holds the values it is given at its nodes (C13)"]})
def _(S):
    c = S.case
    u = Setup(S, bounds=c["con"] in (1, 2))
    n, N, nx, sh = u.n, u.N, u.nx, u.sh
    rules, seen = [], {}

    def rule(exo, endo, **k):
        S.check("rule on the grid of the model", exo is u.grid["exo"] and endo is u.grid["endo"] and k.get("dprocess") is u.p)
        seen["method"] = k.get("interp_method")
        rules.append(Rule(S, "mdr", u.s, sh))
        return rules[-1]
    S.override(ti.DecisionRule, S.wrapfun(rule))
    quiet(S)

    def res(f, g, s, x, dr, dp, p):
        S.check("arguments of the residuals", f is u.F["arbitrage"] and g is u.F["transition"] and s is u.s and dr is rules[0] and dp is u.p and p is u.parms)
        return image(S, "R", sh, x, dr.values)
    S.override(ti.residuals_simple, S.wrapfun(res))
    S.override(nw.SerialDifferentiableFunction, S.wrapfun(lambda f, *a: S.wrapfun(lambda x: [S.call(f, x), None])))

    def solver(name):
        def solve(f, *a, **k):
            V = unknown(S, "V", a[-1].shape)
            seen.update(solver=name, out=S.call(f, V)[0], V=V, x0=S.array(a[-1].shape, lambda *i, x=a[-1]: S.cell(x, *i)), b=a[:-1], k=k, fut=rules[0].values)
            return [V, 3]
        return S.wrapfun(solve)
    S.override(nw.newton, solver("newton"))
    S.override(ncp.ncpsolve, solver("ncpsolve"))
    tol, maxit, inner = S.real("tol", pos=True), S.int("maxit", 1), S.int("inner", 1)
    S.require(S.lt(tol, 10))
    if c.get("_unroll"): maxit = 1
    dr0 = None
    if c["guess"]:
        h = S.rowfun("h", nx)
        dr0 = S.wrapfun(lambda i, s: h(S.array((1,), lambda _: i), s))
        if c["guess"] == 2:
            r0 = S.call(ti.AlgoResult)
            r0.dr, dr0 = dr0, r0
    kw = dict(dr0=dr0, tol=tol, maxit=maxit, inner_maxit=inner, verbose=False, details=bool(c["details"]))
    if c["con"] == 2: kw["ignore_constraints"] = True
    r = S.call(ti.time_iteration, u.model, **kw)
    con = c["con"] == 1
    dr = r.dr if c["details"] else r
    S.check("one rule", len(rules) == 1 and dr is rules[0])
    V, fut, x0 = seen["V"], seen["fut"], seen["x0"]
    cell = lambda A, i, j, k: S.cell(A, i * N + j, k)
    S.shape("values of the rule", dr.values, sh)
    S.forall("values of the rule are the last solution", sh, lambda i, j, k: S.eq(S.cell(dr.values, i, j, k), cell(V, i, j, k)))
    S.check("solver", seen["solver"] == ("ncpsolve" if con else "newton"))
    S.check("options of the solver", S.eq(seen["k"]["maxit"], inner))
    Vr = S.array(sh, lambda i, j, k: cell(V, i, j, k))
    want = image(S, "R", sh, Vr, fut)
    S.forall("residuals given tomorrow's rule", sh, lambda i, j, k: S.eq(cell(seen["out"], i, j, k), S.cell(want, i, j, k)))
    S.forall("tomorrow's rule is the former one", sh, lambda i, j, k: S.eq(S.cell(fut, i, j, k), cell(x0, i, j, k)))
    if c.get("_unroll"):
        S.forall("the first rule is the guess", sh, lambda i, j, k: S.eq(S.cell(fut, i, j, k), h.raw((k,), S.array((1,), lambda _: i), u.row(j)) if c["guess"] else S.cell(u.x0, k)))
    if con:
        for nm, f, b in (("lower", u.lb, seen["b"][0]), ("upper", u.ub, seen["b"][1])):
            S.forall(nm + " bounds", sh, lambda i, j, k: S.eq(cell(b, i, j, k), f.raw((k,), u.m(i), u.row(j), u.parms)))
    if not c["details"]: return
    if c.get("_unroll"):
        S.forall("error bounds the last change", (n * N, nx), lambda q, k: S.le(S.abs(S.cell(V, q, k) - S.cell(x0, q, k)), r.err))
    else:
        S.forall("error bounds the last change", sh, lambda i, j, k: S.le(S.abs(cell(V, i, j, k) - cell(x0, i, j, k)), r.err))
    S.check("error is the last change", S.eq(r.err, S.method(S.array((n * N, nx), lambda q, k: S.abs(S.cell(V, q, k) - S.cell(x0, q, k))), "max")))
    S.check("convergence flag", S.eq(r.x_converged, S.lt(r.err, tol)))
    S.check("tolerance reported", S.eq(r.x_tol, tol))
    S.check("number of iterations", S.and_(S.le(1, r.iterations), S.le(r.iterations, maxit)))
    S.check("stops early only when converged", S.implies(S.lt(r.iterations, maxit), S.le(r.err, tol)))
    S.check("complementarities", bool(r.complementarities) == con)
    S.check("process", r.dprocess is u.p)


@contract("C24", "evaluation of a policy", [Q + "value_iteration.evaluate_policy"], conc=False,
          opts={"loops": "last", "cases": [{"process": p, "guess": g, "details": d, "pol": q} for p, g, d, q in (("mc", 0, 1, 0), ("gdp", 1, 1, 0), ("iid", 0, 0, 1))] + [{"process": "mc", "guess": g, "details": 1, "pol": 0, "_unroll": 1} for g in (0, 1)],
                "assumes": ["update_value (C05)", "DecisionRule holds the values it is given at its nodes (C13)"]})
def _(S):
    c = S.case
    u = Setup(S)
    nv = S.dim("nv", hi=2)
    sh, shv = u.sh, (u.n, u.N, nv)
    v0 = S.arr("v0", (nv,))
    u.calib["values"] = v0
    u.F["value"] = S.wrapfun(lambda *a: None)
    rules, seen = [], {}
    quiet(S)
    S.override(vi.DecisionRule, S.wrapfun(lambda exo, endo, **k: rules.append(Rule(S, "drv", u.s, shv)) or rules[-1]))
    h, hv = S.rowfun("h", u.nx), S.rowfun("hv", nv)
    one = lambda i: S.array((1,), lambda _: i)
    pol = types.SimpleNamespace(eval_is=S.wrapfun(lambda i, s: h(one(i), s)))

    def update(val, g, s, x, v, dr, drv, dp, p):
        S.check("arguments of the evaluation", val is u.F["value"] and g is u.F["transition"] and dr is pol and s is u.s and dp is u.p and p is u.parms)
        seen.update(x=S.array(sh, lambda *i: S.cell(x, *i)), v=S.array(shv, lambda *i: S.cell(v, *i)), drv=drv, fut=drv.values)
        seen["new"] = image(S, "T", shv, seen["x"], seen["v"], drv.values)
        return seen["new"]
    S.override(vi.update_value, S.wrapfun(update))
    tol, maxit = S.real("tol", pos=True), S.int("maxit", 1)
    S.require(S.lt(tol, 10))
    if c.get("_unroll"): maxit = 1
    dr0 = None
    if c["guess"]:
        dr0 = Rule(S, "dr0", u.s, shv)
        dr0.eval_is = S.wrapfun(lambda i, s: hv(one(i), s))
    r = S.call(vi.evaluate_policy, u.model, pol, tol=tol, maxit=maxit, dr0=dr0, verbose=False, details=bool(c["details"]))
    dr = r.solution if c["details"] else r
    S.check("rule", dr is (dr0 if c["guess"] else rules[0]) and seen["drv"] is dr)
    S.forall("policy evaluated", sh, lambda i, j, k: S.eq(S.cell(seen["x"], i, j, k), h.raw((k,), one(i), u.row(j))))
    S.forall("values of tomorrow are those of today", shv, lambda i, j, k: S.eq(S.cell(seen["v"], i, j, k), S.cell(seen["fut"], i, j, k)))
    S.forall("values returned", shv, lambda i, j, k: S.eq(S.cell(dr.values, i, j, k), S.cell(seen["v"], i, j, k)))
    if c.get("_unroll"):
        S.forall("the first values are the guess", shv, lambda i, j, k: S.eq(S.cell(seen["v"], i, j, k), hv.raw((k,), one(i), u.row(j)) if c["guess"] else S.cell(v0, k)))
    if not c["details"]: return
    S.forall("error bounds the discrepancy of values", shv, lambda i, j, k: S.le(S.abs(S.cell(seen["new"], i, j, k) - S.cell(dr.values, i, j, k)), r.error))
    S.check("error is the discrepancy of values", S.eq(r.error, S.method(S.array(shv, lambda *i: S.abs(S.cell(seen["new"], *i) - S.cell(dr.values, *i))), "max")))
    S.check("tolerance reported", S.eq(r.tol, tol))
    S.check("number of iterations", S.and_(S.le(1, r.iterations), S.le(r.iterations, maxit)))
    S.check("stops early only when converged", S.implies(S.lt(r.iterations, maxit), S.le(r.error, tol)))


def probe_argmin(S, opt):
    """scipy.optimize.minimize: some function of the objective, the bounds and the initial point"""
    from pyvc import terms as tm

    def minimize(f, x, bounds=None, **k):
        n = x.shape[0]
        q = S.array((n,), lambda k: tm.app("probe", (tm.lift(k),)))
        T = S.call(f, q)
        lo, hi = opt["bounds"](bounds, n)
        L = tuple(tm.lam(list(a.shp), lambda *k, a=a: a.at(k)) for a in (x, lo, hi))
        return types.SimpleNamespace(x=S.array((n,), lambda k: tm.app("argmin", (tm.lift(k), tm.lift(T)) + L)))
    return minimize


@contract("C24", "value iteration", [Q + "value_iteration.value_iteration", Q + "value_iteration.choice_value", Q + "value_iteration.constant_policy"], conc=False,
          opts={"loops": "last", "par": 2, "cost": 8, "cases": [{"details": d} for d in (1, 0)],
                "assumes": ["scipy.optimize.minimize returns some function of the objective, the bounds and the initial point", "evaluate_policy (above)", "DecisionRule holds the values it is given at its nodes (C13)"]})
def _(S):
    from pyvc import terms as tm
    c = S.case
    S.case["process"] = "mc"
    u = Setup(S)
    shv = (u.n, u.N, 1)
    fel, g = S.rowfun("felicity", 1), S.rowfun("g", u.ns)
    beta = S.real("beta")
    u.calib.update(exogenous=S.arr("m0", (u.d,)), states=S.arr("s0", (u.ns,)), beta=beta)
    u.F.update(felicity=fel, transition=g, controls_lb=u.lb, controls_ub=u.ub)
    quiet(S)
    seen = {}

    def rule(exo, endo, **k):
        S.check("rules on the grid of the model", exo is u.grid["exo"] and endo is u.grid["endo"])
        return Rule(S, "rule", u.s, u.sh)
    S.override(vi.DecisionRule, S.wrapfun(rule))

    class Value(Rule):
        def eval_is(self, i, s):
            S.check("values at the nodes", s is u.s)
            return S.array((u.N, 1), lambda n, k: tm.app(self.name + "n", (tm.lift(i), tm.lift(n))))

        def __call__(self, I, x):
            return S.array((1,), lambda k: tm.app(self.name, (tm.lift(I), tm.lam(list(x.shp), lambda *k: x.at(k)))))

    def evaluate(model, mdr, **k):
        S.check("model evaluated", model is u.model and k.get("details") is True)
        seen["pol"] = S.array(u.sh, lambda *i: S.cell(mdr.values, *i))
        seen["W"] = Value(S, tm.fresh("W").args[0], u.s, shv)
        return types.SimpleNamespace(solution=seen["W"], iterations=S.int("inner"))
    S.override(vi.evaluate_policy, S.wrapfun(evaluate))

    def bounds(b, n):
        def at(k, j):
            E = S.E
            E.hyps.append(tm.and_(tm.le(tm.ZERO, k), tm.lt(k, tm.lift(n))))
            E._ctx = None
            try:
                return b[k][j]
            finally:
                E.hyps.pop()
                E._ctx = None
        return S.array((n,), lambda k: at(k, 0)), S.array((n,), lambda k: at(k, 1))
    import scipy.optimize
    S.override(scipy.optimize.minimize, probe_argmin(S, {"bounds": bounds}))
    tol, maxit = S.real("tol", pos=True), S.int("maxit", 1)
    S.require(S.lt(tol, 100))
    r = S.call(vi.value_iteration, u.model, tol=tol, maxit=maxit, verbose=False, details=bool(c["details"]))
    dr, drv = (r.dr, r.drv) if c["details"] else r
    W = seen["W"]
    S.check("value function", drv is W)
    X0, X, V = seen["pol"], dr.values, drv.values
    S.shape("policy", X, u.sh)
    S.shape("values", V, shv)

    def choice(i, n, x):
        m, s = u.m(i), u.row(n)
        def term(I):
            M = S.array((u.d,), lambda k: u.inode(i, I, k))
            nxt = S.array((u.ns,), lambda k: g.raw((k,), m, s, x, M, u.parms))
            return u.w(i, I) * S.cell(W(I, nxt), 0)
        return fel.raw((0,), m, s, x, u.parms) + beta * S.sum(0, u.J, term)
    S.forall("values are those of the policy", (u.n, u.N), lambda i, n: S.eq(S.cell(V, i, n, 0), choice(i, n, S.array((u.nx,), lambda k: S.cell(X, i, n, k)))))

    def best(i, n, k):
        q = S.array((u.nx,), lambda k: tm.app("probe", (tm.lift(k),)))
        L = lambda f: tm.lam([u.nx], lambda k: tm.lift(f(k)))
        return tm.app("argmin", (tm.lift(k), tm.lift(-choice(i, n, q)), L(lambda k: S.cell(X0, i, n, k)), L(lambda k: u.lb.raw((k,), u.m(i), u.row(n), u.parms)), L(lambda k: u.ub.raw((k,), u.m(i), u.row(n), u.parms))))
    S.forall("policy maximizes the value within the bounds", u.sh, lambda i, n, k: S.eq(S.cell(X, i, n, k), best(i, n, k)))
    if not c["details"]: return
    S.forall("error of the policy", u.sh, lambda i, n, k: S.le(S.abs(S.cell(X, i, n, k) - S.cell(X0, i, n, k)), r.x_err))
    S.forall("error of the values", (u.n, u.N), lambda i, n: S.le(S.abs(S.cell(V, i, n, 0) - S.cell(W.eval_is(i, u.s), n, 0)), r.v_err))
    S.check("policy converged", S.eq(r.x_converged, S.lt(r.x_err, r.x_tol)))
    S.check("values converged", S.eq(r.v_converged, S.lt(r.v_err, r.v_tol)))
    S.check("number of iterations", S.and_(S.le(1, r.iterations), S.le(r.iterations, maxit)))
    S.check("stops early only when converged", S.implies(S.lt(r.iterations, maxit), S.and_(S.le(r.x_err, r.x_tol), S.le(r.v_err, tol))))
    S.check("process", r.dprocess is u.p)


class Prepared(Rule):
    def eval_is(self, i, s):
        S = self.S
        return S.array((s.shape[0], self.shape[2]), lambda n, k: S.cell(self.values, i, n, k))


@contract("C24", "improved time iteration", [Q + "improved_time_iteration.improved_time_iteration"], conc=False,
          opts={"loops": "last", "par": 8, "cost": 9, "cases": [{"process": p, "con": c, "guess": g, "details": d, "inv": v} for p, c, g, d, v in (("mc", 1, 0, 1, "iti"), ("gdp", 0, 0, 1, "iti"), ("mc", 1, 1, 0, "iti"), ("iid", 0, 0, 1, "iti"), ("mc", 1, 0, 1, "gmres"))]
                + [{"process": "mc", "con": 1, "guess": g, "details": 1, "inv": "iti", "_unroll": 1} for g in (0, 1)],
                "assumes": ["euler_residuals (C05)", "smooth, smooth_nodiff (C06)", "invert_jac, solve_gu, solve_tensor (C05, C08)", "SerialDifferentiableFunction (C19)", "DecisionRule holds the values it is given at its nodes (C13)"]})
def _(S):
    import scipy.sparse.linalg
    from pyvc import terms as tm
    c = S.case
    u = Setup(S)
    n, N, nx, sh = u.n, u.N, u.nx, u.sh
    rules, seen = [], {"steps": []}
    quiet(S)
    S.override(iti.IterationsPrinter, S.wrapfun(lambda *a, **k: Quiet()))

    def rule(exo, endo, **k):
        S.check("rules on the grid of the model", exo is u.grid["exo"] and endo is u.grid["endo"] and k.get("dprocess") is u.p)
        rules.append(Rule(S, "ddr", u.s, sh))
        return rules[-1]
    S.override(iti.DecisionRule, S.wrapfun(rule))
    ni = u.J if not isinstance(u.J, int) else u.J

    def euler(f, g, s, x, dr, dp, p, diff=True, with_jres=False, set_dr=True, jres=None, S_ij=None):
        S.check("arguments of the residuals", f is u.F["arbitrage"] and g is u.F["transition"] and s is u.s and dp is u.p and p is u.parms and dr is rules[0])
        if set_dr: dr.set_values(x)
        r = image(S, "R", sh, x, dr.values)
        if not with_jres: return r
        nj = u.p.n_inodes(0)
        L = tuple(tm.lam(list(a.shp), lambda *k, a=a: a.at(k)) for a in (x, dr.values))
        return [r, S.array((n, nj, N, nx, nx), lambda *i: tm.app("RJ", tuple(i) + L)), S.array((n, nj, N, u.ns), lambda *i: tm.app("RS", tuple(i) + L))]
    S.override(iti.euler_residuals, S.wrapfun(euler))

    def sdf(f, *a):
        def ev(x):
            out = S.call(f, x)
            return [out, unknown(S, "dres", (out.shape[0], out.shape[1], out.shape[1]))]
        return S.wrapfun(ev)
    S.override(nw.SerialDifferentiableFunction, S.wrapfun(sdf))
    S.override(iti.SerialDifferentiableFunction, S.wrapfun(sdf))
    S.override(iti.smooth, S.wrapfun(lambda r, dr, jr, dx, pos=1.0: [image(S, "SM", sh, r, dx), unknown(S, "dres", dr.shape), unknown(S, "jres", jr.shape)]))
    S.override(iti.smooth_nodiff, S.wrapfun(lambda r, dx: image(S, "SM", sh, r, dx)))
    S.override(iti.solve_gu, S.wrapfun(lambda a, b: unknown(S, "ddx", b.shape)))
    S.override(iti.solve_tensor, S.wrapfun(lambda a, b, *r: unknown(S, "sol", b.shape)))

    def inv(res, dres, jres, fS, dumdr, tol=None, maxit=None, verbose=False):
        seen["inv"] = (tol, maxit)
        seen["tot"] = unknown(S, "tot", sh)
        return [seen["tot"], 5, S.real("lam0")]
    S.override(iti.invert_jac, S.wrapfun(inv))
    L = types.SimpleNamespace(counter=0, addid=False)
    S.override(iti.Operator, S.wrapfun(lambda j, s, d: L))

    def gmres(A, b, **k):
        S.check("options of gmres", "tol" not in k)
        seen["tot"] = unknown(S, "tot", sh)
        return [S.method(seen["tot"], "ravel"), 0]
    S.override(scipy.sparse.linalg.gmres, S.wrapfun(gmres))
    tol, maxit, smax = S.real("tol", pos=True), S.int("maxit", 1), S.int("smax", 1)
    if c.get("_unroll"): maxit = 1
    dr0 = None
    if c["guess"]:
        h = S.rowfun("h", nx)
        dr0 = types.SimpleNamespace(eval_is=S.wrapfun(lambda i, s: h(S.array((1,), lambda _: i), s)))
    r = S.call(iti.improved_time_iteration, u.model, dr0=dr0, verbose=False, details=bool(c["details"]), ignore_constraints=not c["con"], tol=tol, maxit=maxit, smaxit=smax, maxbsteps=3, invmethod=c["inv"])
    dr = r.dr if c["details"] else r
    S.check("rule", dr is rules[0])
    if not c["details"]: return
    X = dr.values
    R = image(S, "R", sh, X, X)
    if c["con"]:
        lb = S.array(sh, lambda i, j, k: u.lb.raw((k,), u.m(i), u.row(j), u.parms))
        ub = S.array(sh, lambda i, j, k: u.ub.raw((k,), u.m(i), u.row(j), u.parms))
        neg = lambda A: S.array(sh, lambda *i: -S.cell(A, *i))
        diff = lambda A, B: S.array(sh, lambda *i: S.cell(A, *i) - S.cell(B, *i))
        R = image(S, "SM", sh, neg(image(S, "SM", sh, R, diff(X, lb))), diff(ub, X))
    S.check("convergence flag", S.eq(r.x_converged, S.lt(r.f_x, tol)))
    S.check("complementarities", bool(r.complementarities) == bool(c["con"]))
    S.forall_given("residuals of the rule when converged", sh, lambda *i: r.x_converged, lambda *i: S.le(S.abs(S.cell(R, *i)), r.f_x))
    S.check("number of iterations", S.and_(S.le(0, r.N), S.lt(r.N, maxit)))
    S.check("stops early only when converged", S.implies(S.lt(r.N + 1, maxit), r.x_converged))
    S.forall("last change", sh, lambda *i: S.le(S.abs(S.cell(seen["tot"], *i)), r.d_x))
    if c["inv"] == "iti":
        S.check("options of the inversion", S.and_(S.eq(seen["inv"][0], tol), S.eq(seen["inv"][1], smax)))
    if c.get("_unroll"):
        x0 = S.array(sh, lambda i, j, k: h.raw((k,), S.array((1,), lambda _: i), u.row(j)) if c["guess"] else S.cell(u.x0, k))
        step = lambda a: S.array(sh, lambda *i: S.cell(x0, *i) - a * S.cell(seen["tot"], *i))
        same = lambda A, B, i: S.eq(S.cell(A, *i), S.cell(B, *i))
        S.forall_given("the first rule is the guess", sh, lambda *i: r.x_converged, lambda *i: same(X, x0, i))
        S.forall_given("the next rule is a step from the guess", sh, lambda *i: S.not_(r.x_converged), lambda *i: S.or_(*[same(X, step(S.num(a)), i) for a in (1, 0.5, 0.25)]))


def occurrence(t, name):
    """the outermost applications of a function within a term"""
    from pyvc import terms as tm
    out, q, seen = [], [t], set()
    while q:
        a = q.pop()
        if not hasattr(a, "op") or a in seen: continue
        seen.add(a)
        if a.op == "app" and a.args[0] == name: out.append(a)
        else: q += list(tm.children(a))
    return out


@contract("C24", "endogenous grid points", [Q + "egm.egm"], conc=False,
          opts={"loops": "last", "cases": [{"process": "mc", "guess": 0, "verbose": 0}, {"process": "mc", "guess": 1, "verbose": 0}, {"process": "iid", "guess": 0, "verbose": 0}],
                "assumes": ["interpolation.splines.eval_linear is some function of the points, the values and the state", "DecisionRule holds the values it is given at its nodes (C13)"]})
def _(S):
    from pyvc import terms as tm
    c = S.case
    u = Setup(S)
    S.require(S.eq(u.ns, 1)), S.require(S.eq(u.nx, 1))
    n, N, sh = u.n, u.N, (u.n, u.N, 1)
    A, nh = S.dim("A"), S.dim("nh", hi=2)
    a = S.arr("post", (A,))
    h, g, tau, rev = S.rowfun("hh", nh), S.rowfun("half", 1), S.rowfun("tau", 1), S.rowfun("rev", 1)
    u.model.symbols = {"states": ["w"], "controls": ["c"], "expectations": Names(nh)}
    u.model.__dict__["__original_gufunctions__"] = dict(expectation=h, half_transition=g, direct_response_egm=tau, reverse_state=rev, arbitrage_lb=u.lb, arbitrage_ub=u.ub)
    if c["process"] == "iid":
        u.model.exogenous = S.call(module("dolo.numeric.processes").IIDProcess)
    rules = []

    def rule(exo, endo, **k):
        S.check("rule on the grid of the model", exo is u.grid["exo"] and endo is u.grid["endo"] and k.get("dprocess") is u.p)
        rules.append(Rule(S, "mdr", u.s, sh))
        return rules[-1]
    S.override(eg.DecisionRule, S.wrapfun(rule))

    def interp(pts, vals, s):
        S.check("one dimension", len(pts) == 1)
        S.shape("points", pts[0], (A,))
        S.shape("values", vals, (A,))
        L = [tm.lam([A], lambda k, q=q: q.at((k,))) for q in (pts[0], vals)]
        return S.array((s.shape[0],), lambda r: tm.app("interp", (L[0], L[1], tm.lift(S.cell(s, r, 0)))))
    S.override(eg.eval_linear, S.wrapfun(interp))
    tol, maxit = S.real("tol", pos=True), S.int("maxit", 1)
    S.require(S.lt(tol, 1))
    dr0 = None
    hd = S.rowfun("h0", 1)
    one = lambda i: S.array((1,), lambda _: i)
    if c["guess"]:
        dr0 = S.wrapfun(lambda i, s: hd(one(i), s))
    r = S.call(eg.egm, u.model, dr0=dr0, a_grid=a, η_tol=tol, maxit=maxit)
    S.check("rule", r.dr is rules[0] and len(rules) == 1)
    V = r.dr.values
    S.shape("values", V, sh)
    S.check("convergence flag", S.eq(r.a_converged, S.lt(r.err, tol)))
    S.check("tolerance reported", S.eq(r.a_tol, tol))
    S.check("number of iterations", S.and_(S.le(0, r.iterations), S.lt(r.iterations, maxit)))
    S.check("stops early only when converged", S.implies(S.lt(r.iterations + 1, maxit), r.a_converged))
    S.check("process", r.dprocess is u.p)
    i0, n0 = tm.fresh("i"), tm.fresh("n")
    tm.NAT.add(i0), tm.NAT.add(n0)
    v = S.cell(V, i0, n0, 0)
    occ = occurrence(v, "interp")
    if not occ:                     # a single iteration: the guess
        S.check("the guess is returned only when a single iteration is allowed", S.and_(S.eq(maxit, 1), S.not_(r.a_converged)))
        S.forall("the guess", sh, lambda i, j, k: S.eq(S.cell(V, i, j, 0), hd.raw((0,), one(i), u.row(j)) if c["guess"] else S.cell(u.x0, 0)))
        return
    if len(occ) != 1 or not S.symbolic:
        raise Exception("the rule is not made of one interpolation: %s" % [str(o)[:300] for o in occ])
    Ls, Lx, at = occ[0].args[1:]
    J = lambda i: 0 if c["process"] == "iid" else i

    sub = lambda L, i: tm.subst(L, {i0: tm.lift(i), n0: tm.ZERO})
    pts = lambda i: sub(Ls, i)
    vals = lambda i: sub(Lx, i)

    def clip(i, j, s):
        """rule of the last points, tomorrow's exogenous state j"""
        x = tm.app("interp", (pts(j), vals(j), tm.lift(s)))
        S1 = S.array((1,), lambda k: s)
        x = S.fmin(x, u.ub.raw((0,), u.m(J(j)), S1, u.parms))
        return S.fmax(x, u.lb.raw((0,), u.m(J(j)), S1, u.parms))
    S.check("at the nodes", S.implies(S.and_(S.lt(i0, n), S.lt(n0, N)), S.eq(at, S.cell(u.s, n0, 0))))
    S.forall("rule: interpolation of the endogenous points, within the bounds", sh, lambda i, j, k: S.eq(S.cell(V, i, j, 0), clip(i, i, S.cell(u.s, j, 0))))
    post = lambda k: S.array((1,), lambda _: S.cell(a, k))

    def z(i, k, q):
        def term(I):
            M = S.array((u.d,), lambda d: u.inode(i, I, d))
            s1 = g.raw((0,), u.m(i), post(k), M, u.parms)
            return u.w(i, I) * h.raw((q,), M, S.array((1,), lambda _: s1), S.array((1,), lambda _: clip(I, J(I), s1)), u.parms)
        return S.sum(0, u.J, term)

    def xa(i, k): return tau.raw((0,), u.m(i), post(k), S.array((nh,), lambda q: z(i, k, q)), u.parms)
    def sa(i, k): return rev.raw((0,), u.m(i), post(k), S.array((1,), lambda _: xa(i, k)), u.parms)

    def el(L, k):
        vs, _, body = tm.open_lam(L)
        return tm.subst(body, {vs[0]: tm.lift(k)})
    S.forall_given("decisions change by less than the error when converged", (n, A), lambda i, k: r.a_converged, lambda i, k: S.le(S.abs(xa(i, k) - el(vals(i), k)), r.err))
    S.forall_given("states change by less than the error when converged", (n, A), lambda i, k: r.a_converged, lambda i, k: S.le(S.abs(sa(i, k) - el(pts(i), k)), r.err))


# ------------------------------------------------------------------ whole models (bounded stand-ins)
MC = RBC.replace("""exogenous: !UNormal
    sigma: sig_z""", """exogenous: !MarkovChain
    values: [[-0.01], [0.02]]
    transitions: [[0.9, 0.1], [0.3, 0.7]]""").replace("n: [5, 8]", "n: [3, 6]")
BOUND = MC.replace("⟂ -inf <= i[t] <= inf", "⟂ 0.6 <= i[t] <= inf").replace("n: [3, 6]", "n: [3, 7]")
SMALL = RBC.replace("n: [5, 8]", "n: [4, 6]")
VALUED = SMALL.replace("    parameters:", "    values: [V]\n    rewards: [u]\n    parameters:").replace("equations:\n", """equations:
    value: |
        V[t] = c[t]^(1-sigma)/(1-sigma) - chi*n[t]^(1+eta)/(1+eta) + beta*V[t+1]
    felicity: |
        u[t] = c[t]^(1-sigma)/(1-sigma) - chi*n[t]^(1+eta)/(1+eta)
""").replace("    c: y - i\n", "    c: y - i\n    V: (c^(1-sigma)/(1-sigma) - chi*n^(1+eta)/(1+eta))/(1-beta)\n").replace("0.0 <= n[t] <= inf", "0.1 <= n[t] <= 1.0").replace("-inf <= i[t] <= inf", "0.1 <= i[t] <= 1.0")
MODELS = {"iid": SMALL, "mc": MC, "bound": BOUND}


def future(mo, dr, ndp):
    """tomorrow's decision after (i, I)"""
    chain = hasattr(ndp, "transitions")
    return lambda i, I, M, s: np.asarray(dr.eval_is(I if chain else 0, s))


def residual(mo, dr, s, x):
    """Euler residuals of decisions x (i, n, k), tomorrow's decisions being those of the rule"""
    dp, F, p = dr.dprocess, mo.functions, mo.calibration["parameters"]
    fut = future(mo, dr, dp)
    out = np.zeros(x.shape)
    for i in range(x.shape[0]):
        m = np.atleast_1d(dp.node(i)) if hasattr(dp, "transitions") else mo.calibration["exogenous"]
        mm = np.repeat(np.asarray(m, dtype=float)[None, :], len(s), axis=0)
        for I in range(dp.n_inodes(i)):
            M = np.repeat(np.asarray(dp.inode(i, I), dtype=float)[None, :], len(s), axis=0)
            S1 = F["transition"](mm, s, x[i], M, p)
            out[i] += dp.iweight(i, I) * F["arbitrage"](mm, s, x[i], M, S1, fut(i, I, M, S1), p)
    return out


def gap(mo, dr, x, s, con):
    """distance to a solution of the optimality conditions"""
    r = residual(mo, dr, s, x)
    if not con: return abs(r).max()
    F, p, dp = mo.functions, mo.calibration["parameters"], dr.dprocess
    w = 0.0
    for i in range(x.shape[0]):
        m = dp.node(i) if hasattr(dp, "transitions") else mo.calibration["exogenous"]
        mm = np.repeat(np.atleast_1d(np.asarray(m, dtype=float))[None, :], len(s), axis=0)
        lo, hi = F["arbitrage_lb"](mm, s, p), F["arbitrage_ub"](mm, s, p)
        w = max(w, (lo - x[i]).max(), (x[i] - hi).max())
        z = np.where(x[i] - lo < 1e-5, np.minimum(r[i], 0), np.where(hi - x[i] < 1e-5, np.maximum(r[i], 0), r[i]))
        w = max(w, abs(z).max())
    return w


def at_nodes(dr):
    s = np.asarray(dr.endo_grid.nodes)
    n = max(1, dr.dprocess.n_nodes)
    return s, np.array([np.asarray(dr.eval_is(i, s)) for i in range(n)])


@contract("C24", "solutions of a growth model", [Q + "time_iteration.time_iteration", Q + "improved_time_iteration.improved_time_iteration"], sym=False, bounded="three growth models (independent shocks, Markov chain, binding constraint)", runs=1,
          opts={"cases": [{"m": "iid", "a": "ti"}, {"m": "mc", "a": "ti"}, {"m": "bound", "a": "ti"}, {"m": "iid", "a": "iti"}, {"m": "mc", "a": "iti"}, {"m": "bound", "a": "iti"}, {"m": "mc", "a": "gmres"}, {"m": "iid", "a": "gmres"}]})
def _(S):
    c = S.case
    S.require(S.seed % 1000003 >= 0)
    mo = model(MODELS[c["m"]])
    con = c["m"] == "bound"
    if c["a"] == "ti":
        f = lambda **k: S.call(ti.time_iteration, mo, verbose=False, ignore_constraints=not con, **k)
        r = f(tol=1e-7)
        S.check("reports convergence", bool(r.x_converged) and r.err < 1e-7 and r.x_tol == 1e-7)
        few = f(maxit=2)
        S.check("reports no convergence", not few.x_converged and few.iterations == 2 and few.err >= few.x_tol)
        b = f(dr0=r, maxit=4, tol=1e-6)
        S.check("starts from the guess", bool(b.x_converged) and b.iterations <= 2)
    else:
        f = lambda **k: S.call(iti.improved_time_iteration, mo, verbose=False, details=True, ignore_constraints=not con, invmethod="gmres" if c["a"] == "gmres" else "iti", **k)
        r = f(tol=1e-7)
        S.check("reports convergence", bool(r.x_converged) and r.f_x < 1e-7 and bool(r.complementarities) == con)
        few = f(maxit=1)
        S.check("reports no convergence", not few.x_converged and few.f_x >= 1e-7)
    s, x = at_nodes(r.dr)
    S.note(gap=gap(mo, r.dr, x, s, con))
    S.check("optimality conditions at the nodes", gap(mo, r.dr, x, s, con) < 1e-4)
    if con: S.check("the constraint binds somewhere", bool((abs(x[:, :, 1] - 0.6) < 1e-6).any()))
    s, y = at_nodes(few.dr)
    S.check("not a solution", gap(mo, few.dr, y, s, con) > 1e-6)


@contract("C24", "value of a policy in a growth model", [Q + "value_iteration.evaluate_policy", Q + "value_iteration.value_iteration"], sym=False, bounded="one growth model", runs=1)
def _(S):
    mo = model(VALUED)
    F, p, beta = mo.functions, mo.calibration["parameters"], mo.calibration["beta"]
    pol = ti.time_iteration(mo, verbose=False).dr
    r = S.call(vi.evaluate_policy, mo, pol, verbose=False, details=True, tol=1e-7, maxit=4000)
    dr, dp = r.solution, pol.dprocess
    s, x = at_nodes(pol)
    m = np.repeat(mo.calibration["exogenous"][None, :], len(s), axis=0)
    V = np.asarray(dr.eval_is(0, s))[:, 0]

    def bellman(x, drv):
        u = F["felicity"](m, s, x, p)[:, 0]
        for I in range(dp.n_inodes(0)):
            M = np.repeat(np.asarray(dp.inode(0, I))[None, :], len(s), axis=0)
            u = u + beta * dp.iweight(0, I) * np.asarray(drv.eval_is(0, F["transition"](m, s, x, M, p)))[:, 0]
        return u
    S.check("converged", bool(r.error < 1e-7 and r.iterations < 4000))
    S.check("value of the policy", abs(bellman(x[0], dr) - V).max() < 1e-5)
    few = S.call(vi.evaluate_policy, mo, pol, verbose=False, details=True, maxit=3)
    S.check("number of iterations", few.iterations == 3)
    # the guess is the solution of which the values are overwritten
    again = S.call(vi.evaluate_policy, mo, pol, verbose=False, details=True, tol=1e-6, dr0=dr)
    S.check("starts from the guess", again.iterations <= 2)
    v = S.call(vi.value_iteration, mo, verbose=False, details=True, maxit=1)
    X = np.asarray(v.dr.eval_is(0, s))
    flat = module("dolo.numeric.decision_rule").DecisionRule(pol.exo_grid, pol.endo_grid, dprocess=dp)
    flat.set_values(np.repeat(mo.calibration["controls"][None, None, :], len(s), axis=1))
    W = S.call(vi.evaluate_policy, mo, flat, verbose=False, details=True).solution
    lo, hi = F["arbitrage_lb"](m, s, p), F["arbitrage_ub"](m, s, p)
    S.check("decisions within the bounds", bool((X >= lo - 1e-8).all() and (X <= hi + 1e-8).all()))
    b = bellman(X, W)
    for j in range(20):
        alt = np.clip(X + S.rng.normal(size=X.shape) * 0.02, lo, hi)
        ab = bellman(alt, W)
        S.check("no better decision nearby", bool((ab <= b + 1e-3 * (1 + abs(b))).all()))
    S.check("values of the decisions", abs(np.asarray(v.drv.eval_is(0, s))[:, 0] - b).max() < 1e-3 * (1 + abs(b).max()))
    S.check("reports no convergence", not v.x_converged or not v.v_converged)


SAVE = """
symbols:
    exogenous: [y]
    states: [w]
    expectations: [mr]
    poststates: [a]
    controls: [c]
    parameters: [beta, gamma, sigma, r, cbar]
equations:
    transition:
        - w[t] = exp(y[t]) + (w[t-1]-c[t-1])*r
    arbitrage:
        - beta*( c[t+1]/c[t] )^(-gamma)*r - 1  | 0.0<=c[t]<=w[t]
    half_transition: |
        w[t] = exp(y[t]) + a[t-1]*r
    reverse_state: |
        w[t] = a[t] + c[t]
    expectation: |
        mr[t] = beta*( c[t+1]/cbar )^(-gamma)*r
    direct_response_egm: |
        c[t] = cbar*(mr[t])^(-1/gamma)
calibration:
    beta: 0.94
    gamma: 3.0
    sigma: 0.1
    r: 1.02
    cbar: c
    w: 1.0
    y: 0.0
    c: 0.9*w
domain:
    w: [0.5, 4.0]
exogenous: !UNormal
    sigma: sigma
options:
    grid: !Cartesian
        orders: [40]
"""
SAVE_MC = SAVE.replace("exogenous: !UNormal\n    sigma: sigma", "exogenous: !MarkovChain\n    values: [[-0.3], [0.2]]\n    transitions: [[0.8, 0.2], [0.3, 0.7]]")


@contract("C24", "savings by endogenous grid points", [Q + "egm.egm"], sym=False, bounded="two savings models", runs=1, opts={"cases": [{"mc": 0}, {"mc": 1}]})
def _(S):
    import contextlib, io
    mo = model(SAVE_MC if S.case["mc"] else SAVE)
    a = np.linspace(0.02, 2.2, 60) ** 2
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = S.call(eg.egm, mo, a_grid=a, η_tol=1e-8, maxit=2000)
    S.check("silent", out.getvalue() == "")
    S.check("reports convergence", bool(r.a_converged) and r.err < 1e-8 and r.a_tol == 1e-8)
    few = S.call(eg.egm, mo, a_grid=a, maxit=4)
    S.check("reports no convergence", not few.a_converged)
    dr, p, F = r.dr, mo.calibration["parameters"], mo.functions
    s, x = at_nodes(dr)
    S.check("within the bounds", bool((x >= -1e-9).all() and (x[:, :, 0] <= s[:, 0] + 1e-9).all()))
    w = np.linspace(0.6, 3.0, 15)[:, None]
    y = np.array([np.asarray(dr.eval_is(i, w)) for i in range(x.shape[0])])
    R = residual(mo, dr, w, y)
    slack = (w[:, 0] - y[:, :, 0]) > 0.05
    S.note(R=R, y=y)
    S.check("optimality conditions inside of the bounds", float(abs(R[:, :, 0][slack]).max() if slack.any() else 0) < 2e-2)


# ------------------------------------------------------------------ random models (bounded stand-ins)
class Toy:
    """a random model: x + q(x) = c(m, s) + E[a X], between bounds which depend on m and s"""

    def __init__(self, S):
        r = S.rng
        G, P, D = module("dolo.numeric.grids"), module("dolo.numeric.processes"), module("dolo.numeric.distribution")
        self.kind = kind = ["mc", "iid", "mc"][S.seed % 3]
        ns, nx, nm = 1 + r.randint(2), 1 + r.randint(2), 1 + r.randint(2)
        if kind == "mc":
            n = 1 + r.randint(4)
            Q = r.rand(n, n) + 0.05
            self.dp = P.MarkovChain(Q / Q.sum(axis=1)[:, None], r.normal(size=(n, nm)) * 0.5)
            exo = G.UnstructuredGrid(self.dp.values)
        else:
            n = 2 + r.randint(30)
            w = r.rand(n) + 0.01
            self.dp = D.FiniteDistribution(r.normal(size=(n, nm)) * 0.3, w / w.sum())
            exo = G.EmptyGrid()
        self.chain = kind == "mc"
        self.endo = G.UniformCartesianGrid(np.zeros(ns), np.ones(ns), [4 + r.randint(3) for _ in range(ns)])
        self.exo, self.method = exo, ["cubic", "linear"][r.randint(2)]
        Cm, Cs, A = r.normal(size=(nx, nm)), r.normal(size=(nx, ns)), r.normal(size=(nx, nx))
        A *= 0.6 / abs(A).sum(axis=1).max()
        gs, gx, gm, c0 = r.rand(ns, ns) * 0.3, r.normal(size=(ns, nx)) * 0.02, r.normal(size=(ns, nm)) * 0.05, r.normal(size=nx)
        q = 0.0 if r.randint(2) else 0.2
        w1, w2 = r.normal(size=(nx, nm)), 0.2 + r.rand(nx)
        def rows(*a): return [np.atleast_2d(np.asarray(v, dtype=float)) for v in a]

        def f(m, s, x, M, S1, X, p, diff=False):
            m, s, x, M, S1, X = rows(m, s, x, M, S1, X)
            return x + q * np.tanh(x) - (p[0] * c0 + m @ Cm.T + np.sin(s) @ Cs.T + X @ A.T + 0.1 * (M @ Cm.T))

        def g(m, s, x, M, p, diff=False):
            m, s, x, M = rows(m, s, x, M)
            return 0.1 + s @ gs.T + x @ gx.T + (m + M) @ gm.T

        def lb(m, s, p):
            m, s = rows(m, s)
            return m @ w1.T + np.cos(s) @ np.ones((s.shape[1], nx)) - 1.0

        def ub(m, s, p): return lb(m, s, p) + w2
        self.f, self.g, self.lb, self.ub, self.q, self.A = f, g, lb, ub, q, A
        self.p, self.x0 = np.array([1.3]), r.normal(size=nx)
        self.s, self.nx, self.n = np.asarray(self.endo.nodes), nx, (n if kind == "mc" else 1)
        self.model = types.SimpleNamespace(functions=dict(arbitrage=f, transition=g, arbitrage_lb=lb, arbitrage_ub=ub), exogenous=None,
                                           calibration=dict(controls=self.x0, parameters=self.p, exogenous=np.zeros(nm)),
                                           symbols=dict(states=["s%d" % i for i in range(ns)], controls=["x%d" % i for i in range(nx)]),
                                           discretize=lambda *a, **k: (dict(endo=self.endo, exo=self.exo), self.dp))

    def rule(self, x):
        dr = module("dolo.numeric.decision_rule").DecisionRule(self.exo, self.endo, dprocess=self.dp, interp_method=self.method)
        dr.set_values(x.copy())
        return dr

    def successors(self, i):
        if self.chain: return [(self.dp.transitions[i, j], self.dp.values[j], j) for j in range(self.n)]
        return [(w, x, 0) for w, x in zip(self.dp.weights, self.dp.points)]

    def here(self, i): return self.dp.values[i] if self.chain else np.zeros(self.dp.points.shape[1])

    def residuals(self, x, dr):
        out = np.zeros(x.shape)
        for i in range(self.n):
            for w, M, j in self.successors(i):
                S1 = self.g(self.here(i), self.s, x[i], M, self.p)
                out[i] += w * self.f(self.here(i), self.s, x[i], M, S1, np.asarray(dr.eval_is(j, S1)), self.p)
        return out

    def bounds(self):
        return np.array([self.lb(self.here(i), self.s, self.p) for i in range(self.n)]), np.array([self.ub(self.here(i), self.s, self.p) for i in range(self.n)])

    def distance(self, x, dr, con):
        """how far decisions are from the solution, given tomorrow's rule"""
        r = self.residuals(x, dr)
        if not con: return abs(r).max()
        lo, hi = self.bounds()
        return abs(np.minimum(np.maximum(x - r, lo), hi) - x).max()


@contract("C24", "iterations on random models", [Q + "time_iteration.time_iteration"], sym=False,
          bounded="random models with 1 or 2 states, controls and shocks, Markov chains of 1 to 4 states or 2 to 31 independent shocks, up to 12 iterations", runs=14)
def _(S):
    t = Toy(S)
    con = bool(S.rng.randint(2))
    inner = [10, 1, 3][S.rng.randint(3)]
    guess = S.rng.randint(4)
    sh = (t.n, len(t.s), t.nx)
    b0, b1 = S.rng.normal(size=(t.nx, t.dp.d if t.chain else t.dp.points.shape[1])), S.rng.normal(size=(t.nx, t.s.shape[1]))
    if guess == 0:
        dr0, start = None, np.zeros(sh) + t.x0
    elif guess == 1:      # a function of the values of the exogenous variables
        def dr0(m, s):
            m = np.asarray(m, dtype=float)
            if m.ndim == 0: raise TypeError("not a vector")
            return np.atleast_2d(m) @ b0.T + s @ b1.T
        start = np.array([dr0(t.here(i), t.s) for i in range(t.n)])
    else:                 # a decision rule, or the result of an algorithm
        start = np.array([np.zeros(sh[1:]) + t.here(i) @ b0.T + i + t.s @ b1.T for i in range(t.n)])
        dr0 = t.rule(start)
        if guess == 3: dr0 = ti.TimeIterationResult(dr0, 0, False, t.dp, False, 0.0, 0.0, None, None)
    kw = dict(dr0=dr0, verbose=False, ignore_constraints=not con, inner_maxit=inner, interp_method=t.method)
    K = 2 + S.rng.randint(10)
    kept, errs, x = start.copy(), [], start
    S.note(kind=t.kind, con=con, inner=inner, guess=guess, K=K)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for k in range(1, K + 1):
            r = ti.time_iteration(t.model, maxit=k, tol=1e-14, **kw)
            s, y = at_nodes(r.dr)
            y = y.reshape(sh)
            if r.iterations < k:
                S.check("stops early only when converged", bool(r.x_converged) and r.err < 1e-14)
                K = k - 1
                break
            S.check("number of iterations", r.iterations == k)
            S.check("error is the last change", abs(r.err - abs(y - x).max()) < 1e-6 * (1 + abs(y).max()))
            S.check("convergence flag", bool(r.x_converged) == bool(r.err < 1e-14))
            if inner == 10:
                S.check("solves given the former rule", t.distance(y, t.rule(x), con) < 1e-4)
            errs.append(r.err)
            x = y
            if dr0 is not None and guess == 2: S.check("the guess is unchanged", np.allclose(at_nodes(dr0)[1].reshape(sh), kept))
        if inner != 10: return
        # stops as soon as the error is below the tolerance
        for k in range(1, K + 1):
            lo, hi = errs[k - 1], min(errs[:k - 1], default=9.0)
            if not (1e-4 < lo < 0.5 * hi and lo < 5): continue
            tol = (lo * hi)**0.5
            for maxit in (k, k + 1, 100):
                r = ti.time_iteration(t.model, maxit=maxit, tol=tol, **kw)
                S.check("converged", r.iterations == k and bool(r.x_converged) and r.x_tol == tol and r.err < tol)
            if k > 1:
                r = ti.time_iteration(t.model, maxit=k - 1, tol=tol, **kw)
                S.check("not converged", r.iterations == k - 1 and not r.x_converged)
            break


@contract("C24", "improved iterations on random models", [Q + "improved_time_iteration.improved_time_iteration"], sym=False,
          bounded="random models with 1 or 2 states, controls and shocks, Markov chains of 1 to 4 states or 2 to 31 independent shocks", runs=10)
def _(S):
    t = Toy(S)
    con = bool(S.rng.randint(2))
    kw = dict(verbose=False, ignore_constraints=not con, interp_method=t.method, invmethod=["iti", "gmres"][S.rng.randint(2)] if t.n * len(t.s) > 4 else "iti")
    sh = (t.n, len(t.s), t.nx)
    start = None
    if S.rng.randint(2):
        start = S.rng.normal(size=sh)
        kw["dr0"] = t.rule(start)
    S.note(kind=t.kind, con=con, kw=str(kw))
    tol = 10.0 ** -S.rng.randint(3, 8)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = iti.improved_time_iteration(t.model, tol=tol, maxit=30, **kw)
        y = at_nodes(r.dr)[1].reshape(sh)
        S.check("convergence flag", bool(r.x_converged) == bool(r.f_x < tol) and bool(r.complementarities) == con)
        if not r.x_converged: return
        S.note(distance=t.distance(y, r.dr, con), tol=tol, f_x=r.f_x)
        S.check("the rule returned is a solution", t.distance(y, r.dr, con) < 20 * tol + 1e-7)
        N = r.N if hasattr(r, "N") else r.iterations
        for k in range(1, N + 3):
            q = iti.improved_time_iteration(t.model, tol=tol, maxit=k, **kw)
            S.check("flag after few iterations", bool(q.x_converged) == bool(q.f_x < tol) == (k > N))
            z = at_nodes(q.dr)[1].reshape(sh)
            if k > N: S.check("same solution", np.allclose(z, y, atol=1e-9))
        # a solution is recognized
        kw["dr0"] = r.dr
        q = iti.improved_time_iteration(t.model, tol=10 * tol, maxit=3, **kw)
        S.check("starts from the guess", bool(q.x_converged) and (q.N if hasattr(q, "N") else q.iterations) == 0)
        S.check("the guess is the solution", np.allclose(at_nodes(q.dr)[1].reshape(sh), y, atol=1e-9))
