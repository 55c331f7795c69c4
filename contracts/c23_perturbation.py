"""C23: first order perturbation."""
import types
import warnings
import numpy as np
from pyvc.spec import contract, module
from contracts.models_lib import model
from contracts.c10_simulation import Names

pt = module("dolo.algos.perturbation")
qz = module("dolo.numeric.extern.qz")
proc = module("dolo.numeric.processes")
dist = module("dolo.numeric.distribution")
Q = "dolo.algos.perturbation."


class Linear:
    """model whose equations have given derivatives at given points"""

    def __init__(self, S, nm, ns, nx, process, D=None, val=None):
        self.S, self.nm, self.ns, self.nx = S, nm, ns, nx
        sh = {"gm": (ns, nm), "gs": (ns, ns), "gx": (ns, nx), "gM": (ns, nm), "fm": (nx, nm), "fs": (nx, ns), "fx": (nx, nx), "fM": (nx, nm), "fS": (nx, ns), "fX": (nx, nx)}
        self.D = D or {k: S.arr(k, z) for k, z in sh.items()}
        v = val or {"exogenous": S.arr("m", (nm,)), "states": S.arr("s", (ns,)), "controls": S.arr("x", (nx,)), "parameters": S.arr("p", (2,))}
        self.val, self.seen = v, []
        d = self.D

        def f(*a, diff=False):
            self.seen.append(("f", a))
            return [None] + [d[k] for k in ("fm", "fs", "fx", "fM", "fS", "fX")]

        def g(*a, diff=False):
            self.seen.append(("g", a))
            return [None] + [d[k] for k in ("gm", "gs", "gx", "gM")]
        self.model = types.SimpleNamespace(functions={"arbitrage": S.wrapfun(f), "transition": S.wrapfun(g)}, calibration=v, exogenous=process,
                                           symbols={g: Names(S, g, q) for g, q in (("exogenous", nm), ("states", ns), ("controls", nx), ("parameters", 2))})

    def at(self, v):
        """derivatives are taken at v"""
        m, s, x, p = v["exogenous"], v["states"], v["controls"], v["parameters"]
        same = lambda a, b: len(a) == len(b) and all(q is r for q, r in zip(a, b))
        w = {"f": (m, s, x, m, s, x, p), "g": (m, s, x, m, p)}
        return len(self.seen) > 0 and all(same(a, w[k]) for k, a in self.seen) and {k for k, _ in self.seen} == {"f", "g"}


def mm(S, A, B, i, j, n): return S.sum(0, n, lambda k: S.cell(A, i, k) * S.cell(B, k, j))


@contract("C23", "linearized system", [Q + "get_derivatives"], runs=25, opts={"cases": [{"kind": k, "given": b} for k in ("var", "iid") for b in (0, 1)]})
def _(S):
    nm, ns, nx = S.dim("nm", hi=3), S.dim("ns", hi=3), S.dim("nx", hi=3)
    var = S.case["kind"] == "var"
    if var:
        rho = S.arr("rho", (nm, nm))
        if S.symbolic:
            p = proc.VAR1.__new__(proc.VAR1)
            p.ρ, p.d = rho, nm
        else:
            p = proc.VAR1(ρ=rho, Σ=np.eye(nm))
    elif S.symbolic:
        p = dist.Normal.__new__(dist.Normal)
    else:
        p = dist.Normal(Σ=np.eye(nm)) if nm > 1 else dist.UNormal(σ=1.0)
    u = Linear(S, nm, ns, nx, p)
    d, c = u.D, S.cell
    v = u.val if not S.case["given"] else {"exogenous": S.arr("m1", (nm,)), "states": S.arr("s1", (ns,)), "controls": S.arr("x1", (nx,)), "parameters": S.arr("p1", (2,))}
    fs = [(k, a, S.frozen(a)) for k, a in d.items()]
    G_s, G_x, G_e, F_s, F_x, F_S, F_X = S.call(pt.get_derivatives, u.model, **({"steady_state": v} if S.case["given"] else {}))
    S.check("derivatives at the steady state", u.at(v))
    o = nm if var else 0
    S.shape("G_s", G_s, (o + ns, o + ns)); S.shape("G_x", G_x, (o + ns, nx)); S.shape("F_s", F_s, (nx, o + ns)); S.shape("F_S", F_S, (nx, o + ns)); S.shape("F_x", F_x, (nx, nx)); S.shape("F_X", F_X, (nx, nx))
    S.forall("derivatives with respect to controls", (nx, nx), lambda i, j: S.and_(S.eq(c(F_x, i, j), c(d["fx"], i, j)), S.eq(c(F_X, i, j), c(d["fX"], i, j))))
    S.forall("derivatives with respect to states", (nx, ns), lambda i, j: S.and_(S.eq(c(F_s, i, o + j), c(d["fs"], i, j)), S.eq(c(F_S, i, o + j), c(d["fS"], i, j))))
    S.forall("transition of the states", (ns, ns), lambda i, j: S.eq(c(G_s, o + i, o + j), c(d["gs"], i, j)))
    S.forall("effect of controls on states", (ns, nx), lambda i, j: S.eq(c(G_x, o + i, j), c(d["gx"], i, j)))
    if var:
        S.forall("derivatives with respect to exogenous variables", (nx, nm), lambda i, j: S.and_(S.eq(c(F_s, i, j), c(d["fm"], i, j)), S.eq(c(F_S, i, j), c(d["fM"], i, j))))
        S.forall("effect of exogenous variables, today and tomorrow, on states", (ns, nm), lambda i, j: S.eq(c(G_s, nm + i, j), c(d["gm"], i, j) + mm(S, d["gM"], rho, i, j, nm)))
        S.forall("transition of exogenous variables", (nm, nm), lambda i, j: S.eq(c(G_s, i, j), c(rho, i, j)))
        S.forall("exogenous variables do not depend on states", (nm, ns), lambda i, j: S.eq0(c(G_s, i, nm + j)))
        S.forall("exogenous variables do not depend on controls", (nm, nx), lambda i, j: S.eq0(c(G_x, i, j)))
    for k, a, fa in fs: S.unchanged("derivatives unchanged", a, fa)


@contract("C23", "rule from the solution of the linearized system", [Q + "perturb", Q + "BivariateTaylor.__init__", Q + "BivariateTaylor.eval_ms", Q + "BivariateTaylor.eval_s"], conc=False,
          opts={"cases": [{"kind": k, "given": b, "details": e} for k in ("var", "iid") for b in (0, 1, 2) for e in (0, 1)],
                "assumes": ["find_steady_state (specified by C20)"]})
def _(S):
    nm, ns, nx = S.dim("nm"), S.dim("ns"), S.dim("nx")
    var, given = S.case["kind"] == "var", S.case["given"]
    p = proc.VAR1.__new__(proc.VAR1) if var else dist.Normal.__new__(dist.Normal)
    u = Linear(S, nm, ns, nx, p)
    k = nm + ns if var else ns
    C, ev = S.arr("C", (nx, k)), S.arr("ev", (k + nx,))
    v = u.val if not given else {"exogenous": S.arr("m1", (nm,)), "states": S.arr("s1", (ns,)), "controls": S.arr("x1", (nx,)), "parameters": S.arr("p1", (2,))}
    D = S.arr("Gs", (k, k)), S.arr("Gx", (k, nx)), S.arr("Ge", (k, nm)), S.arr("Fs", (nx, k)), S.arr("Fx", (nx, nx)), S.arr("FS", (nx, k)), S.arr("FX", (nx, nx))
    calls = []

    def derivatives(model, steady_state=None):
        calls.append(("d", model, steady_state))
        return D

    def first(*a):
        calls.append(("a",) + a)
        return C, ev

    def steady(model, *a, **q):
        calls.append(("s", model))
        return v
    S.override(pt.get_derivatives, derivatives)
    S.override(pt.approximate_1st_order, first)
    S.override(module("dolo.algos.steady_state").find_steady_state, steady)
    r = S.call(pt.perturb, u.model, **({"steady_state": v} if given == 1 else {"solve_steady_state": True} if given == 2 else {}), **({} if S.case["details"] else {"details": False}))
    want = [("s", u.model)] if given == 2 else []
    S.check("system at the steady state", calls[:len(want)] == want and calls[len(want)][1] is u.model and calls[len(want)][2] is v)
    last = calls[-1]
    S.check("solution of the linearized system", len(calls) == len(want) + 2 and last[0] == "a" and len(last) == 8 and all(q is w for q, w in zip(last[1:], D)))
    dr = S.attr(r, "dr") if S.case["details"] else r
    N = S.dim("N")
    m, s = S.arr("em", (N, nm)), S.arr("es", (N, ns))
    x = S.method(dr, "eval_ms", m, s)
    y = S.method(dr, "eval_s", s) if not var else None
    S.shape("controls", x, (N, nx))
    c = S.cell
    o = nm if var else 0
    val = lambda q, i: c(v["controls"], i) + (S.sum(0, nm, lambda j: (c(m, q, j) - c(v["exogenous"], j)) * c(C, i, j)) if var else 0) + S.sum(0, ns, lambda j: (c(s, q, j) - c(v["states"], j)) * c(C, i, o + j))
    S.forall("linear rule through the steady state", (N, nx), lambda q, i: S.eq(c(x, q, i), val(q, i)))
    if S.case["details"]:       # eigenvalues are the inverses of those of the decomposition, in increasing order of the growth rates' inverses
        S.check("generalized eigenvalues reported", S.attr(r, "generalized_eigenvalues") is ev)
        b, a = c(ev, nx - 1), c(ev, nx)     # the biggest growth rate of the solution is the inverse of a, the next one the inverse of b
        crit = 1.0 - 1e-8
        S.check("stable when the rates of the solution are below one", S.eq(S.ite(S.attr(r, "stable"), 1, 0), S.ite(S.lt(crit, a), 1, 0)))
        S.check("unique when the next one is not", S.eq(S.ite(S.attr(r, "unique"), 1, 0), S.ite(S.le(b, crit), 1, 0)))
        S.check("determined when they differ", S.eq(S.ite(S.attr(r, "determined"), 1, 0), S.ite(S.lt(b, a), 1, 0)))
    if y is not None: S.forall("rule at states", (N, nx), lambda q, i: S.eq(c(y, q, i), val(q, i)))


def system(S, ns, nx, C, L, gx, fx, fS, fX):
    """a system whose first order solution is C, with transition L of the states"""
    gs = S.array((ns, ns), lambda i, j: S.cell(L, i, j) - mm(S, gx, C, i, j, nx))
    D = S.array((nx, ns), lambda i, j: S.cell(fS, i, j) + mm(S, fX, C, i, j, nx))
    fs = S.array((nx, ns), lambda i, j: -mm(S, fx, C, i, j, nx) - mm(S, D, L, i, j, ns))
    return gs, fs


@contract("C23", "solution of a system with as many stable roots as states", [Q + "approximate_1st_order"], bounded="one or two states and controls (any derivatives)", conc=False,
          opts={"cases": [{"ns": a, "nx": b} for a in (1, 2) for b in (1, 2)],
                "assumes": ["qzordered returns a generalized Schur decomposition whose first columns span the deflating subspace of the biggest ratios (scipy.linalg.ordqz)", "numpy.linalg.solve returns the solution of a regular system"]})
def _(S):
    ns, nx = S.case["ns"], S.case["nx"]
    n = ns + nx
    C, L, gx, fx, fS, fX, ge = S.arr("C", (nx, ns)), S.arr("L", (ns, ns)), S.arr("gx", (ns, nx)), S.arr("fx", (nx, nx)), S.arr("fS", (nx, ns)), S.arr("fX", (nx, nx)), S.arr("ge", (ns, 1))
    gs, fs = system(S, ns, nx, C, L, gx, fx, fS, fX)
    W = S.arr("W", (ns, ns))            # the top left block of Z (regular)
    s, t, q, ev, Z2 = S.arr("S", (n, n)), S.arr("T", (n, n)), S.arr("Q", (n, n)), S.arr("ev", (n,)), S.arr("Z2", (n, nx))
    c = S.cell
    z = S.array((n, n), lambda i, j: S.ite(j < ns, S.ite(i < ns, c(W, S.ite(i < ns, i, 0), S.ite(j < ns, j, 0)), mm(S, C, W, S.ite(i < ns, 0, i - ns), S.ite(j < ns, j, 0), ns)), c(Z2, i, S.ite(j < ns, 0, j - ns))))
    V = S.array((n, ns), lambda i, j: S.ite(i < ns, S.ite(S.eq(i, j), 1.0, 0.0), c(C, S.ite(i < ns, 0, i - ns), j)))
    for i in range(n):
        S.require(S.or_(S.le(1e-9, S.abs(c(s, i, i))), S.le(1e-9, S.abs(c(t, i, i)))))
        S.require(S.lt(1, c(ev, i)) if i < ns else S.lt(c(ev, i), 0.999))
    calls = []

    def qzo(A, B, k=1.0):
        calls.append(k)
        for i in range(n):
            for j in range(ns):     # the stable subspace of the pencil is the graph of the solution
                S.check("pencil", S.eq(S.sum(0, ns, lambda l: S.sum(0, n, lambda h: c(A, i, h) * c(V, h, l)) * c(L, l, j)), S.sum(0, n, lambda h: c(B, i, h) * c(V, h, j))))
        return [s, t, q, z, ev]

    def solve(a, b):
        for i in range(ns):
            for j in range(nx): S.check("system solved", S.eq(c(b, i, j), S.sum(0, ns, lambda k: c(a, i, k) * c(C, j, k))))
        return S.array((ns, nx), lambda i, j: c(C, j, i))
    S.override(qz.qzordered, qzo)
    S.override(np.linalg.solve, solve)
    R, e = S.call(pt.approximate_1st_order, gs, gx, ge, fs, fx, fS, fX)
    S.check("one decomposition, stable roots first", len(calls) == 1)
    S.shape("coefficients", R, (nx, ns))
    for i in range(nx):
        for j in range(ns): S.check("coefficients of the solution", S.eq(c(R, i, j), c(C, i, j)))
    S.check("no warning", S.not_(S.warned()))


def random_roots(rng, n_stable, n_unstable):
    """block diagonal matrix with real and complex roots, stable ones first"""
    def blocks(k, lo, hi):
        out = []
        while k > 0:
            r = rng.uniform(lo, hi)
            if k > 1 and rng.rand() < 0.6:
                a = rng.uniform(0.3, np.pi - 0.3)
                out.append(r * np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])); k -= 2
            else:
                out.append(np.array([[r * (1 if rng.rand() < 0.7 else -1)]])); k -= 1
        return out
    import scipy.linalg as sl
    return sl.block_diag(*(blocks(n_stable, 0.05, 0.93) + blocks(n_unstable, 1.08, 2.5)))


def pencil(S, ns, nx, stable):
    """random system with the given number of stable roots; its roots"""
    n = ns + nx
    for _ in range(100):
        D = random_roots(S.rng, stable, n - stable)
        P = S.rng.normal(size=(n, n))
        if np.linalg.cond(P) > 30 or np.linalg.cond(P[:ns, :ns]) > 30: continue
        M = P @ D @ np.linalg.inv(P)
        fS, fX = S.rng.normal(size=(nx, ns)), S.rng.normal(size=(nx, nx))
        if np.linalg.cond(fX) > 20: continue
        E = np.hstack([-fS, -fX]) @ M
        # s' = gs s + gx x ;  fs s + fx x + fS s' + fX x' = 0
        return dict(gs=M[:ns, :ns], gx=M[:ns, ns:], fs=E[:, :ns], fx=E[:, ns:], fS=fS, fX=fX), np.abs(np.linalg.eigvals(D))
    S.require(False)


@contract("C23", "solution of random systems", [Q + "approximate_1st_order", "dolo.numeric.extern.qz.qzordered"], sym=False, bounded="up to four states and controls, real and complex roots", runs=120)
def _(S):
    ns, nx = int(S.rng.randint(1, 5)), int(S.rng.randint(1, 5))
    d = [0, 0, 0, 1, -1][S.seed % 5]
    stable = ns + d
    s, roots = pencil(S, ns, nx, stable)
    roots = np.sort(roots)
    S.require(roots[ns] - roots[ns - 1] > 1e-3)         # determined
    C, ev = S.call(pt.approximate_1st_order, s["gs"], s["gx"], np.zeros((ns, 1)), s["fs"], s["fx"], s["fS"], s["fX"])
    w = [q for q in map(str, S.warnings) if "convergent" in q]
    L = s["gs"] + s["gx"] @ C
    S.check("shape", C.shape == (nx, ns))
    res = s["fs"] + s["fx"] @ C + (s["fS"] + s["fX"] @ C) @ L
    S.check("first order conditions hold at first order", np.abs(res).max() < 1e-6 * (1 + np.abs(C).max()) * (1 + np.abs(L).max()))
    S.check("the smallest roots drive the solution", np.allclose(np.sort(np.abs(np.linalg.eigvals(L))), roots[:ns], atol=1e-5))
    S.check("generalized eigenvalues", np.allclose(np.sort(1 / np.array(ev)), roots, rtol=1e-5))
    S.check("stable solutions when there are as many stable roots as states", d != 0 or (roots[ns - 1] < 1 and w == []))
    S.check("warning when no solution is stable", d >= 0 or (len(w) == 1 and "not convergent" in w[0]))
    S.check("warning when several solutions are stable", d <= 0 or (len(w) == 1 and "multiple" in w[0]))


@contract("C23", "decision rule", [Q + "perturb", Q + "get_derivatives", Q + "approximate_1st_order"], sym=False, bounded="linear models driven by independent shocks or a vector autoregression", runs=60)
def _(S):
    var = S.seed % 2
    ns, nx, nm = int(S.rng.randint(1, 4)), int(S.rng.randint(1, 4)), int(S.rng.randint(1, 3))
    d = [0, 0, 1, -1][(S.seed // 2) % 4]
    D, roots = pencil(S, ns, nx, ns + d)
    rho = S.rng.uniform(-0.6, 0.6, size=(nm, nm))
    R = np.abs(np.linalg.eigvals(rho))
    allr = np.sort(np.concatenate([roots, R]) if var else roots)
    k = ns + (nm if var else 0)
    S.require(allr[k] - allr[k - 1] > 1e-3 and (not var or (R.max() < 0.97 and np.sort(roots)[ns] > R.max())))      # the roots of the shocks drive the solution
    D.update(gm=S.rng.normal(size=(ns, nm)), gM=S.rng.normal(size=(ns, nm)), fm=S.rng.normal(size=(nx, nm)), fM=S.rng.normal(size=(nx, nm)))
    p = proc.VAR1(ρ=rho, Σ=np.eye(nm)) if var else (dist.Normal(Σ=np.eye(nm)) if nm > 1 else dist.UNormal(σ=1.0))
    val = {"exogenous": S.rng.normal(size=nm) if var else np.zeros(nm), "states": S.rng.normal(size=ns), "controls": S.rng.normal(size=nx), "parameters": np.zeros(2)}
    u = Linear(S, nm, ns, nx, p, D, val)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = S.call(pt.perturb, u.model)
        dr = S.call(pt.perturb, u.model, details=False)
        st = {k: v + 1.0 for k, v in val.items()}
        d2 = S.call(pt.perturb, u.model, steady_state=st, details=False)
    S.check("derivatives at the steady state", u.seen[0][1][1] is val["states"] and u.seen[-1][1][1] is st["states"])
    z = lambda q: np.zeros_like(q)
    S.check("same rule with and without details", np.array_equal(r.dr.C_s, dr.C_s))
    m, s = val["exogenous"] + S.rng.normal(size=nm), val["states"] + S.rng.normal(size=ns)
    x = lambda mm, ss: dr.eval_ms(mm, ss)
    S.check("steady state", np.allclose(x(val["exogenous"], val["states"]), val["controls"]) and np.allclose(d2.eval_ms(st["exogenous"], st["states"]), st["controls"]))
    S.check("same coefficients around another point", np.allclose(d2.C_s, dr.C_s))
    # along the mean path, the linearized equations hold
    dm = m - val["exogenous"] if var else np.zeros(nm)
    ds = s - val["states"]
    dx = x(m, s) - val["controls"] if var else dr.eval_s(s) - val["controls"]
    dM = rho @ dm if var else np.zeros(nm)
    dS = D["gm"] @ dm + D["gs"] @ ds + D["gx"] @ dx + D["gM"] @ dM
    dX = (x(val["exogenous"] + dM, val["states"] + dS) if var else dr.eval_s(val["states"] + dS)) - val["controls"]
    res = D["fm"] @ dm + D["fs"] @ ds + D["fx"] @ dx + D["fM"] @ dM + D["fS"] @ dS + D["fX"] @ dX
    S.check("equations hold at first order", np.abs(res).max() < 1e-6 * (1 + np.abs(dX).max() + np.abs(dx).max() + np.abs(dS).max()))
    S.check("independent shocks do not enter the rule", bool(var) or dr.C_m is None)
    S.check("stability", bool(r.stable) == (d >= 0))
    S.check("uniqueness", bool(r.unique) == (d <= 0))
    S.check("determinacy", bool(r.determined))
    S.check("generalized eigenvalues of the result", np.allclose(np.sort(1 / np.array(r.generalized_eigenvalues)), allr, rtol=1e-5))
    S.check("higher orders are refused", isinstance(S.expect_raise(pt.perturb, u.model, order=2), Exception))
    u.model.exogenous = proc.MarkovChain([[0.5, 0.5], [0.5, 0.5]], np.zeros((2, nm)))
    S.check("other processes are refused", isinstance(S.expect_raise(pt.perturb, u.model), Exception))


@contract("C23", "growth model", [Q + "perturb", Q + "get_derivatives"], sym=False, bounded="a growth model with random parameters", runs=6)
def _(S):
    m = model(fresh=True)
    m.set_calibration(alpha=round(float(S.rng.uniform(0.28, 0.38)), 3), rho=round(float(S.rng.uniform(0.3, 0.9)), 3), i="delta*k" if S.seed % 2 else "delta*k + 0.0")
    dr = S.call(pt.perturb, m, details=False)
    c = m.calibration
    if S.seed % 3 == 0:     # the steady state is looked for
        m.set_calibration(k="n/(rk/alpha)^(1/(1-alpha))*1.03", chi=float(c["chi"]))
        d2 = S.call(pt.perturb, m, details=False, solve_steady_state=True)
        S.check("steady state solved for", np.allclose(d2.s_bar, dr.s_bar, atol=1e-5) and np.allclose(d2.x_bar, dr.x_bar, atol=1e-5) and np.allclose(d2.C_s, dr.C_s, atol=1e-4))
        return
    f, g = m.functions["arbitrage"], m.functions["transition"]
    e, p = c["exogenous"], c["parameters"]
    err = []
    for h in (1e-2, 1e-3):
        s = c["states"] * (1 + h * np.array([0, 1.0])) + h * np.array([0.3, 0])
        x = dr.eval_s(s)
        s1 = g(e, s, x, e, p)
        err.append(np.abs(f(e, s, x, e, s1, dr.eval_s(s1), p)).max())
    S.check("residuals of second order", err[0] < 0.05 and err[1] < 0.03 * err[0] + 1e-7)
