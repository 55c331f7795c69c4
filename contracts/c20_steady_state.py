"""C20: residuals at a calibration and steady states.  C21: tables of decision rules."""
import types
import numpy as np
import pandas
from pyvc.spec import contract, module
from contracts.c10_simulation import Fake

ss = module("dolo.algos.steady_state")
sm = module("dolo.algos.simulations")
misc = module("dolo.compiler.misc")
Q = "dolo.algos.steady_state."
SIZES = [(1, 1, 1), (2, 1, 2), (1, 2, 1)]
B = "one or two exogenous variables, states and controls (any values and functions)"


def two(S, nm, ns, nx):
    """model with equations f and g"""
    u = Fake(S, nm, ns, nx, None)
    u.f = S.rowfun("f", nx)
    u.model.functions["arbitrage"] = u.f
    u.symbols["parameters"] = ["p0", "p1"]
    u.x0 = u.model.calibration["controls"]
    return u


def check(S, u, label, res, m, s, x, p):
    S.check(label + ": groups", set(res.keys()) == {"transition", "arbitrage"})
    S.shape(label + ": transition", res["transition"], (u.ns,))
    S.shape(label + ": arbitrage", res["arbitrage"], (u.nx,))
    S.forall(label + ": transition minus state", (u.ns,), lambda k: S.eq(S.cell(res["transition"], k), u.g.raw((k,), m, s, x, m, p) - S.cell(s, k)))
    S.forall(label + ": arbitrage equations", (u.nx,), lambda k: S.eq(S.cell(res["arbitrage"], k), u.f.raw((k,), m, s, x, m, s, x, p)))


def sizes(S): return S.dim("nm", hi=3), S.dim("ns", hi=3), S.dim("nx", hi=3)


@contract("C20", "residuals", [Q + "residuals"], runs=20, opts={"cases": [{"given": b} for b in (0, 1)]})
def _(S):
    u = two(S, *sizes(S))
    if S.case["given"]:
        c = {"exogenous": S.arr("m", (u.nm,)), "states": S.arr("s", (u.ns,)), "controls": S.arr("x", (u.nx,)), "parameters": S.arr("p", (2,))}
        fz = {k: S.frozen(v) for k, v in c.items()}
        res = S.call(ss.residuals, u.model, c)
        for k in c: S.unchanged("calibration unchanged", c[k], fz[k])
    else:
        c = u.model.calibration
        res = S.call(ss.residuals, u.model)
    check(S, u, "residuals", res, c["exogenous"], c["states"], c["controls"], c["parameters"])


def solve(S, u, given):
    """the steady state found when scipy returns the point v, the function it was given at v, and its initial guess"""
    v = S.arr("v", (u.ns + u.nx,))
    m = S.arr("m", (u.nm,)) if given else u.m0
    import scipy.optimize as so
    seen = {"n": 0}

    def root(fobj, x0, *a, **k):
        seen["x0"] = x0
        seen["r"] = S.call(fobj, v)
        seen["n"] += 1
        return types.SimpleNamespace(x=v, success=True, status=1, message="", fun=seen["r"])
    f0 = [(a, S.frozen(a)) for a in (u.m0, u.s0, u.x0, u.p, m)]
    if S.symbolic:
        S.override(so.root, root)
        c = S.call(ss.find_steady_state, u.model, **({"m": m} if given else {}))
    else:
        keep, so.root = so.root, root
        try: c = S.call(ss.find_steady_state, u.model, **({"m": m} if given else {}))
        finally: so.root = keep
    for a, f in f0: S.unchanged("calibration unchanged", a, f)
    S.check("one search", seen["n"] == 1)
    return v, m, S.array((u.ns,), lambda k: S.cell(v, k)), S.array((u.nx,), lambda k: S.cell(v, u.ns + k)), seen, c


def point(S, u, get, v, m):
    S.shape("states returned", get("states"), (u.ns,))
    S.shape("controls returned", get("controls"), (u.nx,))
    S.shape("exogenous values returned", get("exogenous"), (u.nm,))
    S.forall("states returned", (u.ns,), lambda k: S.eq(S.cell(get("states"), k), S.cell(v, k)))
    S.forall("controls returned", (u.nx,), lambda k: S.eq(S.cell(get("controls"), k), S.cell(v, u.ns + k)))
    S.forall("exogenous values returned", (u.nm,), lambda k: S.eq(S.cell(get("exogenous"), k), S.cell(m, k)))
    S.forall("parameters returned", (2,), lambda k: S.eq(S.cell(get("parameters"), k), S.cell(u.p, k)))


ROOT = ["scipy.optimize.root, when it converges, returns a zero of the function it is given"]


@contract("C20", "steady state", [Q + "find_steady_state", Q + "residuals"], runs=20, opts={"cases": [{"given": b} for b in (0, 1)], "assumes": ROOT + ["CalibrationDict holds the values it is given (next contract, bounded)"]})
def _(S):
    u = two(S, *sizes(S))
    if S.symbolic:
        def calib(symbols, d, *a):
            S.check("symbols of the calibration returned", symbols is u.symbols)
            return d
        S.override(misc.CalibrationDict, calib)
    v, m, s, x, seen, c = solve(S, u, S.case["given"])
    r, p, ns = seen["r"], u.p, u.ns
    S.shape("as many equations as unknowns", r, (ns + u.nx,))
    # the function whose zero is found: the residuals at the point returned, with the exogenous values asked for
    G = lambda k: u.g.raw((k,), m, s, x, m, p) - S.cell(s, k)
    F_ = lambda k: u.f.raw((k,), m, s, x, m, s, x, p)
    if S.symbolic or S.eq(S.cell(r, 0), G(0)):
        S.forall("residuals of transitions", (ns,), lambda k: S.eq(S.cell(r, k), G(k)))
        S.forall("residuals of Euler equations", (u.nx,), lambda k: S.eq(S.cell(r, ns + k), F_(k)))
    else:      # another order, or other signs, would do
        R = [G(k) for k in range(ns)] + [F_(k) for k in range(u.nx)]
        S.check("the function is the vector of residuals", np.allclose(sorted(np.abs(R)), sorted(np.abs(r))))
    S.shape("search starts at the calibration", seen["x0"], (ns + u.nx,))
    S.forall("search starts at the calibration: states", (ns,), lambda k: S.eq(S.cell(seen["x0"], k), S.cell(u.s0, k)))
    S.forall("search starts at the calibration: controls", (u.nx,), lambda k: S.eq(S.cell(seen["x0"], ns + k), S.cell(u.x0, k)))
    point(S, u, (lambda k: c[k]) if S.symbolic else (lambda k: S.call(misc.CalibrationDict.__getitem__, c, k)), v, m)


@contract("C20", "steady state, by name", [Q + "find_steady_state", Q + "residuals", "dolo.compiler.misc.CalibrationDict.__init__"], bounded=B, runs=20,
          opts={"cases": [{"sz": z, "given": b} for z in SIZES for b in (0, 1)], "assumes": ROOT})
def _(S):
    nm, ns, nx = S.case["sz"]
    u = two(S, nm, ns, nx)
    v, m, s, x, seen, c = solve(S, u, S.case["given"])
    p, r = u.p, seen["r"]
    zero = S.and_(*[S.eq0(S.cell(r, k)) for k in range(ns + nx)])
    g = S.and_(*[S.eq(u.g.raw((k,), m, s, x, m, p), S.cell(s, k)) for k in range(ns)])
    f = S.and_(*[S.eq0(u.f.raw((k,), m, s, x, m, s, x, p)) for k in range(nx)])
    S.check("a zero is a steady state", S.implies(zero, S.and_(g, f)))
    S.check("a steady state is a zero", S.implies(S.and_(g, f), zero))
    get = lambda k: S.call(misc.CalibrationDict.__getitem__, c, k)
    point(S, u, get, v, m)
    name = lambda g, k: u.symbols[g][k]
    for k in range(ns): S.check("states returned, by name", S.eq(get(name("states", k)), S.cell(s, k)))
    for k in range(nx): S.check("controls returned, by name", S.eq(get(name("controls", k)), S.cell(x, k)))
    for k in range(nm): S.check("exogenous values returned, by name", S.eq(get(name("exogenous", k)), S.cell(m, k)))


@contract("C20", "steady state of linear and growth models", [Q + "find_steady_state", Q + "residuals"], sym=False, bounded="random linear models, and a growth model with random parameters", runs=25)
def _(S):
    if S.seed % 5 == 0:
        from contracts.models_lib import model
        m = model()
        m.set_calibration(alpha=round(float(S.rng.uniform(0.28, 0.38)), 3), delta=round(float(S.rng.uniform(0.02, 0.04)), 4))
        res = S.call(ss.residuals, m)
        S.check("the calibration is a steady state", max(np.abs(res["transition"]).max(), np.abs(res["arbitrage"]).max()) < 1e-8)
        e = float(S.rng.uniform(-0.02, 0.02))
        c = S.call(ss.find_steady_state, m, m=np.array([e]))
        f, g = m.functions["arbitrage"], m.functions["transition"]
        mm, s, x, p = np.array([e]), c["states"], c["controls"], m.calibration["parameters"]
        S.check("steady state of the growth model", np.abs(g(mm, s, x, mm, p) - s).max() < 1e-6 and np.abs(f(mm, s, x, mm, s, x, p)).max() < 1e-6)
        S.check("state of the growth model", abs(s[0] - e / (1 - m.calibration["rho"])) < 1e-7 and abs(c["z"] - s[0]) < 1e-14)
        return
    nm, ns, nx = [int(q) for q in S.rng.randint(1, 4, size=3)]
    L = {n: S.rng.normal(size=z) for n, z in (("gm", (ns, nm)), ("gs", (ns, ns)), ("gx", (ns, nx)), ("gM", (ns, nm)), ("fm", (nx, nm)), ("fs", (nx, ns)), ("fx", (nx, nx)), ("fM", (nx, nm)), ("fS", (nx, ns)), ("fX", (nx, nx)), ("cg", (ns,)), ("cf", (nx,)))}
    g = lambda m, s, x, M, p: L["gm"] @ m + L["gs"] @ s + L["gx"] @ x + L["gM"] @ M + L["cg"]
    f = lambda m, s, x, M, S_, X, p: L["fm"] @ m + L["fs"] @ s + L["fx"] @ x + L["fM"] @ M + L["fS"] @ S_ + L["fX"] @ X + L["cf"]
    sy = {"exogenous": ["m%d" % i for i in range(nm)], "states": ["s%d" % i for i in range(ns)], "controls": ["x%d" % i for i in range(nx)], "parameters": ["p"]}
    cal = {"exogenous": S.rng.normal(size=nm), "states": S.rng.normal(size=ns), "controls": S.rng.normal(size=nx), "parameters": np.zeros(1)}
    J = np.block([[L["gs"] - np.eye(ns), L["gx"]], [L["fs"] + L["fS"], L["fx"] + L["fX"]]])
    S.require(np.linalg.cond(J) < 50)
    m = S.rng.normal(size=nm)
    mdl = types.SimpleNamespace(symbols=sy, functions={"transition": g, "arbitrage": f}, calibration=cal)
    c = S.call(ss.find_steady_state, mdl, m=m)
    v = np.linalg.solve(J, -np.concatenate([(L["gm"] + L["gM"]) @ m + L["cg"], (L["fm"] + L["fM"]) @ m + L["cf"]]))
    S.check("steady state of a linear model", np.allclose(c["states"], v[:ns], atol=1e-6) and np.allclose(c["controls"], v[ns:], atol=1e-6) and np.allclose(c["exogenous"], m))
