"""C10: simulated paths follow the model and the decision rule."""
import types
import numpy as np
import xarray as xr
from pyvc.spec import contract, module
from contracts.models_lib import model

sm = module("dolo.algos.simulations")
proc = module("dolo.numeric.processes")
dist = module("dolo.numeric.distribution")
Q = "dolo.algos.simulations."


def Names(S, group, n):
    """the list of the n names of a group"""
    if not S.symbolic or isinstance(n, int): return ["%s%d" % ("m" if group == "exogenous" else "x" if group == "controls" else group[0], i) for i in range(n)]
    from pyvc.interp import SymSeq
    from pyvc import terms as tm
    return SymSeq(n, lambda k: tm.app("name_" + group, (tm.lift(k),)))


def same_names(S, label, got, *parts):
    """a list of names is the concatenation of others"""
    if not S.symbolic: return S.check(label, list(got) == sum(parts, []))
    from pyvc.interp import SymSeq, name_term
    from pyvc import terms as tm
    w = SymSeq(0, None)
    for q in parts: w = w.then(q)
    if not isinstance(got, SymSeq): got = SymSeq(0, None).then(got)
    S.check(label + ": number", S.eq(got.n, w.n))
    S.forall(label, (w.n,), lambda k: S.eq(name_term(got[k]), name_term(w[k])))


class Fake:
    """a model of which only the functions, the symbols and the calibration are known"""

    def __init__(self, S, nm, ns, nx, na, npar=2, exogenous=None):
        self.S, self.nm, self.ns, self.nx, self.na = S, nm, ns, nx, na
        self.g = S.rowfun("g", ns)
        self.aux = S.rowfun("aux", 1 if na is None else na)
        self.h = S.rowfun("h", nx)
        self.m0, self.s0, self.p = S.arr("calib_m", (nm,)), S.arr("calib_s", (ns,)), S.arr("calib_p", (npar,))
        self.symbols = {g: Names(S, g, n) for g, n in (("exogenous", nm), ("states", ns), ("controls", nx), ("auxiliaries", 0 if na is None else na))}
        f = {"transition": self.g, "arbitrage": None}
        if na is not None: f["auxiliary"] = self.aux
        self.model = types.SimpleNamespace(symbols=self.symbols, functions=f, exogenous=exogenous, calibration={"exogenous": self.m0, "states": self.s0, "controls": S.arr("calib_x", (nx,)), "parameters": self.p})

    def vec(self, n, f): return self.S.array((n,), f)

    def check(self, sim, coords, N, T, m, s0, rule, disc=None):
        """every statement about the simulated array; m(t,n,k), s0(k), rule(t,n,mrow,srow,k): decision"""
        S, nm, ns, nx, na = self.S, self.nm, self.ns, self.nx, self.na
        off = 0 if disc is None else 1
        aux = na is not None
        lm = nm if aux else 0
        same_names(S, "names of the variables", coords["V"], *([["_i_m"]] if off else []), *([self.symbols["exogenous"]] if aux else []), self.symbols["states"], self.symbols["controls"], *([self.symbols["auxiliaries"]] if aux else []))
        S.shape("one row per date, path and variable", sim, (T, N, off + lm + ns + nx + (na if aux else 0)))
        M = lambda t, n: self.vec(nm, lambda k: m(t, n, k))
        st = lambda t, n, k: S.cell(sim, t, n, off + lm + k)
        SS = lambda t, n: self.vec(ns, lambda k: st(t, n, k))
        xt = lambda t, n, k: S.cell(sim, t, n, off + lm + ns + k)
        X = lambda t, n: self.vec(nx, lambda k: rule(t, n, M(t, n), SS(t, n), k))      # equal to the simulated controls ("controls follow the decision rule")
        XT = lambda t, n: self.vec(nx, lambda k: xt(t, n, k))
        if disc is not None:
            S.forall("state of the chain", (T, N), lambda t, n: S.eq(S.cell(sim, t, n, 0), disc(t, n)))
        if aux: S.forall("exogenous values", (T, N, nm), lambda t, n, k: S.eq(S.cell(sim, t, n, off + k), m(t, n, k)))
        S.forall("initial state", (N, ns), lambda n, k: S.eq(st(0, n, k), s0(k)))
        S.forall("states follow the transition", (T - 1, N, ns), lambda t, n, k: S.eq(st(t + 1, n, k), self.g.raw((k,), M(t, n), SS(t, n), X(t, n), M(t + 1, n), self.p)))
        S.forall("controls follow the decision rule", (T, N, nx), lambda t, n, k: S.eq(xt(t, n, k), rule(t, n, M(t, n), SS(t, n), k)))
        if aux: S.forall("auxiliary variables", (T, N, na), lambda t, n, k: S.eq(S.cell(sim, t, n, off + lm + ns + nx + k), self.aux.raw((k,), M(t, n), SS(t, n), XT(t, n), self.p)))


def capture(S):
    """contract of xarray.DataArray: keeps the data and the labels"""
    box = {}
    if S.symbolic:
        def da(data, dims=None, coords=None):
            box["dims"], box["coords"] = list(dims), coords
            return data
        S.override(xr.DataArray, da)
    return box


def result(S, box, R):
    if not S.symbolic:
        box["dims"], box["coords"] = list(R.dims), {k: list(R.coords[k].values) for k in R.coords}
        R = R.data
    S.check("axes", box["dims"] == ["T", "N", "V"])
    return R, box["coords"]


SIZES = [{"aux": 0}, {"aux": 1}]


def fake(S, **k): return Fake(S, S.dim("nm", hi=2), S.dim("ns", hi=2), S.dim("nx", hi=2), S.dim("na", hi=2) if S.case["aux"] else None, **k)


A = {"assumes": ["xarray.DataArray holds the array and labels it is given"]}


@contract("C10", "paths along given shocks", [Q + "simulate"], runs=12, opts={"cases": [dict(c, s0=b) for c in SIZES for b in (0, 1)], **A})
def _(S):
    c = S.case
    u = fake(S)
    N, T = S.dim("N", hi=3), S.dim("T", lo=1, hi=5)
    m = S.arr("m", (T, N, u.nm))
    s0 = S.arr("s0", (u.ns,)) if c["s0"] else u.s0
    fz, f0 = S.frozen(m), S.frozen(s0)
    dr = types.SimpleNamespace(eval_ms=u.h)
    box = capture(S)
    R, co = result(S, box, S.call(sm.simulate, u.model, dr, N=N, T=T, driving_process=m, **({"s0": s0} if c["s0"] else {})))
    u.check(R, co, N, T, lambda t, n, k: S.cell(m, t, n, k), lambda k: S.cell(s0, k), lambda t, n, M, s, k: u.h.raw((k,), M, s))
    S.unchanged("shocks unchanged", m, fz)
    S.unchanged("initial state unchanged", s0, f0)


@contract("C10", "paths along given states of a chain", [Q + "simulate"], runs=12, opts={"cases": SIZES, **A})
def _(S):
    c = S.case
    u = fake(S)
    N, T, K = S.dim("N", hi=3), S.dim("T", lo=1, hi=5), S.dim("K", hi=3)
    nodes = S.arr("nodes", (K, u.nm))
    i = S.iarr("i", (T, N), lo=0, hi=K)
    hi = S.rowfun("hi", u.nx)
    one = lambda i: S.array((1,), lambda k: i)
    dr = types.SimpleNamespace(exo_grid=types.SimpleNamespace(nodes=nodes), eval_is=S.wrapfun(lambda i, s: hi(one(i), s)))
    s0 = S.arr("s0", (u.ns,))
    box = capture(S)
    R, co = result(S, box, S.call(sm.simulate, u.model, dr, N=N, T=T, driving_process=i, s0=s0))
    u.check(R, co, N, T, lambda t, n, k: S.cell(nodes, S.cell(i, t, n), k), lambda k: S.cell(s0, k), lambda t, n, M, s, k: hi.raw((k,), one(S.cell(i, t, n)), s), disc=lambda t, n: S.cell(i, t, n))


@contract("C10", "paths with shocks drawn from a continuous process", [Q + "simulate"], runs=12, opts={"cases": [dict(c, m0=b, own=o) for c in SIZES[:2] for b in (0, 1) for o in (0, 1)], **A})
def _(S):
    c = S.case
    u = fake(S)
    N, T = S.dim("N", hi=3), S.dim("T", lo=1, hi=5)
    m = S.arr("m", (T, N, u.nm))
    m0 = S.arr("m0", (u.nm,)) if c["m0"] else None
    seen, log = [], []
    sd = S.int("seed", lo=0) if S.symbolic else [0, 1, 42, 2 ** 32 - 1, int(S.rng.randint(0, 10 ** 6))][S.seed % 5]
    if S.symbolic: S.override(np.random.seed, lambda k=None: log.append(k))

    def simul(N, T, **k):
        seen.append((N, T, k))
        if S.symbolic: S.check("draws follow the seed", len(log) > 0 and S.eq(log[-1], sd) if log and log[-1] is not None else False)
        else: S.check("draws follow the seed", np.array_equal(np.random.get_state()[1], np.random.RandomState(sd).get_state()[1]))
        return m
    p = types.SimpleNamespace(simulate=S.wrapfun(simul))
    if c["own"]: u.model.exogenous = p
    s0 = S.arr("s0", (u.ns,))
    dr = types.SimpleNamespace(eval_ms=u.h)
    box = capture(S)
    R, co = result(S, box, S.call(sm.simulate, u.model, dr, N=N, T=T, s0=s0, m0=m0, stochastic=True, seed=sd, **({} if c["own"] else {"process": p})))
    S.check("the process is simulated once", len(seen) == 1)
    S.check("numbers of paths and dates", S.and_(S.eq(seen[0][0], N), S.eq(seen[0][1], T)))
    S.check("options of the simulation", seen[0][2].get("stochastic", True) is True and seen[0][2].get("m0") is m0)
    u.check(R, co, N, T, lambda t, n, k: S.cell(m, t, n, k), lambda k: S.cell(s0, k), lambda t, n, M, s, k: u.h.raw((k,), M, s))


@contract("C10", "paths with shocks drawn from a chain", [Q + "simulate"], runs=12, opts={"noxcheck": True, "cases": [dict(c, stoch=b, own=o) for c in SIZES[:2] for b in (0, 1) for o in (0, 1)], **A})
def _(S):
    c = S.case
    u = fake(S)
    N, T, K = S.dim("N", hi=3), S.dim("T", lo=1, hi=5), S.dim("K", hi=3)
    V, P = S.arr("V", (K, u.nm)), S.stochastic("P", K)
    if not S.symbolic: V[:, 0] += 10.0 * np.arange(K)      # different values in each state
    mc = proc.MarkovChain(P, V) if not S.symbolic else S.call(proc.MarkovChain, P, V)
    i0 = S.index("i0", K)
    if S.symbolic:
        i = S.iarr("i", (T, N), lo=0, hi=K)
        S.override(proc.MarkovChain.simulate, lambda self, N_, T_, i0=0, m0=None, stochastic=True: S.array((T, N, u.nm), lambda t, n, k: S.cell(V, S.cell(i, t, n), k)))
        S.override(sm.find_index, lambda sim, values: i)
    u.model.exogenous = mc
    hi = S.rowfun("hi", u.nx)
    one = lambda i: S.array((1,), lambda k: i)
    dr = types.SimpleNamespace(exo_grid=types.SimpleNamespace(nodes=V), eval_is=S.wrapfun(lambda i, s: hi(one(i), s)))
    if c["own"]: dr.dprocess = mc
    s0 = S.arr("s0", (u.ns,))
    box = capture(S)
    R, co = result(S, box, S.call(sm.simulate, u.model, dr, N=N, T=T, s0=s0, i0=i0, stochastic=bool(c["stoch"])))
    if not S.symbolic:
        i = R[:, :, 0].astype(int)
        S.forall("chain starts at the given state", (N,), lambda n: i[0, n] == i0)
        S.check("state numbers", bool(((i >= 0) & (i < K)).all()))
        if not c["stoch"]:
            S.check("chain stays at the given state", bool((i == i0).all()))
        S.forall("possible transitions", (T - 1, N), lambda t, n: c["stoch"] == 0 or P[i[t, n], i[t + 1, n]] > 0)
    u.check(R, co, N, T, lambda t, n, k: S.cell(V, S.cell(i, t, n), k), lambda k: S.cell(s0, k), lambda t, n, M, s, k: hi.raw((k,), one(S.cell(i, t, n)), s), disc=lambda t, n: S.cell(i, t, n))


@contract("C10", "positions of values among the states of a chain", [Q + "find_index"], sym=False, bounded="random values", runs=30)
def _(S):
    K, d, A_, B_ = S.dim("K", hi=4), S.dim("d", hi=3), S.dim("A", hi=3), S.dim("B", hi=4)
    V = S.arr("V", (K, d))
    if S.seed % 3 == 0 and d > 1: V[:, 0] = V[0, 0]
    S.require(len(np.unique(V, axis=0)) == K)
    i = S.rng.randint(0, K, size=(A_, B_))
    S.check("positions", bool((S.call(sm.find_index, V[i], V) == i).all()))


@contract("C10", "impulse response", [Q + "response"], runs=12, opts={"cases": [{"kind": k, "imp": b} for k in ("var", "ar1", "normal", "unormal") for b in (0, 1)]}, sym=False, bounded="random autocorrelated and independent processes; functions of the model random")
def _(S):
    kind = S.case["kind"]
    d = 2 if kind in ("var", "normal") else 1
    X = S.rng.normal(size=(d, d))
    Sig = X @ X.T + 0.1 * np.eye(d)
    rho = 0.5 * S.rng.uniform(-1, 1, (d, d))
    p = {"var": lambda: proc.VAR1(ρ=rho, Σ=Sig), "ar1": lambda: proc.AR1(ρ=0.7, σ=0.3), "normal": lambda: dist.Normal(Σ=Sig), "unormal": lambda: dist.UNormal(σ=0.3)}[kind]()
    sd = {"var": np.sqrt(np.diag(Sig)), "normal": np.sqrt(np.diag(Sig)), "ar1": np.array([0.3 ** 0.5]), "unormal": np.array([0.3])}[kind]
    u = Fake(S, d, 2, 1, 1, exogenous=p)
    dr = types.SimpleNamespace(eval_ms=u.h)
    T = int(S.rng.randint(3, 8))
    q = int(S.rng.randint(0, d))
    imp = float(S.rng.uniform(0.1, 2)) if S.case["imp"] else None
    R = S.call(sm.response, u.model, dr, u.symbols["exogenous"][q], T=T, **({"impulse": imp} if imp is not None else {}))
    S.check("axes", list(R.dims) == ["T", "V"] and len(R["T"]) == T)
    a = imp if imp is not None else sd[q]
    A_ = rho if kind == "var" else (np.array([[0.7]]) if kind == "ar1" else None)
    m = np.zeros((T, d))
    if A_ is not None:
        m[0, q] = a
        for t in range(1, T): m[t] = A_ @ m[t - 1]
    else:
        m[1, q] = a
    full = R.data[:, None, :]
    u.check(full, {"V": list(R.coords["V"].values)}, 1, T, lambda t, n, k: m[t, k], lambda k: u.s0[k], lambda t, n, M, s, k: u.h.raw((k,), M, s))


@contract("C10", "same seed, same paths", [Q + "simulate"], sym=False, bounded="random continuous, independent and discrete processes", runs=4, opts={"cases": [{"kind": k} for k in ("var", "ar1", "normal", "unormal", "mc")]})
def _(S):
    kind = S.case["kind"]
    d = 1
    K = 3
    V = np.arange(K)[:, None] * 1.0
    P = (S.stochastic("P", K) + 1 / K) / 2
    p = {"var": lambda: proc.VAR1(ρ=[[0.5]], Σ=[[0.1]]), "ar1": lambda: proc.AR1(ρ=0.7, σ=0.3), "normal": lambda: dist.Normal(Σ=[[0.3]]), "unormal": lambda: dist.UNormal(σ=0.3), "mc": lambda: proc.MarkovChain(P, V)}[kind]()
    u = Fake(S, d, 1, 1, 1, exogenous=p)
    one = lambda i: np.array([i])
    hi = S.rowfun("hi", 1)
    dr = types.SimpleNamespace(eval_ms=u.h, exo_grid=types.SimpleNamespace(nodes=V), eval_is=lambda i, s: hi(one(i), s))
    sd = [0, 2 ** 32 - 1, int(S.rng.randint(0, 10 ** 6))][S.seed % 3]
    f = lambda **k: S.call(sm.simulate, u.model, dr, N=4, T=12, **k).data
    a = f(seed=sd)
    np.random.seed(int(S.rng.randint(0, 1000)))
    np.random.rand(3)
    b = f(seed=sd)
    S.check("the seed determines the paths", np.array_equal(a, b))
    S.check("another seed, other paths", not np.array_equal(a, f(seed=(sd + 1) % 2 ** 32)))
    np.random.seed(5)
    x = f()
    np.random.seed(6)
    S.check("the default seed determines the paths", np.array_equal(x, f()))
    k = 1 if kind == "mc" else 0
    S.check("paths are not copies of each other", not all(np.array_equal(a[1:, 0, k], a[1:, j, k]) for j in range(1, 4)) or (kind == "mc" and P.max(axis=1).min() > 0.9))
