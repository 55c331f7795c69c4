"""C12: perfect foresight simulations."""
import types
import numpy as np
import pandas
from pyvc.spec import contract, module
from contracts.models_lib import model, RBC
from contracts.c10_simulation import Names, same_names

pf = module("dolo.algos.perfect_foresight")
Q = "dolo.algos.perfect_foresight."


def fake(S, nm, names=None):
    return types.SimpleNamespace(symbols={"exogenous": Names(S, "exogenous", nm)}, calibration={"exogenous": S.arr("calib_m", (nm,))})


def at(S, x, t, L):
    """value at date t of a series of L values, the last one being kept"""
    return S.cell(x, S.fmin(t, L - 1))


@contract("C12", "series of shocks given as an array", [Q + "_shocks_to_epsilons"], runs=40, opts={"cases": [{"form": f} for f in ("matrix", "vector", "none", "list")]})
def _(S):
    form = S.case["form"]
    nm = 1 if form == "vector" else 2 if form == "list" else S.dim("nm", hi=3)
    mo = fake(S, nm)
    T, L = S.dim("T", hi=8), S.dim("L", hi=12)
    if form == "none":
        a, get = None, lambda t, i: S.cell(mo.calibration["exogenous"], i)
    elif form == "vector":
        a = S.arr("a", (L,))
        get = lambda t, i: S.cell(a, S.fmin(t, L - 1))
    elif form == "list":
        rows = [[S.real("r%d%d" % (k, i)) for i in range(nm)] for k in range(3)]
        a = rows
        get = lambda t, i: S.ite(S.eq(t, 0), rows[0][i], S.ite(S.eq(t, 1), rows[1][i], rows[2][i]))
    else:
        a = S.arr("a", (L, nm))
        get = lambda t, i: S.cell(a, S.fmin(t, L - 1), i)
    f = S.frozen(a) if form in ("matrix", "vector") else None
    R = S.call(pf._shocks_to_epsilons, mo, list(a) if form == "vector" and not S.symbolic and S.seed % 2 else a, T)
    S.shape("one row per date", R, (T + 1, nm))
    if form == "list":
        for i in range(nm): S.forall("values of the series, the last one being kept", (T + 1,), lambda t: S.eq(S.cell(R, t, i), get(t, i)))
    else: S.forall("values of the series, the last one being kept", (T + 1, nm), lambda t, i: S.eq(S.cell(R, t, i), get(t, i)))
    if f is not None: S.unchanged("series unchanged", a, f)


@contract("C12", "series of shocks given by name", [Q + "_shocks_to_epsilons"], bounded="one to three exogenous variables (any numbers of dates, any values)", runs=20,
          opts={"noxcheck": True, "cases": [{"nm": k, "given": g} for k, g in ((1, (0,)), (2, (1,)), (2, (1, 0)), (3, (2, 0)), (3, ()))]})
def _(S):
    nm, given = S.case["nm"], S.case["given"]
    mo = fake(S, nm)
    T = S.dim("T", hi=8)
    L = {i: S.dim("L%d" % i, hi=12) for i in given}
    a = {i: S.arr("a%d" % i, (L[i],)) for i in given}
    frame = not S.symbolic and S.seed % 2 and len(given)
    if frame:
        L = {i: min(L.values()) for i in given}
        a = {i: a[i][:L[i]] for i in given}
    d = {"m%d" % i: a[i] for i in given}
    if frame: d = pandas.DataFrame(d)
    elif not S.symbolic and S.seed % 3: d = {k: list(v) for k, v in d.items()}
    R = S.call(pf._shocks_to_epsilons, mo, d, T)
    S.shape("one row per date", R, (T + 1, nm))
    for i in range(nm):
        S.forall("values of the series, the last one being kept", (T + 1,), lambda t: S.eq(S.cell(R, t, i), at(S, a[i], t, L[i]) if i in given else S.cell(mo.calibration["exogenous"], i)))


class Stack:
    """a model given by its functions and their derivatives"""

    def __init__(self, S, nm, ns, nx, na=None, bounds=False):
        self.S, self.nm, self.ns, self.nx, self.na = S, nm, ns, nx, na
        self.g, self.f = S.rowfun("g", ns), S.rowfun("f", nx)
        self.Dg = {k: S.rowfun("g_" + k, ns * n) for k, n in (("m", nm), ("s", ns), ("x", nx), ("M", nm))}
        self.Df = {k: S.rowfun("f_" + k, nx * n) for k, n in (("m", nm), ("s", ns), ("x", nx), ("M", nm), ("S", ns), ("X", nx))}
        self.aux = S.rowfun("aux", 1 if na is None else na)
        self.p = S.arr("p", (2,))
        size = {"m": nm, "s": ns, "x": nx, "M": nm, "S": ns, "X": nx}

        def deriv(D, n):
            def go(k, *a):
                v = D[k](*a)
                r = size[k]
                return S.array((v.shape[0], n, r), lambda t, i, j: S.cell(v, t, i * r + j))
            return go
        dg, df = deriv(self.Dg, ns), deriv(self.Df, nx)

        def g(*a, diff=False):
            return [self.g(*a)] + [dg(k, *a) for k in ("m", "s", "x", "M")] if diff else self.g(*a)

        def f(*a, diff=False):
            return [self.f(*a)] + [df(k, *a) for k in ("m", "s", "x", "M", "S", "X")] if diff else self.f(*a)
        F = {"transition": S.wrapfun(g), "arbitrage": S.wrapfun(f)}
        if na is not None: F["auxiliary"] = self.aux
        self.calib = {"exogenous": S.arr("m0", (nm,)), "states": S.arr("s0", (ns,)), "controls": S.arr("x0", (nx,)), "parameters": self.p}
        self.lb = self.ub = None
        xb = None
        if bounds:
            self.lb, self.ub = S.arr("lb", (nx,)), S.arr("ub", (nx,))
            mk = lambda b: S.wrapfun(lambda m, s, p: S.array((m.shape[0], nx), lambda t, i: S.cell(b, i)))
            xb = [mk(self.lb), mk(self.ub)]
        self.model = types.SimpleNamespace(functions=F, calibration=self.calib, x_bounds=xb,
                                           symbols={g: Names(S, g, q) for g, q in (("exogenous", nm), ("states", ns), ("controls", nx), ("auxiliaries", 0 if na is None else na))})

    def rows(self, G, m, t):
        S, ns, nx = self.S, self.ns, self.nx
        v = lambda n, h: S.array((n,), h)
        M = v(self.nm, lambda i: m(t, i)), v(self.nm, lambda i: m(t + 1, i))
        s = v(ns, lambda i: S.cell(G, t, i)), v(ns, lambda i: S.cell(G, t + 1, i))
        x = v(nx, lambda i: S.cell(G, t, ns + i)), v(nx, lambda i: S.cell(G, t + 1, ns + i))
        return (M[0], s[0], x[0], M[1], self.p), (M[0], s[0], x[0], M[1], s[1], x[1], self.p)

    def residual(self, G, m, start, N, t, i):
        """residual i at date t"""
        S, ns, nx = self.S, self.ns, self.nx
        c = lambda t, i: S.cell(G, t, i)
        if i < ns:
            return S.ite(S.eq(t, 0), S.cell(start, i) - c(0, i), self.g.raw((i,), *self.rows(G, m, S.fmax(t, 1) - 1)[0]) - c(t, i))
        return S.ite(S.eq(t, N - 1), c(N - 1, i) - c(N - 2, i), self.f.raw((i - ns,), *self.rows(G, m, S.fmin(t, N - 2))[1]))

    def jac(self, a, b, G, m, N, t, i, u, j):
        """derivative of residual i (transition or Euler equation) at date t with respect to variable j (state or control) at date u"""
        S, nb = self.S, {"s": self.ns, "x": self.nx}[b]
        one = S.ite(S.eq(i, j), 1.0, 0.0) if a == b else 0.0
        if a == "s":
            D = self.Dg[b].raw((i * nb + j,), *self.rows(G, m, S.fmax(t, 1) - 1)[0])
            return S.ite(S.eq(u, t), -one, S.ite(S.and_(S.lt(0, t), S.eq(u, t - 1)), D, 0))
        r = self.rows(G, m, S.fmin(t, N - 2))[1]
        last = S.ite(S.eq(u, N - 1), one, S.ite(S.eq(u, N - 2), -one, 0))
        return S.ite(S.eq(t, N - 1), last, S.ite(S.eq(u, t), self.Df[b].raw((i * nb + j,), *r), S.ite(S.eq(u, t + 1), self.Df[b.upper()].raw((i * nb + j,), *r), 0)))

    def jacobian(self, G, m, N, t, i, u, j):
        """derivative of residual i at date t with respect to variable j at date u"""
        S, ns, nx = self.S, self.ns, self.nx
        one = 1.0 if i == j else 0.0
        if i < ns:
            D = self.Dg["s"].raw((i * ns + j,), *self.rows(G, m, S.fmax(t, 1) - 1)[0]) if j < ns else self.Dg["x"].raw((i * nx + j - ns,), *self.rows(G, m, S.fmax(t, 1) - 1)[0])
            return S.ite(S.eq(u, t), -one, S.ite(S.and_(S.lt(0, t), S.eq(u, t - 1)), D, 0))
        k = i - ns
        a = self.rows(G, m, S.fmin(t, N - 2))[1]
        now = self.Df["s"].raw((k * ns + j,), *a) if j < ns else self.Df["x"].raw((k * nx + j - ns,), *a)
        nxt = self.Df["S"].raw((k * ns + j,), *a) if j < ns else self.Df["X"].raw((k * nx + j - ns,), *a)
        last = S.ite(S.eq(u, N - 1), one, S.ite(S.eq(u, N - 2), -one, 0))
        return S.ite(S.eq(t, N - 1), last, S.ite(S.eq(u, t), now, S.ite(S.eq(u, t + 1), nxt, 0)))


SZ = ((1, 1, 1), (2, 1, 2), (1, 2, 1))


@contract("C12", "stacked residuals", [Q + "det_residual"], runs=40)
def _(S):
    nm, ns, nx = S.dim("nm", hi=3), S.dim("ns", hi=3), S.dim("nx", hi=3)
    g, f = S.rowfun("g", ns), S.rowfun("f", nx)
    N = S.dim("N", lo=2, hi=6)
    G, m, start, final, p = S.arr("G", (N, ns + nx)), S.arr("m", (N, nm)), S.arr("start", (ns,)), S.arr("final", (nx,)), S.arr("p", (2,))
    fs = [(a, S.frozen(a)) for a in (G, m, start)]
    mo = types.SimpleNamespace(functions={"transition": S.wrapfun(lambda *a, diff=False: g(*a)), "arbitrage": S.wrapfun(lambda *a, diff=False: f(*a))}, calibration={"parameters": p}, symbols={"states": Names(S, "states", ns), "controls": Names(S, "controls", nx)})
    R = S.call(pf.det_residual, mo, G, start, final, m, diff=False)
    S.shape("one residual per date and equation", R, (N, ns + nx))
    M = lambda t: S.array((nm,), lambda i: S.cell(m, t, i))
    s = lambda t: S.array((ns,), lambda i: S.cell(G, t, i))
    x = lambda t: S.array((nx,), lambda i: S.cell(G, t, ns + i))
    S.forall("initial states", (ns,), lambda i: S.eq(S.cell(R, 0, i), S.cell(start, i) - S.cell(G, 0, i)))
    S.forall("states follow the transition", (N - 1, ns), lambda t, i: S.eq(S.cell(R, t + 1, i), g.raw((i,), M(t), s(t), x(t), M(t + 1), p) - S.cell(G, t + 1, i)))
    S.forall("Euler equations", (N - 1, nx), lambda t, i: S.eq(S.cell(R, t, ns + i), f.raw((i,), M(t), s(t), x(t), M(t + 1), s(t + 1), x(t + 1), p)))
    S.forall("controls constant at the end", (nx,), lambda i: S.eq(S.cell(R, N - 1, ns + i), S.cell(G, N - 1, ns + i) - S.cell(G, N - 2, ns + i)))
    for a, fa in fs: S.unchanged("arguments unchanged", a, fa)


@contract("C12", "derivatives of the stacked residuals", [Q + "det_residual"], conc=False)
def _(S):
    nm, ns, nx = S.dim("nm"), S.dim("ns"), S.dim("nx")
    u = Stack(S, nm, ns, nx)
    N = S.dim("N", lo=2, hi=5)
    G, m, start, final = S.arr("G", (N, ns + nx)), S.arr("m", (N, nm)), S.arr("start", (ns,)), S.arr("final", (nx,))
    R, J = S.call(pf.det_residual, u.model, G, start, final, m)
    mm = lambda t, i: S.cell(m, t, i)
    n = ns + nx
    S.shape("one residual per date and equation", R, (N * n,))
    S.shape("jacobian", J, (N * n, N * n))
    J4 = S.method(J, "reshape", (N, n, N, n))
    for a, la, oa in (("s", ns, 0), ("x", nx, ns)):
        for b, lb, ob in (("s", ns, 0), ("x", nx, ns)):
            S.forall("derivatives of the residuals " + a + b, (N, la, N, lb), lambda t, i, q, j: S.eq(S.cell(J4, t, oa + i, q, ob + j), u.jac(a, b, G, mm, N, t, i, q, j)))


@contract("C12", "stacked residuals and their derivatives", [Q + "det_residual"], bounded="one or two variables of each kind (any number of dates, any functions)", runs=12,
          opts={"cases": [{"sz": z, "diff": d} for z in SZ for d in (0, 1)]})
def _(S):
    nm, ns, nx = S.case["sz"]
    u = Stack(S, nm, ns, nx)
    N = S.dim("N", lo=2, hi=5)
    G, m, start, final = S.arr("G", (N, ns + nx)), S.arr("m", (N, nm)), S.arr("start", (ns,)), S.arr("final", (nx,))
    fG = S.frozen(G)
    R = S.call(pf.det_residual, u.model, G, start, final, m, **({} if S.case["diff"] else {"diff": False}))
    J = None
    if S.case["diff"]: R, J = R
    mm = lambda t, i: S.cell(m, t, i)
    n = ns + nx
    if J is None:
        S.shape("one residual per date and equation", R, (N, n))
        cell = lambda t, i: S.cell(R, t, i)
    else:
        S.shape("one residual per date and equation", R, (N * n,))
        cell = lambda t, i: S.cell(R, t * n + i)
        if not S.symbolic: J = J.toarray()
    for i in range(n):
        S.forall("residuals", (N,), lambda t: S.eq(cell(t, i), u.residual(G, mm, start, N, t, i)))
    S.unchanged("guess unchanged", G, fG)
    if J is not None:
        S.shape("jacobian", J, (N * n, N * n))
        for i in range(n):
            for j in range(n):
                S.forall("derivatives of the residuals", (N, N), lambda t, q: S.eq(S.cell(J, t * n + i, q * n + j), u.jacobian(G, mm, N, t, i, q, j)))


st = module("dolo.algos.steady_state")
ncp = module("dolo.numeric.optimize.ncpsolve")
nw = module("dolo.numeric.optimize.newton")
lm = module("dolo.numeric.extern.lmmcp")


def solve_cases(names):
    out = []
    for z in (0, 1):
        for b in ("bounds", "none", "ignored"):
            for e in ("path", "dict", "state", "shock", "nothing"):
                for q in ("plain", "keep", "guess", "lmmcp", "s1"):
                    if q == "lmmcp" and b != "bounds" or q == "guess" and e not in ("path", "state") or q == "s1" and e != "state": continue
                    if z and b == "ignored" or (e == "dict") != names: continue
                    out.append(dict(sz=((1, 1, 1, None), (2, 1, 2, 1))[z] if names else z, bounds=b, exo=e, opt=q))
    return out


A = {"assumes": ["ncpsolve, newton and lmmcp return a value (solvers are specified by C06, C07)", "find_steady_state (specified by C20)", "pandas.DataFrame keeps values and labels"]}


@contract("C12", "perfect foresight simulation", [Q + "deterministic_solve", Q + "_shocks_to_epsilons"], conc=False, opts={"cases": solve_cases(False), **A})
def _(S):
    simulation(S, S.dim("nm"), S.dim("ns"), S.dim("nx"), S.dim("na") if S.case["sz"] else None)


@contract("C12", "perfect foresight simulation, shocks given by name", [Q + "deterministic_solve", Q + "_shocks_to_epsilons"], bounded="one or two variables of each kind (any horizon of three dates or more, any functions)", conc=False, opts={"cases": solve_cases(True), **A})
def _(S):
    simulation(S, *S.case["sz"])


def simulation(S, nm, ns, nx, na):
    c = S.case
    n = ns + nx
    u = Stack(S, nm, ns, nx, na, c["bounds"] != "none")
    T = S.dim("T", lo=3)
    N = T + 1
    seen = {}
    sol = S.arr("sol", (N * n,))
    ss = {"states": S.arr("ss_s", (ns,)), "controls": S.arr("ss_x", (nx,))}

    def steady(model, m=None, **k):
        S.check("model", model is u.model)
        seen["steady"] = m
        return ss

    V = S.arr("V", (N * n,))        # any point at which the solver evaluates the system

    def ncpsolve(f, a, b, x, tol=1e-8, maxit=100, infos=False, verbose=False, jactype="serial"):
        del calls[:]
        seen.update(solver="ncpsolve", out=S.call(f, V), a=a, b=b, x=x, opts=(tol, maxit, verbose, jactype))
        return [sol, 3]

    def newton(f, x, verbose=False, tol=1e-6, maxit=5, jactype="serial"):
        del calls[:]
        seen.update(solver="newton", out=S.call(f, V), x=x, opts=(tol, maxit, verbose, jactype))
        return [sol, 3]

    def lmmcp(fun, dfun, x0, lb, ub, verbose=True, options={}):
        del calls[:]
        seen.update(solver="lmmcp", out=(S.call(fun, V), S.call(dfun, V)), x=x0, a=lb, b=ub, opts=(None, None, verbose, None))
        return sol
    res, jac, calls = S.arr("res", (N * n,)), S.arr("jac", (N * n, N * n)), []

    def det_residual(mo, guess, start, final, shocks, diff=True, jactype="sparse"):
        S.check("model", mo is u.model and diff is True and jactype == "sparse")
        calls.append((guess, start, shocks))
        return [res, jac]
    S.override(pf.det_residual, det_residual)
    S.override(st.find_steady_state, steady)
    S.override(pf.ncpsolve, ncpsolve)
    S.override(nw.newton, newton)
    S.override(lm.lmmcp, lmmcp)
    box = {}

    def frame(data, columns=None, index=None):
        box.update(columns=columns, index=index)
        return data
    S.override(pandas.DataFrame, frame)
    kw = dict(T=T, verbose=False, tol=1e-7, maxit=20)
    m0 = u.calib["exogenous"]
    start = u.calib["states"]
    if c["exo"] in ("path", "dict"):
        L = S.dim("L")
        a = S.arr("a", (L, nm))
        kw["exogenous"] = a if c["exo"] == "path" else {"m%d" % i: S.array((L,), lambda t: S.cell(a, t, i)) for i in range(nm)}
        m = lambda t, i: S.cell(a, S.fmin(t, L - 1), i)
        start = ss["states"]
        if c["exo"] == "dict" and c["opt"] == "plain":
            start = S.arr("s", (ns,))
            kw["s0"] = start
    else:
        if c["exo"] == "state":
            start = S.arr("s", (ns,))
            kw["s1" if c["opt"] == "s1" else "s0"] = start
        mm = S.arr("m", (nm,)) if c["exo"] == "shock" else m0
        if c["exo"] == "shock": kw["m0"] = mm
        m = lambda t, i: S.ite(S.eq(t, 0), S.cell(mm, i), S.cell(m0, i))
    if c["bounds"] == "ignored": kw["ignore_constraints"] = True
    if c["opt"] == "keep": kw["keep_steady_state"] = True
    if c["opt"] == "lmmcp": kw["solver"] = "lmmcp"
    guess = None
    if c["opt"] == "guess":
        extra = S.case["exo"] == "path"           # a former solution, with or without date -1
        guess = S.arr("guess", (N + (1 if extra else 0), n + 2))
        off = 1 if extra else 0
        kw["initial_guess"] = guess
    R = S.call(pf.deterministic_solve, u.model, **kw)
    # the system solved
    con = c["bounds"] == "bounds"
    S.check("solver", seen["solver"] == ("lmmcp" if c["opt"] == "lmmcp" else "ncpsolve" if con else "newton"))
    tol, maxit, verbose, jt = seen["opts"]
    S.check("options of the solver", verbose is False and (c["opt"] == "lmmcp" or (tol == 1e-7 and maxit == 20 and jt == "sparse")))
    r, J = seen["out"]
    S.forall("residuals of the stacked system", (N * n,), lambda i: S.eq(S.cell(r, i), S.cell(res, i)))
    S.forall("derivatives of the stacked system", (N * n, N * n), lambda i, j: S.eq(S.cell(J, i, j), S.cell(jac, i, j)))
    S.check("stacked system evaluated", len(calls) > 0)
    for G, s_, e_ in calls:
        S.shape("values of the stacked system", G, (N, n))
        S.forall("values of the stacked system", (N, n), lambda t, i: S.eq(S.cell(G, t, i), S.cell(V, t * n + i)))
        S.forall("initial state of the stacked system", (ns,), lambda i: S.eq(S.cell(s_, i), S.cell(start, i)))
        S.forall("exogenous values of the stacked system", (N, nm), lambda t, i: S.eq(S.cell(e_, t, i), m(t, i)))
    if con:
            S.forall("bounds of the controls", (N, nx), lambda t, i: S.and_(S.eq(S.cell(seen["a"], t * n + ns + i), S.cell(u.lb, i)), S.eq(S.cell(seen["b"], t * n + ns + i), S.cell(u.ub, i))))
    S.shape("starting point", seen["x"], (N * n,))
    if guess is not None:
        S.forall("starting point", (N, n), lambda t, i: S.eq(S.cell(seen["x"], t * n + i), S.cell(guess, t + off, i)))
    if c["exo"] in ("path", "dict"):
        S.forall("initial steady state", (nm,), lambda i: S.eq(S.cell(seen["steady"], i), m(0, i)))
    # the table
    y, k = u.model.symbols, (0 if na is None else na)
    same_names(S, "names of the columns", box["columns"], y["states"], y["controls"], *([] if na is None else [y["auxiliaries"]]), y["exogenous"])
    o = 1 if c["opt"] == "keep" and c["exo"] in ("path", "dict") else 0
    S.shape("one row per date", R, (N + o, n + k + nm))
    S.forall("solution", (N, n), lambda t, i: S.eq(S.cell(R, t + o, i), S.cell(sol, t * n + i)))
    S.forall("exogenous values", (N, nm), lambda t, i: S.eq(S.cell(R, t + o, n + k + i), m(t, i)))
    row = lambda t, a, l: S.array((l,), lambda i: S.cell(R, t, a + i))
    if na is not None: S.forall("auxiliary variables", (N + o, na), lambda t, i: S.eq(S.cell(R, t, n + i), u.aux.raw((i,), row(t, n + na, nm), row(t, 0, ns), row(t, ns, nx), u.p)))
    if o:
        S.forall("initial steady state: states", (ns,), lambda i: S.eq(S.cell(R, 0, i), S.cell(start, i)))
        S.forall("initial steady state: controls", (nx,), lambda i: S.eq(S.cell(R, 0, ns + i), S.cell(ss["controls"], i)))
        S.forall("initial exogenous values", (nm,), lambda i: S.eq(S.cell(R, 0, n + k + i), m(0, i)))
    S.check("dates", S.and_(S.eq(box["index"].lo if hasattr(box["index"], "lo") else box["index"][0], -o), True))


def path(S, mo, sim, T, m, s0, tol=2e-5, con=True):
    """a table is a perfect foresight path"""
    v = lambda g: sim[mo.symbols[g]].values
    M, s, x = v("exogenous"), v("states"), v("controls")
    g, f, p = mo.functions["transition"], mo.functions["arbitrage"], mo.calibration["parameters"]
    S.check("dates", list(sim.index) == list(range(T + 1)))
    S.check("names of the columns", list(sim.columns) == mo.symbols["states"] + mo.symbols["controls"] + mo.symbols["auxiliaries"] + mo.symbols["exogenous"])
    S.check("exogenous values", np.allclose(M[:, 0], m))
    S.check("initial state", np.allclose(s[0], s0, atol=1e-7))
    S.check("states follow the transition", np.abs(g(M[:-1], s[:-1], x[:-1], M[1:], p) - s[1:]).max() < tol)
    r = f(M[:-1], s[:-1], x[:-1], M[1:], s[1:], x[1:], p)
    if con and mo.x_bounds:
        lb, ub = [b(M[:-1], s[:-1], p) for b in mo.x_bounds]
        y = x[:-1]
        S.check("controls within bounds", bool((y >= lb - tol).all() and (y <= ub + tol).all()))
        # the residuals are positive at a lower bound, negative at an upper one
        ok = (np.abs(r) < tol) | ((np.abs(y - lb) < tol) & (r >= -tol)) | ((np.abs(y - ub) < tol) & (r <= tol))
        S.check("optimality conditions", bool(ok.all()))
    else:
        S.check("optimality conditions", np.abs(r).max() < tol)
    S.check("last controls", np.abs(x[-1] - x[-2]).max() < tol)
    S.check("auxiliary variables", np.allclose(v("auxiliaries"), mo.functions["auxiliary"](M, s, x, p), atol=1e-8))


BOUND = RBC.replace("-inf <= i[t] <= inf", "-inf <= i[t] <= 0.26")


@contract("C12", "perfect foresight in a growth model", [Q + "deterministic_solve"], sym=False, bounded="a growth model", runs=4,
          opts={"cases": [{"con": b, "how": h} for b in ("free", "bound", "ignored") for h in ("array", "dict", "table", "state", "keep", "again", "lmmcp") if not (h == "lmmcp" and b == "ignored")]})
def _(S):
    con, how = S.case["con"], S.case["how"]
    mo = model(BOUND if con == "bound" else RBC)
    T = int(S.rng.randint(12, 25))
    c = mo.calibration
    L = int(S.rng.randint(2, T + 8))
    e = np.round(S.rng.normal(size=L) * 0.01, 4)
    e[0] = 0.0 if S.seed % 2 else e[0]
    e[T // 2:] = e[-1]
    kw = {"verbose": False, "T": T, "tol": 1e-9}
    if con == "ignored": kw["ignore_constraints"] = True
    if how == "lmmcp": kw.update(solver="lmmcp"); kw.pop("tol")
    full = np.concatenate([e, np.repeat(e[-1:], T + 1)])[:T + 1]
    if how == "state":
        s0 = c["states"] * (1 + 0.1 * S.rng.uniform(-1, 1, size=2)) + np.array([0.01, 0])
        full = np.zeros(T + 1)
        sim = S.call(pf.deterministic_solve, mo, s0=s0, **kw)
    else:
        s0 = module("dolo.algos.steady_state").find_steady_state(mo, m=full[:1])["states"]
        arg = {"dict": {"e_z": list(e)}, "table": pandas.DataFrame({"other": e, "e_z": e})}.get(how, e[:, None] if S.seed % 3 else list(e))
        if how == "keep": kw["keep_steady_state"] = True
        try:
            sim = S.call(pf.deterministic_solve, mo, exogenous=arg, **kw)
        except Exception as ex:
            S.require(how != "lmmcp" or "No convergence" not in str(ex))
            raise
    S.require(not any("converge" in str(w.message) for w in S.warnings))
    if how == "keep":
        S.check("dates", list(sim.index) == list(range(-1, T + 1)))
        r = sim.iloc[0]
        ss = module("dolo.algos.steady_state").find_steady_state(mo, m=full[:1])
        S.check("initial steady state", np.allclose(r[["z", "k", "n", "i"]].values.astype(float), np.concatenate([ss["states"], ss["controls"]]), atol=1e-6))
        sim = sim.iloc[1:]
    path(S, mo, sim, T, full, s0, con=con != "ignored", tol=1e-4 if how == "lmmcp" else 2e-5)
    if how == "again":
        kw["maxit"] = 1
        sim2 = S.call(pf.deterministic_solve, mo, exogenous=arg, initial_guess=sim, **kw)
        S.check("solution found again", np.allclose(sim2.values, sim.values, atol=1e-6))
