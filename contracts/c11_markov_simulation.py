"""C11: simulation of discrete and independent processes."""
import random
import types
import numpy as np
from pyvc.spec import contract, module
from contracts.c02_markov_products import draw_chain

proc = module("dolo.numeric.processes")
dist = module("dolo.numeric.distribution")
P = "dolo.numeric.processes."


def chosen(S, x, n, cum):
    """number of cumulated probabilities (the last one aside) not above the draw: the first state whose
    cumulated probability exceeds it when they are sorted"""
    return S.sum(0, n - 1, lambda j: S.ite(S.le(cum(j), x), 1, 0))


@contract("C11", "state designated by a draw", [P + "choice"], bounded="up to 5 states (any probabilities); up to 12 concretely", paths=400,
          opts={"cases": [{"n": i} for i in range(1, 6)] + [{"n": i, "_conc_only": 1} for i in (7, 12)]})
def _(S):
    n = S.case["n"]
    x = S.real("x", lo=0, hi=1)
    p = S.arr("p", (n,), lo=0.0, hi=1.0)
    s = sum(S.cell(p, i) for i in range(n)) if S.symbolic else max(float(np.sum(p)), 1e-9)
    if S.symbolic:
        c = S.array((n,), lambda i: S.sum(0, i + 1, lambda j: S.cell(p, j)))
        S.require(S.le(s, 1))
    else:
        p = p / s
        if S.seed % 4 == 0: p[S.seed % n] = 0
        c = np.cumsum(p)
        if S.seed % 5 == 0: x = float(min(c[-1], 1 - 2**-53))
        if S.seed % 5 == 1: x = float(c[S.seed % n])
        if S.seed % 5 == 2: x = 0.0
    i = S.call(proc.choice, x, n, c)
    S.check("the designated state is a state", S.and_(S.le(0, i), S.le(i, n - 1)))
    S.check("first state whose cumulated probability exceeds the draw", S.eq(i, chosen(S, x, n, lambda j: S.cell(c, j))))


def setup(S, N, T):
    """draws of the generator: one per path and date"""
    if S.symbolic:
        u = S.arr("u", (N, T), lo=0, hi=1)

        def rnd(size=None):
            S.check("one draw per path and date", S.and_(S.eq(size[0], N), S.eq(size[1], T)))
            return u
        S.override(np.random.random, rnd)
        S.override(proc.choice, lambda x, n, c: chosen(S, x, n, lambda j: S.cell(c, j)))
        return u
    numba_seed(S.seed % 2**31)


_sd = []


def numba_seed(k):
    if not _sd:
        from numba import njit

        @njit
        def f(k):
            random.seed(k)
        _sd.append(f)
    _sd[0](k)
    random.seed(k)
    np.random.seed(k)


@contract("C11", "paths of state numbers", [P + "simulate_markov_chain", P + "simulate_mc_indices"], runs=20,
          opts={"noxcheck": True, "cases": [{"i0": "none"}, {"i0": "scalar"}, {"i0": "array"}], "assumes": ["numpy.random.random returns independent uniform draws"]})
def _(S):
    n, d, N, T = S.dim("n", hi=4), S.dim("d", hi=3), S.dim("N", hi=4), S.dim("T", lo=1, hi=5)
    V, Q = S.arr("V", (n, d)), S.stochastic("Q", n)
    if not S.symbolic and S.seed % 2:
        Q = np.eye(n)[S.rng.randint(0, n, n)]
    fq, fv = S.frozen(Q), S.frozen(V)
    u = setup(S, N, T)
    k = S.case["i0"]
    i0 = None if k == "none" else (S.index("i0", n) if k == "scalar" else S.iarr("i0", (N,), lo=0, hi=n))
    first = (lambda j: 0) if k == "none" else ((lambda j: i0) if k == "scalar" else (lambda j: S.cell(i0, j)))
    I = S.call(proc.simulate_markov_chain, V, Q, N, T, i0=i0)
    S.shape("paths", I, (T, N))
    S.forall("initial state", (N,), lambda j: S.eq(S.cell(I, 0, j), first(j)))
    if S.symbolic:
        S.forall("transition", (T - 1, N), lambda t, j: S.eq(S.cell(I, t + 1, j), S.sum(0, n - 1, lambda l: S.ite(S.le(S.sum(0, l + 1, lambda q: S.cell(Q, S.cell(I, t, j), q)), S.cell(u, j, t)), 1, 0))))
    else:
        S.check("state numbers", bool(((I >= 0) & (I < n)).all()))
        S.forall("possible transitions only", (T - 1, N), lambda t, j: Q[I[t, j], I[t + 1, j]] > 0)
    S.unchanged("transitions unchanged", Q, fq)
    S.unchanged("values unchanged", V, fv)


@contract("C11", "frequencies of transitions", [P + "simulate_markov_chain", P + "MarkovChain.simulate"], sym=False, bounded="2000 paths of 6 periods of random chains", runs=12)
def _(S):
    n, N, T = S.dim("n", hi=4), 2000, 6
    Q = S.stochastic("Q", n)
    setup(S, N, T)
    i0 = int(S.rng.randint(0, n))
    mc = S.call(proc.MarkovChain, Q, np.arange(n)[:, None] * 1.0)
    I = S.method(mc, "simulate", N, T, i0=i0)[:, :, 0].astype(int)
    pr = np.eye(n)[i0]
    for t in range(T):
        S.forall("distribution at each date", (n,), lambda j: abs((I[t] == j).mean() - pr[j]) <= 6 * (pr[j] * (1 - pr[j]) / N + 1e-9) ** 0.5)
        pr = pr @ Q
    a, b = I[:-1].ravel(), I[1:].ravel()
    for i in range(n):
        m = (a == i).sum()
        if m > 50:
            S.forall("frequency of transitions", (n,), lambda j: abs(((a == i) & (b == j)).sum() / m - Q[i, j]) <= 6 * (Q[i, j] * (1 - Q[i, j]) / m + 1e-9) ** 0.5)
    # paths are independent of each other and transitions of the past
    if T > 2 and n > 1:
        z = I[1:] - I[1:].mean(axis=1, keepdims=True)
        v = (z * z).mean()
        S.check("paths are independent", abs((z[:, 1:] * z[:, :-1]).mean()) <= 8 * v / (N * (T - 1)) ** 0.5 * 3 + 1e-9)


@contract("C11", "values along a path", [P + "simulate_markov_chain"], sym=False, bounded="random chains", runs=20)
def _(S):
    n, d, N, T = S.dim("n", hi=4), S.dim("d", hi=3), S.dim("N", hi=4), S.dim("T", lo=1, hi=5)
    V, Q = S.arr("V", (n, d)), S.stochastic("Q", n)
    setup(S, N, T)
    R = S.call(proc.simulate_markov_chain, V, Q, N, T, i0=int(S.rng.randint(0, n)), return_values=True)
    S.check("numbers and values", len(R) == 2)
    S.shape("values", R[1], (T, N, d))
    S.forall("values", (T, N, d), lambda t, j, q: R[1][t, j, q] == V[R[0][t, j], q])


@contract("C11", "simulated markov chain", [P + "MarkovChain.simulate", P + "simulate_markov_chain", P + "simulate_mc_indices"], runs=20,
          opts={"noxcheck": True, "cases": [{"stoch": 0, "i0": 1}, {"stoch": 0, "i0": 0}, {"stoch": 1, "i0": 1}, {"stoch": 1, "i0": 0}], "assumes": ["numpy.random.random returns independent uniform draws"]})
def _(S):
    n, d, N, T = S.dim("n", hi=4), S.dim("d", hi=3), S.dim("N", hi=4), S.dim("T", lo=1, hi=5)
    V, Q = S.arr("V", (n, d)), S.stochastic("Q", n)
    fv, fq = S.frozen(V), S.frozen(Q)
    setup(S, N, T)
    sel = S.iarr("sel", (T, N), lo=0, hi=n)
    if S.symbolic:
        def paths(V_, Q_, N_, T_, i0=None, return_values=False):
            S.check("numbers of paths and dates", S.and_(S.eq(N_, N), S.eq(T_, T)))
            S.forall("same transitions", (n, n), lambda i, j: S.eq(S.cell(Q_, i, j), S.cell(Q, i, j)))
            S.check("same initial state", S.eq(i0, S.cell(sel, 0, 0)) if i0 is not None else S.eq(0, S.cell(sel, 0, 0)))
            return sel
        S.override(proc.simulate_markov_chain, paths)
    mc = S.call(proc.MarkovChain, Q, V)
    i0 = S.index("i0", n) if S.case["i0"] else 0
    kw = {"i0": i0} if S.case["i0"] else {}
    if S.symbolic and S.case["stoch"]:
        S.fact("sel", lambda a: [S.implies(S.eq(a[0], 0), S.eq(S.cell(sel, a[0], a[1]), i0))])
    x = S.method(mc, "simulate", N, T, stochastic=bool(S.case["stoch"]), **kw)
    S.shape("paths", x, (T, N, d))
    S.forall("initial value", (N, d), lambda j, q: S.eq(S.cell(x, 0, j, q), S.cell(V, i0, q)))
    if not S.case["stoch"]:
        S.forall("the chain stays where it starts when it is not stochastic", (T, N, d), lambda t, j, q: S.eq(S.cell(x, t, j, q), S.cell(V, i0, q)))
    elif S.symbolic:
        S.forall("values at the simulated states", (T, N, d), lambda t, j, q: S.eq(S.cell(x, t, j, q), S.cell(V, S.cell(sel, t, j), q)))
    else:
        S.forall("values of the chain", (T, N), lambda t, j: bool((V == x[t, j]).all(axis=1).any()))
    S.unchanged("values unchanged", S.attr(mc, "values"), fv)
    S.unchanged("transitions unchanged", S.attr(mc, "transitions"), fq)


@contract("C11", "independent and constant processes", [P + "IIDProcess.simulate", P + "IIDProcess.response", P + "ConstantProcess.draw"], runs=20, bounded="one to three variables (any values, numbers of paths and dates)", opts={"cases": [{"d": 1}, {"d": 2}, {"d": 3}], "assumes": ["xarray.DataArray holds the array it is given"]})
def _(S):
    d, N, T = S.case["d"], S.dim("N", hi=4), S.dim("T", lo=1, hi=5)
    mu, e = S.arr("mu", (d,)), S.arr("e", (d,))
    S.override(proc.DataArray, lambda data, dims=None, coords=None: data)
    c = S.call(proc.ConstantProcess, μ=mu)
    x = S.method(c, "simulate", N, T)
    S.shape("paths", x, (T, N, d))
    S.forall("a constant process is constant", (T, N, d), lambda t, n, k: S.eq(S.cell(x, t, n, k), S.cell(mu, k)))
    r = S.method(c, "response", T, e)
    S.shape("response", r, (T + 1, d))
    S.forall("the impulse lasts one period", (T + 1, d), lambda t, k: S.eq(S.cell(r, t, k), S.ite(S.eq(t, 1), S.cell(e, k), 0)))


@contract("C11", "draws of a normal process", [P + "IIDProcess.simulate", "dolo.numeric.distribution.Normal.draw", "dolo.numeric.distribution.UNormal.draw"], sym=False, bounded="4000 draws of random normal processes", runs=10)
def _(S):
    d, N, T = S.dim("d", hi=3), 1000, 4
    numba_seed(S.seed % 2**31)
    A = S.rng.normal(size=(d, d))
    Sig, mu = A @ A.T + 0.1 * np.eye(d), S.rng.normal(size=d)
    if S.seed % 2:
        p = dist.Normal(Σ=Sig, Μ=mu)
    else:
        d, Sig, mu = 1, Sig[:1, :1], mu[:1]
        p = dist.UNormal(σ=float(Sig[0, 0]) ** 0.5, μ=float(mu[0]))
    x = np.asarray(S.method(p, "simulate", N, T))
    S.shape("paths", x, (T, N, d))
    y = (x - mu).reshape((-1, d))
    sd = np.diag(Sig) ** 0.5
    M = len(y)
    S.forall("mean", (d,), lambda k: abs(y[:, k].mean()) <= 7 * sd[k] / M ** 0.5)
    S.forall("covariance", (d, d), lambda k, l: abs((y[:, k] * y[:, l]).mean() - Sig[k, l]) <= 10 * sd[k] * sd[l] / M ** 0.5)
    z = y.reshape((T, N, d))
    S.forall("independent over time and paths", (d,), lambda k: abs((z[1:, :, k] * z[:-1, :, k]).mean()) <= 8 * Sig[k, k] / M ** 0.5 and abs((z[:, 1:, k] * z[:, :-1, k]).mean()) <= 8 * Sig[k, k] / M ** 0.5)


@contract("C11", "products of processes", [P + "ProductProcess.simulate"], sym=False, bounded="random products of a chain, a constant and a normal process", runs=12)
def _(S):
    n, N, T = S.dim("n", hi=4), 300, 5
    numba_seed(S.seed % 2**31)
    V, Q = S.arr("V", (n, 2)), S.stochastic("Q", n)
    mc, c, u = proc.MarkovChain(Q, V), proc.ConstantProcess(μ=[0.7]), dist.UNormal(σ=0.2, μ=3.0)
    o = [[mc, c, u], [c, mc, u], [u, c, mc]][S.seed % 3]
    x = np.asarray(S.method(proc.ProductProcess(*o), "simulate", N, T))
    z = np.asarray(S.method(proc.ProductProcess(mc, c), "simulate", 3, T, stochastic=False))
    S.check("not stochastic: the chain stays at its first state, next to the constant", z.shape == (T, 3, 3) and bool((z == np.append(V[0], 0.7)).all()))
    S.shape("paths", x, (T, N, 4))
    i = 0
    for q in o:
        y = x[:, :, i:i + q.d]
        i += q.d
        if q is mc:
            S.forall("the chain takes its own values", (T,), lambda t: all((V == y[t, j]).all(axis=1).any() for j in range(N)))
            S.check("the chain starts at its first state", bool((y[0] == V[0]).all()))
        elif q is c:
            S.check("the constant is constant", bool((y == 0.7).all()))
        else:
            S.check("the shock has its mean", abs(y.mean() - 3.0) < 7 * 0.2 / (N * T) ** 0.5)


@contract("C11", "products of any processes", [P + "ProductProcess.simulate", P + "ProductProcess.__init__"], runs=12, opts={"cases": [{"n": n, "stoch": b} for n in (1, 2, 3) for b in (0, 1)]}, bounded="one to three factors (any paths)")
def _(S):
    N, T = S.dim("N", hi=4), S.dim("T", lo=1, hi=5)
    ds = [S.dim("d%d" % k, hi=3) for k in range(S.case["n"])]
    xs = [S.arr("x%d" % k, (T, N, d)) for k, d in enumerate(ds)]
    seen = []
    ps = [types.SimpleNamespace(d=d, simulate=S.wrapfun(lambda n, t, m0=None, stochastic=True, x=x: (seen.append((n, t, m0, stochastic)), x)[1])) for d, x in zip(ds, xs)]
    pp = S.call(proc.ProductProcess, *ps)
    S.check("number of variables", S.eq(S.attr(pp, "d"), sum(ds)))
    b = bool(S.case["stoch"])
    R = S.method(pp, "simulate", N, T, **({} if b else {"stochastic": False}))
    S.shape("paths", R, (T, N, sum(ds)))
    S.check("each factor is simulated", len(seen) == len(ds))
    for n, t, m0, st in seen:
        S.check("numbers of paths and dates", S.and_(S.eq(n, N), S.eq(t, T)))
        S.check("options", m0 is None and st is b)
    off = 0
    for k, (d, x) in enumerate(zip(ds, xs)):
        S.forall("factor %d" % k, (T, N, d), lambda t, n, j: S.eq(S.cell(R, t, n, off + j), S.cell(x, t, n, j)))
        off = off + d
