"""C09: transition matrices and stationary distributions over the grid."""
import types
import numpy as np
import xarray
from pyvc.spec import contract, module
from contracts.models_lib import model, RBC
from contracts.c01_grids import assume_mlinspace, prodn, flat

er = module("dolo.algos.ergodic")
mod = module("dolo.compiler.model")
drm = module("dolo.numeric.decision_rule")
gr = module("dolo.numeric.grids")
proc = module("dolo.numeric.processes")
dist = module("dolo.numeric.distribution")
Q = "dolo.algos.ergodic."


def clip(S, x): return S.fmin(S.fmax(x, 0), 1)


def hat(S, x, j, n):
    """weight of node j among n equally spaced nodes of [0,1] at x, moved to [0,1]"""
    u = clip(S, x) * (n - 1)
    d = S.abs(u - j)
    return S.fmax(1 - d, 0)


def near(S, x, j, n):
    """the same weight, through the number of the node below (equality proved in "weights of neighbouring nodes")"""
    u = clip(S, x) * (n - 1)
    q = S.fmin(S.floor(u), n - 2)
    return S.ite(S.eq(j, q), 1 - (u - q), S.ite(S.eq(j, q + 1), u - q, 0))


@contract("C09", "weights of neighbouring nodes", [], runs=40, opts={"lemma": True})
def _(S):
    n = S.dim("n", lo=2, hi=7)
    x = S.real("x")
    j = S.index("j", n)
    S.check("two expressions of the weights", S.eq(hat(S, x, j, n), near(S, x, j, n)))


@contract("C09", "distribution of a point over neighbouring nodes", [Q + "trembling_hand"], bounded="one axis (any number of nodes and points)", runs=40)
def _(S):
    N, n = S.dim("N"), S.dim("n", lo=2, hi=7)
    A, x, w = S.arr("A", (N, n)), S.arr("x", (N, 1)), S.real("w")
    if not S.symbolic:
        x = S.rng.uniform(-0.5, 1.5, size=(N, 1))
        if S.seed % 2: x = S.rng.randint(-1, n + 1, size=(N, 1)) / (n - 1)
    f = S.frozen(A)
    at = (lambda i, j: f((i, j))) if S.symbolic else (lambda i, j: f[i, j])
    fx = S.frozen(x)
    S.call(er.trembling_hand, A, x, w)
    S.forall("weights of the neighbours", (N, n), lambda i, j: S.eq(S.cell(A, i, j), at(i, j) + w * hat(S, S.cell(x, i, 0), j, n)))
    S.forall("total weight", (N,), lambda i: S.eq(S.sum(0, n, lambda j: S.cell(A, i, j) - at(i, j)), w))
    S.unchanged("points unchanged", x, fx)


@contract("C09", "distribution of a point over neighbouring nodes of a plane", [Q + "trembling_hand"], bounded="two axes (any numbers of nodes and points)", runs=40, timeout=60000)
def _(S):
    N, n0, n1 = S.dim("N"), S.dim("n0", lo=2, hi=6), S.dim("n1", lo=2, hi=6)
    A, x, w = S.arr("A", (N, n0, n1)), S.arr("x", (N, 2)), S.real("w")
    if not S.symbolic:
        x = S.rng.uniform(-0.5, 1.5, size=(N, 2))
        if S.seed % 2: x = np.stack([S.rng.randint(-1, n0 + 1, size=N) / (n0 - 1), S.rng.randint(-1, n1 + 1, size=N) / (n1 - 1)], axis=1)
    f = S.frozen(A)
    at = (lambda *i: f(i)) if S.symbolic else (lambda *i: f[i])
    fx = S.frozen(x)
    S.call(er.trembling_hand, A, x, w)
    S.forall("weights of the neighbours", (N, n0, n1), lambda i, j, k: S.eq(S.cell(A, i, j, k), at(i, j, k) + w * near(S, S.cell(x, i, 0), j, n0) * near(S, S.cell(x, i, 1), k, n1)))
    S.forall("total weight", (N,), lambda i: S.eq(S.sum(0, n0, lambda j: S.sum(0, n1, lambda k: S.cell(A, i, j, k) - at(i, j, k))), w))
    S.unchanged("points unchanged", x, fx)


class FModel(mod.Model):
    """a model of which only the transition, the symbols and the calibration are known"""
    functions = symbols = calibration = exogenous = None

    def __init__(self, **k): self.__dict__.update(k)


class FRule(drm.DecisionRule):
    _model_ = True

    def __init__(self, f, **k):
        self.f = f
        self.__dict__.update(k)

    def __call__(self, *a): return self.f(*a)


def assume_trembling_hand(S):
    """callers are verified against the contract proved above"""
    def model(A, x, w):
        f = S.frozen(A)
        g = S.frozen(x)
        k = len(A.shp) - 1
        wt = lambda ix: near_all(S, [g((ix[0], S.num(j))) for j in range(k)], ix[1:], A.shp[1:])
        S.check("points and rows", S.eq(A.shp[0], x.shp[0]))
        A[...] = S.array(A.shp, lambda *ix: f(ix) + w * wt(ix))
    S.override(er.trembling_hand, model)


def near_all(S, x, j, n):
    """product of the weights; callers are verified for any function standing for near"""
    r = 1
    f = S.fun("near", 3) if S.symbolic else (lambda *a: near(S, *a))
    for a, b, c in zip(x, j, n): r = r * f(a, b, c)
    return r


class Setup:
    def __init__(self, S, d, nm=1, nx=1):
        self.S, self.d = S, d
        assume_mlinspace(S)
        assume_trembling_hand(S) if S.symbolic else None
        self.n = n = [S.dim("n%d" % k, lo=2, hi=4) for k in range(d)]
        self.lo = [S.real("a%d" % k) for k in range(d)]
        w = [S.real("w%d" % k, pos=True) for k in range(d)]
        if not S.symbolic: w = [x + 0.1 for x in w]
        self.hi = [x + y for x, y in zip(self.lo, w)]
        self.endo = S.call(gr.UniformCartesianGrid, self.lo, self.hi, n)
        self.N = prodn(n)
        self.g, self.h, self.p = S.rowfun("g", d), S.rowfun("h", nx), S.arr("p", (2,))
        self.m0 = S.arr("m0", (nm,))
        self.nm, self.nx = nm, nx
        self.model = FModel(functions={"transition": self.g}, symbols={"states": ["s%d" % k for k in range(d)], "exogenous": ["m%d" % k for k in range(nm)]},
                            calibration={"parameters": self.p, "exogenous": self.m0})

    def node(self, i):
        S, ix = self.S, []
        for n in reversed(self.n):
            ix.append(S.mod(i, n))
            i = S.idiv(i, n)
        ix = ix[::-1]
        return S.array((self.d,), lambda k: self.pick(k, [self.lo[k] + (self.hi[k] - self.lo[k]) * S.quot(ix[k], self.n[k] - 1) for k in range(self.d)]))

    def pick(self, k, v):
        r = v[-1]
        for j in range(len(v) - 2, -1, -1): r = self.S.ite(self.S.eq(k, j), v[j], r)
        return r

    def weight(self, m, n, x, M, j):
        """weight of the node j (multi-index) for the successor of node n"""
        S = self.S
        s = self.node(n)
        nxt = [self.g.raw((k,), m, s, x, M, self.p) for k in range(self.d)]
        z = [(nxt[k] - self.lo[k]) / (self.hi[k] - self.lo[k]) for k in range(self.d)]
        return near_all(S, z, j, self.n)


@contract("C09", "transitions between nodes driven by a Markov chain", [Q + "ergodic_distribution"], bounded="one or two axes (any numbers of nodes)", runs=25,
          opts={"cases": [{"d": d} for d in (1, 2)]})
def _(S):
    u = Setup(S, S.case["d"])
    K = S.dim("K", hi=3)
    P, v = S.stochastic("P", K), S.arr("v", (K, u.nm))
    dp = S.call(proc.MarkovChain, P, v)
    exo = S.call(gr.UnstructuredGrid, v)
    rule = lambda i, s: u.h(S.array((1,), lambda k: i), s)
    R = S.call(er.ergodic_distribution, u.model, FRule(S.wrapfun(rule), exo_grid=exo, endo_grid=u.endo, dprocess=dp), exo, u.endo, dp, compute_μ=False)
    S.shape("one entry per pair of exogenous and endogenous nodes", R, (K, u.N, K, u.N))

    def one(i, I, n, *j):
        m, M = (S.array((u.nm,), lambda k: S.cell(v, q, k)) for q in (i, I))
        x = S.array((u.nx,), lambda k: u.h.raw((k,), S.array((1,), lambda _: i), u.node(n)))
        return S.eq(S.cell(R, i, n, I, flat(u.n, j)), S.cell(P, i, I) * u.weight(m, n, x, M, j))
    S.forall("probability of a transition", (K, K, u.N, *u.n), one)


@contract("C09", "transitions between nodes with independent shocks", [Q + "ergodic_distribution"], bounded="one or two axes (any numbers of nodes)", runs=25,
          opts={"cases": [{"d": d} for d in (1, 2)]})
def _(S):
    u = Setup(S, S.case["d"])
    K = S.dim("K", hi=3)
    w, v = S.simplex("w", K), S.arr("v", (K, u.nm))
    dp = S.call(dist.FiniteDistribution, v, w)
    exo = S.call(gr.EmptyGrid)
    R = S.call(er.ergodic_distribution, u.model, FRule(u.h, exo_grid=exo, endo_grid=u.endo, dprocess=dp), exo, u.endo, dp, compute_μ=False)
    S.shape("one entry per pair of nodes", R, (u.N, u.N))

    def one(n, *j):
        x = S.array((u.nx,), lambda k: u.h.raw((k,), u.node(n)))
        return S.eq(S.cell(R, n, flat(u.n, j)), S.sum(0, K, lambda I: S.cell(w, I) * u.weight(u.m0, n, x, S.array((u.nm,), lambda k: S.cell(v, I, k)), j)))
    S.forall("probability of a transition", (u.N, *u.n), one)


def capture_labels(S):
    box = {}
    if S.symbolic:
        def da(data, coords):
            box["dims"], box["coords"] = [k for k, _ in coords], [v for _, v in coords]
            return data
        S.override(xarray.DataArray, da)
    return box


def labels(S, u, box, mu, K=None):
    """the distribution and its labels"""
    if not S.symbolic:
        box["dims"], box["coords"] = list(mu.dims), [mu.coords[k].values for k in mu.dims]
        mu = mu.data
    o = 0 if K is None else 1
    S.check("names of the axes", list(box["dims"]) == (["i_m"] if o else []) + u.model.symbols["states"])
    if o: S.forall("labels of the exogenous nodes", (K,), lambda i: S.eq(S.cell(box["coords"][0], i), i))
    for k in range(u.d):
        S.forall("labels of the endogenous nodes", (u.n[k],), lambda i: S.eq(S.cell(box["coords"][o + k], i), u.lo[k] + (u.hi[k] - u.lo[k]) * S.quot(i, u.n[k] - 1)))
    S.shape("one entry per node", mu, ((K,) if o else ()) + tuple(u.n))
    return mu


def solver(S, sol):
    """numpy.linalg.solve returns the solution of the system it is given"""
    box = {}

    def solve(A, B):
        box["A"], box["B"], box["sol"] = A, B, sol(B.shp[0])
        return box["sol"]
    if S.symbolic: S.override(np.linalg.solve, solve)
    return box


def single_class(S, R):
    """a single recurrent class: the stationary distribution is unique (concrete draws; the proof is about the system solved)"""
    if not S.symbolic:
        N = int(round(np.size(R) ** 0.5))
        ev = np.sort(abs(np.linalg.eigvals(np.reshape(R, (N, N))) - 1))
        S.require(N == 1 or ev[1] > 1e-6)


TRUST = ["numpy.linalg.solve returns the solution of a regular system; xarray.DataArray keeps data and labels"]


@contract("C09", "stationary distribution driven by a Markov chain", [Q + "ergodic_distribution"], bounded="one or two axes (any numbers of nodes)", runs=25,
          opts={"cases": [{"d": d, "short": q} for d in (1, 2) for q in (0, 1)], "assumes": TRUST})
def _(S):
    u = Setup(S, S.case["d"])
    K = S.dim("K", hi=3)
    P, v = S.stochastic("P", K), S.arr("v", (K, u.nm))
    if not S.symbolic:
        P = (P + 0.1) / (P + 0.1).sum(axis=1)[:, None]
        u.g = S.rowfun("g", u.d)
    dp = S.call(proc.MarkovChain, P, v)
    exo = S.call(gr.UnstructuredGrid, v)
    rule = FRule(S.wrapfun(lambda i, s: u.h(S.array((1,), lambda k: i), s)), exo_grid=exo, endo_grid=u.endo, dprocess=dp)
    box = capture_labels(S)
    eq = solver(S, lambda N: S.arr("mu", (N,)))
    args = () if S.case["short"] else (exo, u.endo, dp)
    one = S.call(er.ergodic_distribution, u.model, rule, exo, u.endo, dp, compute_μ=False)
    single_class(S, one)
    R, mu = S.call(er.ergodic_distribution, u.model, rule, *args)
    S.forall("transition matrix", (K, u.N, K, u.N), lambda i, n, I, j: S.eq(S.cell(R, i, n, I, j), S.cell(one, i, n, I, j)))
    mu = labels(S, u, box, mu, K)
    stationary(S, u, mu, eq, lambda i, j: S.cell(R, S.idiv(i, u.N), S.mod(i, u.N), S.idiv(j, u.N), S.mod(j, u.N)), K, K * u.N)


def stationary(S, u, mu, eq, Pi, K, N):
    if S.symbolic:
        A, B = eq["A"], eq["B"]
        S.shape("system", A, (N, N))
        S.forall("balance of the flows", (N - 1, N), lambda i, j: S.eq(S.cell(A, i, j), Pi(j, i) - S.ite(S.eq(i, j), 1, 0)))
        S.forall("balance of the flows", (N - 1,), lambda i: S.eq0(S.cell(B, i)))
        S.forall("probabilities sum to one", (N,), lambda j: S.eq(S.cell(A, N - 1, j), 1))
        S.check("probabilities sum to one", S.eq(S.cell(B, N - 1), 1))
        dims = ((K,) if K is not None else ()) + tuple(u.n)
        S.forall("distribution over nodes", dims, lambda *ix: S.eq(S.cell(mu, *ix), S.cell(eq["sol"], flat(dims, ix))))
    else:
        m = np.asarray(mu).ravel()
        T = np.array([[float(Pi(i, j)) for j in range(N)] for i in range(N)])
        S.check("rows sum to one", bool(abs(T.sum(axis=1) - 1).max() < 1e-8))
        ev = np.sort(abs(np.linalg.eigvals(T) - 1))
        if ev[min(1, N - 1)] > 1e-6 or N == 1:       # a single recurrent class
            S.check("probabilities sum to one", bool(abs(m.sum() - 1) < 1e-8))
            S.check("probabilities", bool(m.min() > -1e-8))
            S.check("balance of the flows", bool(abs(m @ T - m).max() < 1e-8))


@contract("C09", "stationary distribution with independent shocks", [Q + "ergodic_distribution"], bounded="one or two axes (any numbers of nodes)", runs=25,
          opts={"cases": [{"d": d, "short": q} for d in (1, 2) for q in (0, 1)], "assumes": TRUST})
def _(S):
    u = Setup(S, S.case["d"])
    K = S.dim("K", hi=3)
    w, v = S.simplex("w", K), S.arr("v", (K, u.nm))
    dp = S.call(dist.FiniteDistribution, v, w)
    exo = S.call(gr.EmptyGrid)
    rule = FRule(u.h, exo_grid=exo, endo_grid=u.endo, dprocess=dp)
    box = capture_labels(S)
    eq = solver(S, lambda N: S.arr("mu", (N,)))
    args = () if S.case["short"] else (exo, u.endo, dp)
    one = S.call(er.ergodic_distribution, u.model, rule, exo, u.endo, dp, compute_μ=False)
    single_class(S, one)
    R, mu = S.call(er.ergodic_distribution, u.model, rule, *args)
    S.forall("transition matrix", (u.N, u.N), lambda n, j: S.eq(S.cell(R, n, j), S.cell(one, n, j)))
    mu = labels(S, u, box, mu)
    stationary(S, u, mu, eq, lambda i, j: S.cell(R, i, j), None, u.N)


@contract("C09", "flows balance on the whole", [], runs=20, opts={"lemma": True})
def _(S):
    """the balance equation left out of the system follows from the others"""
    N = S.dim("N", hi=5)
    Pi, mu = S.stochastic("Pi", N), S.arr("mu", (N,))
    S.check("sum of the flows", S.eq0(S.sum(0, N, lambda j: S.sum(0, N, lambda i: S.cell(mu, i) * S.cell(Pi, i, j))) - S.sum(0, N, lambda j: S.cell(mu, j))))


MC = RBC.replace("""exogenous: !UNormal
    sigma: sig_z""", """exogenous: !MarkovChain
    values: [[-0.01], [0.02]]
    transitions: [[0.9, 0.1], [0.3, 0.7]]""").replace("n: [5, 8]", "n: [3, 6]")


@contract("C09", "stationary distribution of a growth model", [Q + "ergodic_distribution"], bounded="two models", runs=1, sym=False, opts={"cases": [{"mc": 0}, {"mc": 1}]})
def _(S):
    import dolo
    mo = model(MC if S.case["mc"] else RBC)
    ti = module("dolo.algos.time_iteration")
    rule = ti.time_iteration(mo, verbose=False, maxit=3, dr0=dolo.algos.perturbation.perturb(mo, verbose=False) if not S.case["mc"] else None).dr if True else None
    R, mu = S.call(er.ergodic_distribution, mo, rule)
    mu = np.asarray(mu.data)
    g, p, endo = mo.functions["transition"], mo.calibration["parameters"], rule.endo_grid
    n = list(endo.n)
    N = endo.n_nodes
    nodes = [np.linspace(endo.min[k], endo.max[k], n[k]) for k in range(2)]
    dp = rule.dprocess
    K = 2 if S.case["mc"] else 1
    T = np.zeros((K, N, K, N))
    for i in range(K):
        for a, z in enumerate(nodes[0]):
            for b, kap in enumerate(nodes[1]):
                s = np.array([z, kap])
                x = rule(i, s) if K > 1 else rule(s)
                for I in range(dp.n_inodes(i)):
                    m = [[-0.01], [0.02]][i] if K > 1 else mo.calibration["exogenous"]
                    M = dp.inode(i, I)
                    nxt = g(np.array(m), s, x, np.array(M), p)
                    wt = [[near(S, (nxt[k] - endo.min[k]) / (endo.max[k] - endo.min[k]), j, n[k]) for j in range(n[k])] for k in range(2)]
                    T[i, a * n[1] + b, I if K > 1 else 0] += dp.iweight(i, I) * np.kron(wt[0], wt[1])
    S.check("probability of a transition", bool(abs(R.ravel() - T.ravel()).max() < 1e-8))
    m, F = mu.ravel(), T.reshape(K * N, K * N)
    S.check("stationary", bool(abs(m @ F - m).max() < 1e-7 and abs(m.sum() - 1) < 1e-8 and m.min() > -1e-8))
    S.check("names of the axes", bool(mu.shape == ((K,) if K > 1 else ()) + tuple(n)))
