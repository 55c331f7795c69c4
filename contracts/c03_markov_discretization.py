"""C03: autoregressive processes and their discretization as Markov chains."""
import numpy as np
from pyvc.spec import contract, module
from contracts.c02_markov_products import flatten

disc = module("dolo.numeric.discretization.discretization")
proc = module("dolo.numeric.processes")


def moments(S, tag, n, d, X, P, rho, cov, mean=None):
    """P is a stochastic matrix on the rows of X whose conditional mean and covariance are those of the process"""
    m = (lambda k: 0) if mean is None else mean
    S.shape(tag + "transitions", P, (n, n))
    S.forall(tag + "probabilities are not negative", (n, n), lambda i, j: S.le(0, S.cell(P, i, j)))
    S.forall(tag + "probabilities sum to one", (n,), lambda i: S.eq(S.sum(0, n, lambda j: S.cell(P, i, j)), 1))
    S.forall(tag + "conditional mean", (n, d), lambda i, k: S.eq(S.sum(0, n, lambda j: S.cell(P, i, j) * (S.cell(X, j, k) - m(k))), rho * (S.cell(X, i, k) - m(k))))
    S.forall(tag + "conditional covariance", (n, d, d), lambda i, k, l: S.eq(
        S.sum(0, n, lambda j: S.cell(P, i, j) * (S.cell(X, j, k) - m(k)) * (S.cell(X, j, l) - m(l))),
        rho * rho * (S.cell(X, i, k) - m(k)) * (S.cell(X, i, l) - m(l)) + cov(k, l)))


@contract("C03", "univariate chain (rouwenhorst)", ["dolo.numeric.discretization.discretization.rouwenhorst"],
          bounded="2 to 5 states (any autocorrelation and variance); up to 9 concretely",
          opts={"cases": [{"N": 2}, {"N": 3}, {"N": 4}, {"N": 5}, {"N": 7, "_conc_only": True}, {"N": 9, "_conc_only": True}]}, runs=60)
def _(S):
    N = S.dim("N")
    rho, sig = S.real("rho", -1, 1), S.real("sig", pos=True)
    S.require(S.lt(rho * rho, 1))
    z, P = S.call(disc.rouwenhorst, rho, sig, N)
    S.shape("nodes", z, (N,))
    nu = S.cell(z, N - 1)
    S.check("largest node", S.and_(S.le(0, nu), S.eq(nu * nu * (1 - rho * rho), sig * sig * (N - 1))))
    S.forall("nodes are equally spaced and symmetric", (N,), lambda i: S.eq((N - 1) * S.cell(z, i), nu * (2 * i - (N - 1))))
    moments(S, "", N, 1, S.array((N, 1), lambda i, k: S.cell(z, i)), P, rho, lambda k, l: sig * sig)


@contract("C03", "one state (rouwenhorst)", ["dolo.numeric.discretization.discretization.rouwenhorst"], runs=4)
def _(S):
    z, P = S.call(disc.rouwenhorst, S.real("rho", -1, 1), S.real("sig", pos=True), 1)
    S.check("node", S.eq(S.cell(z, 0), 0))
    S.check("transition", S.eq(S.cell(P, 0, 0), 1))


def cdf(S, x):
    if S.symbolic:
        from pyvc.npmodel import normcdf
        return normcdf(S.num(x))
    import scipy.stats
    return scipy.stats.norm.cdf(x)


@contract("C03", "univariate chain (tauchen)", ["dolo.numeric.discretization.discretization.tauchen"],
          bounded="2 to 4 states (any parameters); up to 6 concretely", opts={"cases": [{"N": 2}, {"N": 3}, {"N": 4}, {"N": 6, "_conc_only": True}]})
def _(S):
    N = S.dim("N")
    rho, sig, mu, m = S.real("rho", -0.999, 0.999), S.real("sig", pos=True), S.real("mu"), S.real("m", pos=True)
    S.require(S.lt(rho * rho, 1))
    Z, P = S.call(disc.tauchen, N, mu, rho, sig, m)
    S.shape("nodes", Z, (N, 1))
    S.shape("transitions", P, (N, N))
    nu = S.cell(Z, N - 1, 0) - mu
    S.check("largest node", S.and_(S.le(0, nu), S.eq(nu * nu * (1 - rho * rho), sig * sig * m * m)))
    S.forall("nodes are equally spaced around the mean", (N,), lambda i: S.eq((N - 1) * (S.cell(Z, i, 0) - mu), nu * (2 * i - (N - 1))))
    h = nu / (N - 1)
    if S.symbolic:
        # trusted: the normal distribution function is increasing
        for i in range(N):
            for j in range(N - 2):
                a, b = [(S.cell(Z, k, 0) + h - (1 - rho) * mu - rho * S.cell(Z, i, 0)) / sig for k in (j, j + 1)]
                S.check("cells are ordered", S.le(a, b))
                S.require(S.le(cdf(S, a), cdf(S, b)))

    def up(i, j): return cdf(S, (S.cell(Z, j, 0) + h - (1 - rho) * mu - rho * S.cell(Z, i, 0)) / sig)
    S.forall("probability of the cell around each node", (N, N), lambda i, j: S.eq(S.cell(P, i, j), (1 if int(S_int(j)) == N - 1 else up(i, j)) - (0 if int(S_int(j)) == 0 else up(i, j - 1))))
    S.forall("probabilities are not negative", (N, N), lambda i, j: S.le(0, S.cell(P, i, j)))
    S.forall("probabilities sum to one", (N,), lambda i: S.eq(S.sum(0, N, lambda j: S.cell(P, i, j)), 1))


def S_int(j):
    return j.args[0] if hasattr(j, "args") else j


def sigma_of(S, d):
    A = S.arr("Sig", (d, d))
    if S.symbolic:
        return S.array((d, d), lambda i, j: S.cell(A, S.fmin(i, j), S.fmax(i, j)))
    A = np.asarray(A)
    B = A @ A.T + 0.1 * np.eye(d)
    S.require(np.linalg.cond(B) < 1e6)
    kind = S.seed % 5
    if kind == 0 and d > 1:          # a component without shocks
        k = S.seed % d
        B[k, :] = B[:, k] = 0
    elif kind == 1 and d > 1:        # covariances that cancel out
        B = np.eye(d) * 2.0
        B[0, 0], B[0, 1], B[1, 0] = 1.0, -1.0, -1.0
    S.note(Sig=B)
    return B


def use_rouwenhorst_contract(S, N, rho):
    """callers of rouwenhorst(rho, 1, N) are verified against its contract"""
    if not S.symbolic: return
    from pyvc import terms as tm
    z, P = S.arr("z_", (N,)), S.stochastic("P_", N)
    N_ = tm.lift(N)
    def is_(t, nm): return t.op == "app" and t.args[0] == nm

    def rule(vds, fs, body):
        # sum_v P[i,v] z[v] = rho z[i];  sum_v P[i,v] z[v]^2 = rho^2 z[i]^2 + 1
        if len(vds) != 1 or vds[0][1] is not N_: return None
        v = vds[0][0]
        ps = [f for f in fs if is_(f, "P_") and f.args[2] is v and v not in f.args[1].fv]
        zs = [f for f in fs if f is not (ps[0] if ps else None)]
        if len(ps) != 1: return None
        n = 0
        for q in zs:
            e = 1
            if q.op == "pow" and q.args[1].op == "num": q, e = q.args[0], int(q.args[1].args[0])
            if not (is_(q, "z_") and q.args[1] is v): return None
            n += e
        i = ps[0].args[1]
        zi = tm.app("z_", (i,))
        if n == 1: return tm.mul(tm.lift(rho), zi)
        if n == 2: return tm.add(tm.mul(tm.power(tm.lift(rho), 2), tm.power(zi, 2)), tm.ONE)
    S._rule("rouwenhorst", rule)

    def model(r, s, n):
        S.check("rouwenhorst is called with the autocorrelation", S.eq(r, rho))
        S.check("rouwenhorst is called with a unit variance", S.eq(s, 1))
        S.check("rouwenhorst is called with the number of states", S.eq(n, N))
        return [z, P]
    S.override(disc.rouwenhorst, model)


@contract("C03", "chain of a vector process", ["dolo.numeric.discretization.discretization.multidimensional_discretization"],
          bounded="1 and 2 variables (any number of states per variable); 3 variables concretely",
          opts={"cases": [{"d": 1}, {"d": 2}, {"d": 3, "_conc_only": True}]})
def _(S):
    N, d = S.dim("N", lo=2, hi=4), S.dim("d")
    rho = S.real("rho", -0.99, 0.99)
    S.require(S.lt(rho * rho, 1))
    Sig = sigma_of(S, d)
    f = S.frozen(Sig)
    use_rouwenhorst_contract(S, N, rho)
    X, P = S.call(disc.multidimensional_discretization, rho, Sig, N=N)
    n = 1
    for _ in range(d): n = n * N
    S.shape("nodes", X, (n, d))
    moments(S, "", n, d, X, P, rho, lambda k, l: S.cell(Sig, k, l))
    S.unchanged("covariance matrix unchanged", Sig, f)


@contract("C03", "chain of a vector process (tauchen)", ["dolo.numeric.discretization.discretization.multidimensional_discretization", "dolo.numeric.discretization.discretization.tauchen"],
          sym=False, bounded="concrete processes of 1 to 3 variables, 2 to 5 states per variable, widths 0.5 to 4", runs=12)
def _(S):
    from scipy.stats import norm
    d, N = 1 + S.seed % 3, 2 + S.rng.randint(4 if S.seed % 3 < 2 else 2)
    rho, m = S.rng.uniform(-0.95, 0.95), [2, 0.5, 1, 3, 4][S.seed % 5]
    A = S.rng.normal(size=(d, d))
    Sig = A @ A.T + 0.2 * np.eye(d)
    kw = {} if m == 2 and S.rng.randint(2) else dict(m=m)
    S.note(N=N, rho=rho, Sig=Sig, kw=kw)
    X, P = disc.multidimensional_discretization(rho, Sig, N=N, method="tauchen", **kw)
    sd = (1 / (1 - rho**2))**0.5
    z = np.linspace(-m * sd, m * sd, N)
    w = z[1] - z[0]
    up, lo = (z[None, :] - rho * z[:, None] + w / 2), (z[None, :] - rho * z[:, None] - w / 2)
    up[:, -1], lo[:, 0] = np.inf, -np.inf
    P1 = norm.cdf(up) - norm.cdf(lo)
    import itertools
    Z = np.array(list(itertools.product(*[z] * d)))
    Q = np.ones((1, 1))
    for _ in range(d): Q = np.kron(Q, P1)
    S.check("nodes", X.shape == Z.shape and np.allclose(X, Z @ np.linalg.cholesky(Sig).T, atol=1e-9))
    S.check("transitions", P.shape == Q.shape and np.allclose(P, Q, atol=1e-9))


def use_gauss_hermite_contract(S, sig2, K):
    """callers of gauss_hermite_nodes([K], [[sig2]]) are verified against its contract (C04)"""
    if not S.symbolic: return
    from pyvc.arr import asarr
    assert K == 5
    a, b, w0, w1 = S.real("e0"), S.real("e1"), S.real("w0"), S.real("w1")
    S.require(S.and_(S.le(0, w0), S.le(0, w1), S.le(2 * w0 + 2 * w1, 1)))
    S.require(S.eq(2 * w0 * b * b + 2 * w1 * a * a, sig2))
    e, w = asarr([[-b], [-a], [S.num(0)], [a], [b]]), asarr([w0, w1, 1 - 2 * w0 - 2 * w1, w1, w0])
    quad = module("dolo.numeric.discretization.quadrature")

    def model(orders, sigma, mu=None):
        S.check("one-dimensional quadrature", S.eq(orders[0] if isinstance(orders, (list, tuple)) else orders, K))
        S.check("quadrature for the variance of the innovations", S.eq(S.cell(sigma, 0, 0), sig2))
        if mu is not None: S.check("quadrature for innovations of mean zero", S.eq(mu if not hasattr(mu, "shp") else S.cell(mu, 0), 0))
        return [e, w]
    S.override(quad.gauss_hermite_nodes, model)


def make_ar(S, cls):
    rho, s2, mu = S.real("rho", -0.99, 0.99), S.real("s2", pos=True), S.real("mu")
    S.require(S.lt(rho * rho, 1))
    if cls == "AR1":
        p = S.call(proc.AR1, ρ=rho, σ=s2, μ=mu)
    else:
        p = S.call(proc.VAR1, ρ=rho, Σ=S.array((1, 1), lambda i, j: s2), μ=S.array((1,), lambda i: mu))
    return rho, s2, mu, p


for cls in ("AR1", "VAR1"):
    Q = "dolo.numeric.processes.%s." % cls

    @contract("C03", "markov chain of a scalar process (%s)" % cls, [Q + "__init__", Q + "discretize", Q + "discretize_mc"])
    def _(S, cls=cls):
        N = S.dim("N", lo=2, hi=5)
        rho, s2, mu, p = make_ar(S, cls)
        use_rouwenhorst_contract(S, N, rho)
        m = S.method(p, "discretize", N=N)
        X, P = S.attr(m, "values"), S.attr(m, "transitions")
        S.shape("nodes", X, (N, 1))
        moments(S, "", N, 1, X, P, rho, lambda k, l: s2, lambda k: mu)

    @contract("C03", "markov chain with default size (%s)" % cls, [Q + "discretize"], sym=False, bounded="default number of states, random parameters", runs=10)
    def _(S, cls=cls):
        rho, s2, mu, p = make_ar(S, cls)
        m = S.method(p, "discretize")
        X, P = S.attr(m, "values"), S.attr(m, "transitions")
        moments(S, "", X.shape[0], 1, X, P, rho, lambda k, l: s2, lambda k: mu)

    @contract("C03", "process discretized on a grid (%s)" % cls, [Q + "discretize_gdp", "dolo.numeric.processes.GDP.node", "dolo.numeric.processes.GDP.inode", "dolo.numeric.processes.GDP.iweight", "dolo.numeric.processes.GDP.n_nodes", "dolo.numeric.processes.GDP.n_inodes", "dolo.numeric.processes.GDP.grid"])
    def _(S, cls=cls):
        N = S.dim("N", lo=2, hi=5)
        rho, s2, mu, p = make_ar(S, cls)
        use_gauss_hermite_contract(S, s2, 5)
        g = S.method(p, "discretize", N=N, to="gdp")
        S.check("number of nodes", S.eq(S.attr(g, "n_nodes"), N))
        K = 5
        i = S.index("i", N)
        S.check("number of integration nodes", S.eq(S.method(g, "n_inodes", i), K))
        x = S.cell(S.method(g, "node", i), 0)
        gr = S.attr(S.attr(g, "grid"), "nodes")
        S.check("grid of the nodes", S.eq(S.cell(gr, i, 0), x))
        lo, hi = [S.cell(S.method(g, "node", k), 0) for k in (0, N - 1)]
        S.check("nodes are centred on the mean", S.eq(lo + hi, 2 * mu))
        S.check("nodes are equally spaced", S.eq((N - 1) * (x - lo), i * (hi - lo)))
        S.check("nodes cover two and a half standard deviations", S.and_(S.le(mu, hi), S.eq(4 * (hi - mu) * (hi - mu) * (1 - rho * rho), 25 * s2)))
        y = [S.cell(S.method(g, "inode", i, j), 0) for j in range(K)]
        w = [S.method(g, "iweight", i, j) for j in range(K)]
        S.check("weights are not negative", S.and_(*[S.le(0, a) for a in w]))
        S.check("weights sum to one", S.eq(sum(w), 1))
        m = mu + rho * (x - mu)
        S.check("conditional mean", S.eq(sum(a * b for a, b in zip(w, y)), m))
        S.check("conditional variance", S.eq(sum(a * (b - m) * (b - m) for a, b in zip(w, y)), s2))


@contract("C03", "markov chain of a vector process with a mean", ["dolo.numeric.processes.VAR1.discretize_mc", "dolo.numeric.processes.VAR1.__init__"],
          bounded="2 variables (any number of states per variable); 3 variables concretely", opts={"cases": [{"d": 2}, {"d": 3, "_conc_only": True}]})
def _(S):
    N, d = S.dim("N", lo=2, hi=3), S.dim("d")
    rho, mu = S.real("rho", -0.99, 0.99), S.arr("mu", (d,))
    S.require(S.lt(rho * rho, 1))
    Sig = sigma_of(S, d)
    use_rouwenhorst_contract(S, N, rho)
    m0 = S.frozen(mu)
    p = S.call(proc.VAR1, ρ=rho, Σ=Sig, μ=mu)
    S.check("dimension", S.eq(S.attr(p, "d"), d))
    m = S.method(p, "discretize", N=N)
    X, P = S.attr(m, "values"), S.attr(m, "transitions")
    n = 1
    for _ in range(d): n = n * N
    S.shape("nodes", X, (n, d))
    moments(S, "", n, d, X, P, rho, lambda k, l: S.cell(Sig, k, l), lambda k: S.cell(mu, k))
    S.unchanged("mean unchanged", mu, m0)


def make_var(S, cls, kind):
    """process of d variables; returns (d, rho matrix, cov, mu, process)"""
    if cls == "AR1":
        rho, s2, mu = S.real("rho", -0.99, 0.99), S.real("s2", pos=True), S.real("mu")
        return 1, (lambda i, j: rho), (lambda i, j: s2), (lambda i: mu), S.call(proc.AR1, ρ=rho, σ=s2, μ=mu)
    d = S.dim("d", hi=3)
    if kind == 0:
        r = S.real("rho", -0.99, 0.99)
        R, a = (lambda i, j: S.ite(S.eq(i, j), r, 0)), r
    elif kind == 1:
        v = S.arr("rho", (d,), lo=-0.99, hi=0.99)
        R, a = (lambda i, j: S.ite(S.eq(i, j), S.cell(v, i), 0)), v
    else:
        v = S.arr("rho", (d, d), lo=-0.5, hi=0.5)
        R, a = (lambda i, j: S.cell(v, i, j)), v
    Sig = sigma_of(S, d) if not S.symbolic else S.arr("Sig", (d, d))
    mu = S.arr("mu", (d,))
    return d, R, (lambda i, j: S.cell(Sig, i, j)), (lambda i: S.cell(mu, i)), S.call(proc.VAR1, ρ=a, Σ=Sig, μ=mu)


for cls in ("AR1", "VAR1"):
    Q = "dolo.numeric.processes.%s." % cls

    @contract("C03", "impulse response (%s)" % cls, [Q + "response"], opts={"cases": [{"kind": k} for k in range(3)] if cls == "VAR1" else [{"kind": 0}]}, runs=30)
    def _(S, cls=cls):
        T = S.dim("T", lo=2, hi=6)
        d, R, C, mu, p = make_var(S, cls, S.case["kind"])
        e = S.arr("e", (d,))
        r = S.method(p, "response", T, e)
        S.shape("response", r, (T, d))
        S.forall("initial impulse", (d,), lambda k: S.eq(S.cell(r, 0, k), mu(k) + S.cell(e, k)))
        S.forall("recursion", (T - 1, d), lambda t, k: S.eq(S.cell(r, t + 1, k) - mu(k), S.sum(0, d, lambda l: R(k, l) * (S.cell(r, t, l) - mu(l)))))

    for bounded in (None, "3000 paths of random processes (moments of the innovations)"):
        @contract("C03", ("simulated paths (%s)" if bounded is None else "distribution of simulated paths (%s)") % cls, [Q + "simulate"], runs=12, sym=bounded is None, bounded=bounded,
                  opts={"cases": [{"kind": k, "stoch": b} for k in (range(3) if cls == "VAR1" else [0]) for b in ((True, False) if bounded is None else (True,))]})
        def _(S, cls=cls, bounded=bounded):
            if bounded is None and S.case["stoch"] and not S.symbolic:
                return
            N, T = S.dim("N"), S.dim("T", lo=2, hi=6)
            d, R, C, mu, p = make_var(S, cls, S.case["kind"])
            if bounded: N, T = 3000, 6
            m0 = S.arr("m0", (d,))
            if S.symbolic:
                eps = S.arr("eps", (N * T, d))

                def mvn(mean, cov, size=None, **k):
                    tot = 1
                    for q in (size if isinstance(size, tuple) else (size,)): tot = tot * q
                    S.check("number of draws", S.eq(tot, N * T))
                    S.forall("innovations of mean zero", (d,), lambda i: S.eq(S.cell(mean, i), 0))
                    S.forall("covariance of the innovations", (d, d), lambda i, j: S.eq(S.cell(cov, i, j), C(i, j)))
                    return eps.reshape(size + (d,)) if isinstance(size, tuple) else eps
                S.override(np.random.multivariate_normal, mvn)
            else:
                np.random.seed(S.seed % 2**31)
            x = S.method(p, "simulate", N, T, m0=m0, stochastic=S.case["stoch"])
            S.shape("paths", x, (T, N, d))
            S.forall("initial value", (N if not bounded else 4, d), lambda n, k: S.eq(S.cell(x, 0, n, k), mu(k) + S.cell(m0, k)))

            def resid(t, n, k):
                return S.cell(x, t + 1, n, k) - mu(k) - S.sum(0, d, lambda l: R(k, l) * (S.cell(x, t, n, l) - mu(l)))
            if not bounded:
                S.forall("recursion", (T - 1, N, d), lambda t, n, k: S.eq(resid(t, n, k), S.cell(eps, (t + 1) * N + n, k) if S.case["stoch"] else 0))
                return
            Rm = np.array([[R(i, j) for j in range(d)] for i in range(d)])
            Cm = np.array([[C(i, j) for j in range(d)] for i in range(d)])
            mm = np.array([mu(i) for i in range(d)])
            y = x - mm
            e = (y[1:] - y[:-1] @ Rm.T).reshape((-1, d))
            M, sd = len(e), np.sqrt(np.diag(Cm)) + 1e-12
            S.forall("innovations have mean zero", (d,), lambda k: abs(e[:, k].mean()) <= 7 * sd[k] / M ** 0.5)
            cc = e.T @ e / M
            S.forall("innovations have the covariance of the process", (d, d), lambda k, l: abs(cc[k, l] - Cm[k, l]) <= 10 * sd[k] * sd[l] / M ** 0.5)
            if sd.min() > 1e-6:
                f = e.reshape((T - 1, N, d))
                S.forall("innovations are independent over time", (d,), lambda k: abs((f[1:, :, k] * f[:-1, :, k]).mean()) <= 8 * sd[k] ** 2 / (len(f) - 1) ** 0.5 / N ** 0.5)
                S.forall("paths are independent", (d,), lambda k: abs((f[:, 1:, k] * f[:, :-1, k]).mean()) <= 8 * sd[k] ** 2 / M ** 0.5)


@contract("C03", "only scalar autocorrelations are discretized", ["dolo.numeric.processes.VAR1.discretize_mc"], sym=False, bounded="concrete matrices", runs=12)
def _(S):
    d = S.dim("d", lo=2, hi=3)
    R = S.arr("R", (d, d), lo=-0.5, hi=0.5)
    if S.seed % 2: R = np.diag(np.diag(R))
    p = S.call(proc.VAR1, ρ=R, Σ=np.eye(d))
    S.check("no chain for a matrix autocorrelation", S.expect_raise(p.discretize) is not None)


@contract("C03", "default mean", ["dolo.numeric.processes.VAR1.__init__", "dolo.numeric.processes.AR1.__init__"], runs=6)
def _(S):
    rho, s2, d = S.real("rho", -0.99, 0.99), S.real("s2", pos=True), S.dim("d", hi=3)
    Sig = S.array((d, d), lambda i, j: S.ite(S.eq(i, j), s2, 0))
    p = S.call(proc.VAR1, ρ=rho, Σ=Sig)
    S.forall("mean", (d,), lambda i: S.eq(S.cell(S.attr(p, "μ"), i), 0))
    S.check("mean of AR1", S.eq(S.attr(S.call(proc.AR1, ρ=rho, σ=s2), "μ"), 0))
