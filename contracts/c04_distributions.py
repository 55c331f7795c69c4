"""C04: iid distributions, quadrature rules and their discretizations."""
import numpy as np
from pyvc.spec import contract, module
from contracts.c03_markov_discretization import sigma_of
from contracts.c02_markov_products import flatten

quad = module("dolo.numeric.discretization.quadrature")
dist = module("dolo.numeric.distribution")
proc = module("dolo.numeric.processes")
D = "dolo.numeric.distribution."


def discrete(S, X, w, n, d):
    S.shape("points", X, (n, d))
    S.shape("weights", w, (n,))
    S.forall("weights are not negative", (n,), lambda i: S.le(0, S.cell(w, i)))
    S.check("weights sum to one", S.eq(S.sum(0, n, lambda i: S.cell(w, i)), 1))


def mean_cov(S, X, w, n, d, mu, cov):
    S.forall("mean of the points", (d,), lambda k: S.eq(S.sum(0, n, lambda i: S.cell(w, i) * S.cell(X, i, k)), mu(k)))
    S.forall("covariance of the points", (d, d), lambda k, l: S.eq(S.sum(0, n, lambda i: S.cell(w, i) * (S.cell(X, i, k) - mu(k)) * (S.cell(X, i, l) - mu(l))), cov(k, l)))


@contract("C04", "gauss-hermite rule", ["dolo.numeric.discretization.quadrature.hermgauss"], sym=False, bounded="orders 1 to 24, exhaustively",
          opts={"cases": [{"n": n} for n in range(1, 25)]}, runs=1)
def _(S):
    n = S.case["n"]
    x, w = S.call(quad.hermgauss, n)
    S.shape("nodes", x, (n,))
    S.shape("weights", w, (n,))
    S.check("weights are positive", bool((w > 0).all()))
    S.check("nodes are increasing", bool((np.diff(x) > 0).all()))
    S.forall("symmetric", (n,), lambda i: S.eq(x[i], -x[n - 1 - i], tol=1e-12) and S.eq(w[i], w[n - 1 - i], tol=1e-12))
    m = np.sqrt(np.pi)
    for k in range(n):          # integral of x^(2k) exp(-x^2): exact up to degree 2n-1
        S.check("exact for polynomials of degree %d" % (2 * k), abs((w * x ** (2 * k)).sum() / m - 1) < 1e-8)
        m = m * (2 * k + 1) / 2


def use_hermgauss_contract(S):
    """callers of hermgauss are verified against its contract"""
    if not S.symbolic: return
    from pyvc import terms as tm
    from pyvc.arr import from_fn
    S.E.exact_sqrt = True
    spi = tm.fn("sqrt", tm.lift(np.pi))
    import quantecon
    S.override(module("dolo.numeric.misc").cartesian, lambda arrays: S.E.intrinsics[quantecon.cartesian](arrays))   # its contract: C01
    S._fact("hw", lambda a: [tm.le(tm.ZERO, tm.app("hw", a))])

    def rule(vds, fs, body):
        if len(vds) != 1: return None
        v, n = vds[0]
        ws = [f for f in fs if f.op == "app" and f.args[0] == "hw" and f.args[1] is n and f.args[2] is v]
        if len(ws) != 1: return None
        rest = [f for f in fs if f is not ws[0]]
        if not all(f.op == "app" and f.args[0] == "hx" and f.args[1] is n and f.args[2] is v for f in rest): return None
        return {0: spi, 1: tm.ZERO, 2: tm.div(spi, tm.lift(2))}.get(len(rest))
    S._rule("hermgauss", rule)

    def model(n):
        n = tm.lift(n)
        return [from_fn((n,), lambda i: tm.app("hx", (n, i[0]))), from_fn((n,), lambda i: tm.app("hw", (n, i[0])))]
    S.override(quad.hermgauss, model)


@contract("C04", "quadrature of a normal variable", ["dolo.numeric.discretization.quadrature.gauss_hermite_nodes"])
def _(S):
    K = S.dim("K", lo=2, hi=9)
    s2, mu = S.real("s2", pos=True), S.arr("mu", (1,))
    use_hermgauss_contract(S)
    sig = S.array((1, 1), lambda i, j: s2)
    x, w = S.call(quad.gauss_hermite_nodes, [K], sig, mu)
    discrete(S, x, w, K, 1)
    mean_cov(S, x, w, K, 1, lambda k: S.cell(mu, 0), lambda k, l: s2)
    x, w = S.call(quad.gauss_hermite_nodes, [K], sig)
    mean_cov(S, x, w, K, 1, lambda k: 0, lambda k, l: s2)


@contract("C04", "quadrature of a scalar variance", ["dolo.numeric.discretization.quadrature.gauss_hermite_nodes"], sym=False, bounded="orders 2 to 9, random variances")
def _(S):
    K, s2 = S.dim("K", lo=2, hi=9), S.real("s2", pos=True)
    x, w = S.call(quad.gauss_hermite_nodes, K, np.array([s2]))
    S.shape("nodes", x, (K,))
    mean_cov(S, np.reshape(x, (K, 1)), w, K, 1, lambda k: 0, lambda k, l: s2)
    x, w = S.call(quad.gauss_hermite_nodes, K, np.array([[s2]]))
    discrete(S, x, w, K, 1)
    mean_cov(S, x, w, K, 1, lambda k: 0, lambda k, l: s2)


@contract("C04", "quadrature of a normal vector", ["dolo.numeric.discretization.quadrature.gauss_hermite_nodes"],
          bounded="2 variables (any orders); 3 variables concretely", opts={"cases": [{"d": 2, "zero": False}, {"d": 2, "zero": True}, {"d": 3, "zero": False, "_conc_only": True}]})
def _(S):
    d = S.dim("d")
    Ks = [S.dim("K%d" % i, lo=2, hi=4) for i in range(d)]
    if S.case["zero"]:
        s2 = S.real("s2", pos=True)
        Sig = S.array((d, d), lambda i, j: S.ite(S.and_(S.eq(i, 1), S.eq(j, 1)), s2, 0))
    else:
        Sig = sigma_of(S, d)
    mu = S.arr("mu", (d,))
    use_hermgauss_contract(S)
    f, g = S.frozen(Sig), S.frozen(mu)
    x, w = S.call(quad.gauss_hermite_nodes, Ks, Sig, mu)
    n = 1
    for k in Ks: n = n * k
    discrete(S, x, w, n, d)
    mean_cov(S, x, w, n, d, lambda k: S.cell(mu, k), lambda k, l: S.cell(Sig, k, l))
    S.unchanged("covariance matrix unchanged", Sig, f)
    S.unchanged("mean unchanged", mu, g)


def finite(S, tag, n=None, d=None):
    n = S.dim("n" + tag) if n is None else n
    d = S.dim("d" + tag, hi=3) if d is None else d
    x, w = S.arr("x" + tag, (n, d)), S.simplex("w" + tag, n)
    return n, d, x, w, S.call(dist.FiniteDistribution, x, w)


@contract("C04", "finite distribution", [D + "FiniteDistribution.__init__", D + "FiniteDistribution.point", D + "FiniteDistribution.weight", D + "FiniteDistribution.discretize", "dolo.numeric.processes.DiscretizedIIDProcess.inode", "dolo.numeric.processes.DiscretizedIIDProcess.iweight", "dolo.numeric.processes.DiscretizedIIDProcess.n_inodes"])
def _(S):
    n, d, x, w, f = finite(S, "a")
    S.check("number of points", S.eq(S.attr(f, "n"), n))
    S.check("dimension", S.eq(S.attr(f, "d"), d))
    j = S.index("j", n)
    p, q = S.method(f, "point", j), S.method(f, "inode", 0, j)
    S.shape("point", p, (d,))
    S.forall("point", (d,), lambda k: S.eq(S.cell(p, k), S.cell(x, j, k)))
    S.forall("integration node", (d,), lambda k: S.eq(S.cell(q, k), S.cell(x, j, k)))
    S.check("weight", S.eq(S.method(f, "weight", j), S.cell(w, j)))
    S.check("integration weight", S.eq(S.method(f, "iweight", 0, j), S.cell(w, j)))
    S.check("number of integration nodes", S.eq(S.method(f, "n_inodes", 0), n))
    S.check("one (conventional) node", S.eq(S.attr(f, "n_nodes"), 1))
    S.check("already discrete", S.method(f, "discretize") is f)
    m = S.method(f, "discretize", to="mc")
    X, P = S.attr(m, "values"), S.attr(m, "transitions")
    S.shape("states of the chain", X, (n, d))
    S.shape("transitions of the chain", P, (n, n))
    S.forall("states of the chain are the points", (n, d), lambda i, k: S.eq(S.cell(X, i, k), S.cell(x, i, k)))
    S.forall("transitions of the chain are the weights", (n, n), lambda i, k: S.eq(S.cell(P, i, k), S.cell(w, k)))


@contract("C04", "equiprobable distribution", [D + "EquiprobableDistribution.__init__", D + "EquiprobableDistribution.point", D + "EquiprobableDistribution.weight", D + "EquiprobableDistribution.weights", D + "EquiprobableDistribution.discretize"])
def _(S):
    n, d = S.dims("n d")
    x = S.arr("x", (n, d))
    f = S.call(dist.EquiprobableDistribution, x)
    S.check("number of points", S.eq(S.attr(f, "n"), n))
    S.check("dimension", S.eq(S.attr(f, "d"), d))
    j = S.index("j", n)
    p = S.method(f, "point", j)
    S.forall("point", (d,), lambda k: S.eq(S.cell(p, k), S.cell(x, j, k)))
    S.check("weight", S.eq(S.method(f, "weight", j) * n, 1))
    w = S.attr(f, "weights")
    S.shape("weights", w, (n,))
    S.forall("weights", (n,), lambda i: S.eq(S.cell(w, i) * n, 1))
    S.check("already discrete", S.method(f, "discretize") is f)
    m = S.method(f, "discretize", to="mc")
    X, P = S.attr(m, "values"), S.attr(m, "transitions")
    S.forall("states of the chain are the points", (n, d), lambda i, k: S.eq(S.cell(X, i, k), S.cell(x, i, k)))
    S.forall("transitions of the chain are the weights", (n, n), lambda i, k: S.eq(S.cell(P, i, k) * n, 1))


@contract("C04", "expectation", [D + "DiscreteDistribution.integrate", D + "DiscreteDistribution.items"], opts={"cases": [{"eq": 0}, {"eq": 1}]})
def _(S):
    n, d = S.dims("n d")
    x = S.arr("x", (n, d))
    if S.case["eq"]:
        f, w = S.call(dist.EquiprobableDistribution, x), None
    else:
        w = S.simplex("w", n)
        f = S.call(dist.FiniteDistribution, x, w)
    g = S.rowfun("g", 1)
    I = S.method(f, "integrate", g)
    S.shape("expectation", I, (1,))
    y = S.call(g, x)
    S.check("expectation", S.eq(S.cell(I, 0) * (n if w is None else 1), S.sum(0, n, lambda i: (1 if w is None else S.cell(w, i)) * S.cell(y, i, 0))))


for m in (2, 3):
    @contract("C04", "product of %d finite distributions" % m, [D + "product_iid"], runs=30)
    def _(S, m=m):
        fs = [finite(S, t, n=S.dim("n" + t, hi=4 if m == 2 else 3)) for t in "abc"[:m]]
        ns, ds = [f[0] for f in fs], [f[1] for f in fs]
        fz = [(S.frozen(f[2]), S.frozen(f[3])) for f in fs]
        f = S.call(dist.product_iid, [f[4] for f in fs])
        X, w = S.attr(f, "points"), S.attr(f, "weights")
        n, d = 1, 0
        for a in ns: n = n * a
        for a in ds: d = d + a
        discrete(S, X, w, n, d)
        off = 0
        for k, (a, b, x, v, _) in enumerate(fs):
            S.forall("points of factor %d" % k, tuple(ns) + (b,), lambda *ix, x=x, k=k, off=off: S.eq(S.cell(X, flatten(ns, ix[:-1]), off + ix[-1]), S.cell(x, ix[k], ix[-1])))
            off = off + b

        def wt(*ix):
            r = 1
            for f_, i in zip(fs, ix): r = r * S.cell(f_[3], i)
            return S.eq(S.cell(w, flatten(ns, ix)), r)
        S.forall("weights are the products", tuple(ns), wt)
        for f_, (a, b) in zip(fs, fz):
            S.unchanged("points unchanged", f_[2], a)
            S.unchanged("weights unchanged", f_[3], b)


@contract("C04", "discretized product process", ["dolo.numeric.processes.ProductProcess.discretize", D + "product_iid"], opts={"cases": [{"to": 0}, {"to": 1}]})
def _(S):
    a, b = finite(S, "a"), finite(S, "b")
    pp = S.call(proc.ProductProcess, a[4], b[4])
    f = S.method(pp, "discretize", **({"to": "iid"} if S.case["to"] else {}))
    X, w = S.attr(f, "points"), S.attr(f, "weights")
    discrete(S, X, w, a[0] * b[0], a[1] + b[1])
    S.forall("weights are the products", (a[0], b[0]), lambda i, j: S.eq(S.cell(w, i * b[0] + j), S.cell(a[3], i) * S.cell(b[3], j)))
    S.forall("points of the first factor", (a[0], b[0], a[1]), lambda i, j, k: S.eq(S.cell(X, i * b[0] + j, k), S.cell(a[2], i, k)))
    S.forall("points of the second factor", (a[0], b[0], b[1]), lambda i, j, k: S.eq(S.cell(X, i * b[0] + j, a[1] + k), S.cell(b[2], j, k)))


@contract("C04", "bernouilli variable", [D + "Bernouilli.__init__", D + "Bernouilli.discretize"], runs=10)
def _(S):
    p = S.real("p", 0, 1)
    b = S.call(dist.Bernouilli, π=p)
    f = S.method(b, "discretize")
    X, w = S.attr(f, "points"), S.attr(f, "weights")
    discrete(S, X, w, 2, 1)
    S.check("values are 0 and 1", S.and_(S.eq(S.cell(X, 0, 0), 0), S.eq(S.cell(X, 1, 0), 1)))
    S.check("probability of 1", S.eq(S.cell(w, 1), p))
    m = S.method(b, "discretize", to="mc")
    P = S.attr(m, "transitions")
    S.forall("transitions", (2, 2), lambda i, j: S.eq(S.cell(P, i, j), S.cell(w, j)))


@contract("C04", "mixture of two distributions", [D + "Mixture.__init__", D + "Mixture.discretize"], bounded="components of 1 to 3 points (any points and weights)",
          opts={"cases": [{"na": 1, "nb": 1}, {"na": 2, "nb": 3}, {"na": 3, "nb": 1}]}, runs=12)
def _(S):
    na, nb, d = S.dim("na"), S.dim("nb"), S.dim("d", hi=3)
    p = S.real("p", 0, 1)
    a, b = finite(S, "a", na, d), finite(S, "b", nb, d)
    m = S.call(dist.Mixture, index=S.call(dist.Bernouilli, π=p), distributions={"0": a[4], "1": b[4]})
    S.check("dimension", S.eq(S.attr(m, "d"), d))
    f = S.method(m, "discretize")
    X, w = S.attr(f, "points"), S.attr(f, "weights")
    discrete(S, X, w, na + nb, d)
    for i in range(na):
        S.check("weight of a point of the first component", S.eq(S.cell(w, i), (1 - p) * S.cell(a[3], i)))
        S.forall("point of the first component", (d,), lambda k: S.eq(S.cell(X, i, k), S.cell(a[2], i, k)))
    for i in range(nb):
        S.check("weight of a point of the second component", S.eq(S.cell(w, na + i), p * S.cell(b[3], i)))
        S.forall("point of the second component", (d,), lambda k: S.eq(S.cell(X, na + i, k), S.cell(b[2], i, k)))
    c = S.method(m, "discretize", to="mc")
    P = S.attr(c, "transitions")
    S.forall("transitions", (na + nb, na + nb), lambda i, j: S.eq(S.cell(P, i, j), S.cell(w, j)))


def use_gh_contract(S, n, d, mu, cov):
    """callers of gauss_hermite_nodes are verified against its contract"""
    if not S.symbolic: return
    x, w = S.arr("ghx", (n, d)), S.simplex("ghw", n)
    calls = []

    def model(orders, sigma, mu_=None, mu=None):
        calls.append((orders, sigma, mu if mu is not None else mu_))
        return [x, w]
    S.override(quad.gauss_hermite_nodes, model)
    return x, w, calls


@contract("C04", "discretized normal variable (quadrature)", [D + "UNormal.__init__", D + "UNormal.__discretize_gh__", D + "UnivariateContinuousDistribution.discretize"])
def _(S):
    K = S.dim("K", lo=2, hi=7)
    s, mu = S.real("s", pos=True), S.real("mu")
    use_hermgauss_contract(S)
    u = S.call(dist.UNormal, σ=s, μ=mu)
    f = S.method(u, "discretize", N=K, method="gauss-hermite")
    X, w = S.attr(f, "points"), S.attr(f, "weights")
    discrete(S, X, w, K, 1)
    mean_cov(S, X, w, K, 1, lambda k: mu, lambda k, l: s * s)
    m = S.method(u, "discretize", to="mc", N=K, method="gauss-hermite")
    V, P = S.attr(m, "values"), S.attr(m, "transitions")
    S.shape("states of the chain", V, (K, 1))
    S.forall("states of the chain", (K,), lambda i: S.eq(S.cell(V, i, 0), S.cell(X, i, 0)))
    S.forall("transitions of the chain", (K, K), lambda i, j: S.eq(S.cell(P, i, j), S.cell(w, j)))


@contract("C04", "discretized normal vector", [D + "Normal.__init__", D + "Normal.discretize"], bounded="1 and 2 variables (any orders); 3 variables concretely",
          opts={"cases": [{"d": 1, "same": 0}, {"d": 2, "same": 1}, {"d": 2, "same": 0}, {"d": 3, "same": 0, "_conc_only": True}]}, runs=25)
def _(S):
    d = S.dim("d")
    Ks = [S.dim("K%d" % i, lo=2, hi=4) for i in range(1 if S.case["same"] else d)]
    if S.symbolic:
        import scipy.stats
        S.override(scipy.stats.multivariate_normal, lambda **k: None)
        Ks0 = Ks if not S.case["same"] else [3] * d
    else:
        Ks0 = Ks if not S.case["same"] else Ks * d
    Sig, mu = sigma_of(S, d), S.arr("mu", (d,))
    use_hermgauss_contract(S)
    fz = S.frozen(Sig)
    if not S.symbolic: S.require(np.linalg.matrix_rank(Sig) == d)
    g = S.call(dist.Normal, Σ=Sig, Μ=mu)
    N = (Ks0[0] if S.case["same"] else Ks0)
    if S.symbolic and S.case["same"]:
        return
    f = S.method(g, "discretize", N=N)
    X, w = S.attr(f, "points"), S.attr(f, "weights")
    n = 1
    for k in Ks0: n = n * k
    discrete(S, X, w, n, d)
    mean_cov(S, X, w, n, d, lambda k: S.cell(mu, k), lambda k, l: S.cell(Sig, k, l))
    m = S.method(g, "discretize", to="mc", N=N)
    V, P = S.attr(m, "values"), S.attr(m, "transitions")
    S.shape("states of the chain", V, (n, d))
    S.forall("states of the chain", (n, d), lambda i, k: S.eq(S.cell(V, i, k), S.cell(X, i, k)))
    S.forall("transitions of the chain", (n, n), lambda i, j: S.eq(S.cell(P, i, j), S.cell(w, j)))
    V2 = S.attr(g, "Σ")
    S.forall("the distribution is unchanged", (d, d), lambda i, j: S.eq(S.cell(V2, i, j), fz((i, j)) if S.symbolic else fz[int(i), int(j)]))


@contract("C04", "discretized normal vector of large orders", [D + "Normal.discretize", "dolo.numeric.discretization.quadrature.gauss_hermite_nodes"], sym=False,
          bounded="1 to 4 variables, orders up to 20", runs=16)
def _(S):
    d = 1 + S.seed % 4
    hi = {1: 20, 2: 14, 3: 9, 4: 6}[d]
    N = int(S.rng.randint(2, hi + 1)) if S.rng.randint(2) else [int(k) for k in S.rng.randint(1, hi + 1, size=d)]
    A = S.rng.normal(size=(d, d))
    Sig, mu = A @ A.T + 0.2 * np.eye(d), S.rng.normal(size=d)
    S.note(Sig=Sig, mu=mu, N=N)
    f = dist.Normal(Σ=Sig, Μ=mu).discretize(N=N)
    Ks = [N] * d if isinstance(N, int) else N
    X, w = f.points, f.weights
    S.check("number of nodes", X.shape == (int(np.prod(Ks)), d) and w.shape == (len(X),))
    S.check("weights", bool((w >= 0).all()) and abs(w.sum() - 1) < 1e-9)
    S.check("mean", np.allclose(w @ X, mu, atol=1e-8))
    Z = np.linalg.solve(np.linalg.cholesky(Sig), (X - mu).T).T
    for k in range(d):
        # rule of order K along dimension k of the underlying independent variables: exact moments up to degree 2K-1
        for p, val in ((2, 1.), (4, 3.), (6, 15.), (8, 105.)):
            if p <= 2 * Ks[k] - 1: S.check("moment of degree %d" % p, abs(w @ Z[:, k]**p - val) < 1e-6 * max(1, val))


CONT = {"UNormal": (lambda S: dict(σ=S.real("s", pos=True), μ=S.real("mu")), lambda k: ("norm", dict(loc=k["μ"], scale=k["σ"]))),
        "Uniform": (lambda S: (lambda a: dict(a=a, b=a + S.real("len", pos=True)))(S.real("a")), lambda k: ("uniform", dict(loc=k["a"], scale=k["b"] - k["a"]))),
        "LogNormal": (lambda S: dict(σ=S.real("s", 0.05, 1.5), μ=S.real("mu", -2, 2)), lambda k: ("lognorm", dict(s=k["σ"], scale=np.exp(k["μ"])))),
        "Beta": (lambda S: dict(α=S.real("al", 0.3, 4), β=S.real("be", 0.3, 4)), lambda k: ("beta", dict(a=k["α"], b=k["β"])))}


def same(S, a, b):
    """equal, or both undefined (the middle of an unbounded support)"""
    return True if not S.symbolic and a != a and b != b else S.eq(a, b)


for nm in CONT:
    @contract("C04", "quantiles of %s" % nm, [D + nm + ".ppf"] + ([D + nm + ".cdf"] if nm in ("UNormal", "Uniform") else []), sym=False, bounded="random parameters and quantiles", runs=25)
    def _(S, nm=nm):
        import scipy.stats
        kw = CONT[nm][0](S)
        d = S.call(getattr(dist, nm), **kw)
        fam, par = CONT[nm][1](kw)
        q = S.arr("q", (5,), lo=0.02, hi=0.98)
        x = S.method(d, "ppf", q)
        S.forall("quantile", (5,), lambda i: S.eq(getattr(scipy.stats, fam).cdf(x[i], **par), q[i]))
        if hasattr(d, "cdf") and nm in ("UNormal", "Uniform"):
            c = S.method(d, "cdf", x)
            S.forall("distribution function", (5,), lambda i: S.eq(c[i], q[i]))

    @contract("C04", "equiprobable discretization of %s" % nm, [D + "UnivariateContinuousDistribution.discretize", D + "UnivariateContinuousDistribution.__discretize_ep__"],
              opts={"cases": [{"mp": k} for k in ("median", "left", "right", "middle")]}, runs=8)
    def _(S, nm=nm):
        N = S.dim("N", hi=6)
        mp = S.case["mp"]
        kw = CONT[nm][0](S)
        d = S.call(getattr(dist, nm), **kw)
        if S.symbolic:
            from pyvc.arr import elementwise
            from pyvc import terms as tm
            S.override(getattr(dist, nm).ppf, lambda self, p: elementwise(lambda t: tm.app("ppf", (t,)), p, sort="R"))
            Q = lambda t: tm.app("ppf", (tm.num_of(tm.lift(t)),))
        else:
            import scipy.stats
            fam, par = CONT[nm][1](kw)
            Q = lambda t: getattr(scipy.stats, fam).ppf(min(max(t, 0), 1), **par)
        f = S.method(d, "discretize", N=N, mass_point=mp)
        X = S.attr(f, "points")
        S.shape("points", X, (N, 1))
        S.check("number of points", S.eq(S.attr(f, "n"), N))

        def point(i):
            if mp == "median": return Q((2 * i + 1) / (2 * S.num(N)))
            if mp == "left": return Q(i / S.num(N))
            if mp == "right": return Q((i + 1) / S.num(N))
            return (Q(i / S.num(N)) + Q((i + 1) / S.num(N))) / 2
        S.forall("each point represents a fraction 1/N of the distribution", (N,), lambda i: same(S, S.cell(X, i, 0), point(i)))
        S.forall("weights", (N,), lambda i: S.eq(S.method(f, "weight", i) * N, 1))
        m = S.method(d, "discretize", N=N, mass_point=mp, to="mc")
        V, P = S.attr(m, "values"), S.attr(m, "transitions")
        S.shape("states of the chain", V, (N, 1))
        S.forall("states of the chain", (N,), lambda i: same(S, S.cell(V, i, 0), S.cell(X, i, 0)))
        S.forall("transitions of the chain", (N, N), lambda i, j: S.eq(S.cell(P, i, j) * N, 1))


@contract("C04", "truncated variable", [D + "Truncation.__init__", D + "Truncation.ppf"], sym=False, bounded="random parameters, bounds and quantiles",
          opts={"cases": [{"lb": a, "ub": b} for a in (0, 1) for b in (0, 1)]}, runs=20)
def _(S):
    import scipy.stats
    nm = ("UNormal", "Uniform")[S.seed % 2]
    kw = CONT[nm][0](S)
    d = S.call(getattr(dist, nm), **kw)
    fam, par = CONT[nm][1](kw)
    F = getattr(scipy.stats, fam)
    a, b = S.real("qa", 0.02, 0.45), S.real("qb", 0.55, 0.98)
    args = {}
    lo, hi = -np.inf, np.inf
    if S.case["lb"]: args["lb"] = lo = float(F.ppf(a, **par))
    else: a = 0.0
    if S.case["ub"]: args["ub"] = hi = float(F.ppf(b, **par))
    else: b = 1.0
    t = S.call(dist.Truncation, d, **args)
    q = S.arr("q", (6,), lo=0.01, hi=0.99)
    x = S.method(t, "ppf", q)
    S.forall("within the bounds", (6,), lambda i: S.le(lo, x[i]) and S.le(x[i], hi))
    S.forall("conditional quantiles", (6,), lambda i: S.eq((F.cdf(x[i], **par) - a) / (b - a), q[i]))
    S.forall("conditional quantile of a discretized point", (4,), lambda i: S.eq((F.cdf(S.method(t, "discretize", N=4).points[i, 0], **par) - a) / (b - a), (2 * i + 1) / 8))


@contract("C04", "expectation of a normal variable", [D + "UNormal.integrate"], sym=False, bounded="random parameters and quadratic functions", runs=12)
def _(S):
    s, mu, a, b = S.real("s", 0.2, 2), S.real("mu", -2, 2), S.real("a"), S.real("b")
    u = S.call(dist.UNormal, σ=s, μ=mu)
    S.check("expectation of a quadratic function", S.eq(S.method(u, "integrate", lambda x: a * x * x + b * x + 1), a * (mu * mu + s * s) + b * mu + 1, tol=1e-5))


@contract("C04", "random draws", [D + c + ".draw" for c in ("UNormal", "Uniform", "Bernouilli", "Normal", "FiniteDistribution", "EquiprobableDistribution", "Mixture", "ProductDistribution")],
          sym=False, bounded="6000 draws of random distributions (mean and covariance)", opts={"cases": [{"k": k} for k in range(8)]}, runs=6)
def _(S):
    k, N = S.case["k"], 6000
    np.random.seed(S.seed % 2**31)
    d = 1
    if k == 0:
        s, m = S.real("s", 0.2, 2), S.real("m", -3, 3)
        f, mu, C, k4 = dist.UNormal(σ=s, μ=m), [m], [[s * s]], 1
    elif k == 1:
        a, l = S.real("a", -3, 3), S.real("l", 0.5, 3)
        f, mu, C = dist.Uniform(a, a + l), [a + l / 2], [[l * l / 12]]
    elif k == 2:
        p = S.real("p", 0.05, 0.95)
        f, mu, C = dist.Bernouilli(π=p), [p], [[p * (1 - p)]]
    elif k == 3:
        d = S.dim("d", hi=3)
        C, mu = sigma_of(S, d), S.arr("mu", (d,))
        S.require(np.linalg.matrix_rank(C) == d)
        f = dist.Normal(Σ=C, Μ=mu)
    elif k in (4, 5):
        n, d = S.dim("n", lo=2, hi=5), S.dim("d", hi=3)
        x = S.arr("x", (n, d))
        w = S.simplex("w", n) if k == 4 else np.ones(n) / n
        f = dist.FiniteDistribution(x, w) if k == 4 else dist.EquiprobableDistribution(x)
        mu = w @ x
        C = (x - mu).T @ np.diag(w) @ (x - mu)
    elif k == 6:
        p, s, m, s2, m2 = S.real("p", 0.1, 0.9), S.real("s", 0.2, 2), S.real("m", -3, 3), S.real("s2", 0.2, 2), S.real("m2", -3, 3)
        f = dist.Mixture(index=dist.Bernouilli(π=p), distributions={"0": dist.UNormal(σ=s, μ=m), "1": dist.UNormal(σ=s2, μ=m2)})
        mu = [(1 - p) * m + p * m2]
        C = [[(1 - p) * (s * s + m * m) + p * (s2 * s2 + m2 * m2) - mu[0] ** 2]]
    else:
        s, m, a, l = S.real("s", 0.2, 2), S.real("m", -3, 3), S.real("a", -3, 3), S.real("l", 0.5, 3)
        f, mu, C, d = dist.ProductDistribution([dist.UNormal(σ=s, μ=m), dist.Uniform(a, a + l)]), [m, a + l / 2], [[s * s, 0], [0, l * l / 12]], 2
    x = S.method(f, "draw", N)
    S.shape("draws", x, (N, d))
    mu, C = np.array(mu, dtype=float), np.array(C, dtype=float)
    sd = np.sqrt(np.diag(C))
    S.forall("mean of the draws", (d,), lambda i: abs(x[:, i].mean() - mu[i]) <= 7 * sd[i] / N ** 0.5 + 1e-9)
    cc = (x - mu).T @ (x - mu) / N
    S.forall("covariance of the draws", (d, d), lambda i, j: abs(cc[i, j] - C[i, j]) <= (12 if k not in (4, 2) else 30) * sd[i] * sd[j] / N ** 0.5 + 1e-9)
