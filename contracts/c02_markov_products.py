"""C02: products of Markov chains and accessors of discretized processes."""
import numpy as np
from pyvc.spec import contract, module

disc = module("dolo.numeric.discretization.discretization")
proc = module("dolo.numeric.processes")


def draw_chain(S, tag, n=None, d=None):
    n = S.dim("n" + tag) if n is None else n
    d = S.dim("d" + tag, hi=3) if d is None else d
    return n, d, S.arr("x" + tag, (n, d)), S.stochastic("P" + tag, n)


def split(S, r, ns):
    """multi-index of the flat state r (first chain slowest)"""
    out = []
    for n in reversed(ns):
        out.append(S.mod(r, n))
        r = S.idiv(r, n)
    return out[::-1]


def check_product(S, X, Q, chains):
    ns, ds = [c[0] for c in chains], [c[1] for c in chains]
    N = 1
    for n in ns: N = N * n
    D = 0
    for d in ds: D = D + d
    S.shape("nodes", X, (N, D))
    S.shape("transitions", Q, (N, N))
    off = 0
    for (n, d, x, P), k in zip(chains, range(len(chains))):
        def flat(ix):
            r = 0
            for m, i in zip(ns, ix): r = r * m + i
            return r
        S.forall("node components of chain %d" % k, tuple(ns) + (d,), lambda *ix, x=x, k=k, off=off: S.eq(S.cell(X, flat(ix[:-1]), off + ix[-1]), S.cell(x, ix[k], ix[-1])))
        off = off + d

    def q(*ij):
        i, j = ij[:len(ns)], ij[len(ns):]
        r = 1
        for c, a, b in zip(chains, i, j): r = r * S.cell(c[3], a, b)
        fi, fj = 0, 0
        for m, a, b in zip(ns, i, j): fi, fj = fi * m + a, fj * m + b
        return S.eq(S.cell(Q, fi, fj), r)
    S.forall("transition probability is the product", tuple(ns) * 2, q)
    S.forall("transition probabilities sum to one", (N,), lambda i: S.eq(S.sum(0, N, lambda j: S.cell(Q, i, j)), 1))
    S.forall("transition probabilities are not negative", tuple(ns) * 2, lambda *ij: S.le(0, S.cell(Q, flatten(ns, ij[:len(ns)]), flatten(ns, ij[len(ns):]))))


def flatten(ns, ix):
    r = 0
    for n, i in zip(ns, ix): r = r * n + i
    return r


@contract("C02", "product of two chains", ["dolo.numeric.discretization.discretization.tensor_markov"])
def _(S):
    c = [draw_chain(S, t) for t in "ab"]
    fz = [(S.frozen(x[2]), S.frozen(x[3])) for x in c]
    X, Q = S.call(disc.tensor_markov, *[(x[2], x[3]) for x in c])
    check_product(S, X, Q, c)
    for x, (f, g) in zip(c, fz):
        S.unchanged("nodes unchanged", x[2], f)
        S.unchanged("transitions unchanged", x[3], g)


@contract("C02", "product of three chains", ["dolo.numeric.discretization.discretization.tensor_markov"], runs=25)
def _(S):
    c = [draw_chain(S, t, n=S.dim("n" + t, hi=3)) for t in "abc"]
    X, Q = S.call(disc.tensor_markov, *[(x[2], x[3]) for x in c])
    check_product(S, X, Q, c)


@contract("C02", "product of many chains", ["dolo.numeric.discretization.discretization.tensor_markov", "dolo.numeric.processes.product_mc"],
          sym=False, bounded="concrete products of 4 to 7 chains of 1 to 3 states", runs=12)
def _(S):
    k = 4 + S.seed % 4
    c = [draw_chain(S, t, n=1 + S.rng.randint(3 if k < 6 else 2), d=1 + S.rng.randint(2)) for t in "abcdefg"[:k]]
    if S.seed % 2:
        X, Q = disc.tensor_markov(*[(x[2], x[3]) for x in c])
    else:
        M = proc.product_mc([proc.MarkovChain(x[3], x[2]) for x in c])
        X, Q = M.values, M.transitions
    X_, Q_ = c[0][2], c[0][3]
    for x in c[1:]:
        n = len(x[2])
        X_ = np.hstack([np.repeat(X_, n, axis=0), np.tile(x[2], (len(X_), 1))])
        Q_ = np.kron(Q_, x[3])
    S.check("states of the product", X.shape == X_.shape and np.array_equal(X, X_))
    S.check("transitions of the product", Q.shape == Q_.shape and np.allclose(Q, Q_, rtol=1e-10, atol=1e-14))


@contract("C02", "product of markov chain processes", ["dolo.numeric.processes.product_mc", "dolo.numeric.processes.MarkovChain.__init__"])
def _(S):
    c = [draw_chain(S, t) for t in "ab"]
    m = [S.call(proc.MarkovChain, x[3], x[2]) for x in c]
    M = S.call(proc.product_mc, m)
    check_product(S, S.attr(M, "values"), S.attr(M, "transitions"), c)
    S.check("dimension", S.eq(S.attr(M, "d"), c[0][1] + c[1][1]))


@contract("C02", "discretized product process", ["dolo.numeric.processes.ProductProcess.__init__", "dolo.numeric.processes.ProductProcess.discretize"], opts={"cases": [{"to": 0}, {"to": 1}]})
def _(S):
    c = [draw_chain(S, t) for t in "ab"]
    m = [S.call(proc.MarkovChain, x[3], x[2]) for x in c]
    pp = S.call(proc.ProductProcess, *m)
    S.check("dimension", S.eq(S.attr(pp, "d"), c[0][1] + c[1][1]))
    M = S.method(pp, "discretize", **({"to": "mc"} if S.case["to"] else {}))
    check_product(S, S.attr(M, "values"), S.attr(M, "transitions"), c)


@contract("C02", "accessors of a markov chain", ["dolo.numeric.processes.MarkovChain.node", "dolo.numeric.processes.MarkovChain.inode", "dolo.numeric.processes.MarkovChain.iweight", "dolo.numeric.processes.MarkovChain.n_nodes", "dolo.numeric.processes.MarkovChain.n_inodes", "dolo.numeric.processes.MarkovChain.grid", "dolo.numeric.processes.MarkovChain.discretize"])
def _(S):
    n, d, x, P = draw_chain(S, "a")
    m = S.call(proc.MarkovChain, P, x)
    i, j = S.index("i", n), S.index("j", n)
    S.check("n_nodes", S.eq(S.attr(m, "n_nodes"), n))
    S.check("n_inodes", S.eq(S.method(m, "n_inodes", i), n))
    S.check("iweight", S.eq(S.method(m, "iweight", i, j), S.cell(P, i, j)))
    v, w = S.method(m, "node", i), S.method(m, "inode", i, j)
    S.shape("node", v, (d,))
    S.forall("node", (d,), lambda k: S.eq(S.cell(v, k), S.cell(x, i, k)))
    S.shape("inode", w, (d,))
    S.forall("inode", (d,), lambda k: S.eq(S.cell(w, k), S.cell(x, j, k)))
    X = S.attr(S.attr(m, "grid"), "nodes")
    S.shape("grid", X, (n, d))
    S.forall("grid", (n, d), lambda a, k: S.eq(S.cell(X, a, k), S.cell(x, a, k)))
    Y = S.attr(m, "nodes")
    S.forall("nodes", (n, d), lambda a, k: S.eq(S.cell(Y, a, k), S.cell(x, a, k)))
    S.check("already discrete", S.method(m, "discretize") is m)
    g = S.method(m, "discretize", to="gdp")
    S.check("gdp n_nodes", S.eq(S.attr(g, "n_nodes"), n))
    S.check("gdp n_inodes", S.eq(S.method(g, "n_inodes", i), n))
    S.check("gdp iweight", S.eq(S.method(g, "iweight", i, j), S.cell(P, i, j)))
    v, w = S.method(g, "node", i), S.method(g, "inode", i, j)
    S.forall("gdp node", (d,), lambda k: S.eq(S.cell(v, k), S.cell(x, i, k)))
    S.forall("gdp inode", (d,), lambda k: S.eq(S.cell(w, k), S.cell(x, j, k)))


@contract("C02", "successors of a state", ["dolo.numeric.processes.DiscretizedProcess.iteritems"], sym=False, bounded="concrete chains of 1 to 4 states")
def _(S):
    n, d, x, P = draw_chain(S, "a")
    m = S.call(proc.MarkovChain, P, x)
    for i in range(n):
        it = list(m.iteritems(i))
        js = [j for j in range(n) if P[i, j] > 1e-16]
        S.check("one item per reachable state", len(it) == len(js))
        for (w, v), j in zip(it, js):
            S.check("weight", S.eq(w, P[i, j]))
            S.check("state", np.array_equal(v, x[j]))


@contract("C02", "constant process", ["dolo.numeric.processes.ConstantProcess.__init__", "dolo.numeric.processes.ConstantProcess.discretize"])
def _(S):
    d, N = S.dims("d N")
    mu = S.arr("mu", (d,))
    c = S.call(proc.ConstantProcess, μ=mu)
    S.check("dimension", S.eq(S.attr(c, "d"), d))
    m = S.method(c, "discretize", to="mc", N=N)
    X, Q = S.attr(m, "values"), S.attr(m, "transitions")
    S.shape("values", X, (N, d))
    S.shape("transitions", Q, (N, N))
    S.forall("every state is the constant", (N, d), lambda i, k: S.eq(S.cell(X, i, k), S.cell(mu, k)))
    S.forall("rows sum to one", (N,), lambda i: S.eq(S.sum(0, N, lambda j: S.cell(Q, i, j)), 1))
    S.forall("not negative", (N, N), lambda i, j: S.le(0, S.cell(Q, i, j)))
    f = S.method(c, "discretize", to="iid")
    S.check("one point", S.eq(S.method(f, "n_inodes", 0), 1))
    v = S.method(f, "inode", 0, 0)
    S.forall("the point is the constant", (d,), lambda k: S.eq(S.cell(v, k), S.cell(mu, k)))
    S.check("of weight one", S.eq(S.method(f, "iweight", 0, 0), 1))


@contract("C02", "constant of one variable", ["dolo.numeric.processes.ConstantProcess.__init__"], runs=6)
def _(S):
    m = S.real("m")
    c = S.call(proc.ConstantProcess, μ=[m])
    S.check("dimension", S.eq(S.attr(c, "d"), 1))
    S.check("value", S.eq(S.cell(S.attr(c, "μ"), 0), m))


@contract("C02", "product of a constant and a chain", ["dolo.numeric.processes.ProductProcess.discretize", "dolo.numeric.processes.product_mc"])
def _(S):
    n, d, x, P = draw_chain(S, "a")
    e = S.dim("e", hi=2)
    mu = S.arr("mu", (e,))
    pp = S.call(proc.ProductProcess, S.call(proc.ConstantProcess, μ=mu), S.call(proc.MarkovChain, P, x))
    M = S.method(pp, "discretize")
    X, Q = S.attr(M, "values"), S.attr(M, "transitions")
    S.shape("nodes", X, (n, e + d))
    S.shape("transitions", Q, (n, n))
    S.forall("constant part", (n, e), lambda i, k: S.eq(S.cell(X, i, k), S.cell(mu, k)))
    S.forall("chain part", (n, d), lambda i, k: S.eq(S.cell(X, i, e + k), S.cell(x, i, k)))
    S.forall("transitions", (n, n), lambda i, j: S.eq(S.cell(Q, i, j), S.cell(P, i, j)))
