"""C01: Cartesian grids."""
import numpy as np
from pyvc.spec import contract, module

misc = module("dolo.numeric.misc")
grids = module("dolo.numeric.grids")
objects = module("dolo.compiler.objects")

AX = [{"d": 1}, {"d": 2}, {"d": 3}]
AXB = "1 to 3 axes (any number of points on each axis, any bounds)"
TRUST = ["quantecon.cartesian returns the lexicographic Cartesian product (trusted dependency)"]


def lin(S, a, b, n, i):
    """i-th of n equally spaced points of [a, b]"""
    return S.ite(S.le(n, 1), a, a + (b - a) * S.quot(i, S.fmax(n - 1, 1)))


def flat(ns, ix):
    r = 0
    for n, i in zip(ns, ix):
        r = r * n + i
    return r


def prodn(ns):
    r = 1
    for n in ns:
        r = r * n
    return r


def assume_mlinspace(S):
    """callers are verified against the contract of mlinspace (proved in 'multidimensional linspace')"""
    def model(a, b, orders, out=None):
        assert out is None
        ns = [S.getitem(orders, k) for k in range(len_(orders))]
        a = [S.getitem(a, k) for k in range(len(ns))]
        b = [S.getitem(b, k) for k in range(len(ns))]

        def val(i, c):
            ix = []
            for n in reversed(ns):
                ix.append(S.mod(i, n))
                i = S.idiv(i, n)
            ix = ix[::-1]
            r = lin(S, a[-1], b[-1], ns[-1], ix[-1])
            for k in range(len(ns) - 2, -1, -1):
                r = S.ite(S.eq(c, k), lin(S, a[k], b[k], ns[k], ix[k]), r)
            return r
        return S.array((prodn(ns), len(ns)), val)
    S.override(misc.mlinspace, model)


def len_(x):
    return int(str(x.shp[0])) if hasattr(x, "shp") else len(x)


def draw_box(S, d, tag="", use=True):
    ns = [S.dim("n%s%d" % (tag, k), hi=4) for k in range(d)]
    if use:
        assume_mlinspace(S)
    a = [S.real("a%s%d" % (tag, k)) for k in range(d)]
    b = [S.real("b%s%d" % (tag, k)) for k in range(d)]
    for k in range(d):
        if not S.symbolic and a[k] > b[k]:
            a[k], b[k] = b[k], a[k]
            S.note(**{"a%s%d" % (tag, k): a[k], "b%s%d" % (tag, k): b[k]})
        S.require(S.le(a[k], b[k]))
    return ns, a, b


def check_product(S, label, nodes, ns, val):
    """nodes is the lexicographic product of the axes; val(k, i): i-th point of axis k"""
    d = len(ns)
    S.shape(label, nodes, (prodn(ns), d))
    S.forall(label, tuple(ns), lambda *ix: S.and_(*[S.eq(S.cell(nodes, flat(ns, ix), k), val(k, ix[k])) for k in range(d)]))


@contract("C01", "cartesian product of point lists", ["dolo.numeric.misc.cartesian"], bounded=AXB, opts={"cases": AX})
def _(S):
    d = S.case["d"]
    ns = [S.dim("n%d" % k) for k in range(d)]
    xs = [S.arr("x%d" % k, (ns[k],)) for k in range(d)]
    R = S.call(misc.cartesian, xs)
    check_product(S, "points", R, ns, lambda k, i: S.cell(xs[k], i))


@contract("C01", "cartesian product of point lists of mixed types", ["dolo.numeric.misc.cartesian"],
          bounded="2 axes, integer and real points", opts={"cases": [{"o": 0}, {"o": 1}]})
def _(S):
    n, m = S.dims("n m")
    x, y = S.iarr("x", (n,), 0, 50), S.arr("y", (m,))
    xs = [x, y] if S.case["o"] == 0 else [y, x]
    R = S.call(misc.cartesian, xs)
    check_product(S, "points", R, [n, m] if S.case["o"] == 0 else [m, n], lambda k, i: S.cell(xs[k], i))


@contract("C01", "multidimensional linspace", ["dolo.numeric.misc.mlinspace", "dolo.numeric.misc.cartesian"], bounded=AXB, opts={"cases": AX})
def _(S):
    d = S.case["d"]
    ns, a, b = draw_box(S, d, use=False)
    R = S.call(misc.mlinspace, a, b, ns)
    check_product(S, "points", R, ns, lambda k, i: lin(S, a[k], b[k], ns[k], i))


def check_grid(S, g, ns, a, b, what="nodes", t=""):
    d = len(ns)
    X = S.attr(g, "nodes")
    check_product(S, t + what, X, ns, lambda k, i: lin(S, a[k], b[k], ns[k], i))
    S.check(t + "number of nodes", S.eq(S.attr(g, "n_nodes"), prodn(ns)))
    for k in range(d):
        S.check(t + "lower bound %d" % k, S.eq(S.cell(S.attr(g, "min"), k), a[k]))
        S.check(t + "upper bound %d" % k, S.eq(S.cell(S.attr(g, "max"), k), b[k]))
        S.check(t + "points on axis %d" % k, S.eq(S.cell(S.attr(g, "n"), k), ns[k]))
    if S.symbolic or prodn(ns) > 0:
        i = S.index("i" + t, prodn(ns))
        v = S.method(g, "node", i)
        S.shape(t + "node(i)", v, (d,))
        S.forall(t + "node(i)", (d,), lambda k: S.eq(S.cell(v, k), S.cell(X, i, k)))


@contract("C01", "uniform cartesian grid", ["dolo.numeric.grids.UniformCartesianGrid.__init__", "dolo.numeric.grids.Grid.nodes", "dolo.numeric.grids.Grid.n_nodes", "dolo.numeric.grids.Grid.node"],
          bounded=AXB, opts={"cases": AX})
def _(S):
    ns, a, b = draw_box(S, S.case["d"])
    g = S.call(grids.UniformCartesianGrid, a, b, ns)
    check_grid(S, g, ns, a, b)
    S.check("d", S.eq(S.attr(g, "d"), len(ns)))
    r = S.method(g, "__numba_repr__")
    for k in range(len(ns)):
        S.check("axis description %d" % k, S.and_(S.eq(r[k][0], a[k]), S.eq(r[k][1], b[k]), S.eq(r[k][2], ns[k])))


@contract("C01", "uniform cartesian grid, default number of points", ["dolo.numeric.grids.UniformCartesianGrid.__init__"],
          bounded="1 and 2 axes, 20 points each", opts={"cases": AX[:2]}, runs=12)
def _(S):
    d = S.case["d"]
    a = [S.real("a%d" % k) for k in range(d)]
    b = [S.real("b%d" % k) for k in range(d)]
    g = S.call(grids.UniformCartesianGrid, a, b)
    check_grid(S, g, [20] * d, a, b)


@contract("C01", "sum of two uniform grids", ["dolo.numeric.grids.UniformCartesianGrid.__add__"], bounded="1+1, 1+2 and 2+1 axes", opts={"cases": [{"d": 1, "e": 1}, {"d": 1, "e": 2}, {"d": 2, "e": 1}]})
def _(S):
    n1, a1, b1 = draw_box(S, S.case["d"])
    n2, a2, b2 = draw_box(S, S.case["e"], "q")
    g1 = S.call(grids.UniformCartesianGrid, a1, b1, n1)
    g2 = S.call(grids.UniformCartesianGrid, a2, b2, n2)
    g = S.method(g1, "__add__", g2)
    check_grid(S, g, n1 + n2, a1 + a2, b1 + b2, "product nodes")
    check_grid(S, g1, n1, a1, b1, t="first grid unchanged: ")
    check_grid(S, g2, n2, a2, b2, t="second grid unchanged: ")


@contract("C01", "product of two uniform grids", ["dolo.numeric.grids.Grid.__mul__", "dolo.numeric.grids.cat_grids"], bounded="1+1, 1+2 and 2+1 axes", opts={"cases": [{"d": 1, "e": 1}, {"d": 1, "e": 2}, {"d": 2, "e": 1}]})
def _(S):
    n1, a1, b1 = draw_box(S, S.case["d"])
    n2, a2, b2 = draw_box(S, S.case["e"], "q")
    g1 = S.call(grids.UniformCartesianGrid, a1, b1, n1)
    g2 = S.call(grids.UniformCartesianGrid, a2, b2, n2)
    g = S.method(g1, "__mul__", g2)
    check_grid(S, g, n1 + n2, a1 + a2, b1 + b2, "product nodes")
    check_grid(S, g1, n1, a1, b1, t="first grid unchanged: ")
    check_grid(S, g2, n2, a2, b2, t="second grid unchanged: ")


@contract("C01", "the empty grid is neutral", ["dolo.numeric.grids.cat_grids", "dolo.numeric.grids.EmptyGrid.__add__"], opts={"cases": [{"op": 0}, {"op": 1}]})
def _(S):
    n, a, b = draw_box(S, 2)
    g1 = S.call(grids.UniformCartesianGrid, a, b, n)
    e = S.call(grids.EmptyGrid)
    g = S.method(e, "__add__" if S.case["op"] else "__mul__", g1)
    check_grid(S, g, n, a, b, "nodes")
    S.check("no node", S.eq(S.attr(e, "n_nodes"), 0))


def draw_lists(S, d, tag=""):
    ns = [S.dim("n%s%d" % (tag, k)) for k in range(d)]
    return ns, [S.arr("x%s%d" % (tag, k), (ns[k],)) for k in range(d)]


def check_nonuniform(S, g, ns, xs, t=""):
    d = len(ns)
    X = S.attr(g, "nodes")
    check_product(S, t + "nodes", X, ns, lambda k, i: S.cell(xs[k], i))
    S.check(t + "number of nodes", S.eq(S.attr(g, "n_nodes"), prodn(ns)))
    for k in range(d):
        mn, mx = S.attr(g, "min"), S.attr(g, "max")
        S.check(t + "points on axis %d" % k, S.eq(S.cell(S.attr(g, "n"), k), ns[k]))
        S.forall(t + "lower bound %d" % k, (ns[k],), lambda i: S.le(S.getitem(mn, k), S.cell(xs[k], i)))
        S.forall(t + "upper bound %d" % k, (ns[k],), lambda i: S.le(S.cell(xs[k], i), S.getitem(mx, k)))
    i = S.index("i" + t, prodn(ns))
    v = S.method(g, "node", i)
    S.forall(t + "node(i)", (d,), lambda k: S.eq(S.cell(v, k), S.cell(X, i, k)))


@contract("C01", "non-uniform cartesian grid", ["dolo.numeric.grids.NonUniformCartesianGrid.__init__"], bounded=AXB, opts={"cases": AX, "assumes": TRUST})
def _(S):
    ns, xs = draw_lists(S, S.case["d"])
    g = S.call(grids.NonUniformCartesianGrid, xs)
    check_nonuniform(S, g, ns, xs)


@contract("C01", "sum of two non-uniform grids", ["dolo.numeric.grids.NonUniformCartesianGrid.__add__"], bounded="1+1 and 2+1 axes",
          opts={"cases": [{"d": 1, "e": 1, "m": 0}, {"d": 2, "e": 1, "m": 0}, {"d": 1, "e": 1, "m": 1}], "assumes": TRUST})
def _(S):
    n1, x1 = draw_lists(S, S.case["d"])
    n2, x2 = draw_lists(S, S.case["e"], "q")
    g1 = S.call(grids.NonUniformCartesianGrid, x1)
    g2 = S.call(grids.NonUniformCartesianGrid, x2)
    g = S.method(g1, "__mul__" if S.case["m"] else "__add__", g2)
    check_nonuniform(S, g, n1 + n2, x1 + x2)
    check_nonuniform(S, g1, n1, x1, "first grid unchanged: ")
    check_nonuniform(S, g2, n2, x2, "second grid unchanged: ")
    again = S.method(g1, "__mul__" if S.case["m"] else "__add__", g2)
    check_nonuniform(S, again, n1 + n2, x1 + x2, "again: ")


@contract("C01", "unstructured grid", ["dolo.numeric.grids.UnstructuredGrid.__init__"])
def _(S):
    N, d = S.dims("N d")
    X = S.arr("X", (N, d))
    g = S.call(grids.UnstructuredGrid, X)
    Y = S.attr(g, "nodes")
    S.shape("nodes", Y, (N, d))
    S.forall("nodes", (N, d), lambda i, k: S.eq(S.cell(Y, i, k), S.cell(X, i, k)))
    S.check("number of nodes", S.eq(S.attr(g, "n_nodes"), N))
    S.forall("bounds", (N, d), lambda i, k: S.and_(S.le(S.cell(S.attr(g, "min"), k), S.cell(X, i, k)), S.le(S.cell(X, i, k), S.cell(S.attr(g, "max"), k))))
    i = S.index("i", N)
    v = S.method(g, "node", i)
    S.forall("node(i)", (d,), lambda k: S.eq(S.cell(v, k), S.cell(X, i, k)))


@contract("C01", "module-level grid accessors", ["dolo.numeric.grids.node", "dolo.numeric.grids.nodes", "dolo.numeric.grids.n_nodes"])
def _(S):
    N, d = S.dims("N d")
    X = S.arr("X", (N, d))
    g = S.call(grids.UnstructuredGrid, X)
    Y = S.call(grids.nodes, g)
    S.forall("nodes", (N, d), lambda i, k: S.eq(S.cell(Y, i, k), S.cell(X, i, k)))
    S.check("number of nodes", S.eq(S.call(grids.n_nodes, g), N))
    i = S.index("i", N)
    v = S.call(grids.node, g, i)
    S.forall("node(i)", (d,), lambda k: S.eq(S.cell(v, k), S.cell(X, i, k)))


@contract("C01", "discretized rectangular domain", ["dolo.compiler.objects.CartesianDomain.__init__", "dolo.compiler.objects.CartesianDomain.discretize", "dolo.compiler.objects.CartesianDomain.min", "dolo.compiler.objects.CartesianDomain.max"],
          bounded=AXB, opts={"cases": AX})
def _(S):
    d = S.case["d"]
    ns, a, b = draw_box(S, d)
    names = ["z", "k", "b"][:d]
    dom = S.call(objects.CartesianDomain, **{names[k]: [a[k], b[k]] for k in range(d)})
    for k in range(d):
        S.check("domain bounds", S.and_(S.eq(S.cell(S.attr(dom, "min"), k), a[k]), S.eq(S.cell(S.attr(dom, "max"), k), b[k])))
        S.check("order of the states", S.attr(dom, "states")[k] == names[k])
    g = S.method(dom, "discretize", ns)
    check_grid(S, g, ns, a, b)
    g = S.method(dom, "discretize")
    for k in range(d):
        S.check("default number of points", S.eq(S.cell(S.attr(g, "n"), k), 10))
        S.check("default grid bounds", S.and_(S.eq(S.cell(S.attr(g, "min"), k), a[k]), S.eq(S.cell(S.attr(g, "max"), k), b[k])))
