"""C16: Hodrick-Prescott and band-pass filters."""
import numpy as np
import scipy.sparse
import scipy.sparse.linalg
import scipy.signal
from pyvc.spec import contract, module
from pyvc import terms as tm

fl = module("dolo.numeric.filters")
TRUST = {"assumes": ["scipy.sparse matrices behave as dense matrices", "scipy.sparse.linalg.spsolve(A, y) returns x with A x = y", "scipy.signal.fftconvolve(a, b, mode='valid') is the convolution, elements where the shorter one fits"]}


def sparse_models(S):
    """contract of the sparse solver: the solution satisfies every equation of the system"""
    if not S.symbolic:
        return
    k = [0]

    def spsolve(A, y, *a, **kw):
        k[0] += 1
        nm = "T%d" % k[0]
        n = A.shp[0]
        A, y = A.copy(), y.copy()
        S.fact(nm, lambda ix: [tm.implies(tm.and_(tm.le(tm.ZERO, ix[0]), tm.lt(ix[0], n)), tm.eq(tm.sumT(tm.ZERO, n, lambda j: A.at((ix[0], j)) * tm.app(nm, (j,))), y.at((ix[0],))))])
        return S.array((n,), lambda i: tm.app(nm, (i,)))
    S.override(scipy.sparse.linalg.spsolve, spsolve)


def stationary(S, T, Y, lam, n):
    """derivative (divided by two) of sum (Y-T)^2 + lam sum (T[s]-2T[s+1]+T[s+2])^2 with respect to each T[t]"""
    t_ = lambda i: S.cell(T, i)
    d = lambda s: t_(s) - 2 * t_(s + 1) + t_(s + 2)
    e = lambda t: t_(t) - S.cell(Y, t)
    S.check("the trend is stationary (first period)", S.eq(e(0) + lam * d(0), 0))
    S.check("the trend is stationary (second period)", S.eq(e(1) + lam * (d(1) - 2 * d(0)), 0))
    S.check("the trend is stationary (last period)", S.eq(e(n - 1) + lam * d(n - 3), 0))
    S.check("the trend is stationary (last but one)", S.eq(e(n - 2) + lam * (d(n - 4) - 2 * d(n - 3)), 0))
    S.forall("the trend is stationary", (n - 4,), lambda i: S.eq(e(i + 2) + lam * (d(i + 2) - 2 * d(i + 1) + d(i)), 0))


@contract("C16", "Hodrick-Prescott filter of one series", ["dolo.numeric.filters.hp_filter"], opts={"cases": [{"lam": 0}, {"lam": 1}], **TRUST})
def _(S):
    n = S.dim("n", lo=4, hi=9)
    Y = S.arr("Y", (n,))
    fz = S.frozen(Y)
    lam = S.real("lam", lo=0) if S.case["lam"] else 1600
    sparse_models(S)
    T, C = S.call(fl.hp_filter, Y, lam) if S.case["lam"] else S.call(fl.hp_filter, Y)
    S.shape("trend", T, (n,))
    S.shape("cycle", C, (n,))
    S.forall("trend and cycle add up", (n,), lambda t: S.eq(S.cell(T, t) + S.cell(C, t), S.cell(Y, t)))
    stationary(S, T, Y, lam, n)
    S.unchanged("data unchanged", Y, fz)


@contract("C16", "Hodrick-Prescott filter of several series", ["dolo.numeric.filters.hp_filter"], opts={"cases": [{"as": "array", "r": 2}, {"as": "list", "r": 2}, {"as": "array", "r": 1, "_conc_only": 1}, {"as": "array", "r": 4, "_conc_only": 1}], **TRUST}, bounded="two series (any length); one and four concretely")
def _(S):
    r = S.case["r"]
    n = S.dim("n", lo=4, hi=9)
    Y = S.arr("Y", (r, n))
    fz = S.frozen(Y)
    lam = S.real("lam", lo=0)
    sparse_models(S)
    T, C = S.call(fl.hp_filter, Y if S.case["as"] == "array" else [S.getitem(Y, i) for i in range(int(r))], lam)
    S.shape("trend", T, (r, n))
    S.shape("cycle", C, (r, n))
    S.forall("trend and cycle add up", (r, n), lambda i, t: S.eq(S.cell(T, i, t) + S.cell(C, i, t), S.cell(Y, i, t)))
    for i in range(int(r)):
        stationary(S, S.getitem(T, i), S.getitem(Y, i), lam, n)
    S.unchanged("data unchanged", Y, fz)


@contract("C16", "arrays with more axes are refused", ["dolo.numeric.filters.hp_filter"], runs=3, opts={"cases": [{"nd": 3}, {"nd": 4}]})
def _(S):
    Y = S.arr("Y", (5,) * S.case["nd"])
    e = S.expect_raise(fl.hp_filter, Y, 10)
    S.check("refused", e is not None)


@contract("C16", "band-pass filter", ["dolo.numeric.filters.bandpass_filter"], opts={"cases": [{"as": "array"}, {"as": "list"}], **TRUST})
def _(S):
    k = S.dim("k", lo=1, hi=4)
    m = S.dim("m", lo=0, hi=5)
    n = 2 * k + 1 + m
    Y = S.arr("Y", (n,))
    fz = S.frozen(Y)
    w1, w2 = S.real("w1", pos=True), S.real("w2", pos=True)
    data = Y
    if S.case["as"] == "list" and not S.symbolic:
        data = [float(v) for v in Y]
    R = S.call(fl.bandpass_filter, data, k, w1, w2)
    S.shape("one value for each period with k periods on both sides", R, (m + 1,))
    lo, hi = 2 * np.pi / w2, 2 * np.pi / w1
    ideal0 = (hi - lo) / np.pi
    ideal = lambda j: (S.sin(hi * j) - S.sin(lo * j)) / (np.pi * j)
    mean = S.quot(ideal0 + 2 * S.sum(1, k + 1, ideal), 2 * k + 1)
    S.forall("filtered with symmetric weights that add up to zero", (m + 1,), lambda t: S.eq(
        S.cell(R, t), ideal0 * S.cell(Y, t + k) + S.sum(1, k + 1, lambda j: ideal(j) * (S.cell(Y, t + k - j) + S.cell(Y, t + k + j))) - mean * S.sum(0, 2 * k + 1, lambda j: S.cell(Y, t + j))))
    S.unchanged("data unchanged", Y, fz)
