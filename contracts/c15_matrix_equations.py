"""C15: matrix equations (linear with several terms, Sylvester, second order)."""
import numpy as np
import scipy.linalg
from pyvc.spec import contract
from pyvc.arr import asarr
import pyvc.terms as tm
import dolo.numeric.extern.qz as qz
import dolo.numeric.matrix_equations as me

MOD = "dolo.numeric.matrix_equations."


def entry(S, A, X, B, i, k, p, q):
    return S.sum(0, p, lambda j: S.sum(0, q, lambda l: S.cell(A, i, j) * S.cell(X, j, l) * S.cell(B, l, k)))


class Solve:
    """contract of numpy.linalg.solve: one system with a regular matrix, whose rows are satisfied"""

    def __init__(self, S, *shape):
        # the unknown is written as an array of the given shape, taken in a row
        self.S, self.calls, self.shp = S, [], shape
        if S.symbolic:
            S.override(np.linalg.solve, self.solve)

    def solve(self, L, b):
        S = self.S
        L, b = asarr(L), asarr(b)
        S.check("square system, one right hand side", S.and_(L.ndim == 2, b.ndim == 1))
        n = L.shp[0]
        S.check("square system: columns", S.eq(L.shp[1], n))
        S.check("square system: right hand side", S.eq(b.shp[0], n))
        p, q = self.shp
        S.check("square system: unknowns", S.eq(n, p * q))
        X = S.arr("solve%d" % len(self.calls), (p, q))
        x = S.array((n,), lambda c: S.cell(X, S.idiv(c, q), S.mod(c, q)))
        self.calls.append((L.copy(), b.copy(), x, n))
        return x

    def row(self, r):
        S = self.S
        return S.and_(*[S.implies(S.and_(S.le(0, r), S.lt(r, n)), S.eq(S.sum(0, n, lambda c: S.cell(L, r, c) * S.cell(x, c)), S.cell(b, r)))
                        for L, b, x, n in self.calls])


def digits(S, q, shape):
    S.forall("row and column of an entry", tuple(shape) + (q,), lambda *i: S.and_(S.eq(S.idiv(i[-1], q), 0), S.eq(S.mod(i[-1], q), i[-1])))


def inside(S, t, q, *ks):
    """t where k < q is used in quotients and remainders (proved under "row and column of an entry")"""
    if not S.symbolic:
        return True
    m = {}
    for k in ks:
        m[S.idiv(k, q)], m[S.mod(k, q)] = tm.ZERO, k
    return tm.replace(t, m)


def regular(S, terms, n, q):
    if not S.symbolic:
        L = sum(np.kron(np.asarray(A), np.asarray(B).T) for A, B in terms)
        S.require(np.linalg.cond(L) < 1e8)


def laid(S, a):
    """the same array, stored by rows, by columns or with gaps (memory layouts are not modelled)"""
    if S.symbolic or S.seed % 3 == 0: return a
    if S.seed % 3 == 1: return np.asfortranarray(a)
    b = np.zeros(tuple(2 * k for k in a.shape))
    b[tuple(slice(None, None, 2) for _ in a.shape)] = a
    return b[tuple(slice(None, None, 2) for _ in a.shape)]


@contract("C15", "linear matrix equations with several terms", [MOD + "solve_sylvester_vectorized"],
          opts={"cases": [{"k": 1}, {"k": 2}, {"k": 3}]})
def _(S):
    n, q = S.dims("n q")
    terms = [(laid(S, S.arr("A%d" % t, (n, n))), laid(S, S.arr("B%d" % t, (q, q)))) for t in range(S.case["k"])]
    K = laid(S, S.arr("K", (n, q)))
    regular(S, terms, n, q)
    fz = [(S.frozen(A), S.frozen(B)) for A, B in terms]
    k0 = S.frozen(K)
    solver = Solve(S, n, q)
    X = S.call(me.solve_sylvester_vectorized, *(terms + [K]))
    S.shape("solution", X, (n, q))
    digits(S, q, (n,))
    S.steps("A1 X B1 + ... + Ak X Bk + K = 0", (n, q), lambda i, k: True, [
        lambda i, k: S.lt(q * i + k, n * q),
        lambda i, k: S.eq(sum((entry(S, A, X, B, i, k, n, q) for A, B in terms), S.cell(K, i, k)), 0)],
        using=[lambda i, k: inside(S, solver.row(q * i + k), q, k)])
    for (A, B), (a, b) in zip(terms, fz):
        S.unchanged("left coefficient unchanged", A, a)
        S.unchanged("right coefficient unchanged", B, b)
    S.unchanged("constant unchanged", K, k0)


def tuples(S, nd, v): return (v,) * nd


def summed(S, nd, v, f):
    """sum of f over nd indices below v"""
    def go(k, idx):
        return f(*idx) if k == nd else S.sum(0, v, lambda j: go(k + 1, idx + (j,)))
    return go(0, ())


@contract("C15", "Sylvester equation", [MOD + "solve_sylvester"],
          opts={"cases": [{"nd": 1}, {"nd": 2}, {"nd": 3}, {"nd": 4, "_conc_only": True}], "assumes": ["solve_sylvester_vectorized: its contract, of this property"]})
def _(S):
    nd = S.case["nd"]
    n, v = S.dims("n v") if S.symbolic else (S.dim("n", hi=4), S.dim("v", hi=4 if nd < 3 else 2))
    A, B, C, D = [laid(S, a) for a in (S.arr("A", (n, n)), S.arr("B", (n, n)), S.arr("C", (v, v)), S.arr("D", (n,) + (v,) * nd))]
    N = 1
    for _ in range(nd): N = N * v
    if not S.symbolic:
        CC = np.asarray(C)
        for _ in range(nd - 1): CC = np.kron(CC, np.asarray(C))
        regular(S, [(A, np.eye(N)), (B, CC)], n, N)
    fz = [S.frozen(x) for x in (A, B, C, D)]
    Y, calls = S.arr("Y", (n,) + (v,) * nd) if S.symbolic else None, []

    def flat_index(k):
        """indices of the k-th entry of a row of Y"""
        out = []
        for _ in range(nd - 1):
            out.append(S.mod(k, v)); k = S.idiv(k, v)
        return tuple([k] + out[::-1])

    def vectorized(*args):
        calls.append(args)
        return S.array((n, N), lambda i, k: S.cell(Y, i, *flat_index(k)))

    def equation(i, k):
        """row i, column k of  A1 X B1 + A2 X B2 + K = 0  as solved"""
        (a1, b1), (a2, b2), K = calls[0]
        X = lambda j, l: S.cell(Y, j, *flat_index(l))
        return S.eq(sum((S.sum(0, n, lambda j: S.sum(0, N, lambda l: S.cell(a, i, j) * X(j, l) * S.cell(b, l, k))) for a, b in ((a1, b1), (a2, b2))), S.cell(K, i, k)), 0)
    if S.symbolic:
        S.override(me.solve_sylvester_vectorized, vectorized)
    X = S.call(me.solve_sylvester, A, B, C, D)
    S.shape("solution", X, (n,) + (v,) * nd)
    if S.symbolic:
        S.check("one equation is solved", len(calls) == 1 and len(calls[0]) == 3)
        for a, b in calls[0][:2]:
            S.shape("left coefficient", a, (n, n))
            S.shape("right coefficient", b, (N, N))
        S.shape("constant", calls[0][2], (n, N))
        digits(S, v, ())

    def row(i, *k):
        K = k[0]
        for j in k[1:]: K = K * v + j
        return inside(S, equation(i, K), v, *k)
    S.steps("A X + B X [C, ..., C] + D = 0", (n,) + (v,) * nd, lambda *i: True, [lambda i, *k: S.eq(
        S.sum(0, n, lambda j: S.cell(A, i, j) * S.cell(X, j, *k))
        + S.sum(0, n, lambda j: summed(S, nd, v, lambda *l: S.cell(B, i, j) * S.cell(X, j, *l) * prod([S.cell(C, p, q) for p, q in zip(l, k)])))
        + S.cell(D, i, *k), 0)], using=[row] if S.symbolic else [])
    for x, y in zip((A, B, C, D), fz): S.unchanged("coefficients unchanged", x, y)


def prod(l):
    r = l[0]
    for x in l[1:]: r = r * x
    return r


def mm(S, A, B, i, j, n): return S.sum(0, n, lambda k: S.cell(A, i, k) * S.cell(B, k, j))


@contract("C15", "second order equation", [MOD + "second_order_solver"], conc=False,
          opts={"assumes": ["qzordered returns orthogonal matrices which order the roots of the pencil, so that the last columns of its last matrix are orthogonal to the deflating subspace "
                            "of the biggest ratios (scipy.linalg.ordqz); as many roots lie inside the unit circle as there are states", "numpy.linalg.solve returns the solution of a regular system"]})
def _(S):
    n = S.dim("n")
    c = S.cell
    F, G, P = S.arr("F", (n, n)), S.arr("G", (n, n)), S.arr("P", (n, n))
    PP = S.array((n, n), lambda i, j: mm(S, P, P, i, j, n))
    # P is the stable solution
    H = S.array((n, n), lambda i, j: -mm(S, F, PP, i, j, n) - mm(S, G, P, i, j, n))
    fz = [S.frozen(x) for x in (F, G, H)]
    W = S.arr("W", (n, n))                # top right block of the last matrix (regular)
    s, t, u, ev, Z1 = S.arr("s", (2 * n, 2 * n)), S.arr("t", (2 * n, 2 * n)), S.arr("u", (2 * n, 2 * n)), S.arr("ev", (2 * n,)), S.arr("Z1", (2 * n, n))
    # last columns orthogonal to the subspace spanned by (P, I)
    z = S.array((2 * n, 2 * n), lambda i, j: S.ite(j < n, c(Z1, i, j), S.ite(i < n, c(W, i, j - n), -S.sum(0, n, lambda k: c(P, k, i - n) * c(W, k, j - n)))))
    V = S.array((2 * n, n), lambda i, j: S.ite(i < n, c(P, i, j), S.ite(S.eq(i - n, j), 1.0, 0.0)))
    calls = []

    def qzo(A, B, k=1.0):
        calls.append(k)
        # Delta x = r Xi x for the biggest ratios: the smallest roots of the equation
        for lab, off in (("first", 0), ("second", n)):
            S.forall("pencil, %s rows" % lab, (n, n), lambda i, j: S.eq(
                S.sum(0, n, lambda l: c(B, i + off, l) * c(P, l, j)) + c(B, i + off, n + j),
                S.sum(0, n, lambda l: c(A, i + off, l) * c(PP, l, j)) + S.sum(0, n, lambda l: c(A, i + off, n + l) * c(P, l, j))))
        return [s, t, u, z, ev]

    def solve(a, b):
        S.shape("matrix", a, (n, n))
        S.shape("right hand side", b, (n, n))
        S.forall("system solved", (n, n), lambda i, j: S.eq(c(b, i, j), -S.sum(0, n, lambda k: c(a, i, k) * c(P, k, j))))
        return S.array((n, n), lambda i, j: -c(P, i, j))
    S.override(qz.qzordered, qzo)
    S.override(np.linalg.solve, solve)
    e, R = S.call(me.second_order_solver, F, G, H)
    S.check("roots are separated at the unit circle", len(calls) > 0 and all(abs(k - 1) < 1e-2 for k in calls))
    S.shape("solution", R, (n, n))
    S.forall("the stable solution is returned", (n, n), lambda i, j: S.eq(c(R, i, j), c(P, i, j)))
    S.check("eigenvalues", e is ev)
    for x, y in zip((F, G, H), fz): S.unchanged("coefficients unchanged", x, y)


@contract("C15", "second order equation, random coefficients", [MOD + "second_order_solver", "dolo.numeric.extern.qz.qzordered"], sym=False, bounded="up to five unknowns, real and complex roots", runs=150)
def _(S):
    n = int(S.rng.randint(1, 6))

    def stable():
        M = S.rng.normal(size=(n, n))
        return M * (S.rng.uniform(0.1, 0.95) / max(abs(np.linalg.eigvals(M)).max(), 1e-3))
    P, Q, T = stable(), stable(), S.rng.normal(size=(n, n))
    S.require(np.linalg.cond(T) < 50 and np.linalg.cond(P) < 1e4)
    # T (Q X - I) (X - P) "=" 0 : the roots are those of P and the inverses of those of Q
    F, G = T @ Q, -T @ (np.eye(n) + Q @ P)
    H = -(F @ P @ P + G @ P)
    a = [x.copy() for x in (F, G, H)]
    e, R = S.call(me.second_order_solver, F, G, H)
    S.check("shape", R.shape == (n, n))
    S.check("F P P + G P + H = 0", np.abs(F @ R @ R + G @ R + H).max() < 1e-6 * (1 + np.abs(R).max()) ** 2 * (1 + np.abs(T).max()))
    S.check("the solution is stable", np.abs(np.linalg.eigvals(R)).max() < 1)
    S.check("the stable solution is returned", np.allclose(R, P, atol=1e-6))
    S.check("coefficients unchanged", all(np.array_equal(x, y) for x, y in zip(a, (F, G, H))))
