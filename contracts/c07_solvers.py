"""C07: Newton and complementarity searches."""
import types
import warnings
import numpy as np
from pyvc.spec import contract, module
from contracts.c06_complementarity import sol_max, BIG

nw = module("dolo.numeric.optimize.newton")
ncp = module("dolo.numeric.optimize.ncpsolve")
lm = module("dolo.numeric.extern.lmmcp")
Q = "dolo.numeric.optimize."
SOLVE = ["solve returns a value (numpy.linalg.solve, scipy.sparse.linalg.spsolve; serial_solve is specified by C08)"]


class Op:
    """a function of the whole vector of unknowns and its derivatives"""

    def __init__(self, S, shape, jac):
        self.S, self.shape, self.jac = S, shape, jac
        if not S.symbolic:
            self.kind = S.seed % 4
            n = shape[-1]
            self.A = np.eye(n) * 2 + S.rng.uniform(-1, 1, size=(n, n)) / n
            self.c = S.rng.uniform(-2, 2, size=shape)
            self.u = S.rng.normal(size=n)

    def value(self, X, *i):
        from pyvc import terms as tm
        if self.S.symbolic:
            return tm.app("F", tuple(tm.lift(k) for k in i) + (tm.lam(list(X.shp), lambda *k: X.at(k)),))
        return self.conc(X)[tuple(int(k) for k in i)]

    def conc(self, X):
        v = X @ self.A.T - self.c
        if self.kind == 1: v = v + 0.5 * X ** 3
        if self.kind == 2: v = np.arctan(3 * v)             # full steps overshoot
        if self.kind == 3: v = v ** 2 + 0.01 * self.u       # may have no solution
        return v

    def dconc(self, X):
        v = X @ self.A.T - self.c
        J = np.broadcast_to(self.A, X.shape + X.shape[-1:]).copy()
        d = np.eye(X.shape[-1])
        if self.kind == 1: J = J + 1.5 * X[..., :, None] ** 2 * d
        if self.kind == 2: J = (3 / (1 + 9 * v ** 2))[..., :, None] * J
        if self.kind == 3: J = 2 * v[..., :, None] * J
        return J

    def __call__(self, X):
        S = self.S
        if S.symbolic:
            from pyvc import terms as tm
            from pyvc.arr import from_fn
            L = tm.lam(list(X.shp), lambda *k: X.at(k))
            return [from_fn(X.shp, lambda i: tm.app("F", tuple(i) + (L,))), from_fn(X.shp + X.shp[-1:], lambda i: tm.app("J", tuple(i) + (L,)))]
        J = self.dconc(X)
        if self.jac == "sparse":
            import scipy.sparse
            J = scipy.sparse.csc_matrix(J)
        return [self.conc(X), J]


def trust_solve(S, sizes):
    """linear solvers return some vector"""
    if not S.symbolic:
        return
    import scipy.sparse.linalg
    from pyvc import terms as tm
    from pyvc.arr import from_fn

    def solve(A, b, *a, **k):
        nm = tm.fresh("step").args[0]
        return from_fn(b.shp, lambda i: tm.app(nm, tuple(i)))
    S.override(nw.serial_solve, solve)
    S.override(np.linalg.solve, solve)
    S.override(scipy.sparse.linalg.spsolve, solve)


@contract("C07", "searches by Newton's method", [Q + "newton.newton"], runs=160,
          opts={"cases": [{"jac": j, "verbose": v} for j in ("serial", "full", "sparse") for v in (False, True)], "loops": "last", "assumes": SOLVE})
def _(S):
    jac = S.case["jac"]
    n = S.dim("n")
    shape = (S.dim("N"), n) if jac == "serial" else (n,)
    f = Op(S, shape, jac)
    x0 = S.arr("x0", shape)
    tol = S.real("tol", pos=True) if S.symbolic else 10.0 ** -S.rng.randint(3, 9)
    maxit = S.int("maxit", 0, 12)
    trust_solve(S, shape)
    f0 = S.frozen(x0)
    x, it = S.call(nw.newton, S.wrapfun(lambda X: f(X)), x0, tol=tol, maxit=maxit, jactype=jac, verbose=S.case["verbose"])
    S.shape("shape of the solution", x, shape)
    S.unchanged("initial guess unchanged", x0, f0)
    S.check("number of iterations", S.and_(S.le(0, it), S.le(it, maxit)))
    if S.symbolic:
        w = S.warned()
    else:
        w = any("converge" in str(q.message) for q in S.warnings)
        S.require(np.isfinite(x).all())
    S.forall_given("a solution unless a warning is given", shape, lambda *i: S.not_(w), lambda *i: S.lt(S.abs(f.value(x, *i)), tol))
    S.check("a warning means that iterations are exhausted", S.implies(w, S.le(maxit, it)))
    if not S.symbolic and f.kind == 0 and maxit > 1 and tol > 1e-8 and np.linalg.cond(f.A) < 1e6:
        S.check("affine systems are solved by one step", not w and it <= 1)


@contract("C07", "first step of Newton's method", [Q + "newton.newton"], sym=False, bounded="functions of 1 to 4 systems of 1 to 4 unknowns", runs=60, opts={"cases": [{"jac": j} for j in ("serial", "full", "sparse")]})
def _(S):
    """a guess which is a solution is returned as it is; otherwise the point moves against the Newton direction"""
    jac = S.case["jac"]
    n = S.dim("n")
    shape = (S.dim("N"), n) if jac == "serial" else (n,)
    f = Op(S, shape, jac)
    x0 = S.arr("x0", shape)
    tol = S.real("tol", pos=True) if S.symbolic else 1e-6
    if not S.symbolic and S.seed % 3 == 0:
        tol = 2 * np.abs(f.conc(x0)).max()
    trust_solve(S, shape)
    x, it = nw_once(S, f, x0, tol, jac)
    if S.symbolic:
        return
    v = np.abs(f.conc(x0)).max()
    if v < tol:
        S.check("a solution is returned at once", it == 0 and np.array_equal(x, x0))
    else:
        S.require(np.isfinite(x).all())
        A, b = f.dconc(x0), f.conc(x0)
        S.require(np.linalg.cond(A).max() < 1e8)
        d = np.linalg.solve(A, b[..., None])[..., 0]
        ks = [k for k in range(30) if np.abs(f.conc(x0 - d * 2.0 ** -k)).max() < v]
        S.check("longest step reducing the residual", it == 1 and np.allclose(x, x0 - d * 2.0 ** -(ks[0] if ks else 29), rtol=1e-6, atol=1e-8))


def nw_once(S, f, x0, tol, jac):
    """one iteration at most"""
    return S.call(nw.newton, S.wrapfun(lambda X: f(X)), x0, tol=tol, maxit=1, jactype=jac)


@contract("C07", "searches of solutions with bounds", [Q + "ncpsolve.ncpsolve", Q + "ncpsolve.smooth"], runs=90,
          opts={"cases": [{"jac": j} for j in ("serial", "full")] + [{"jac": "sparse", "_conc_only": True}], "assumes": ["newton returns a point where the residual it is given vanishes, or warns (proved above)"]})
def _(S):
    jac = S.case["jac"]
    n = S.dim("n")
    shape = (S.dim("N"), n) if jac == "serial" else (n,)
    a, b = S.arr("a", shape), S.arr("b", shape)
    x0 = S.arr("x0", shape)
    seen = {}
    if S.symbolic:
        f = Op(S, shape, jac)
        V = S.arr("V", shape)

        def newton(g, x, verbose=False, tol=1e-6, maxit=5, jactype="serial"):
            seen.update(x=x, out=S.call(g, V), opts=(verbose, tol, maxit, jactype))
            return [V, 7]
        S.override(nw.newton, newton)
        tol = S.real("tol", pos=True)
        fa, fb_ = S.frozen(a), S.frozen(b)
        x, it = S.call(ncp.ncpsolve, S.wrapfun(lambda X: f(X)), a, b, x0, tol=tol, maxit=9, verbose=False, jactype=jac)
        S.check("options of the search", S.and_(seen["opts"][0] is False, S.eq(seen["opts"][1], tol), S.eq(seen["opts"][2], 9), seen["opts"][3] == jac))
        S.check("number of iterations", S.eq(it, 7))
        S.forall("search from the initial guess", shape, lambda *i: S.eq(S.cell(seen["x"], *i), S.cell(x0, *i)))
        R = seen["out"][0]
        S.shape("residual of the search", R, shape)
        noa, nob = (lambda *i: S.le0(S.cell(a, *i) + BIG)), (lambda *i: S.le0(BIG - S.cell(b, *i)))
        S.forall_given("solutions with bounds", shape, lambda *i: S.and_(S.le(S.cell(a, *i), S.cell(b, *i)), S.eq0(S.cell(R, *i))),
                       lambda *i: sol_max(S, -f.value(V, *i), S.cell(x, *i), S.cell(a, *i), S.cell(b, *i), noa(*i), nob(*i)))
        S.unchanged("lower bounds unchanged", a, fa)
        S.unchanged("upper bounds unchanged", b, fb_)
        return
    f = Monotone(S, shape, jac)
    a, b = np.minimum(a, b), np.maximum(a, b) + 0.1
    a = np.where(S.rng.rand(*shape) < 0.3, -np.inf, a)
    b = np.where(S.rng.rand(*shape) < 0.3, np.inf, b)
    tol = 10.0 ** -S.rng.randint(5, 9)
    args = [v.copy() for v in (a, b, x0)]
    x, it = S.call(ncp.ncpsolve, f, a, b, x0, tol=tol, maxit=60, jactype=jac)
    S.check("arguments unchanged", all(np.array_equal(u, v) for u, v in zip(args, (a, b, x0))))
    w = any("converge" in str(q.message) for q in S.warnings)
    S.require(np.isfinite(x).all())
    if not w:
        S.check("within bounds", bool((x >= a - 4 * tol).all() and (x <= b + 4 * tol).all()))
        v = f.conc(x)
        S.check("complementarity", bool((np.abs(np.clip(x - v, a, b) - x) < 20 * tol).all()))


class Monotone(Op):
    """strongly monotone functions: the bounded problem has one solution"""

    def __init__(self, S, shape, jac):
        Op.__init__(self, S, shape, jac)
        n = shape[-1]
        B = S.rng.normal(size=(n, n))
        K = S.rng.normal(size=(n, n))
        self.A = B @ B.T / n + 0.3 * np.eye(n) + 0.5 * (K - K.T)
        self.kind = S.seed % 2


@contract("C07", "mixed complementarity solver", ["dolo.numeric.extern.lmmcp.lmmcp", "dolo.numeric.extern.lmmcp.DPhi3MCPPFB"], sym=False, bounded="monotone systems with 1 to 5 unknowns", runs=120)
def _(S):
    n = int(S.rng.randint(1, 6))
    f = Monotone(S, (n,), "full")
    if S.seed % 3 == 0:
        f.kind = 3                         # possibly without solution
    a, b = np.sort(S.rng.normal(size=(2, n)), axis=0)
    b = b + 0.05
    a = np.where(S.rng.rand(n) < 0.3, -np.inf, a)
    b = np.where(S.rng.rand(n) < 0.3, np.inf, b)
    x0 = S.rng.normal(size=n)
    args = [v.copy() for v in (a, b, x0)]
    try:
        x = S.call(lm.lmmcp, f.conc, f.dconc, x0, a, b, verbose=False)
    except Exception as e:
        S.require("No convergence" not in str(e))
        raise
    S.check("arguments unchanged", all(np.array_equal(u, v) for u, v in zip(args, (a, b, x0))))
    v = f.conc(x)
    S.check("within bounds", bool((x >= a - 1e-5).all() and (x <= b + 1e-5).all()))
    S.check("complementarity", bool((np.abs(np.clip(x - v, a, b) - x) < 1e-4).all()))
