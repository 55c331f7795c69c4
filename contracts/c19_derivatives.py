"""C19: numerical derivatives."""
import numpy as np
from pyvc.spec import contract, module

so = module("dolo.numeric.serial_operations")
nw = module("dolo.numeric.optimize.newton")
nm = module("dolo.numeric.misc")
cm = module("dolo.compiler.misc")
TOL = 1e-4  # of a difference quotient with step 1e-8 in double precision


def unchanged(S, x, fz):
    S.unchanged("evaluation point unchanged", x, fz)


@contract("C19", "derivative of a vectorized function", ["dolo.numeric.optimize.newton.SerialDifferentiableFunction"], opts={"cases": [{"eps": 0}, {"eps": 1}]})
def _(S):
    N, nv, nx = S.dim("N", hi=4), S.dim("nv", hi=3), S.dim("nx", hi=3)
    a, B, x = S.arr("a", (N, nv)), S.arr("B", (N, nv, nx)), S.arr("x", (N, nx))
    fz = S.frozen(x)
    f = lambda X: S.array((N, nv), lambda n, v: S.cell(a, n, v) + S.sum(0, nx, lambda i: S.cell(B, n, v, i) * S.cell(X, n, i)))
    g = S.call(nw.SerialDifferentiableFunction, S.wrapfun(f), **({"epsilon": S.real("eps", pos=True)} if S.case["eps"] else {}))
    R = S.call(g, x)
    v, d = S.getitem(R, 0), S.getitem(R, 1)
    S.shape("value", v, (N, nv))
    S.shape("derivative", d, (N, nv, nx))
    S.forall("value", (N, nv), lambda n, k: S.eq(S.cell(v, n, k), S.cell(f(x), n, k)))
    S.forall("derivative of an affine function", (N, nv, nx), lambda n, k, i: S.eq(S.cell(d, n, k, i), S.cell(B, n, k, i), TOL))
    unchanged(S, x, fz)


@contract("C19", "jacobian", ["dolo.numeric.misc.MyJacobian"], opts={"cases": [{"eps": 0}, {"eps": 1}]})
def _(S):
    nv, nx = S.dim("nv", hi=3), S.dim("nx", hi=3)
    a, B, x = S.arr("a", (nv,)), S.arr("B", (nv, nx)), S.arr("x", (nx,))
    fz = S.frozen(x)
    C = S.arr("C", (nv, nx))
    # quadratic and additively separable: centred differences are exact
    f = lambda X: S.array((nv,), lambda v: S.cell(a, v) + S.sum(0, nx, lambda i: S.cell(B, v, i) * S.cell(X, i) + S.cell(C, v, i) * S.cell(X, i) * S.cell(X, i)))
    g = S.call(nm.MyJacobian, S.wrapfun(f), **({"eps": S.real("eps", pos=True)} if S.case["eps"] else {}))
    d = S.call(g, x)
    S.shape("jacobian", d, (nv, nx))
    S.forall("jacobian of a quadratic function", (nv, nx), lambda v, i: S.eq(S.cell(d, v, i), S.cell(B, v, i) + 2 * S.cell(C, v, i) * S.cell(x, i), TOL))
    unchanged(S, x, fz)


DD = {"cases": [{"dd": (2,), "fs": ()}, {"dd": (2,), "fs": (2,)}, {"dd": (2, 2), "fs": (3,)}, {"dd": (1, 3), "fs": (2, 2)}, {"dd": (), "fs": (2,)}]}


@contract("C19", "derivatives observation by observation", ["dolo.numeric.serial_operations.numdiff1"], opts=DD, bounded="up to two axes of derivation of extent up to 3 (any number of observations)")
def _(S):
    dd, fs = S.case["dd"], S.case["fs"]
    N = S.dim("N", hi=3)
    x = S.arr("x", dd + (N,))
    fz = S.frozen(x)
    B = S.arr("B", fs + dd + (N,))
    C = S.arr("C", fs + dd + (N,))

    def f(X):
        def val(*i):
            r = 0.0
            for q in np.ndindex(*dd):
                ix = i[:-1] + q + (i[-1],)
                z = S.cell(X, *(q + (i[-1],)))
                r = r + S.cell(B, *ix) * z + S.cell(C, *ix) * z * z
            return r
        return S.array(fs + (N,), val)
    d = S.call(so.numdiff1, S.wrapfun(f), x)
    S.shape("derivatives", d, fs + dd + (N,))
    S.forall("derivatives of a quadratic function", fs + dd + (N,), lambda *i: S.eq(S.cell(d, *i), S.cell(B, *i) + 2 * S.cell(C, *i) * S.cell(x, *i[len(fs):]), TOL))
    unchanged(S, x, fz)


@contract("C19", "derivatives of all observations with respect to one point", ["dolo.numeric.serial_operations.numdiff2"], opts=DD, bounded="up to two axes of derivation of extent up to 3 (any number of observations)")
def _(S):
    dd, fs = S.case["dd"], S.case["fs"]
    N = S.dim("N", hi=3)
    x = S.arr("x", dd)
    fz = S.frozen(x)
    B = S.arr("B", fs + dd + (N,))
    C = S.arr("C", fs + dd + (N,))

    def f(X):
        def val(*i):
            r = 0.0
            for q in np.ndindex(*dd):
                ix = i[:-1] + q + (i[-1],)
                z = S.cell(X, *q)
                r = r + S.cell(B, *ix) * z + S.cell(C, *ix) * z * z
            return r
        return S.array(fs + (N,), val)
    d = S.call(so.numdiff2, S.wrapfun(f), x)
    S.shape("derivatives", d, fs + dd + (N,))
    S.forall("derivatives of a quadratic function", fs + dd + (N,), lambda *i: S.eq(S.cell(d, *i), S.cell(B, *i) + 2 * S.cell(C, *i) * S.cell(x, *i[len(fs):len(fs) + len(dd)]), TOL))
    unchanged(S, x, fz)


@contract("C19", "derivatives with respect to each argument", ["dolo.compiler.misc.numdiff"], opts={"cases": [{"na": 1, "nb": 2}, {"na": 2, "nb": 1}, {"na": 3, "nb": 3}]}, bounded="two arguments of up to three columns (any number of rows and values)")
def _(S):
    N, nv, na, nb = S.dim("N", hi=4), S.dim("nv", hi=3), S.case["na"], S.case["nb"]
    A, B, x, y = S.arr("A", (N, nv, na)), S.arr("B", (N, nv, nb)), S.arr("x", (N, na)), S.arr("y", (N, nb))
    fx, fy = S.frozen(x), S.frozen(y)
    f = lambda X, Y: S.array((N, nv), lambda n, v: S.sum(0, na, lambda i: S.cell(A, n, v, i) * S.cell(X, n, i)) + S.sum(0, nb, lambda i: S.cell(B, n, v, i) * S.cell(Y, n, i)))
    R = S.call(cm.numdiff, S.wrapfun(f), (x, y))
    v, dx, dy = [S.getitem(R, i) for i in range(3)]
    S.forall("value", (N, nv), lambda n, k: S.eq(S.cell(v, n, k), S.cell(f(x, y), n, k)))
    S.shape("first derivative", dx, (N, nv, na))
    S.shape("second derivative", dy, (N, nv, nb))
    S.forall("first derivative of an affine function", (N, nv, na), lambda n, k, i: S.eq(S.cell(dx, n, k, i), S.cell(A, n, k, i), TOL))
    S.forall("second derivative of an affine function", (N, nv, nb), lambda n, k, i: S.eq(S.cell(dy, n, k, i), S.cell(B, n, k, i), TOL))
    unchanged(S, x, fx)
    unchanged(S, y, fy)


@contract("C19", "accuracy for smooth functions", ["dolo.numeric.optimize.newton.SerialDifferentiableFunction", "dolo.numeric.misc.MyJacobian", "dolo.numeric.serial_operations.numdiff1", "dolo.numeric.serial_operations.numdiff2"], sym=False, bounded="random smooth functions", runs=30)
def _(S):
    N, nv, nx = S.dim("N", hi=4), S.dim("nv", hi=3), S.dim("nx", hi=3)
    W, x = S.rng.uniform(-1, 1, (nv, nx)), S.rng.uniform(-2, 2, (N, nx))
    f = lambda X: np.sin(X @ W.T)
    ref = np.cos(x @ W.T)[:, :, None] * W[None]
    v, d = S.call(nw.SerialDifferentiableFunction(f), x)
    S.check("vectorized: value", np.array_equal(v, f(x)))
    S.check("vectorized: derivative", abs(d - ref).max() < 1e-6)
    S.check("jacobian", abs(S.call(nm.MyJacobian(lambda z: f(z[None])[0]), x[0]) - ref[0]).max() < 1e-6)
    S.check("by observation", abs(S.call(so.numdiff1, lambda z: f(z.T).T, x.T.copy()) - ref.transpose(1, 2, 0)).max() < 1e-6)
    c = S.rng.uniform(-1, 1, N)
    f2 = lambda z: np.sin((W @ z)[:, None] + c[None])
    S.check("at one point", abs(S.call(so.numdiff2, f2, x[0].copy()) - np.cos((W @ x[0])[:, None] + c[None])[:, None, :] * W[:, :, None]).max() < 1e-6)
