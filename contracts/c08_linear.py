"""C08: batched linear algebra."""
import numpy as np
from pyvc.spec import contract
import dolo.numeric.serial_operations as so
import dolo.numeric.optimize.newton as nw
import dolo.algos.invert as iv
from dolo.algos.improved_time_iteration import ssmul


@contract("C08", "batched matrix product", ["dolo.numeric.serial_operations.serial_multiplication"])
def _(S):
    N, I, J, K = S.dims("N I J K")
    A, B = S.arr("A", (N, I, J)), S.arr("B", (N, J, K))
    a0, b0 = S.frozen(A), S.frozen(B)
    R = S.call(so.serial_multiplication, A, B)
    S.shape("result", R, (N, I, K))
    S.forall("entry", (N, I, K), lambda n, i, k: S.eq(S.cell(R, n, i, k), S.sum(0, J, lambda j: S.cell(A, n, i, j) * S.cell(B, n, j, k))))
    S.unchanged("left operand unchanged", A, a0)
    S.unchanged("right operand unchanged", B, b0)


@contract("C08", "matrix product of two plain matrices", ["dolo.numeric.serial_operations.serial_multiplication"])
def _(S):
    I, J, K = S.dims("I J K")
    A, B = S.arr("A", (I, J)), S.arr("B", (J, K))
    R = S.call(so.serial_multiplication, A, B)
    S.shape("result", R, (I, K))
    S.forall("entry", (I, K), lambda i, k: S.eq(S.cell(R, i, k), S.sum(0, J, lambda j: S.cell(A, i, j) * S.cell(B, j, k))))


@contract("C08", "batched matrix-vector product", ["dolo.algos.improved_time_iteration.ssmul"])
def _(S):
    N, I, J = S.dims("N I J")
    A, B = S.arr("A", (N, I, J)), S.arr("B", (N, J))
    a0, b0 = S.frozen(A), S.frozen(B)
    R = S.call(ssmul, A, B)
    S.shape("result", R, (N, I))
    S.forall("entry", (N, I), lambda n, i: S.eq(S.cell(R, n, i), S.sum(0, J, lambda j: S.cell(A, n, i, j) * S.cell(B, n, j))))
    S.unchanged("left operand unchanged", A, a0)
    S.unchanged("right operand unchanged", B, b0)


def regular(S, A, n):
    """concrete draws only: keep well-conditioned systems (symbolic: assumed regular)"""
    if not S.symbolic:
        A = np.asarray(A).reshape((-1,) + np.shape(A)[-2:])
        for a in A:
            S.require(np.linalg.cond(a) < 1e6)


for mod, nm in ((so, "serial_operations"), (nw, "newton")):
    @contract("C08", "batched solve, one system at a time (%s)" % nm, ["dolo.numeric.%s.serial_solve" % ("optimize.newton" if mod is nw else nm)])
    def _(S, mod=mod):
        N, n = S.dims("N n")
        A, B = S.arr("A", (N, n, n)), S.arr("B", (N, n))
        regular(S, A, n)
        a0, b0 = S.frozen(A), S.frozen(B)
        X = S.call(mod.serial_solve, A, B)
        S.shape("solution", X, (N, n))
        S.forall("A x = b", (N, n), lambda p, i: S.eq(S.sum(0, n, lambda j: S.cell(A, p, i, j) * S.cell(X, p, j)), S.cell(B, p, i)))
        S.unchanged("matrices unchanged", A, a0)
        S.unchanged("right-hand sides unchanged", B, b0)

    @contract("C08", "batched solve, compiled elimination (%s)" % nm, ["dolo.numeric.%s.serial_solve" % ("optimize.newton" if mod is nw else nm), "dolo.numeric.%s.solve" % ("optimize.newton" if mod is nw else nm)],
              bounded="systems of size 1 and 2 (any number of systems, any entries); size up to 4 concretely", opts={"cases": [{"n": 1}, {"n": 2}, {"n": 3, "_conc_only": True}, {"n": 4, "_conc_only": True}], "det": True})
    def _(S, mod=mod):
        N, n = S.dim("N"), S.dim("n")
        A, B = S.arr("A", (N, n, n)), S.arr("B", (N, n))
        regular(S, A, n)
        a0, b0 = S.frozen(A), S.frozen(B)
        X = S.call(mod.serial_solve, A, B, diagnose=False)
        S.shape("solution", X, (N, n))
        S.forall("A x = b", (N, n), lambda p, i: S.eq(S.sum(0, n, lambda j: S.cell(A, p, i, j) * S.cell(X, p, j)), S.cell(B, p, i)))
        S.unchanged("matrices unchanged", A, a0)
        S.unchanged("right-hand sides unchanged", B, b0)

    @contract("C08", "Gaussian elimination kernel (%s)" % nm, ["dolo.numeric.%s.solve" % ("optimize.newton" if mod is nw else nm)],
              bounded="systems of size 1, 2 and 3 (any entries with non-zero determinant)", opts={"cases": [{"n": 1}, {"n": 2}, {"n": 3}]})
    def _(S, mod=mod):
        n = S.dim("n")
        A, b = S.arr("A", (n, n)), S.arr("b", (n,))
        regular(S, A, n)
        M = S.array((n, n + 1), lambda i, j: S.ite(S.lt(j, n), S.cell(A, i, S.fmin(j, n - 1)), S.cell(b, i)))
        sol = S.array((n,), lambda i: 0.0)
        S.call(mod.solve, M, sol)
        S.forall("A x = b", (n,), lambda i: S.eq(S.sum(0, n, lambda j: S.cell(A, i, j) * S.cell(sol, j)), S.cell(b, i)))


@contract("C08", "in-place inversion of one matrix applied to a vector", ["dolo.algos.invert.invert"],
          bounded="systems of size 1, 2 and 3", opts={"cases": [{"n": 1}, {"n": 2}, {"n": 3}]})
def _(S):
    n = S.dim("n")
    A, b = S.arr("A", (n, n)), S.arr("b", (n,))
    regular(S, A, n)
    M = S.array((n, n), lambda i, j: S.cell(A, i, j))
    x = S.array((n,), lambda i: S.cell(b, i))
    S.call(iv.invert, M, x)
    S.forall("A x = b", (n,), lambda i: S.eq(S.sum(0, n, lambda j: S.cell(A, i, j) * S.cell(x, j)), S.cell(b, i)))


@contract("C08", "in-place inversion applied to a matrix of right-hand sides", ["dolo.algos.invert.invert"],
          bounded="systems of size 1 and 2 (any number of right-hand sides)", opts={"cases": [{"n": 1}, {"n": 2}, {"n": 3, "_conc_only": True}]})
def _(S):
    n, p = S.dim("n"), S.dim("p")
    A, b = S.arr("A", (n, n)), S.arr("b", (n, p))
    regular(S, A, n)
    M = S.array((n, n), lambda i, j: S.cell(A, i, j))
    x = S.array((n, p), lambda i, j: S.cell(b, i, j))
    S.call(iv.invert, M, x)
    S.forall("A x = b", (n, p), lambda i, q: S.eq(S.sum(0, n, lambda j: S.cell(A, i, j) * S.cell(x, j, q)), S.cell(b, i, q)))


@contract("C08", "batched solution of linear systems", ["dolo.algos.invert.solve_gu", "dolo.algos.invert.invert"],
          bounded="systems of size 1 and 2 (any number of systems)", opts={"cases": [{"n": 1}, {"n": 2}, {"n": 3, "_conc_only": True}]})
def _(S):
    N, n = S.dim("N"), S.dim("n")
    A, b = S.arr("A", (N, n, n)), S.arr("b", (N, n))
    regular(S, A, n)
    M = S.array((N, n, n), lambda k, i, j: S.cell(A, k, i, j))
    x = S.array((N, n), lambda k, i: S.cell(b, k, i))
    r = S.call(iv.solve_gu, M, x)
    S.shape("solution", r, (N, n))
    S.forall("A x = b", (N, n), lambda k, i: S.eq(S.sum(0, n, lambda j: S.cell(A, k, i, j) * S.cell(r, k, j)), S.cell(b, k, i)))


@contract("C08", "batched matrix inverse", ["dolo.algos.invert.invert_gu", "dolo.algos.invert.invert"],
          bounded="matrices of size 1 and 2 (any number of matrices)", opts={"cases": [{"n": 1}, {"n": 2}, {"n": 3, "_conc_only": True}]})
def _(S):
    N, n = S.dim("N"), S.dim("n")
    A = S.arr("A", (N, n, n))
    regular(S, A, n)
    M = S.array((N, n, n), lambda k, i, j: S.cell(A, k, i, j))
    r = S.call(iv.invert_gu, M)
    S.forall("A inv(A) = I", (N, n, n), lambda k, i, q: S.eq(S.sum(0, n, lambda j: S.cell(A, k, i, j) * S.cell(r, k, j, q)), S.ite(S.eq(i, q), 1, 0)))


@contract("C08", "batched solution with several right-hand sides", ["dolo.algos.invert.solve_tensor", "dolo.algos.invert.invert"],
          bounded="systems of size 1 and 2 (any number of systems and right-hand sides)", opts={"cases": [{"n": 1}, {"n": 2}, {"n": 3, "_conc_only": True}]})
def _(S):
    N, n, p = S.dim("N"), S.dim("n"), S.dim("p")
    A, b = S.arr("A", (N, n, n)), S.arr("b", (N, n, p))
    regular(S, A, n)
    M = S.array((N, n, n), lambda k, i, j: S.cell(A, k, i, j))
    x = S.array((N, n, p), lambda k, i, j: S.cell(b, k, i, j))
    S.call(iv.solve_tensor, M, x)
    S.forall("A x = b", (N, n, p), lambda k, i, q: S.eq(S.sum(0, n, lambda j: S.cell(A, k, i, j) * S.cell(x, k, j, q)), S.cell(b, k, i, q)))
