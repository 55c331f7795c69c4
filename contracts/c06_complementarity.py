"""C06: complementarity smoothing."""
import numpy as np
from pyvc.spec import contract, module
import dolo.numeric.optimize.ncpsolve as ncp
import dolo.algos.fb as fb
iti = module("dolo.algos.improved_time_iteration")
import dolo.numeric.extern.lmmcp as lm

BIG = 10 ** 20


def sol_max(S, f, x, a, b, noa=False, nob=False):
    """x solves  a <= x <= b,  f <= 0 only where x = a, f >= 0 only where x = b  (f = 0 inside); missing bounds drop out"""
    has_a, has_b = S.not_(noa), S.not_(nob)
    at_a, at_b = S.and_(has_a, S.eq0(x - a)), S.and_(has_b, S.eq0(b - x))
    return S.and_(S.implies(has_a, S.le0(a - x)), S.implies(has_b, S.le0(x - b)),
                  S.or_(S.eq0(f), S.and_(at_a, S.le0(f)), S.and_(at_b, S.le0(-f))))


def iff(S, p, q):
    return S.and_(S.implies(p, q), S.implies(q, p))


def box(S, shape, name="x"):
    """a point, bounds (possibly infinite), a value; concrete draws put some components on their bounds"""
    x, a, b, f = S.arr("x", shape), S.arr("a", shape), S.arr("b", shape), S.arr("f", shape)
    if not S.symbolic:
        a, b = np.minimum(a, b), np.maximum(a, b)
        r = S.rng.rand(*a.shape)
        x = np.where(r < .2, a, np.where(r < .4, b, np.where(r < .7, a + (b - a) * S.rng.rand(*a.shape), x)))
        f = np.where(S.rng.rand(*a.shape) < .3, 0.0, f)
        a = np.where(S.rng.rand(*a.shape) < .2, -1e21, a)
        b = np.where(S.rng.rand(*a.shape) < .2, 1e21, b)
        S.note(x=x, a=a, b=b, f=f)
    return x, a, b, f


def small(S, *xs):
    """stay away from the kinks numerically (concrete draws only)"""
    if not S.symbolic:
        return all(abs(float(x)) > 1e-9 for x in xs)
    return True


def fb_parts(S, f, x, a, b):
    noa, nob = S.le0(a + BIG), S.le0(BIG - b)
    da, db = a - x, b - x
    q1 = S.sqrt(f * f + da * da)
    p = S.ite(noa, f, f + q1 + da)
    q2 = S.sqrt(p * p + db * db)
    return noa, nob, da, db, q1, p, q2


def jac_ok(S, f, x, a, b, got, J, diag):
    """got = d/df * J + (d/dx if on the diagonal), wherever the residual is differentiable"""
    noa, nob, da, db, q1, p, q2 = fb_parts(S, f, x, a, b)
    pf = S.ite(noa, 1, 1 + S.quot(f, q1))
    px = S.ite(noa, 0, -1 - S.quot(da, q1))
    g = S.ite(nob, 1, 1 - S.quot(p, q2))
    gx = S.ite(nob, 0, -1 + S.quot(db, q2))
    regular = S.and_(S.or_(noa, S.lt(S.tiny, q1)), S.or_(nob, S.lt(S.tiny, q2)))
    return S.implies(regular, S.eq(got, g * pf * J + S.ite(diag, g * px + gx, 0)))


def zero_iff(S, V, f, x, a, b):
    noa, nob = S.le0(a + BIG), S.le0(BIG - b)
    ok = sol_max(S, f, x, a, b, noa, nob)
    return iff(S, S.eq0(V), ok)


for jt in ("serial", "full", "sparse"):
    @contract("C06", "smoothed residual of a bounded system (%s jacobian)" % jt, ["dolo.numeric.optimize.ncpsolve.smooth"],
              sym=(jt != "sparse"), bounded=("sparse jacobians: concrete evaluation, 1 to 5 unknowns" if jt == "sparse" else None), runs=80)
    def _(S, jt=jt):
        if jt == "serial":
            N, n = S.dims("N n")
            x, a, b, f = box(S, (N, n))
            J = S.arr("J", (N, n, n))
            ix = (N, n)
        else:
            n = S.dim("n", hi=5)
            x, a, b, f = box(S, (n,))
            J = S.arr("J", (n, n))
            ix = (n,)
        snaps = [S.frozen(v) for v in (x, a, b, f)]
        Jin = J
        if jt == "sparse":
            import scipy.sparse
            Jin = scipy.sparse.csc_matrix(J)
        V, DV = S.call(ncp.smooth, x, a, b, f, Jin, jactype=jt)
        if jt == "sparse":
            DV = DV.toarray()
        S.shape("residual", V, ix)
        S.shape("jacobian", DV, ix + (n,))

        S.forall_given("zero exactly at solutions", ix, lambda *i: S.le(S.cell(a, *i), S.cell(b, *i)),
                       lambda *i: zero_iff(S, S.cell(V, *i), S.cell(f, *i), S.cell(x, *i), S.cell(a, *i), S.cell(b, *i)))
        S.forall("jacobian is the derivative of the residual", ix + (n,), lambda *i: jac_ok(
            S, S.cell(f, *i[:-1]), S.cell(x, *i[:-1]), S.cell(a, *i[:-1]), S.cell(b, *i[:-1]), S.cell(DV, *i), S.cell(J, *i), S.eq(i[-2], i[-1])))
        for nm, v, s in zip(("point", "lower bound", "upper bound", "value"), (x, a, b, f), snaps):
            S.unchanged("%s unchanged" % nm, v, s)


def sol_min(S, f, x, a, b):
    """x solves a <= x <= b with f >= 0 where x = a, f <= 0 where x = b"""
    return sol_max(S, -f, x, a, b)


def scalars(S):
    x, a, b, f = S.real("x"), S.real("a"), S.real("b"), S.real("f")
    if not S.symbolic:
        a, b = min(a, b), max(a, b)
        r = S.rng.rand()
        x = a if r < .25 else (b if r < .5 else (a + (b - a) * S.rng.rand() if r < .7 else x))
        f = 0.0 if S.rng.rand() < .3 else f
        S.note(x=x, a=a, b=b, f=f)
    S.require(S.le(a, b))
    return x, a, b, f


@contract("C06", "Fischer-Burmeister function", ["dolo.algos.fb.PhiFB", "dolo.algos.fb.PhiFB_"], runs=120)
def _(S):
    a, b = S.real("a"), S.real("b")
    if not S.symbolic and S.rng.rand() < .5:
        a, b = (0.0, b) if S.rng.rand() < .5 else (a, 0.0)
        S.note(a=a, b=b)
    v = S.call(fb.PhiFB, a, b)
    S.check("zero exactly when both arguments are non-negative with zero product", iff(S, S.eq0(v), S.and_(S.le0(-a), S.le0(-b), S.or_(S.eq0(a), S.eq0(b)))))
    w, da, db = S.call(fb.PhiFB_, a, b)
    S.check("same value", S.eq(v, w))
    r = S.sqrt(a * a + b * b)
    S.check("derivative in the first argument", S.implies(S.lt(S.tiny, r), S.eq(da, 1 - S.quot(a, r))))
    S.check("derivative in the second argument", S.implies(S.lt(S.tiny, r), S.eq(db, 1 - S.quot(b, r))))


@contract("C06", "scalar smoothed residual", ["dolo.algos.fb.smooth_FB", "dolo.algos.fb.smooth_FB_"], runs=160)
def _(S):
    x, a, b, f = scalars(S)
    df = S.real("df")
    v = S.call(fb.smooth_FB, f, x, a, b)
    S.check("zero exactly at solutions", iff(S, S.eq0(v), sol_min(S, f, x, a, b)))
    w, dw = S.call(fb.smooth_FB_, f, x, a, b, df)
    S.check("same value", S.eq(v, w))
    da, db = x - a, b - x
    q1 = S.sqrt(f * f + da * da)
    p = f + da - q1
    q2 = S.sqrt(p * p + db * db)
    dp = (1 - S.quot(f, q1)) * df + 1 - S.quot(da, q1)
    dv = -(1 + S.quot(p, q2)) * dp - (1 - S.quot(db, q2))
    S.check("derivative", S.implies(S.and_(S.lt(S.tiny, q1), S.lt(S.tiny, q2)), S.eq(dw, dv)))


@contract("C06", "elementwise smoothed residuals", ["dolo.algos.fb.smooth_", "dolo.algos.fb.smooth"])
def _(S):
    M, N, n = S.dims("M N n")
    sh = (M, N, n)
    f, x, a, b, df = S.arr("f", sh), S.arr("x", sh), S.arr("a", sh), S.arr("b", sh), S.arr("df", sh + (n,))
    V = S.call(fb.smooth_, f, x, a, b)
    W = S.call(fb.smooth, f, x, a, b, df)

    def ref(i, j, k):
        p = S.cell(f, i, j, k) + (S.cell(x, i, j, k) - S.cell(a, i, j, k))
        p = p - S.sqrt(S.sq(S.cell(f, i, j, k)) + S.sq(S.cell(x, i, j, k) - S.cell(a, i, j, k)))
        d = S.cell(b, i, j, k) - S.cell(x, i, j, k)
        return -p + d - S.sqrt(S.sq(p) + S.sq(d))
    S.shape("residual", V, sh)
    S.forall("value", sh, lambda *i: S.eq(S.cell(V, *i), ref(*i)))
    S.forall("value with derivative", sh, lambda *i: S.eq(S.cell(W, *i), ref(*i)))


def limit(S, d):
    return S.lt(100000, d)


@contract("C06", "one-sided smoothing of policy residuals", ["dolo.algos.improved_time_iteration.smooth", "dolo.algos.improved_time_iteration.smooth_nodiff", "dolo.algos.improved_time_iteration.inplace"])
def _(S):
    M, N, n = S.dims("M N n")
    P = S.dim("P")
    res, dx = S.arr("res", (M, N, n)), S.arr("dx", (M, N, n))
    dres, jres = S.arr("dres", (M, N, n, n)), S.arr("jres", (M, P, N, n, n))
    pos = S.real("pos")
    if not S.symbolic:
        dx = np.where(S.rng.rand(*dx.shape) < .2, [1e9, np.inf][S.seed % 2], np.where(S.rng.rand(*dx.shape) < .2, 0, dx))
        res = np.where(S.rng.rand(*dx.shape) < .2, 0.0, res)
        pos = float(np.sign(pos))
        S.note(dx=dx, res=res, pos=pos)
    s0 = [S.frozen(v) for v in (res, dx, dres, jres)]
    j0 = S.array((M, P, N, n, n), lambda *i: S.cell(jres, *i))
    H0 = S.call(iti.smooth_nodiff, res, dx)
    H, Hx, Hj = S.call(iti.smooth, res, dres, jres, dx, pos)
    sh = (M, N, n)
    S.shape("residual", H, sh)
    S.forall("zero exactly when both are non-negative with zero product", sh, lambda *i: S.implies(S.not_(limit(S, S.cell(dx, *i))), iff(S, S.eq0(S.cell(H, *i)), S.and_(
        S.le0(-S.cell(res, *i)), S.le0(-S.cell(dx, *i)), S.or_(S.eq0(S.cell(res, *i)), S.eq0(S.cell(dx, *i)))))))
    S.forall("no effect far from the bound", sh, lambda *i: S.implies(limit(S, S.cell(dx, *i)), S.eq(S.cell(H, *i), S.cell(res, *i))))
    S.forall("same value without derivatives", sh, lambda *i: S.eq(S.cell(H, *i), S.cell(H0, *i)))

    def A(i):
        q = S.sqrt(S.sq(S.cell(res, *i)) + S.sq(S.cell(dx, *i)))
        return S.ite(limit(S, S.cell(dx, *i)), 1, 1 - S.quot(S.cell(res, *i), q))

    def B(i):
        q = S.sqrt(S.sq(S.cell(res, *i)) + S.sq(S.cell(dx, *i)))
        return S.ite(limit(S, S.cell(dx, *i)), 0, 1 - S.quot(S.cell(dx, *i), q))
    reg = lambda i: S.lt(S.tiny, S.sqrt(S.sq(S.cell(res, *i)) + S.sq(S.cell(dx, *i))))
    S.forall("derivative with respect to today's decision", sh + (n,), lambda m, i, j, k: S.implies(reg((m, i, j)), S.eq(
        S.cell(Hx, m, i, j, k), A((m, i, j)) * S.cell(dres, m, i, j, k) + S.ite(S.eq(j, k), B((m, i, j)) * pos, 0))))
    S.forall("derivative with respect to tomorrow's decision", (M, P, N, n, n), lambda m, p, i, j, k: S.implies(reg((m, i, j)), S.eq(
        S.cell(Hj, m, p, i, j, k), A((m, i, j)) * S.cell(j0, m, p, i, j, k))))
    for nm, v, s in zip(("residual", "distance", "derivative"), (res, dx, dres), s0):
        S.unchanged("%s argument unchanged" % nm, v, s)


@contract("C06", "penalised residual of the mixed complementarity solver", ["dolo.numeric.extern.lmmcp.Phi3MCPPFB"], runs=120)
def _(S):
    n = S.dim("n")
    x, a, b, f = box(S, (n,))
    kind = S.iarr("kind", (n, 1), 0, 4)
    l1, l2 = S.real("l1", pos=True), S.real("l2", pos=True)
    if not S.symbolic:
        S.require(np.all(np.abs(a) < 1e10) or True)
        a, b = np.where(a < -1e10, -3.0, a), np.where(b > 1e10, 3.0, b)
        b = np.maximum(a, b)
        S.note(a=a, b=b)
    y = S.call(lm.Phi3MCPPFB, x, f, a, b, l1, l2, n, kind)
    S.shape("two blocks", y, (2 * n,))

    def zero(i): return S.and_(S.eq0(S.cell(y, i)), S.eq0(S.cell(y, n + i)))
    def sol(i, k): return sol_max(S, -S.cell(f, i), S.cell(x, i), S.cell(a, i), S.cell(b, i), k in (0, 2), k in (0, 1))
    for k, nm in enumerate(("no bound", "a lower bound", "an upper bound", "two bounds")):
        of = lambda i, k=k: S.and_(S.le(S.cell(a, i), S.cell(b, i)), S.eq(S.cell(kind, i, 0), k))
        S.forall_given("zero at solutions (%s)" % nm, (n,), lambda i, k=k: S.and_(of(i), sol(i, k)), zero)
        if k < 3 or not S.symbolic:
            S.forall_given("solution where it is zero (%s)" % nm, (n,), lambda i, k=k: S.and_(of(i), zero(i)), lambda i, k=k: sol(i, k))
            continue
        A, B, F = (lambda i: S.cell(x, i) - S.cell(a, i)), (lambda i: S.cell(b, i) - S.cell(x, i)), (lambda i: S.cell(f, i))
        U = lambda i: S.sqrt(S.sq(B(i)) + S.sq(F(i))) - B(i) + F(i)
        low = S.lemma("a norm equal to the sum", 3, lambda r, u, v: S.and_(S.le0(-r), S.eq(r * r, u * u + v * v), S.eq(r, u + v)),
                      [lambda r, u, v: S.eq0(u * v), lambda r, u, v: S.le0(-u), lambda r, u, v: S.le0(-v)])
        zer = S.lemma("a norm equal to the difference", 3, lambda r, u, v: S.and_(S.le0(-r), S.eq(r * r, u * u + v * v), S.eq(r, u - v)),
                      [lambda r, u, v: S.eq0(u * v), lambda r, u, v: S.le0(-u), lambda r, u, v: S.le0(v)])
        R1 = lambda i: S.sqrt(S.sq(B(i)) + S.sq(F(i)))
        R2 = lambda i: S.sqrt(S.sq(A(i)) + S.sq(U(i)))
        S.steps("solution where it is zero (%s)" % nm, (n,), lambda i: S.and_(of(i), zero(i)), [
            lambda i: S.eq0(S.sqrt(S.sq(A(i)) + S.sq(U(i))) - A(i) - U(i)),
            lambda i: S.and_(S.le0(-A(i)), S.le0(-U(i)), S.eq0(A(i) * U(i))),
            lambda i: S.implies(S.eq0(U(i)), S.and_(S.le0(-B(i)), S.le0(F(i)), S.eq0(B(i) * F(i)))),
            lambda i: S.implies(S.le0(F(i)), S.or_(S.eq0(U(i)), S.lt(B(i), 0), S.lt(U(i), 0), S.eq0(A(i)))),
            lambda i: sol(i, 3)], using=[lambda i: low(R2(i), A(i), U(i)), lambda i: zer(R1(i), B(i), F(i))])
