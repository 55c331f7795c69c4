"""C14: polynomial decision rules and tensor products."""
import numpy as np
from pyvc.spec import contract, module

te = module("dolo.numeric.taylor_expansion")
pe = module("dolo.algos.perturbation")
tn = module("dolo.numeric.tensor")

ORD = {"cases": [{"order": 1}, {"order": 2}, {"order": 3}]}


def coefs(S, order, ns, nx):
    l = [S.arr("s0", (ns,)), S.arr("x0", (nx,)), S.arr("x1", (nx, ns))]
    if order >= 2: l.append(S.arr("x2", (nx, ns, ns)))
    if order >= 3: l.append(S.arr("x3", (nx, ns, ns, ns)))
    return l


def value(S, l, q, ns, s):
    d = lambda i: s(i) - S.cell(l[0], i)
    r = S.cell(l[1], q) + S.sum(0, ns, lambda i: S.cell(l[2], q, i) * d(i))
    if len(l) > 3: r = r + S.frac(1, 2) * S.sum(0, ns, lambda i: S.sum(0, ns, lambda j: S.cell(l[3], q, i, j) * d(i) * d(j)))
    if len(l) > 4: r = r + S.frac(1, 6) * S.sum(0, ns, lambda i: S.sum(0, ns, lambda j: S.sum(0, ns, lambda k: S.cell(l[4], q, i, j, k) * d(i) * d(j) * d(k))))
    return r


@contract("C14", "polynomial decision rule", ["dolo.numeric.taylor_expansion." + f for f in ("TaylorExpansion.__init__", "TaylorExpansion.eval_s", "TaylorExpansion.eval_ms", "eval_te_order_1", "eval_te_order_2", "eval_te_order_3")],
          opts=ORD, bounded="orders 1 to 3 (all the implemented ones), any number of states, controls and points")
def _(S):
    o = S.case["order"]
    ns, nx, N = S.dim("ns", hi=3), S.dim("nx", hi=3), S.dim("N", hi=3)
    l = coefs(S, o, ns, nx)
    fz = [S.frozen(c) for c in l]
    P, m, p = S.arr("P", (N, ns)), S.arr("m", (N, 1)), S.arr("p", (ns,))
    for t in (S.call(te.TaylorExpansion, *l), S.call(te.TaylorExpansion, l)):
        S.check("order", S.eq(S.attr(t, "order"), o))
        for lab, R in (("several states", S.call(t, P)), ("exogenous values are irrelevant", S.call(t, m, P))):
            S.shape(lab, R, (N, nx))
            S.forall(lab, (N, nx), lambda n, q: S.eq(S.cell(R, n, q), value(S, l, q, ns, lambda i: S.cell(P, n, i))))
        R = S.call(t, p)
        S.shape("one state", R, (nx,))
        S.forall("one state", (nx,), lambda q: S.eq(S.cell(R, q), value(S, l, q, ns, lambda i: S.cell(p, i))))
    for c, f in zip(l, fz): S.unchanged("coefficients unchanged", c, f)


@contract("C14", "selected controls of a polynomial decision rule", ["dolo.numeric.taylor_expansion.TaylorExpansion.__getitem__"], opts=ORD)
def _(S):
    o = S.case["order"]
    ns, nx, N = S.dim("ns", hi=3), S.dim("nx", lo=2, hi=3), S.dim("N", hi=3)
    l = coefs(S, o, ns, nx)
    t = S.call(te.TaylorExpansion, *l)
    k = S.index("k", nx - 1)
    u = S.call(te.TaylorExpansion.__getitem__, t, slice(k, k + 2))
    P = S.arr("P", (N, ns))
    R = S.call(u, P)
    S.shape("two controls", R, (N, 2))
    S.forall("those selected", (N, 2), lambda n, q: S.eq(S.cell(R, n, q), value(S, l, k + q, ns, lambda i: S.cell(P, n, i))))


@contract("C14", "linear decision rule in two groups of states", ["dolo.algos.perturbation.BivariateTaylor." + f for f in ("__init__", "eval_s", "eval_ms")], opts={"cases": [{"m": 0}, {"m": 1}]})
def _(S):
    ns, nx, nm, N = S.dim("ns", hi=3), S.dim("nx", hi=3), S.dim("nm", hi=3), S.dim("N", hi=3)
    mb, sb, xb, Cm, Cs = S.arr("mb", (nm,)), S.arr("sb", (ns,)), S.arr("xb", (nx,)), S.arr("Cm", (nx, nm)), S.arr("Cs", (nx, ns))
    has = bool(S.case["m"])
    t = S.call(pe.BivariateTaylor, mb, sb, xb, Cm if has else None, Cs)
    M, P, m, p = S.arr("M", (N, nm)), S.arr("P", (N, ns)), S.arr("m", (nm,)), S.arr("p", (ns,))

    def ref(q, mm, ss):
        r = S.cell(xb, q) + S.sum(0, ns, lambda i: S.cell(Cs, q, i) * (ss(i) - S.cell(sb, i)))
        return r + S.sum(0, nm, lambda i: S.cell(Cm, q, i) * (mm(i) - S.cell(mb, i))) if has else r
    row = lambda A, n: (lambda i: S.cell(A, n, i))
    one = lambda a: (lambda i: S.cell(a, i))
    R = S.call(t, M, P)
    S.shape("several points", R, (N, nx))
    S.forall("several points", (N, nx), lambda n, q: S.eq(S.cell(R, n, q), ref(q, row(M, n), row(P, n))))
    R1 = S.call(t, m, P)
    S.shape("one exogenous vector", R1, (N, nx))
    S.forall("one exogenous vector", (N, nx), lambda n, q: S.eq(S.cell(R1, n, q), ref(q, one(m), row(P, n))))
    R2 = S.call(t, m, p)
    S.shape("one point", R2, (nx,))
    S.forall("one point", (nx,), lambda q: S.eq(S.cell(R2, q), ref(q, one(m), one(p))))
    R3 = S.method(t, "eval_ms", m, p)
    S.forall("one point (direct evaluation)", (nx,), lambda q: S.eq(S.cell(R3, q), ref(q, one(m), one(p))))
    if not has:
        R4, R5 = S.call(t, P), S.call(t, p)
        S.forall("endogenous states only", (N, nx), lambda n, q: S.eq(S.cell(R4, n, q), ref(q, None, row(P, n))))
        S.shape("one endogenous state", R5, (nx,))
        S.forall("one endogenous state", (nx,), lambda q: S.eq(S.cell(R5, q), ref(q, None, one(p))))


@contract("C14", "contraction of a tensor with a matrix", ["dolo.numeric.tensor.sdot"], opts={"cases": [{"u": 1, "v": 2}, {"u": 2, "v": 1}, {"u": 2, "v": 2}, {"u": 3, "v": 2}, {"u": 2, "v": 3}, {"u": 3, "v": 3}]},
          bounded="up to 3 axes each (any extents)")
def _(S):
    a, b, c, d, k = S.dims("a b c d k")
    u, v = S.case["u"], S.case["v"]
    su, sv = (a, b)[:u - 1], (c, d)[:v - 1]
    U, V = S.arr("U", su + (k,)), S.arr("V", (k,) + sv)
    R = S.call(tn.sdot, U, V)
    S.shape("shape", R, su + sv)
    S.forall("sum over the common axis", su + sv, lambda *i: S.eq(S.cell(R, *i), S.sum(0, k, lambda q: S.cell(U, *(i[:u - 1] + (q,))) * S.cell(V, *((q,) + i[u - 1:])))))


@contract("C14", "multilinear map applied to matrices", ["dolo.numeric.tensor.mdot", "dolo.numeric.tensor.mdot_signature", "dolo.numeric.tensor.multidot_old"],
          opts={"cases": [{"n": 1, "lead": 1}, {"n": 2, "lead": 1}, {"n": 2, "lead": 0}, {"n": 2, "lead": 2}, {"n": 3, "lead": 1}, {"n": 2, "lead": 1, "vec": 1}]}, bounded="1 to 3 arguments, 0 to 2 leading axes (any extents)")
def _(S):
    n, lead = S.case["n"], S.case["lead"]
    L = [S.dim("l%d" % i, hi=2) for i in range(lead)]
    I, O = [S.dim("i%d" % j, hi=2) for j in range(n)], [S.dim("o%d" % j, hi=2) for j in range(n)]
    vec = [S.case.get("vec") and j == n - 1 for j in range(n)]
    T = S.arr("T", tuple(L + I))
    C = [S.arr("C%d" % j, (I[j],) if vec[j] else (I[j], O[j])) for j in range(n)]
    O = [o for o, v in zip(O, vec) if not v]

    def ref(ix):
        l, o = ix[:lead], list(ix[lead:])
        oo = [None if v else o.pop(0) for v in vec]

        def rec(j, done):
            if j == n:
                r = S.cell(T, *(tuple(l) + tuple(done)))
                for q in range(n): r = r * (S.cell(C[q], done[q]) if vec[q] else S.cell(C[q], done[q], oo[q]))
                return r
            return S.sum(0, I[j], lambda k: rec(j + 1, done + [k]))
        return rec(0, [])
    for lab, R in (("product", S.call(tn.mdot, T, *C)), ("successive contractions", S.call(tn.multidot_old, T, C))):
        S.shape(lab, R, tuple(L + O))
        S.forall(lab, tuple(L + O), lambda *ix: S.eq(S.cell(R, *ix), ref(ix)))
