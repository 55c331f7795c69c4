"""C21: tables of decision rules."""
import types
import numpy as np
import pandas
import xarray as xr
from pyvc.spec import contract, module
from contracts.c10_simulation import Fake, capture, same_names
from contracts.models_lib import model, RBC

sm = module("dolo.algos.simulations")
gr = module("dolo.numeric.grids")
proc = module("dolo.numeric.processes")
dist = module("dolo.numeric.distribution")
res = module("dolo.algos.results")
Q = "dolo.algos.simulations."


def table(S):
    box = {}
    if S.symbolic:
        def df(data, columns=None):
            box["columns"] = columns
            return data
        S.override(pandas.DataFrame, df)
    return box


def rules(S, u):
    """decision at a row of exogenous values (or a node) and a row of states"""
    k = S.rowfun("node_rule", u.nx)
    h = u.h

    def eval_is(i, s):
        return k(S.array((1,), lambda _: i), s)
    return types.SimpleNamespace(eval_is=S.wrapfun(eval_is), eval_ms=S.wrapfun(h)), k


class Position:
    """the names of the states, asked for the position of the state of the table"""
    _model_ = True

    def __init__(self, S, names, j):
        from pyvc.interp import SymSeq

        class P(SymSeq):
            def index(self, name):
                return j[name]
            index._model_ = True
        self.seq = P(names.n, names.f)


@contract("C21", "table along one state", [Q + "tabulate"], runs=10,
          opts={"cases": [dict(aux=a, given=b, exo=e, s0=i, wrap=w) for b in ("grid", "domain", "bounds") for e in ("mc", "node", "value", "iid", "grid") for a, i, w in ((1, 0, 0), (0, 1, 0), (1, 0, 1)) if not (w and (b != "grid" or e != "mc"))]})
def _(S):
    c = S.case
    T = S.dim("T", lo=2, hi=5)
    nm, ns, nx = S.dim("nm", hi=2), S.dim("ns", hi=3), S.dim("nx", hi=2)
    na = S.dim("na", hi=2) if c["aux"] else None
    u = Fake(S, nm, ns, nx, na)
    j = S.index("j", ns)
    rule, k = rules(S, u)
    lo, hi = S.arr("lo", (ns,)), S.arr("hi", (ns,))
    kw = {}
    if c["given"] == "grid": rule.endo_grid = types.SimpleNamespace(min=lo, max=hi)
    if c["given"] == "domain": u.model.domain = types.SimpleNamespace(min=lo, max=hi)
    if c["given"] == "bounds": kw["bounds"] = [S.cell(lo, j), S.cell(hi, j)]
    node = None
    if c["exo"] in ("mc", "node"):
        K = S.dim("K", hi=5)
        v = S.arr("v", (K, nm))
        rule.dprocess = S.call(proc.MarkovChain, S.stochastic("P", K), v)
        node = S.idiv(K + 1, 2) - 1
        if c["exo"] == "node":
            node = S.index("i", K)
            kw["i0"] = node
        m = lambda q: S.cell(v, node, q)
    elif c["exo"] in ("iid", "grid"):
        rule.dprocess = types.SimpleNamespace(grid=S.call(gr.EmptyGrid) if c["exo"] == "iid" else gr.UniformCartesianGrid.__new__(gr.UniformCartesianGrid))
        m = lambda q: S.cell(u.m0, q)
    else:
        mm = S.arr("m", (nm,))
        rule.dprocess = None
        kw["m0"] = mm
        m = lambda q: S.cell(mm, q)
    s0 = u.s0
    if c["s0"]:
        s0 = S.arr("s", (ns,))
        kw["s0"] = s0
    f0 = S.frozen(s0)
    arg = res.AlgoResult.__new__(res.AlgoResult) if c["wrap"] else rule
    if c["wrap"]: arg.__dict__["dr"] = rule
    box = table(S)
    groups = [u.symbols[g] for g in ("exogenous", "states", "controls", "auxiliaries")]
    if S.symbolic: u.model.symbols["states"] = Position(S, groups[1], {"the state": j}).seq
    length = lambda q: len(q) if isinstance(q, list) else q.n
    lens = [length(q) for q in groups]
    R = S.call(sm.tabulate, u.model, arg, "the state" if S.symbolic else u.symbols["states"][j], n_steps=T, **kw)
    S.check("names of the model unchanged", S.and_(*[S.eq(length(q), n) for q, n in zip(groups, lens)]))
    if not S.symbolic:
        box["columns"] = list(R.columns)
        R = R.values
    same_names(S, "names of the columns", box["columns"], *(groups if c["aux"] else groups[:3]))
    S.shape("one row per point", R, (T, nm + ns + nx + (na if c["aux"] else 0)))
    M = S.array((nm,), lambda q: m(q))
    S.forall("exogenous values", (T, nm), lambda t, q: S.eq(S.cell(R, t, q), m(q)))
    S.forall("states", (T, ns), lambda t, q: S.eq(S.cell(R, t, nm + q), S.ite(S.eq(q, j), S.cell(lo, j) + (S.cell(hi, j) - S.cell(lo, j)) * S.quot(t, T - 1), S.cell(s0, q))))
    SS = lambda t: S.array((ns,), lambda q: S.cell(R, t, nm + q))
    XX = lambda t: S.array((nx,), lambda q: S.cell(R, t, nm + ns + q))
    S.forall("controls follow the decision rule", (T, nx), lambda t, q: S.eq(S.cell(R, t, nm + ns + q), u.h.raw((q,), M, SS(t)) if node is None else k.raw((q,), S.array((1,), lambda _: node), SS(t))))
    if c["aux"]: S.forall("auxiliary variables", (T, na), lambda t, q: S.eq(S.cell(R, t, nm + ns + nx + q), u.aux.raw((q,), M, SS(t), XX(t), u.p)))
    S.unchanged("initial state unchanged", s0, f0)


@contract("C21", "table over two states", [Q + "tabulate_2d"], runs=30,
          opts={"cases": [dict(states=z, n=n, node=i, given=g) for z in (0, 1) for n, i, g in ((1, 0, 1), (1, 1, 0), (0, 1, 1))]})
def _(S):
    c = S.case
    # two states, or two among several
    ns = S.dim("ns", lo=2, hi=4) if c["states"] else 2
    nx = S.dim("nx", hi=3)
    u = Fake(S, 1, ns, nx, None)
    rule, k = rules(S, u)
    lo, hi = S.arr("lo", (ns,)), S.arr("hi", (ns,))
    if c["states"]:
        z = (S.index("z0", ns), S.index("z1", ns))
        S.require(S.not_(S.eq(*z)))
    else:
        z = (0, 1)
    groups = [u.symbols["states"], u.symbols["controls"]]
    names = ["first", "second"] if S.symbolic and c["states"] else [u.symbols["states"][q] for q in z]
    if S.symbolic and c["states"]: u.model.symbols["states"] = Position(S, groups[0], dict(zip(names, z))).seq
    dom = {names[a]: [S.cell(lo, z[a]), S.cell(hi, z[a])] for a in (0, 1)}
    u.model.get_domain = lambda: dom
    kw = {}
    n = [12, 13]
    if c["n"]:
        n = [S.dim("n0", hi=4), S.dim("n1", hi=4)]
        kw["n"] = list(n)
    node = 0
    if c["node"]: node = kw["i0"] = S.index("node", S.dim("K"))
    if c["states"]: kw["states"] = list(names)
    s0 = u.s0
    if c["given"]:
        s0 = S.arr("s", (ns,))
        kw["s0"] = s0
    f0 = S.frozen(s0)
    box = capture(S)
    R = S.call(sm.tabulate_2d, u.model, rule, **kw)
    if not S.symbolic:
        box["dims"], box["coords"], R = list(R.dims), {q: list(R.coords[q].values) for q in R.coords}, R.data
    S.check("names of the axes", list(box["dims"]) == names + ["V"])
    same_names(S, "names of the variables", box["coords"]["V"], *groups)
    S.shape("one entry per pair of points", R, (n[0], n[1], ns + nx))
    pt = lambda a, i: S.cell(lo, z[a]) + (S.cell(hi, z[a]) - S.cell(lo, z[a])) * S.ite(S.le(n[a], 1), 0, S.quot(i, S.ite(S.le(n[a], 1), 1, n[a] - 1)))
    for a in (0, 1):
        lab = np.array(box["coords"][names[a]]) if not S.symbolic else box["coords"][names[a]]
        S.shape("labels of the points", lab, (n[a],))
        S.forall("labels of the points", (n[a],), lambda i: S.eq(S.cell(lab, i), pt(a, i)))
    st = lambda i, j, q: S.ite(S.eq(q, z[0]), pt(0, i), S.ite(S.eq(q, z[1]), pt(1, j), S.cell(s0, q)))
    S.forall("states", (n[0], n[1], ns), lambda i, j, q: S.eq(S.cell(R, i, j, q), st(i, j, q)))
    rule_at = lambda i, j, q: S.eq(S.cell(R, i, j, ns + q), k.raw((q,), S.array((1,), lambda _: node), S.array((ns,), lambda q: S.cell(R, i, j, q))))
    if c["n"] or not S.symbolic: S.forall("controls follow the decision rule", (n[0], n[1], nx), rule_at)
    else:
        for i in range(n[0]):
            for j in range(n[1]): S.forall("controls follow the decision rule", (nx,), lambda q: rule_at(i, j, q))
    S.unchanged("initial state unchanged", s0, f0)


MC = RBC.replace("""exogenous: !UNormal
    sigma: sig_z""", """exogenous: !MarkovChain
    values: [[-0.01], [0.0], [0.02]]
    transitions: [[0.8, 0.1, 0.1], [0.3, 0.3, 0.4], [0.0, 0.5, 0.5]]""").replace("n: [5, 8]", "n: [3, 5]")
AR = RBC.replace("""exogenous: !UNormal
    sigma: sig_z""", """exogenous: !AR1
    rho: 0.5
    sigma: sig_z""").replace("n: [5, 8]", "n: [3, 5]")


@contract("C21", "tables of a growth model", [Q + "tabulate", Q + "tabulate_2d"], sym=False, bounded="a growth model with three kinds of shocks", runs=2, opts={"cases": [{"kind": k} for k in ("iid", "mc", "ar1", "perturb")]})
def _(S):
    kind = S.case["kind"]
    mo = model({"iid": RBC, "mc": MC, "ar1": AR, "perturb": RBC}[kind])
    if kind == "perturb":
        arg = module("dolo.algos.perturbation").perturb(mo, verbose=False)
    else:
        arg = module("dolo.algos.time_iteration").time_iteration(mo, verbose=False, maxit=2)
    dr = arg.dr
    c = mo.calibration
    s0 = c["states"] * float(S.rng.uniform(0.9, 1.1))
    for j, st in enumerate(["z", "k"]):
        R = S.call(sm.tabulate, mo, arg, st, n_steps=7, s0=s0)
        b = mo.domain if kind == "perturb" else dr.endo_grid
        S.check("names of the columns", list(R.columns) == ["e_z", "z", "k", "n", "i"] + list(mo.symbols["auxiliaries"]))
        V = R.values
        s = np.array([s0] * 7)
        s[:, j] = np.linspace(b.min[j], b.max[j], 7)
        i0 = (dr.dprocess.n_nodes + 1) // 2 - 1 if kind in ("mc", "ar1") else None
        m = np.zeros(1) if i0 is None else np.array(dr.dprocess.node(i0))
        S.check("exogenous values", bool(np.allclose(V[:, :1], m)))
        S.check("states", bool(np.allclose(V[:, 1:3], s)))
        x = dr.eval_ms(m, s) if i0 is None else dr(i0, s)
        S.check("controls follow the decision rule", bool(np.allclose(V[:, 3:5], x)))
        S.check("auxiliary variables", bool(np.allclose(V[:, 5:], mo.functions["auxiliary"](m, s, x, c["parameters"]))))
    if kind != "perturb":
        T = S.call(sm.tabulate_2d, mo, arg, n=[3, 4], states=["k", "z"], i0=0)
        dom = mo.domain
        for a, k in enumerate(np.linspace(dom.min[1], dom.max[1], 3)):
            for b, z in enumerate(np.linspace(dom.min[0], dom.max[0], 4)):
                s = np.array([z, k])
                S.check("table over two states", bool(np.allclose(T.values[a, b], np.concatenate([s, dr.eval_is(0, s[None, :])[0]]))))
        S.check("axes of a table over two states", T.dims == ("k", "z", "V") and list(T.coords["V"].values) == ["z", "k", "n", "i"])
