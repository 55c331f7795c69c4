"""C18: calibration, domain, grid and shocks of a model reflect its current parameters."""
import os
import re
import types
import numpy as np
from pyvc.spec import contract, module
from contracts import models_lib

misc = module("dolo.compiler.misc")
mod = module("dolo.compiler.model")
obj = module("dolo.compiler.objects")
M = "dolo.compiler.misc."
Q = "dolo.compiler.model."
GROUPS = [("exogenous", 1), ("states", 2), ("controls", 2), ("parameters", 3), ("auxiliaries", 1)]


def groups(S, pre=""):
    """symbols of each group and arbitrary values for them"""
    syms = {g: ["%s%d" % (g[:3], k) for k in range(n)] for g, n in GROUPS}
    vals = {g: S.arr(pre + g, (n,)) for g, n in GROUPS}
    return syms, vals


@contract("C18", "values of the symbols", [M + "CalibrationDict.__init__", M + "CalibrationDict.__getitem__", M + "calibration_to_dict", M + "LoosyDict.__getitem__"],
          bounded="groups of one to three symbols (any values)", runs=10, opts={"cases": [{"rev": 0}, {"rev": 1}]})
def _(S):
    syms, vals = groups(S)
    given = {g: vals[g] for g in (list(vals) if S.case["rev"] else list(vals)[::-1])}
    c = S.call(misc.CalibrationDict, syms, given)
    get = lambda k: S.call(misc.CalibrationDict.__getitem__, c, k)
    for g, n in GROUPS:
        S.shape("values of a group", get(g), (n,))
        for k in range(n):
            S.check("value in its group", S.eq(S.cell(get(g), k), S.cell(vals[g], k)))
            S.check("value of a symbol", S.eq(get(syms[g][k]), S.cell(vals[g], k)))
        S.check("the values given are still writable", vals[g].flags.writeable)
        S.check("values cannot be changed in place", not get(g).flags.writeable)
    a = get("actions")
    S.check("actions are the controls", S.and_(*[S.eq(S.cell(a, k), S.cell(vals["controls"], k)) for k in range(2)]))
    t = get(("states", "par1", "aux0", "controls"))
    S.check("several values", len(t) == 4)
    S.check("several values in the order asked", S.and_(S.eq(t[1], S.cell(vals["parameters"], 1)), S.eq(t[2], S.cell(vals["auxiliaries"], 0)), S.eq(S.cell(t[0], 1), S.cell(vals["states"], 1)), S.eq(S.cell(t[3], 0), S.cell(vals["controls"], 0))))
    S.check("unknown symbols are refused", isinstance(S.expect_raise(misc.CalibrationDict.__getitem__, c, "foo"), KeyError))


@contract("C18", "domain of the states", [Q + "SymbolicModel.get_domain", "dolo.compiler.objects.CartesianDomain.__init__", "dolo.compiler.objects.CartesianDomain.min", "dolo.compiler.objects.CartesianDomain.max"],
          bounded="one to three states declared in any order (any bounds)", runs=6,
          opts={"cases": [{"order": o, "extra": e} for o in ("0", "01", "10", "012", "120", "210", "102") for e in (0, 1)], "assumes": ["dolang.language.eval_data evaluates the expressions of the model file"]})
def _(S):
    order = [int(c) for c in S.case["order"]]
    n = len(order)
    b = S.arr("b", (n, 2))
    syms = {"states": ["s%d" % k for k in range(n)]}
    dom = {}
    for k in order:
        dom["s%d" % k] = [S.cell(b, k, 0), S.cell(b, k, 1)]
        if S.case["extra"]: dom["foo"] = [0.0, 1.0]
    me = types.SimpleNamespace(data={"domain": dom}, symbols=syms, get_calibration=lambda: {})
    from dolang.language import eval_data
    if S.symbolic:
        S.override(eval_data, lambda d, c=None: d)
        D = S.call(mod.SymbolicModel.get_domain, me)
    else:
        import dolang.language as L
        keep = L.eval_data
        L.eval_data = mod.eval_data = lambda d, c=None: d
        try: D = S.call(mod.SymbolicModel.get_domain, me)
        finally: L.eval_data = mod.eval_data = keep
    lo, hi = S.attr(D, "min"), S.attr(D, "max")
    S.check("states of the domain", tuple(S.attr(D, "states")) == tuple(syms["states"]))
    S.shape("one bound per state", lo, (n,))
    for k in range(n):
        S.check("lower bounds in the order of the states", S.eq(S.cell(lo, k), S.cell(b, k, 0)))
        S.check("upper bounds in the order of the states", S.eq(S.cell(hi, k), S.cell(b, k, 1)))
        S.check("bounds of a state", S.and_(S.eq(S.cell(D["s%d" % k], 0), S.cell(b, k, 0)), S.eq(S.cell(D["s%d" % k], 1), S.cell(b, k, 1))))


class patched:
    """methods replaced by their contracts"""

    def __init__(self, S, owner, **new): self.S, self.owner, self.new = S, owner, new

    def __enter__(self):
        self.old = {k: vars(self.owner)[k] for k in self.new}
        for k, f in self.new.items():
            if isinstance(self.old[k], property):
                if self.S.symbolic: self.S.override(self.old[k].fget, f)
                else: setattr(self.owner, k, property(f))
            elif self.S.symbolic: self.S.override(self.old[k], f)
            else: setattr(self.owner, k, f)

    def __exit__(self, *a):
        if not self.S.symbolic:
            for k, f in self.old.items(): setattr(self.owner, k, f)


STEPS = {"keywords": lambda S, m, d: S.method(m, "set_calibration", **d), "dictionary": lambda S, m, d: S.method(m, "set_calibration", d),
         "one by one": lambda S, m, d: [S.method(m, "set_calibration", **{k: v}) for k, v in d.items()]}


@contract("C18", "nothing stale after a change of the calibration", [Q + "Model.set_calibration", Q + "Model.set_changed", Q + "Model.calibration", Q + "Model.domain", Q + "Model.exogenous", M + "calibration_to_vector"],
          bounded="two parameters and one state (any values)", runs=6,
          opts={"cases": [{"how": h, "first": f} for h in STEPS for f in ("calibration", "domain", "exogenous", "none")], "assumes": ["dolang.triangular_solver.solve_triangular_system solves the equations of the calibration"]})
def _(S):
    SM, MM = mod.SymbolicModel, mod.Model
    old, new = S.arr("old", (3,)), S.arr("new", (2,))
    keys = ["p0", "p1", "s0"]
    m = MM.__new__(MM)
    m.data = {"calibration": {k: S.cell(old, i) for i, k in enumerate(keys)}}
    S.method(m, "set_changed", all=True)
    from dolang.triangular_solver import solve_triangular_system
    if S.symbolic: S.override(solve_triangular_system, lambda d, *a, **k: d)
    with patched(S, SM, symbols=lambda self: {"parameters": ["p0", "p1"], "states": ["s0"]}, get_calibration=lambda self: dict(self.data["calibration"]), get_domain=lambda self: ("domain", dict(self.data["calibration"])), get_exogenous=lambda self: ("process", dict(self.data["calibration"]))):
        for a in ("calibration", "domain", "exogenous"): S.attr(m, a)       # objects of the old values
        STEPS[S.case["how"]](S, m, {"p0": S.cell(new, 0), "s0": S.cell(new, 1)})
        want = {"p0": S.cell(new, 0), "p1": S.cell(old, 1), "s0": S.cell(new, 1)}
        first = S.case["first"]
        if first != "none": S.attr(m, first)
        c, d, e = S.attr(m, "calibration"), S.attr(m, "domain"), S.attr(m, "exogenous")
        get = lambda k: S.call(misc.CalibrationDict.__getitem__, c, k)
        for k in keys:
            S.check("calibration uses the new values", S.eq(get(k), want[k]))
            S.check("domain uses the new values", S.eq(d[1][k], want[k]))
            S.check("process uses the new values", S.eq(e[1][k], want[k]))
        S.check("each object is the right one", d[0] == "domain" and e[0] == "process")
        S.check("values in the order of the symbols", S.and_(S.eq(S.cell(get("parameters"), 0), want["p0"]), S.eq(S.cell(get("parameters"), 1), want["p1"]), S.eq(S.cell(get("states"), 0), want["s0"])))


READS = ("calibration", "domain", "exogenous")


@contract("C18", "a change after any history", [Q + "Model.set_calibration", Q + "Model.set_changed", Q + "Model.calibration", Q + "Model.domain", Q + "Model.exogenous"], runs=3,
          opts={"cases": [{"read": r, "how": h} for r in range(8) for h in STEPS], "assumes": ["calibrations, domains and processes computed by get_calibration, calibration_to_vector, CalibrationDict, get_domain and get_exogenous depend on the file and on the calibrated values only (specified by the other contracts)"]})
def _(S):
    """Invariant of histories: an object kept from a former read is the one of the current values. A model has it when built, a read keeps it, and so does a change of values, whatever had been read before.
    Objects are opaque (any numbers of symbols): only the values they were computed from are known."""
    SM, MM = mod.SymbolicModel, mod.Model
    old, new = S.real("old"), S.real("new")
    m = MM.__new__(MM)
    m.data = {"calibration": {"p": old}}
    S.method(m, "set_changed", all=True)

    def vec(symbols, d): return ("vector", d["p"])

    def cal(symbols, v): return ("calibration", v[1])
    now = lambda self: {"p": self.data["calibration"]["p"]}
    keep = misc.CalibrationDict, misc.calibration_to_vector
    if S.symbolic:
        S.override(misc.calibration_to_vector, vec); S.override(misc.CalibrationDict, cal)
    else:
        misc.CalibrationDict, misc.calibration_to_vector = cal, vec
    try:
        with patched(S, SM, symbols=lambda self: {}, get_calibration=now, get_domain=lambda self: ("domain", now(self)["p"]), get_exogenous=lambda self: ("exogenous", now(self)["p"])):
            for k, a in enumerate(READS):
                if S.case["read"] >> k & 1:
                    o = S.attr(m, a)
                    S.check("objects of the values of the file", S.and_(o[0] == a, S.eq(o[1], old)))
            STEPS[S.case["how"]](S, m, {"p": new})
            for a in READS + READS:
                o = S.attr(m, a)
                S.check("objects of the new values", S.and_(o[0] == a, S.eq(o[1], new)))
    finally:
        if not S.symbolic: misc.CalibrationDict, misc.calibration_to_vector = keep


BASE = {"beta": "0.99", "delta": "0.025", "alpha": "0.33", "rho": "0.8", "sigma": "2", "eta": "1", "sig_z": "0.016", "n": "0.33"}


def text(vals, order=("z", "k"), kind="UNormal", grid="!Cartesian\n        n: [5, 8]"):
    """a small model with the given calibration"""
    t = models_lib.RBC
    for k, v in vals.items():
        t, n = re.subn(r"(?m)^(    %s ?:) .*$" % k, r"\1 %s" % v, t, count=1 if k != "n" else 1)
        assert n == 1, k
    dom = {"z": "    z: [-2*sig_z/(1-rho^2)^0.5,  2*sig_z/(1-rho^2)^0.5]\n", "k": "    k: [ k*0.5, k*1.5]\n"}
    t = t.replace(dom["z"] + dom["k"], "".join(dom[o] for o in order))
    t = t.replace("!Cartesian\n        n: [5, 8]", grid)
    return t


def load(t):
    import yaml
    from dolo.compiler.model import Model
    f = os.path.abspath("m18_%d.yaml" % os.getpid())
    with open(f, "w", encoding="utf-8") as h: h.write(t)
    from dolo import yaml_import
    return yaml_import(f, check=False)


def same(a, b): return np.allclose(a, b, rtol=1e-10, atol=1e-12)


@contract("C18", "histories of changes of a model file", [Q + "Model.set_calibration", Q + "Model.calibration", Q + "SymbolicModel.get_calibration", Q + "SymbolicModel.get_domain", Q + "SymbolicModel.get_exogenous", Q + "SymbolicModel.endo_grid", Q + "Model.discretize"],
          sym=False, bounded="a growth model, random sequences of up to five changes", runs=12)
def _(S):
    vals = dict(BASE)
    order = ("z", "k") if S.rng.rand() < 0.5 else ("k", "z")
    m = load(text(vals, order))
    for step in range(int(S.rng.randint(1, 6))):
        for a in ("calibration", "domain", "exogenous", "endo_grid"):
            if S.rng.rand() < 0.5: S.attr(m, a)
        keys = [k for k in vals if S.rng.rand() < 0.4]
        new = {k: round(float(S.rng.uniform(0.3, 0.8)), 3) for k in keys}
        if S.rng.rand() < 0.3: new = {k: "0.1 + %s" % v for k, v in new.items()}
        vals.update(new)
        STEPS[list(STEPS)[S.rng.randint(3)]](S, m, new)
    vals = {k: (eval(v) if isinstance(v, str) else v) for k, v in vals.items()}
    w = load(text(vals, ("z", "k")))
    z = vals["sig_z"] / (1 - vals["rho"] ** 2) ** 0.5
    al, n = vals["alpha"], vals["n"]
    rk = 1 / vals["beta"] - 1 + vals["delta"]
    k = n / (rk / al) ** (1 / (1 - al))
    y = k ** al * n ** (1 - al)
    c = y - vals["delta"] * k
    chi = (1 - al) * (k / n) ** al / c ** vals["sigma"] / n ** vals["eta"]
    cal = S.attr(m, "calibration")
    for x, label in ((w, "as a new model"),):
        for g in ("exogenous", "states", "controls", "parameters", "auxiliaries"):
            S.check("calibration " + label, same(cal[g], S.attr(x, "calibration")[g]))
        for b in ("min", "max"):
            S.check("domain " + label, same(getattr(S.attr(m, "domain"), b), getattr(S.attr(x, "domain"), b)))
            S.check("grid " + label, same(getattr(S.attr(m, "endo_grid"), b), getattr(S.attr(x, "endo_grid"), b)))
    S.check("calibrated values solve their definitions", same([cal[v] for v in ("k", "rk", "y", "c", "i", "chi", "z", "e_z")], [k, rk, y, c, vals["delta"] * k, chi, 0.0, 0.0]))
    S.check("calibrated values of groups", same(cal["states"], [0.0, k]) and same(cal["controls"], [n, vals["delta"] * k]) and same(cal["auxiliaries"], [y, c, rk, (1 - al) * (k / n) ** al]))
    S.check("domain of the states", same(S.attr(m, "domain").min, [-2 * z, 0.5 * k]) and same(S.attr(m, "domain").max, [2 * z, 1.5 * k]) and same(m.domain["k"], [0.5 * k, 1.5 * k]))
    g = S.attr(m, "endo_grid")
    S.check("grid of the states", same(g.min, [-2 * z, 0.5 * k]) and same(g.max, [2 * z, 1.5 * k]) and tuple(g.n) == (5, 8) and same(g.nodes[8], [-2 * z + z, 0.5 * k]) and same(g.nodes[1], [-2 * z, 0.5 * k + k / 7]))
    S.check("shocks", same(S.attr(m, "exogenous").σ, vals["sig_z"]))
    gr, dp = S.method(m, "discretize")
    S.check("discretized shocks", same([dp.iweight(0, i) * dp.inode(0, i)[0] for i in range(dp.n_inodes(0))], [dp.iweight(0, i) * w.exogenous.discretize().inode(0, i)[0] for i in range(dp.n_inodes(0))]))
    S.check("discretized grid", same(gr["endo"].nodes, g.nodes))
    gr, dp = S.method(m, "discretize", grid_options={"n": [3, 4]}, dprocess_options={"N": 4})
    S.check("options of the discretization", same(gr["endo"].nodes, S.attr(m, "domain").discretize(n=[3, 4]).nodes) and tuple(gr["endo"].n) == (3, 4) and dp.n_inodes(0) == 4)
    S.check("values of a formula", same(S.method(m, "eval_formula", "alpha*k + 2*z - c"), al * k - c))


@contract("C18", "grids of a model file", [Q + "SymbolicModel.endo_grid", Q + "get_address"], sym=False, bounded="grids of four kinds", runs=4)
def _(S):
    v = dict(BASE)
    v["alpha"] = round(float(S.rng.uniform(0.3, 0.5)), 3)
    a, b = [int(q) for q in S.rng.randint(2, 9, size=2)]
    g = lambda s: S.attr(load(text(v, grid=s)), "endo_grid")
    w = load(text(v))
    lo, hi, k = w.domain.min, w.domain.max, w.calibration["k"]
    for key in ("n", "orders"):
        x = g("!Cartesian\n        %s: [%d, %d]" % (key, a, b))
        S.check("cartesian grid", same(x.min, lo) and same(x.max, hi) and tuple(x.n) == (a, b))
    x = g("!NonUniformCartesian\n        - [-1, 0, 2]\n        - [0.5*k, k, 2*k, 3*k]")
    S.check("points given", x.nodes.shape == (12, 2) and same(x.nodes[:4, 1], [0.5 * k, k, 2 * k, 3 * k]) and same(x.nodes[::4, 0], [-1, 0, 2]))
    x = g("!Smolyak\n        mu: 3")
    S.check("sparse grid", same(x.min, lo) and same(x.max, hi) and x.nodes.shape == (29, 2))
    t = text(v, grid="!Cartesian\n        n: [%d, %d]\n        a: [-1, 0.5*k]\n        b: [1, 2*k]" % (a, b))
    i, j = t.index("domain:"), t.index("options:")
    x = load(t[:i] + t[j:])
    S.check("bounds given with the grid", same(x.domain.min, [-1, 0.5 * k]) and same(x.domain.max, [1, 2 * k]) and same(S.attr(x, "endo_grid").max, [1, 2 * k]))
    t = text(v).replace("    z: [-2*sig_z", "    zz: [-2*sig_z")
    S.check("missing domains are refused", isinstance(S.expect_raise(lambda: load(t).domain), Exception))


@contract("C18", "shocks of a model file", [Q + "SymbolicModel.get_exogenous"], sym=False, bounded="specifications of one or two shocks", runs=4)
def _(S):
    a, b = [round(float(q), 3) for q in S.rng.uniform(0.1, 2, size=2)]
    t = text(BASE).replace("[e_z]", "[e_z, e_k]").replace("e_z: 0.0", "e_z: 0.1\n    e_k: 0.2")
    sub = lambda s: load(t.replace("exogenous: !UNormal\n    sigma: sig_z\n", s))
    one = lambda n, v: "    %s: !UNormal\n        sigma: %s\n" % (n, v)
    p = S.attr(sub("exogenous:\n" + one("e_z", "%s*sig_z" % a) + one("e_k", b)), "exogenous")
    S.check("shocks in the order of the symbols", [float(q.σ) for q in p.processes] == [a * 0.016, b])
    S.check("another order is refused", isinstance(S.expect_raise(lambda: sub("exogenous:\n" + one("e_k", a) + one("e_z", b)).exogenous), Exception))
    S.check("missing shocks are refused", isinstance(S.expect_raise(lambda: sub("exogenous:\n" + one("e_z", a)).exogenous), Exception))
    p = S.attr(sub("exogenous:\n    e_z,e_k: !Normal\n        Sigma: [[%s, 0.01],[0.01, %s]]\n" % (a, b)), "exogenous")
    S.check("joint shocks", same(p.processes[0].Σ, [[a, 0.01], [0.01, b]]))
    p = S.attr(sub("exogenous: !VAR1\n    rho: 0.5\n    Sigma: [[%s, 0.01],[0.01, %s]]\n" % (a, b)), "exogenous")
    S.check("joint process", same(p.Σ, [[a, 0.01], [0.01, b]]) and same(p.ρ, 0.5 * np.eye(2)))
