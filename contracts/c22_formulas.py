"""C22: formulas evaluated over tables of simulated values."""
import re
import types
import numpy as np
import pandas
from pyvc.spec import contract, module
from contracts.models_lib import model

ef = module("dolo.compiler.eval_formula")
mm = module("dolo.compiler.model")
cm = module("dolo.compiler.misc")
F = "dolo.compiler.eval_formula.eval_formula"

VARS, PARS = ["k", "c1", "z_a"], ["alpha", "beta", "k"]


def tree(rng, depth, dated):
    """a random formula: (text, evaluator)"""
    if depth == 0 or rng.rand() < 0.15:
        u = rng.rand()
        if u < 0.2:
            v = int(rng.randint(1, 5))
            return str(v), lambda S, at, par, date: S.num(v)
        if u < 0.3 and dated:
            return "t", lambda S, at, par, date: date
        if u < 0.5 or not dated:
            n = PARS[rng.randint(3)]
            return n, lambda S, at, par, date: par[n]
        n, l = VARS[rng.randint(3)], int(rng.randint(-2, 3))
        w = "%s(%s)" % (n, ("+%d" % l) if l > 0 and rng.rand() < 0.5 else l) if rng.rand() < 0.6 or l == 0 else "%s[t%+d]" % (n, l)
        return w, lambda S, at, par, date: at(n, l)
    o = ["+", "-", "*", "/", "^", "exp", "neg"][rng.randint(7)]
    a, fa = tree(rng, depth - 1, dated)
    if o == "exp" and not re.search("[a-z]", a.replace("exp", "")): o = "neg"        # exponentials of numbers are not exact
    if o == "exp": return "exp(%s)" % a, lambda S, *z: S.exp(fa(S, *z)) if S.symbolic else np.exp(fa(S, *z))
    if o == "neg": return "-(%s)" % a, lambda S, *z: -fa(S, *z)
    if o == "^": return "(%s)^2" % a, lambda S, *z: S.sq(fa(S, *z))
    b, fb = tree(rng, depth - 1, dated)
    if o == "/": return "(%s)/(1+(%s)^2)" % (a, b), lambda S, *z: S.quot(fa(S, *z), 1 + S.sq(fb(S, *z)))
    f = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y}[o]
    return "(%s)%s(%s)" % (a, o, b), lambda S, *z: f(fa(S, *z), fb(S, *z))


class Column:
    """pandas.Series.shift: value k dates before, undefined outside of the table"""
    _model_ = True

    def __init__(self, S, f, n): self.S, self.f, self.n = S, f, n

    def shift(self, k=1):
        S, f, n, u = self.S, self.f, self.n, self.S.real("undefined")
        return S.array((n,), lambda t: S.ite(S.and_(S.le(0, t - k), S.lt(t - k, n)), f(S.ite(S.and_(S.le(0, t - k), S.lt(t - k, n)), t - k, 0)), u))


class Frame:
    _model_ = True

    def __init__(self, S, cols, n, index): self.S, self.cols, self.n, self.index = S, cols, n, index

    def __getitem__(self, k): return Column(self.S, self.cols[k], self.n)


@contract("C22", "formulas over a table", [F], bounded="24 formulas (any values, number of dates, parameters)", runs=8,
          opts={"cases": [{"formula": i, "context": c} for i in range(24) for c in ("dict", "calibration", "model")[i % 3:i % 3 + 1]],
                "noxcheck": True, "assumes": ["pandas.Series.shift shifts values; dolang parses formulas"]})
def _(S):
    rng = np.random.RandomState(S.case["formula"] if S.symbolic else S.case["formula"] + 1000 * S.seed % 100000)
    txt, val = tree(rng, 3 if S.symbolic else 4, True)
    S.note(formula=txt)
    T = S.dim("T", hi=8)
    A = {n: S.arr("col_" + n, (T,)) for n in VARS}
    par = {n: S.real("par_" + n) for n in PARS}
    snap = {n: S.frozen(a) for n, a in A.items()}
    start = S.int("start", -3, 3)
    idx = S.array((T,), lambda t: t + start) if S.symbolic else np.arange(T) + start
    if S.symbolic:
        frame = Frame(S, {n: (lambda t, a=a: S.cell(a, t)) for n, a in A.items()}, T, idx)
        S.override(pandas.Series, lambda v, index=None: v)
    else:
        A = {n: a / (1 + np.abs(a)) for n, a in A.items()}
        par = {n: float(np.tanh(x)) for n, x in par.items()}
        frame = pandas.DataFrame(A, index=idx)
        saved = frame.copy()
    how = S.case["context"]
    if how == "calibration" or how == "model":
        ctx = cm.CalibrationDict.__new__(cm.CalibrationDict)
        ctx.__dict__["flat"] = dict(par)
    else:
        ctx = dict(par)
    keep = dict(par)
    if how == "model":
        mo = mm.Model.__new__(mm.Model)
        mo.__dict__["_Model__calibration__"] = None
        r = S.call(mm.Model.eval_formula, mo, txt, dataframe=frame, calib=ctx)
    else:
        r = S.call(ef.eval_formula, txt, frame, ctx)
    S.check("parameters unchanged", set((ctx if how == "dict" else ctx.flat)) == set(keep) and all((ctx if how == "dict" else ctx.flat)[k] is keep[k] for k in keep))
    inside = lambda t, l: S.and_(S.le(0, t + l), S.lt(t + l, T))
    if S.symbolic:
        conds = lags(txt)
        if not hasattr(r, "shp"):
            S.check("value of the formula", S.eq(r, val(S, None, par, None)))
            return
        S.forall("value of the formula at each date", (T,), lambda t: S.implies(S.and_(True, *[inside(t, l) for l in conds]), S.eq(S.cell(r, t), val(S, lambda n, l: S.cell(A[n], S.ite(inside(t, l), t + l, 0)), par, t + start))))
        for n in VARS: S.unchanged("table unchanged", A[n], snap[n])
        return
    S.check("table unchanged", frame.equals(saved))
    at = lambda t: lambda n, l: A[n][t + l] if 0 <= t + l < T else np.nan
    if np.ndim(r) == 0:
        S.check("value of the formula", S.eq(float(r), float(val(S, None, par, None))))
        return
    S.check("dates", list(r.index) == list(frame.index))
    for t in range(T):
        with np.errstate(all="ignore"):
            v = float(val(S, at(t), par, float(t + start)))
        x = float(r.iloc[t])
        S.check("value of the formula at each date", (np.isnan(v) and np.isnan(x)) or v == x or abs(v - x) <= 1e-9 * (1 + abs(v)))


def lags(txt):
    return sorted({int(a or b) for a, b in re.findall(r"(?:k|c1|z_a)(?:\(([+-]?\d+)\)|\[t([+-]\d+)\])", txt)})


@contract("C22", "formulas without a table", [F], bounded="12 formulas (any values of parameters)", runs=8, opts={"cases": [{"formula": i} for i in range(12)]})
def _(S):
    rng = np.random.RandomState(50 + S.case["formula"])
    txt, val = tree(rng, 3, False)
    S.note(formula=txt)
    par = {n: S.real("par_" + n) for n in PARS}
    d = dict(par)
    r = S.call(ef.eval_formula, txt, context=d)
    S.check("value of the formula", S.eq(r, val(S, None, par, None)))
    S.check("parameters unchanged", set(d) == set(PARS) and all(d[k] is par[k] for k in PARS))


@contract("C22", "formulas over simulations of a growth model", [F, "dolo.compiler.model.Model.eval_formula"], sym=False, bounded="a growth model", runs=8)
def _(S):
    mo = model()
    sim = module("dolo.algos.simulations").simulate(mo, module("dolo.algos.perturbation").perturb(mo, verbose=False).dr, N=2, T=12, seed=int(S.seed)).sel(N=1).to_pandas()
    c = mo.calibration.flat
    k, i, y, z = (sim[n].values for n in ("k", "i", "y", "z"))
    r = S.call(mo.eval_formula, "(1-delta)*k(-1)+i(-1)-k(0)", sim)
    S.check("accumulation of capital", bool(np.isnan(r.values[0]) and np.abs(r.values[1:]).max() < 1e-8))
    r = S.call(mo.eval_formula, "y(1)/y - 1", sim)
    S.check("growth relative to the calibrated value", bool(np.isnan(r.values[-1]) and np.allclose(r.values[:-1], y[1:] / c["y"] - 1)))
    r = S.call(ef.eval_formula, "rho*z(0) - z(2)", sim, mo.calibration)
    S.check("leads of two periods", bool(np.isnan(r.values[-2:]).all() and np.allclose(r.values[:-2], c["rho"] * z[:-2] - z[2:])))
    r = S.call(ef.eval_formula, "k*alpha", context=mo.calibration)
    S.check("calibrated values", bool(np.isclose(r, c["k"] * c["alpha"])))
