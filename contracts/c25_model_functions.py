"""C25: the functions of a model compute its equations."""
import ast
import os
import numpy as np
from pyvc.spec import contract, module
from contracts.models_lib import model, RBC

fac = module("dolo.compiler.factories")
mdl = module("dolo.compiler.model")
F = "dolo.compiler.factories."
M = "dolo.compiler.model."
KINDS = {"exogenous": "m", "states": "s", "controls": "x", "expectations": "z", "values": "v", "rewards": "r", "poststates": "a"}


# ---------------------------------------------------------------- expressions: nested tuples
def draw_expr(rng, leaves, depth):
    if depth == 0 or rng.rand() < .15:
        r = rng.rand()
        if r < .15: return ("num", float(np.round(rng.uniform(0.1, 3), 2)))
        return leaves[rng.randint(len(leaves))]
    k = rng.choice(["+", "-", "*", "/", "pow", "neg", "exp", "log"], p=[.25, .2, .25, .08, .08, .06, .05, .03])
    if k in ("neg", "exp", "log"): return (k, draw_expr(rng, leaves, depth - 1))
    if k == "pow": return (k, draw_expr(rng, leaves, depth - 1), ("num", float(rng.choice([2, 3]))) if rng.rand() < .5 else draw_expr(rng, leaves, 0))
    return (k, draw_expr(rng, leaves, depth - 1), draw_expr(rng, leaves, depth - 1))


def date(t, how):
    return "[t]" if t == 0 else "[t%+d]" % t


def text(e, rng, untimed=(), shift=0):
    """an expression as it is written in a model file"""
    k = e[0]
    if k == "num": return repr(e[1]) if e[1] != int(e[1]) or rng.rand() < .5 else str(int(e[1]))
    if k == "par": return e[1]
    if k == "var":
        if e[2] + shift == 0 and e[1] in untimed and rng.rand() < .5: return e[1]
        return e[1] + date(e[2] + shift, 0)
    r = [text(q, rng, untimed, shift) for q in e[1:]]
    par = lambda j: "(%s)" % r[j] if e[1 + j][0] not in ("num", "par", "var", "exp", "log") or rng.rand() < .1 else r[j]
    if k == "neg": return "(-%s)" % par(0)
    if k in ("exp", "log"): return "%s(%s)" % (k, r[0])
    if k == "pow": return "%s^%s" % (par(0), par(1))
    a, b = par(0), par(1)
    # a + b*c, a*b + c: no need of parentheses
    if k in "+-" and e[1][0] in ("*", "/", "+", "-"): a = r[0]
    if k in "+-" and e[2][0] in ("*", "/"): b = r[1]
    if k == "*" and e[1][0] == "*": a = r[0]
    return "%s %s %s" % (a, k, b)


def eval_expr(e, ops, env):
    k = e[0]
    if k == "num": return ops["num"](e[1])
    if k == "par": return env[e[1]]
    if k == "var": return env[e[1], e[2]]
    return ops[k](*[eval_expr(q, ops, env) for q in e[1:]])


def shifted(e, t):
    if e[0] == "var": return ("var", e[1], e[2] + t)
    return (e[0],) + tuple(shifted(q, t) if isinstance(q, tuple) else q for q in e[1:])


def operations(S):
    if not S.symbolic:
        return {"num": float, "+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b, "neg": lambda a: -a,
                "pow": lambda a, b: np.power(np.asarray(a, dtype=float), b), "exp": np.exp, "log": np.log}
    from pyvc import terms as tm
    R = lambda f: lambda *a: f(*[tm.lift(q) for q in a])

    def power(a, b):
        if tm.is_num(b) and tm.val(b).denominator == 1 and 0 <= tm.val(b) <= 8: return tm.power(a, int(tm.val(b)))
        return tm.app("pow", (tm.to_real(a), tm.to_real(b)))
    return {"num": lambda v: tm.num_of(tm.lift(v)), "+": R(tm.add), "-": R(tm.sub), "*": R(tm.mul), "/": R(tm.div), "neg": R(tm.neg), "pow": R(power),
            "exp": lambda a: tm.fn("exp", tm.lift(a)), "log": lambda a: tm.fn("log", tm.lift(a))}


# ---------------------------------------------------------------- compiled text
def run_text(tree, ops, args, inf):
    """values of a compiled function: a sequence of assignments"""
    f = tree.body[0]
    assert isinstance(f, ast.FunctionDef) and not f.decorator_list
    names = [a.arg for a in f.args.args]
    env, out = {}, {}
    const = lambda s: s.value if isinstance(s, ast.Constant) else getattr(s, "n", None) if not hasattr(s, "value") else const(s.value)

    def ev(e):
        if isinstance(e, ast.Constant): return ops["num"](e.value)
        if isinstance(e, ast.Name): return env[e.id] if e.id in env else inf[e.id]
        if isinstance(e, ast.Subscript): return args[e.value.id][const(e.slice)]
        if isinstance(e, ast.UnaryOp):
            v = ev(e.operand)
            return {"USub": lambda: ops["neg"](v), "UAdd": lambda: v}[type(e.op).__name__]()
        if isinstance(e, ast.BinOp):
            return ops[{"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "Pow": "pow", "BitXor": "pow"}[type(e.op).__name__]](ev(e.left), ev(e.right))
        if isinstance(e, ast.Call): return ops[e.func.id](*[ev(a) for a in e.args])
        raise Exception("unexpected expression %s" % ast.dump(e))
    for s in f.body:
        (t,) = s.targets
        if isinstance(t, ast.Name): env[t.id] = ev(s.value)
        else:
            assert t.value.id == names[-1]
            out[const(t.slice)] = ev(s.value)
    return out


class Text:
    """a random model: its text, and the expressions it is made of"""

    def __init__(self, rng, style, targets=("value", "felicity", "expectation", "direct_response", "half_transition", "reverse_state")):
        d = lambda lo, hi: int(rng.randint(lo, hi + 1))
        pick = lambda L, n: [L[i] for i in rng.permutation(len(L))[:n]]
        pool = ["a", "bb", "c", "dd1", "e_z", "k", "kk", "n", "w", "x1", "xx", "y", "y_", "zeta", "h", "q2", "r", "tt", "u", "v", "S", "X", "M", "m", "s", "p", "out"]
        pool = [pool[i] for i in rng.permutation(len(pool))]
        take = lambda n: [pool.pop() for _ in range(n)]
        self.sym = {"exogenous": take(d(1, 2)), "states": take(d(1, 3)), "controls": take(d(1, 3)), "values": take(d(1, 2)), "expectations": take(d(1, 2)), "rewards": take(1), "poststates": take(d(1, 2)), "parameters": take(d(2, 3))}
        sy = self.sym
        self.aux = take(d(0, 3))
        par = [("par", q) for q in sy["parameters"]]
        var = lambda g, t: [("var", q, t) for q in sy[g]]
        E = lambda L, depth=3: draw_expr(rng, L, d(1, depth))
        self.defs = {}
        for q in self.aux:
            self.defs[q] = E(var("exogenous", 0) + var("states", 0) + var("controls", 0) + par + [("var", r, 0) for r in self.defs])
        au = lambda t: [("var", q, t) for q in self.aux]
        full = lambda t: var("exogenous", t) + var("states", t) + var("controls", t) + au(t)
        ns, nx = len(sy["states"]), len(sy["controls"])
        self.eqs, self.txt = {}, {}
        untimed = set(sum((sy[g] for g in KINDS), [])) | set(self.aux) if style == "old" else ()
        T = lambda e: text(e, rng, ())
        B = [(E(var("exogenous", 0) + var("states", 0) + par, 2) if rng.rand() < .7 else None, E(var("exogenous", 0) + var("states", 0) + par, 2) if rng.rand() < .7 else None) if rng.rand() < .7 else (None, None) for _ in range(nx)]
        # (the grammar has no place for lhs = rhs together with bounds)
        A = [(E(full(0) + full(1) + par), E(full(0) + par) if style == "old" and b == (None, None) and rng.rand() < .5 else None) for b in B]
        self.eqs["arbitrage"] = [("-", b, a) if b is not None else a for a, b in A]      # lhs = rhs means rhs - lhs
        lines = []
        for (a, b), (lo, hi), x in zip(A, B, sy["controls"]):
            q = T(a) + (" = " + T(b) if b is not None else "")
            if lo is not None or hi is not None:
                q += " ⟂ %s <= %s[t] <= %s" % (T(lo) if lo is not None else "-inf", x, T(hi) if hi is not None else "inf")
            lines.append(q)
        self.txt["arbitrage"] = lines
        self.bounded = any(l is not None or h is not None for l, h in B)
        if self.bounded:
            self.eqs["arbitrage_lb"] = [l if l is not None else ("neg", ("par", "inf")) for l, h in B]
            self.eqs["arbitrage_ub"] = [h if h is not None else ("par", "inf") for l, h in B]

        def target(name, group, L, depth=3):
            es = [E(L, depth) for _ in sy[group]]
            self.eqs[name] = es
            self.txt[name] = ["%s[t] = %s" % (q, T(e)) for q, e in zip(sy[group], es)]
        target("transition", "states", full(-1) + var("exogenous", 0) + par)
        if "value" in targets: target("value", "values", full(0) + full(1) + var("values", 1) + par)
        if "felicity" in targets: target("felicity", "rewards", full(0) + par)
        if "expectation" in targets: target("expectation", "expectations", full(1) + par)
        if "direct_response" in targets: target("direct_response", "controls", var("exogenous", 0) + var("states", 0) + var("expectations", 0) + par)
        if "half_transition" in targets: target("half_transition", "states", var("exogenous", -1) + var("poststates", -1) + var("exogenous", 0) + par)
        if "reverse_state" in targets: target("reverse_state", "states", var("exogenous", 0) + var("poststates", 0) + var("controls", 0) + par)
        if self.aux: self.eqs["auxiliary"] = [("var", q, 0) for q in self.aux]
        self.calib = {q: float(np.round(rng.uniform(0.2, 2), 3)) for g in sy for q in sy[g]}
        o = ["symbols:"] + ["    %s: [%s]" % (g, ", ".join(v)) for g, v in sy.items()]
        if self.aux:
            if style == "old":
                order = rng.permutation(len(self.aux))
                o += ["definitions:"] + ["    %s: %s" % (self.aux[i] + "[t]", T(self.defs[self.aux[i]])) for i in order]
                self.aux_order = [self.aux[i] for i in order]
            else:
                o += ["definitions: |"] + ["    %s[t] = %s" % (q, T(e)) for q, e in self.defs.items()]
                self.aux_order = list(self.aux)
            self.eqs["auxiliary"] = [("var", q, 0) for q in self.aux_order]
        o += ["equations:"]
        for g, ls in self.txt.items():
            if style == "old": o += ["    %s:" % g] + ["        - %s" % l for l in ls]
            else: o += ["    %s: |" % g] + ["        %s" % l for l in ls]
        o += ["calibration:"] + ["    %s: %s" % kv for kv in self.calib.items()]
        o += ["domain:"] + ["    %s: [0.1, 2.0]" % q for q in sy["states"]]
        o += ["exogenous: !Normal", "    Sigma: %s" % (0.01 * np.eye(len(sy["exogenous"]))).tolist(), "options:", "    grid: !Cartesian", "        n: [%s]" % ", ".join(["3"] * ns)]
        self.source = "\n".join(o) + "\n"

    ARGS = {"arbitrage": [("exogenous", 0), ("states", 0), ("controls", 0), ("exogenous", 1), ("states", 1), ("controls", 1)],
            "arbitrage_lb": [("exogenous", 0), ("states", 0)], "arbitrage_ub": [("exogenous", 0), ("states", 0)],
            "transition": [("exogenous", -1), ("states", -1), ("controls", -1), ("exogenous", 0)],
            "value": [("exogenous", 0), ("states", 0), ("controls", 0), ("values", 0), ("exogenous", 1), ("states", 1), ("controls", 1), ("values", 1)],
            "felicity": [("exogenous", 0), ("states", 0), ("controls", 0)], "auxiliary": [("exogenous", 0), ("states", 0), ("controls", 0)],
            "expectation": [("exogenous", 1), ("states", 1), ("controls", 1)],
            "direct_response": [("exogenous", 0), ("states", 0), ("expectations", 0)],
            "half_transition": [("exogenous", -1), ("poststates", -1), ("exogenous", 0)],
            "reverse_state": [("exogenous", 0), ("poststates", 0), ("controls", 0)]}

    def env(self, name, vals, ops, par):
        """values of symbols, definitions included, from the values of the arguments"""
        env = dict(par)
        for (g, t), v in zip(self.ARGS[name], vals):
            for q, e in zip(self.sym[g], v): env[q, t] = e
        ts = {t for g, t in self.ARGS[name] if g == "states"} & {t for g, t in self.ARGS[name] if g == "controls"}
        for t in ts:
            if all((q, t) in env for g in ("exogenous", "states", "controls") for q in self.sym[g]):
                for q, e in self.defs.items(): env[q, t] = eval_expr(shifted(e, t), ops, env)
        return env

    def want(self, name, vals, ops, par):
        env = self.env(name, vals, ops, par)
        return [eval_expr(e, ops, env) for e in self.eqs[name]]


def symbolic_model(txt):
    """the model described by a text, its functions not compiled"""
    import yaml
    data = yaml.compose(txt)
    return mdl.Model(data, check=False)


STYLES = [{"style": s, "seed": k} for s in ("new", "old") for k in range(16)]


@contract("C25", "text of the functions of a model", [F + "get_factory", M + "SymbolicModel.equations", M + "SymbolicModel.definitions", M + "SymbolicModel.symbols"],
          bounded="32 random models in each run, two styles of model files (any values of the arguments)", runs=2,
          opts={"cases": STYLES, "assumes": ["dolang parses, prints and compiles expressions; the compiled text is verified, the compiler of numba trusted"], "par": 4})
def _(S):
    from dolang.function_compiler import compile_factory
    c = S.case
    rng = np.random.RandomState((c["seed"] + (0 if S.symbolic else S.seed)) % (2 ** 31))
    t = Text(rng, c["style"])
    S.note(text=t.source)
    mo = symbolic_model(t.source)
    ops = operations(S)
    infinity = S.real("infinity") if S.symbolic else np.inf
    S.check("symbols", all(list(mo.symbols[g]) == v for g, v in t.sym.items()))
    if t.aux: S.check("names of auxiliary variables", list(mo.symbols["auxiliaries"]) == t.aux_order)
    eqs = mo.equations
    S.check("blocks of equations", set(eqs) == set(t.eqs) - {"auxiliary"})
    old = np.geterr()
    np.seterr(all="ignore")
    for name in t.eqs:
        tree = compile_factory(fac.get_factory(mo, name))
        groups = [a.arg for a in tree.body[0].args.args]
        S.check("arguments of %s" % name, len(groups) == len(t.ARGS[name]) + 2)
        vals = []
        for i, (g, d) in enumerate(t.ARGS[name]):
            if S.symbolic: vals.append([S.real("%s_%s_%d_%d" % (name, q, d + 1, i)) for q in t.sym[g]])
            else: vals.append(list(rng.uniform(0.3, 1.7, len(t.sym[g]))))
        par = [S.real("%s_par_%s" % (name, q)) if S.symbolic else rng.uniform(0.3, 1.7) for q in t.sym["parameters"]]
        got = run_text(tree, ops, dict(zip(groups, vals + [par])), {"inf": infinity})
        P = dict(zip(t.sym["parameters"], par))
        P["inf"] = infinity
        want = t.want(name, vals, ops, P)
        S.check("number of values of %s" % name, sorted(got) == list(range(len(want))))
        for k, w in enumerate(want):
            S.check("value %d of %s" % (k, name), S.eq(got[k], w) if S.symbolic or np.isfinite(w) else (not np.isfinite(got[k])))
    np.seterr(**old)


@contract("C25", "evaluation of the functions of a model", [M + "Model.__compile_functions__", F + "get_factory"], sym=False, bounded="random models, batches of points", runs=2, opts={"cases": [{"style": "new"}, {"style": "old"}]})
def _(S):
    rng = np.random.RandomState(S.seed % (2 ** 31))
    t = Text(rng, S.case["style"], targets=("felicity",) if S.seed % 2 else ("expectation",))
    S.note(text=t.source)
    import yaml
    mo = mdl.Model(yaml.compose(t.source), check=False)
    ops = operations(S)
    fn = mo.functions
    S.check("functions", set(fn) == set(t.eqs))
    cal = mo.calibration
    S.check("calibration", all(abs(cal[q] - v) < 1e-12 for q, v in t.calib.items()))
    p = cal["parameters"]
    P = dict(zip(t.sym["parameters"], p))
    P["inf"] = np.inf
    for name in t.eqs:
        for N in (None, 1, 4):
            vals = [rng.uniform(0.3, 1.7, ((N,) if N else ()) + (len(t.sym[g]),)) for g, d in t.ARGS[name]]
            keep = [v.copy() for v in vals]
            with np.errstate(all="ignore"):
                got = np.asarray(fn[name](*vals, p))
            S.check("shape", got.shape == ((N,) if N else ()) + (len(t.eqs[name]),))
            S.check("arguments unchanged", all(np.array_equal(a, b) for a, b in zip(vals, keep)))
            for n in range(N or 1):
                with np.errstate(all="ignore"):
                    w = np.array(t.want(name, [v[n] if N else v for v in vals], ops, P), dtype=float)
                g = got[n] if N else got
                S.check("value of %s" % name, bool(np.allclose(g, w, rtol=1e-7, atol=1e-9, equal_nan=True)))
    if t.bounded:
        b = mo.x_bounds
        S.check("bounds", b is not None and b[0] is fn["arbitrage_lb"] and b[1] is fn["arbitrage_ub"])
    else:
        S.check("bounds", mo.x_bounds is None)


WRONG = {
    "a definition hides a variable": ("    y[t] = exp(z[t])*k[t]^alpha*n[t]^(1-alpha)\n", "    y[t] = exp(z[t])*k[t]^alpha*n[t]^(1-alpha)\n    k[t] = z[t]\n"),
    "a definition at another date": ("    c[t] = y[t] - i[t]\n", "    c[t+1] = y[t] - i[t]\n"),
    "an unknown parameter in a definition": ("    c[t] = y[t] - i[t]\n", "    c[t] = y[t] - i[t]*unknown\n"),
    "an unknown variable in a definition": ("    c[t] = y[t] - i[t]\n", "    c[t] = y[t] - unknown[t]\n"),
    "bounds of another control": ("⟂ 0.0 <= n[t] <= inf", "⟂ 0.0 <= i[t] <= inf"),
    "a state without domain": ("    k: [ k*0.5, k*1.5]\n", ""),
}


@contract("C25", "models which are refused", [M + "SymbolicModel.definitions", M + "SymbolicModel.equations", M + "SymbolicModel.get_domain"], sym=False, bounded="six mistakes", runs=1, opts={"cases": [{"w": w} for w in WRONG]})
def _(S):
    a, b = WRONG[S.case["w"]]
    assert a in RBC
    try:
        mo = symbolic_model(RBC.replace(a, b))
        mo.symbols, mo.definitions, mo.equations, mo.domain
    except Exception:
        return
    S.check("refused", False)
