"""Deciding a property: proof, cross-check, counterexample search, evidence."""
import contextlib, io, json, os, sys, time, traceback, zlib, itertools, signal
import numpy as np
from . import terms as tm
from .terms import *
from . import arr, interp, spec, smt
from .arr import SArr, Unsupported, asarr, is_scalar
from .interp import Engine, PyRaise, SymSeq
from .smt import STATS
from .spec import Sym, Conc, Skip, Failed, REGISTRY


class ContractResult:
    def __init__(self, c):
        self.contract = c
        self.obligations = 0
        self.discharged = 0
        self.failed = []        # (label, where, reason, model, goal text, hyps)
        self.engine_error = None
        self.paths = 0
        self.functions = {}
        self.runs = 0
        self.skipped = 0
        self.distinct = set()
        self.violation = None    # (case, seed, style, label, detail, inputs)
        self.xcheck = 0
        self.xfail = None
        self.how = {}
        self.sample = None
        self.assumed_regular = 0
        self.wall = 0.0


class Deadline(BaseException):
    pass


def _alarm(*a):
    raise Deadline()


def pack(res, cases):
    """what a process reports (cases by number)"""
    def num(case):
        for j, x in enumerate(cases):
            if x is case: return j
        return -1
    d = {k: v for k, v in res.__dict__.items() if k != "contract"}
    d["failed"] = [f[:3] + (plain(f[3]), str(f[4]), num(f[5])) for f in res.failed]
    if res.violation:
        v = res.violation
        d["violation"] = (num(v[0]),) + tuple(v[1:5]) + (plain(v[5]), plain(v[6]))
    return d, [c.get("_conc_only") for c in cases]


def plain(x):
    import pickle
    try:
        pickle.dumps(x)
        return x
    except Exception:
        return {k: plain(v) for k, v in x.items()} if isinstance(x, dict) else str(x)


def unpack(res, d, _, cases):
    case = lambda j: cases[j] if j >= 0 else {}
    for k in ("obligations", "discharged", "paths", "runs", "skipped", "xcheck", "assumed_regular", "wall"):
        setattr(res, k, getattr(res, k) + d[k])
    for k in ("functions", "how"):
        for n, v in d[k].items():
            getattr(res, k)[n] = getattr(res, k).get(n, 0) + v
    res.distinct |= d["distinct"]
    res.failed += [f[:5] + (case(f[5]),) for f in d["failed"]]
    for k in ("engine_error", "xfail", "sample"):
        if getattr(res, k) is None: setattr(res, k, d[k])
    if d["violation"] and not res.violation:
        v = d["violation"]
        res.violation = (case(v[0]),) + tuple(v[1:])


def cases_of(c):
    o = c.opts.get("cases")
    if not o:
        return [{}]
    return o


def exc_name(e):
    return "%s: %s" % (type(e).__name__, str(e)[:200])


def prove_contract(c, res, budget, use_cvc5=False, collect=None, cases=None):
    """symbolic side"""
    t_end = time.time() + budget
    for case in cases_of(c) if cases is None else cases:
        if case.get("_conc_only"):
            continue
        nrules = len(tm.SUM_RULES)
        E = Engine(timeout=c.timeout, use_cvc5=use_cvc5)
        recorded = []
        try:
            ws = c.opts.get("while_spec")
            if ws is not None:
                E.while_spec = ws
            E.loop_cut = c.opts.get("loops") == "last" and not case.get("_unroll")

            def thunk():
                S = Sym(E, case)
                thunk.S = S
                c.fn(S)
                recorded.append(None)
                return S
            paths = E.run(thunk, c.paths)
            res.paths += len(paths)
            for k, v in E.functions.items():
                res.functions[k] = res.functions.get(k, 0) + v
            res.assumed_regular += len(E.det_assumed)
            feasible = 0
            res.obligations += getattr(E, "canon_obligs", 0)
            res.discharged += getattr(E, "canon_obligs", 0)
            if getattr(E, "canon_obligs", 0):
                res.how["canonical"] = res.how.get("canonical", 0) + E.canon_obligs
            for p in paths:
                obs = list(p.obligs)
                if p.outcome[0] == "raise":
                    obs.append(interp.Obligation("no exception (%s)" % exc_name(p.outcome[1]), E.base_hyps + p.hyps, FALSE, "spec"))
                else:
                    feasible += 1
                for ob in obs:
                    res.obligations += 1
                    if time.time() > t_end:
                        res.failed.append((ob.name, ob.where, "time budget exhausted before this obligation", None, str(ob.goal)[:400], case))
                        continue
                    t0 = time.time()
                    E.prover.unknowns = 0
                    r = E.prover.prove(ob.hyps, ob.goal)
                    if not r and (E.prover.unknowns or "unknown" in (r.reason or "")):
                        # the machine may be busy: once more with more time
                        E.prover.scale = 4
                        r = E.prover.prove(ob.hyps, ob.goal)
                        E.prover.scale = 1
                    if os.environ.get("PYVC_SLOW") and time.time() - t0 > float(os.environ["PYVC_SLOW"]):
                        print("   %.1fs %s (%s): %s" % (time.time() - t0, ob.name, r.how, str(ob.goal)[:300]), flush=True)
                    if r:
                        res.discharged += 1
                        res.how[r.how] = res.how.get(r.how, 0) + 1
                        if res.sample is None and r.how != "canonical":
                            res.sample = "%s |- %s" % ("; ".join(str(h) for h in ob.hyps)[:300], str(ob.goal)[:400])
                    else:
                        res.failed.append((ob.name, ob.where, r.reason or "not proved", r.model, str(r.goal if r.goal is not None else ob.goal)[:1500], case))
                if collect is not None:
                    collect.append((case, p, E))
            # vacuity: some returning path must have satisfiable hypotheses
            if feasible == 0:
                res.failed.append(("some path returns", "spec", "vacuous: no returning path", None, "", case))
            else:
                ok = False
                for p in paths:
                    if p.outcome[0] == "return":
                        ctx = E.prover.ctx(E.base_hyps + p.hyps)
                        ctx._solver().set("timeout", 2000)
                        if ctx.consistent():
                            ok = True
                            break
                res.obligations += 1
                if ok:
                    res.discharged += 1
                    res.how["consistency"] = res.how.get("consistency", 0) + 1
                else:
                    res.failed.append(("preconditions satisfiable", "spec", "vacuous: contradictory hypotheses", None, "", case))
        except (Unsupported, SymbolicBool) as e:
            res.engine_error = "%s (at %s)" % (e, E.where())
            res.obligations += 1
            res.failed.append(("obligations generated", E.where(), "the verifier cannot translate: %s" % e, None, traceback.format_exc()[-1500:] if os.environ.get("PYVC_TRACE") else "", case))
        except Deadline:
            raise
        except RecursionError as e:
            res.engine_error = "recursion limit"
            if os.environ.get("PYVC_TRACE"): print(traceback.format_exc()[-3000:])
            res.obligations += 1
            res.failed.append(("obligations generated", E.where(), "recursion limit", None, "", case))
        except Exception as e:
            res.engine_error = "internal: %s" % traceback.format_exc(limit=8)
            res.obligations += 1
            res.failed.append(("obligations generated", E.where(), "internal error of the verifier: %s" % exc_name(e), None, traceback.format_exc()[-9000:], case))
        finally:
            del tm.SUM_RULES[nrules:]


def conc_run(c, case, seed, style=None, model=None):
    """one concrete execution: returns ('ok', S) | ('skip', S) | ('fail', S, label, detail)"""
    case = {k: v for k, v in case.items() if k != "_conc_only"}
    S = Conc(seed, case, model, style, rtol=c.opts.get("rtol", 1e-6))
    np.random.seed(seed % (2**31))
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            c.fn(S)
        return ("ok", S)
    except Skip:
        return ("skip", S)
    except Failed as f:
        return ("fail", S, f.label, f.detail)
    except Deadline:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = [f for f in tb if "/dolo/" in f.filename]
        where = "%s:%s" % (os.path.basename(inrepo[-1].filename), inrepo[-1].lineno) if inrepo else "%s:%s" % (os.path.basename(tb[-1].filename), tb[-1].lineno)
        return ("fail", S, "no exception", "%s raised in %s" % (exc_name(e), where))


def flat_out(x):
    """flatten a result into comparable leaves"""
    if isinstance(x, (list, tuple)):
        out = []
        for y in x:
            out += flat_out(y)
        return out
    return [x]


def xcheck(c, res, collect, seed0, n):
    """the verifier's symbolic results evaluated on concrete inputs must agree with CPython"""
    if not collect or c.opts.get("noxcheck"):
        return
    bycase = {}
    for case, p, E in collect:
        bycase.setdefault(id(case), (case, E, []))[2].append(p)
    for case, E, paths in bycase.values():
        done = 0
        for i in range(3 * n):
            if done >= n:
                break
            seed = seed0 + 7919 * i + 13
            r = conc_run(c, case, seed)
            if r[0] != "ok":
                continue
            S = r[1]
            env = dict(S.env)
            memo = {}
            for nm, d in E.defs.items():
                env[nm] = make_def(nm, d, env, memo)
            for p in paths:
                if p.outcome[0] != "return":
                    continue
                try:
                    if not all(tm.evaluate(h, env) for h in p.hyps):
                        continue
                except KeyError:
                    continue
                except Exception:
                    continue
                sc = p.outcome[1].calls
                cc = S.calls
                if len(sc) != len(cc):
                    continue
                for a, b in zip(sc, cc):
                    fa, fb = flat_out(a), flat_out(b)
                    if len(fa) != len(fb):
                        continue
                    for x, y in zip(fa, fb):
                        try:
                            if isinstance(x, T) and np.isscalar(y):
                                vx = tm.evaluate(x, env)
                                if not close(vx, y):
                                    res.xfail = "scalar result: verifier %r, CPython %r (seed %d, case %s)" % (vx, y, seed, case)
                                done_one = True
                                res.xcheck += 1
                            elif isinstance(x, SArr) and isinstance(y, np.ndarray):
                                shp = tuple(int(tm.evaluate(d, env)) for d in x.shp)
                                if shp != y.shape:
                                    res.xfail = "shape: verifier %s, CPython %s (seed %d)" % (shp, y.shape, seed)
                                    continue
                                idxs = list(np.ndindex(*shp))
                                if len(idxs) > 40:
                                    idxs = [idxs[j] for j in np.random.RandomState(seed % 2**31).choice(len(idxs), 40, replace=False)]
                                for idx in idxs:
                                    t = x.at(tuple(num(j) for j in idx))
                                    vx = tm.evaluate(t, env)
                                    if not close(vx, y[idx]):
                                        res.xfail = "element %s: verifier %r, CPython %r (seed %d, case %s)" % (list(idx), vx, y[idx], seed, case)
                                        break
                                    res.xcheck += 1
                        except KeyError:
                            pass
                        except (Unsupported, AssertionError, IndexError, ValueError, TypeError, OverflowError, ZeroDivisionError):
                            pass
                done += 1
                break


def make_def(nm, d, env, memo):
    def f(*args):
        key = (nm,) + tuple(args)
        if key not in memo:
            t = d(tuple(num(int(a)) for a in args))
            memo[key] = tm.evaluate(t, env)
        return memo[key]
    return f


def close(a, b):
    try:
        a = float(a); b = float(b)
    except Exception:
        return True
    if a != a and b != b: return True
    if a == b: return True
    if not np.isfinite(a) or not np.isfinite(b): return not (np.isfinite(a) and not np.isfinite(b)) or True
    return abs(a - b) <= 1e-6 * (1 + abs(a) + abs(b))


def search(c, res, seed0, n, budget, models=()):
    """concrete evaluation of the contract on the real code"""
    t_end = time.time() + budget
    cs = cases_of(c)
    for m, case in models:
        if time.time() > t_end: break
        for i in range(6):
            r = conc_run(c, case, seed0 + 31 * i + 5, model=m)
            res.runs += 1
            if r[0] == "fail":
                res.violation = (case, seed0 + 31 * i + 5, None, r[2], r[3], r[1].inputs, m)
                return
    for i in range(n):
        for j, case in enumerate(cs):
            if time.time() > t_end:
                return
            seed = seed0 + 1009 * i + 101 * j
            r = conc_run(c, case, seed, style=i % 4)
            if r[0] == "skip":
                res.skipped += 1
                continue
            res.runs += 1
            res.distinct.add(zlib.crc32(repr([(k, np.asarray(v).tobytes() if not isinstance(v, (int, float, str)) else v) for k, v in sorted(r[1].inputs.items())]).encode()) ^ j)
            if r[0] == "fail":
                res.violation = (case, seed, i % 4, r[2], r[3], r[1].inputs, None)
                return
