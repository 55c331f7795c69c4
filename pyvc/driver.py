import json, os, sys, time, importlib, glob, traceback, hashlib
import numpy as np


def main(A, VERIF, REPO, t0):
    import dolo
    assert os.path.abspath(dolo.__file__).startswith(os.path.abspath(REPO)), dolo.__file__
    t_import = time.time() - t0
    from pyvc import run, spec, smt
    from pyvc.smt import STATS
    prop = A.property
    for f in sorted(glob.glob(os.path.join(VERIF, "contracts", "*.py"))):
        b = os.path.basename(f)[:-3]
        if b.startswith("_"):
            continue
        if prop.lower() in b.split("_"):
            importlib.import_module("contracts." + b)
    cs = spec.REGISTRY.get(prop, [])
    if A.only:
        cs = [c for c in cs if A.only in c.name]
    seed0 = int(os.environ.get("VERIF_SEED", "1")) * 100003 + 17
    if A.replay:
        return replay(A, cs, run)
    tier = A.tier
    thorough = tier == "thorough"
    total = 2400 if thorough else 560
    results = []
    rc = 0
    lines = []
    known = load_known(VERIF, prop)
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    if not cs:
        print("no contracts for", prop)
        return 2
    from pyvc import pool
    workers = max(1, min(int(os.environ.get("PYVC_JOBS", "8")), os.cpu_count() or 1))
    results = [run.ContractResult(c) for c in cs]
    end = t0 + total + 60
    units = []

    def unit(i, kind, chunk=0, chunks=1, models=()):
        c = cs[i]
        cases = run.cases_of(c)

        def go():
            res = run.ContractResult(c)
            s0 = (STATS.solver_s, STATS.queries)
            t1 = time.time()
            left = max(20.0, total - (time.time() - t0))
            if kind == "search":
                run.search(c, res, seed0, c.runs * (20 if thorough else 3), min(60.0 * (5 if thorough else 1), left / 2))
            elif kind == "proof":
                collect = []
                run.prove_contract(c, res, min(left, c.opts.get("budget", 240 if not thorough else 900)), use_cvc5=thorough or c.opts.get("cvc5", False), collect=collect,
                                   cases=cases[chunk::chunks])
                if c.conc and not A.noconc:
                    run.xcheck(c, res, collect, seed0, 12 if thorough else 4)
                    if res.xfail:
                        res.obligations += 1
                        res.failed.append(("verifier agrees with CPython", "cross-check", res.xfail, None, "", {}))
            else:
                run.search(c, res, seed0 + 555557, c.search, min(90.0, max(20.0, total - (time.time() - t0))), models)
            res.wall = time.time() - t1
            return run.pack(res, cases) + ((STATS.solver_s - s0[0], STATS.queries - s0[1]),)
        return (i, kind, chunk), go
    for i, c in enumerate(cs):
        if c.conc and not A.noconc: units.append(unit(i, "search"))
        if c.sym and not A.noproof:
            k = min(c.opts.get("par", 1), len(run.cases_of(c)))
            units += [unit(i, "proof", j, k) for j in range(k)]
    units.sort(key=lambda u: -cs[u[0][0]].opts.get("cost", 0))
    rc2 = False

    def absorb(units):
        nonlocal rc2
        for key, r, err in pool.run(units, workers, lambda: end):
            i, kind, chunk = key
            if r is None:
                if err == "time budget exhausted":
                    if kind == "proof":
                        results[i].obligations += 1
                        results[i].failed.append(("obligations decided", "spec", err, None, "", {}))
                else:
                    print(err, file=sys.stderr)
                    rc2 = True
                continue
            run.unpack(results[i], r[0], r[1], run.cases_of(cs[i]))
            STATS.solver_s += r[2][0]
            STATS.queries += r[2][1]
    absorb(units)
    if not rc2:
        absorb([unit(i, "models", 0, 1, [(f[3], f[5]) for f in r.failed if f[3]]) for i, r in enumerate(results)
                if r.failed and not r.violation and cs[i].conc and not A.noconc])
    if rc2:
        return 2
    for c, res in zip(cs, results):
        if A.debug or True:
            print("[%s] %s: %d/%d obligations (%s), paths %d, runs %d (skipped %d), xcheck %d, %.1fs%s" % (
                prop, c.name, res.discharged, res.obligations, ", ".join("%s:%d" % kv for kv in sorted(res.how.items())),
                res.paths, res.runs, res.skipped, res.xcheck, res.wall, "  [bounded: %s]" % c.bounded if c.bounded else ""))
            sys.stdout.flush()
        for f in res.failed[:6]:
            print("   FAILED obligation: %s [%s] %s" % (f[0], f[1], f[2]))
            if f[4]:
                print("      goal:", f[4][:600])
            if A.debug and f[3]:
                print("      model:", str(f[3])[:600])
        if res.violation:
            print("   FAILING INPUT: case %s seed %s: %s -- %s" % (res.violation[0], res.violation[1], res.violation[3], res.violation[4]))
    nviol = 0
    for res in results:
        c = res.contract
        if not res.violation and not res.failed:
            continue
        ident = "%s/%s" % (prop, c.name)
        kf = match_known(known, c, res)
        if kf is not None:
            print("KNOWN-FINDING: property=%s %s" % (prop, kf))
            continue
        nviol += 1
        path = os.path.join(rdir, "%s-%s.json" % (prop, hashlib.sha1(c.name.encode()).hexdigest()[:8]))
        rec = {"property": prop, "contract": c.name, "functions": c.funcs,
               "failed_obligations": [dict(name=f[0], where=f[1], verifier=f[2], goal=f[4], model=str(f[3])[:2000] if f[3] else None, case=f[5]) for f in res.failed[:20]]}
        if res.violation:
            case, seed, style, label, detail, inputs, model = res.violation
            rec["failing_input"] = dict(case=case, seed=seed, style=style, label=label, detail=detail, model=jsonable(model),
                                        inputs={k: jsonable(v) for k, v in inputs.items()})
        with open(path, "w") as f:
            json.dump(rec, f, indent=1, default=str)
        if res.violation:
            print("VIOLATION property=%s replay=%s" % (prop, path))
        else:
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
        rc = 1
    if not A.only:
        write_evidence(VERIF, prop, tier, seed0, results, t0, t_import, nviol, STATS)
    return rc


def jsonable(v):
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, (int, float, str, bool)) or v is None:
        return v
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    if isinstance(v, (np.integer, np.floating)):
        return v.item()
    return str(v)


def load_known(VERIF, prop):
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                out.append(line[len("finding: "):])
    return out


def match_known(known, c, res):
    """a finding names the contract and the failing statement: 'contract=<name> label=<label> | text'"""
    for k in known:
        head, _, text = k.partition(" | ")
        if ("contract=<%s>" % c.name) not in head:
            continue
        lab = head.split("label=<")[1].split(">")[0] if "label=<" in head else None
        labels = set()
        if res.violation:
            labels.add(res.violation[3])
        if lab is not None and labels and all(l == lab for l in labels):
            return text
    return None


def replay(A, cs, run):
    rec = json.load(open(A.replay))
    fi = rec.get("failing_input")
    for c in cs:
        if c.name != rec["contract"]:
            continue
        if fi is None:
            print("no failing input recorded; failed obligations:")
            for f in rec["failed_obligations"]:
                print("  ", f["name"], f["where"], f["verifier"])
            return 1
        r = run.conc_run(c, fi["case"], fi["seed"], style=fi["style"])
        print("replay:", r[0], r[2:] if r[0] == "fail" else "")
        for k, v in r[1].inputs.items():
            print("   ", k, "=", v)
        return 1 if r[0] == "fail" else 0
    return 2


# properties whose deciding step ranges over a bounded set of programs (each one for all values)
LEVEL = {"C22": "translation_validation", "C25": "translation_validation"}

BASE_TRUST = [
    "the verifier itself (/verif/pyvc: symbolic execution of the Python source, loop summaries, canonical forms), cross-checked against CPython on every run",
    "z3 (and cvc5 in the thorough tier)",
    "intrinsic contracts of Python builtins and NumPy functions (/verif/pyvc/npmodel.py)",
    "floating point treated as real arithmetic; integers as mathematical integers; no NaN/inf inputs unless stated",
    "numba-compiled functions behave as the Python source they are compiled from",
]


def write_evidence(VERIF, prop, tier, seed, results, t0, t_import, nviol, STATS):
    funcs = {}
    for r in results:
        for k, v in r.functions.items():
            funcs[k] = funcs.get(k, 0) + v
    how = {}
    for r in results:
        for k, v in r.how.items():
            how[k] = how.get(k, 0) + v
    assumptions = list(BASE_TRUST)
    for r in results:
        for a in r.contract.opts.get("assumes", []):
            if a not in assumptions:
                assumptions.append(a)
        if r.assumed_regular:
            s = "linear systems solved by the code are assumed regular (non-zero determinant)"
            if s not in assumptions:
                assumptions.append(s)
    proved = [r for r in results if r.contract.sym]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": LEVEL.get(prop, "proof"),
        "coverage": {
            "obligations": sum(r.obligations for r in proved if not r.contract.bounded),
            "discharged": sum(r.discharged for r in proved if not r.contract.bounded),
            "bounded_obligations": sum(r.obligations for r in proved if r.contract.bounded),
            "bounded_discharged": sum(r.discharged for r in proved if r.contract.bounded),
            "checker_cmd": "/opt/venv/bin/python /verif/check.py %s --tier %s" % (prop, tier),
            "trusted_base": assumptions,
            "discharged_by": how,
            "solver_time_s": round(STATS.solver_s, 2),
            "solver_queries": STATS.queries,
            "functions_under_contract": sorted(set(f for r in results for f in r.contract.funcs)),
            "functions_executed_from_source": sorted(funcs),
            "contracts": [dict(name=r.contract.name, obligations=r.obligations, discharged=r.discharged, paths=r.paths,
                               bounded=r.contract.bounded, deductive=bool(r.contract.sym), concrete_runs=r.runs, rejected_draws=r.skipped,
                               distinct_inputs=len(r.distinct), crosschecked_values=r.xcheck, seconds=round(r.wall, 2)) for r in results],
            "evaluations": sum(r.runs for r in results),
            "distinct_nontrivial": sum(len(r.distinct) for r in results),
            "rule": "concrete evaluations of the same contracts on the real functions, random small extents and values; distinct = distinct drawn inputs",
            "samples": [r.sample for r in results if r.sample][:3] or ["all obligations discharged by canonical form"],
        },
        "assumptions": assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": nviol,
    }
    if ev["level"] == "translation_validation":      # each formula or model is a program, compared with what is generated from it for all values
        ev["coverage"]["programs"] = sum(len(r.contract.opts.get("cases", [1])) for r in proved)
        ev["coverage"]["disagreements_checked"] = sum(r.obligations for r in proved)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
