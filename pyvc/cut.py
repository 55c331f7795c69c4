"""Loops whose number of iterations is not known: the last iteration rule.

Every iteration starts from an arbitrary state: what the body may change (variables, arrays written in
place, attributes) is replaced by unknown values of the same kind (integer, real, boolean, array of the same
shape).  That kinds are kept is an inductive invariant checked at the end of each iteration, along with
lower bounds of counters.  Obligations inside of the body hold for every iteration; what follows the
loop starts either from its initial state (no iteration) or from the end of an arbitrary iteration after
which the loop stops.  Termination is not proved.
"""
import ast
import types
from . import terms as tm
from .terms import *
from . import arr
from .arr import SArr, Buf, Unsupported, is_scalar
from .loops import stored_names


class Restart(BaseException):
    pass


class Poison:
    """a value from a former iteration which is not tracked"""
    def __init__(self, name):
        object.__setattr__(self, "_n", name)

    def _no(self, *a, **k):
        raise Unsupported("value of %s in a former iteration" % object.__getattribute__(self, "_n"))
    __getattr__ = __setattr__ = __call__ = __getitem__ = __setitem__ = __iter__ = __len__ = __bool__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = __abs__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __contains__ = _no
    __hash__ = object.__hash__


def heap(fr):
    """locations reachable from the variables: path -> (container, key, value)"""
    out, seen = {}, set()
    q = [((n,), v) for n, v in sorted(fr.locals.items())]
    while q:
        path, v = q.pop(0)
        if id(v) in seen or len(path) > 6:
            continue
        if isinstance(v, (list, dict)):
            items = [(("i", k), v, k, x) for k, x in (enumerate(v) if isinstance(v, list) else v.items())]
            out[path + ("len",)] = (v, None, len(v))
        elif hasattr(v, "__dict__") and not isinstance(v, (SArr, T, type, types.ModuleType, types.FunctionType, types.MethodType)) and not getattr(type(v), "_model_", False) \
                and not type(v).__module__.startswith("pyvc"):
            items = [(("a", k), v, k, x) for k, x in list(v.__dict__.items())]
        else:
            continue
        seen.add(id(v))
        for st, c, k, x in items:
            out[path + (st,)] = (c, k, x)
            q.append((path + (st,), x))
        if len(out) > 4000:
            raise Unsupported("too many objects around a loop")
    return out


def arrays(fr, hp):
    out = {}
    for n, v in sorted(fr.locals.items()):
        if isinstance(v, SArr): out.setdefault(v.buf, (n,))
    for p, (c, k, v) in hp.items():
        if isinstance(v, SArr): out.setdefault(v.buf, p)
        if isinstance(v, (tuple,)):
            for i, x in enumerate(v):
                if isinstance(x, SArr): out.setdefault(x.buf, p + (("t", i),))
    return out


def kind_of(v):
    if isinstance(v, (bool,)) or (isinstance(v, T) and v.sort == "B"):
        return "B"
    if is_scalar(v):
        try:
            t = lift(v)
        except Exception:
            return "R"
        return "I" if t.sort == "I" else "R"
    if isinstance(v, SArr):
        return "A"
    return None


def unknown(E, name, v, tab):
    k = tab["kind"].get(name) or kind_of(v)
    tab["kind"][name] = k
    lab = "last_%s" % "_".join(str(p[-1] if isinstance(p, tuple) else p) for p in (name if isinstance(name, tuple) else (name,)))
    if k in ("B", "I", "R"):
        return fresh(lab, k)
    if k == "A":
        nm = fresh(lab).args[0]
        sort = tab["sort"].setdefault(name, v.sort if v.sort in ("I", "B") else "R")
        return SArr(Buf(v.shp, lambda idx: app(nm, idx, sort), sort, nm))
    return Poison(str(name))


def cut(E, s, fr, enter, body, again):
    """enter(): fork on whether an iteration starts;  body();  again(): fork on whether another follows"""
    from .interp import Break, Continue, IterationEnd
    if E.merge:
        raise Unsupported("a loop of unknown length under a symbolic condition")
    key = id(s)
    tab = E.loop_tab.setdefault(key, {"names": set(stored_names(([s.target] if isinstance(s, ast.For) else []) + s.body)), "locs": set(), "bufs": set(), "kind": {}, "sort": {}, "nolow": set(), "node": s, "n": 0})

    def restart(what):
        tab["n"] += 1
        if tab["n"] > 60:
            raise Unsupported("no invariant for a loop (%s)" % what)
        raise Restart()
    entry = dict(fr.locals)
    hp = heap(fr)
    al = arrays(fr, hp)
    if not enter(True):
        return False
    for p, (c, k, v) in hp.items():
        if p in tab["locs"]:
            if p[-1] == "len":
                raise Unsupported("a container changed by a loop")
            u = unknown(E, p, v, tab)
            if isinstance(c, (list, dict)): c[k] = u
            else: object.__setattr__(c, k, u)
    for n in sorted(tab["names"]):
        if n in entry or n in tab["kind"]:
            v = entry.get(n)
            if n not in entry: fr.locals[n] = Poison(n)
            else: fr.locals[n] = unknown(E, n, v, tab)
            if kind_of(fr.locals[n]) == "I" and is_scalar(v) and n not in tab["nolow"] and lift(v).sort == "I":
                E.hyps.append(le(lift(v), fr.locals[n]))
                E._ctx = None
        else:
            fr.locals.pop(n, None)
    for b, p in al.items():
        if p in tab["bufs"]:
            nm = fresh("last_buf").args[0]
            b.write(lambda idx, nm=nm, sort=b.sort: app(nm, idx, sort if sort in ("I", "B") else "R"))
    seen = set()
    for p, (c, k, v) in list(hp.items()) + [((n,), (None, None, v)) for n, v in entry.items()]:
        f = getattr(type(v), "_havoc_", None)
        if f is not None and id(v) not in seen:
            seen.add(id(v))
            f(v)
    if not enter(False):
        raise IterationEnd()            # no such iteration
    before = dict(fr.locals)
    hp1 = {p: x for p, x in heap(fr).items()}
    keep = list(hp1.values())
    j = {}
    arr.JOURNAL.append(j)
    stop = False
    try:
        try:
            body()
        except Break:
            stop = True
        except Continue:
            pass
    finally:
        arr.JOURNAL.pop() if arr.JOURNAL and arr.JOURNAL[-1] is j else (arr.JOURNAL.remove(j) if j in arr.JOURNAL else None)
        # what the iteration changed must be among what was made unknown
        new = False
        for n, v in before.items():
            if n not in tab["names"] and fr.locals.get(n) is not v:
                tab["names"].add(n)
                new = True
        for p, (c, k, v) in hp1.items():
            if p in tab["locs"]: continue
            if p[-1] == "len": cur = len(c)
            elif isinstance(c, list): cur = c[k] if k < len(c) else Poison
            elif isinstance(c, dict): cur = c.get(k, Poison)
            else: cur = c.__dict__.get(k, Poison)
            if (cur != v if p[-1] == "len" else cur is not v):
                tab["locs"].add(p)
                new = True
        for b in j:
            if b in al and al[b] not in tab["bufs"]:
                tab["bufs"].add(al[b])
                new = True
        if new:
            restart("changes")
    if stop:
        return True
    if not again():
        return True
    # another iteration follows: kinds are kept
    for n in sorted(tab["names"]):
        if n not in entry or tab["kind"].get(n) is None: continue
        k, v = tab["kind"][n], fr.locals.get(n)
        kk = kind_of(v)
        if kk != k:
            if {k, kk} == {"I", "R"}:
                if k == "I":
                    tab["kind"][n] = "R"
                    restart("kind of %s" % n)
            else:
                tab["kind"][n] = None
                raise Unsupported("kind of %s changes in a loop" % n)
        if k == "A":
            o = entry[n]
            if len(o.shp) != len(v.shp):
                raise Unsupported("number of dimensions of %s changes in a loop" % n)
            for a, b in zip(o.shp, v.shp):
                E.oblige("shape kept by the loop", eq(a, b))
            if tab["sort"].get(n) == "I" and v.sort != "I":
                tab["sort"][n] = "R"
                restart("sort of %s" % n)
        if k == "I" and n not in tab["nolow"] and is_scalar(entry[n]) and lift(entry[n]).sort == "I":
            if E.decide(le(lift(entry[n]), lift(v))) is not True:
                tab["nolow"].add(n)
                restart("lower bound of %s" % n)
    raise IterationEnd()


def own_exit(stmts):
    """the loop body may leave the loop"""
    st = [(x, False) for x in stmts]
    while st:
        n, inner = st.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): continue
        if isinstance(n, ast.Return) or (isinstance(n, ast.Break) and not inner): return True
        st += [(c, inner or isinstance(n, (ast.For, ast.While))) for c in ast.iter_child_nodes(n)]
    return False
