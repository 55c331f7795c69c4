"""C17: cached functions return what the function returns."""
import os
import numpy as np
from pyvc.spec import contract
import dolo.misc.caching as ca

MOD = "dolo.misc.caching."


class Token:
    _model_ = True

    def __init__(self, of): self.of = of


class Memory:
    """store of a memoized function after any history: whatever the key, it holds the value of the function there, or nothing"""
    _model_ = True

    def __init__(self, hit, value): self.hit, self.value, self.asked, self.stored = hit, value, [], []

    def __getitem__(self, h):
        self.asked.append(h)
        if self.hit: return self.value
        raise KeyError(h)

    def __setitem__(self, h, v): self.stored.append((h, v))

    def __contains__(self, h):
        self.asked.append(h)
        return self.hit

    def get(self, h, default=None):
        self.asked.append(h)
        return self.value if self.hit else default


def atoms(x):
    if isinstance(x, (tuple, list)): return [y for z in x for y in atoms(z)]
    return [x]


@contract("C17", "memoized functions after any history", [MOD + "memoized.__call__", MOD + "memoized.__init__"], conc=False,
          opts={"cases": [{"n": n, "kw": kw, "hit": h} for n in (0, 1, 2, 3) for kw in (0, 1) for h in (0, 1)],
                "assumes": ["hashable gives different keys to different arguments (its contract below)"]})
def _(S):
    n, kw, hit = S.case["n"], S.case["kw"], S.case["hit"]
    args = [S.real("a%d" % i) for i in range(n)]
    kargs = {"option": S.real("b")} if kw else {}
    value, seen, toks = S.real("value"), [], {}

    def fun(*a, **k):
        seen.append((a, k))
        return value

    def key(x):
        return toks.setdefault(id(x) if not isinstance(x, dict) else "kw", Token(x))
    S.override(ca.hashable, key)
    m = S.call(ca.memoized, S.wrapfun(fun))
    mem = m.cache = Memory(hit, value)
    r = S.call(m, *args, **kargs)
    S.check("value of the function", S.eq(r, value))
    want = [key(a) for a in args] + [key({})]
    ok = lambda h: [t for t in atoms(h) if isinstance(t, Token)] == want
    S.check("the key holds every argument", len(mem.asked) > 0 and all(ok(h) for h in mem.asked) and all(ok(h) for h, _ in mem.stored))
    if hit:
        S.check("not evaluated again", seen == [] and mem.stored == [])
    else:
        S.check("evaluated at the arguments", len(seen) == 1 and len(seen[0][0]) == n and all(x is y for x, y in zip(seen[0][0], args))
                and set(seen[0][1]) == set(kargs) and all(seen[0][1][k] is kargs[k] for k in kargs))
        S.check("stored", len(mem.stored) == 1 and mem.stored[0][1] is r)


def pool(rng):
    """arguments whose hashes, entries or printed forms coincide"""
    x = rng.normal(size=6)
    k = int(rng.randint(0, 50))
    out = [-1, -2, 0, k + 3, float(x[0]), -float(x[0]), float(x[0]) + 2.0 ** 61, "a", "b", "1", "", ("a", "b"), ("ab",), (1, (2, 3)), ((1, 2), 3), (-1, 4), (-2, 4),
           [10, 20], [20, 10], [[10], 20], {"u": 1, "v": 2}, {"u": 2, "v": 1}, {"u": [1, -1]}, {"u": [1, -2]}, None,
           x, x.reshape((2, 3)), x.reshape((3, 2)), x.reshape((1, 6)), x[::-1].copy(), np.where(np.arange(6) == 3, -1.0, x), np.where(np.arange(6) == 3, -2.0, x),
           x + 1e-12, np.zeros((0,)), np.zeros((0, 3)), np.arange(6), np.arange(6) * 1000, np.concatenate([x, x]), np.concatenate([x, x[:5], [0.5]])]
    return out


def name(x):
    """an injective description of an argument"""
    if isinstance(x, np.ndarray): return "A%s%s" % (x.shape, x.tolist())
    if isinstance(x, dict): return "D{%s}" % ",".join("%r:%s" % (k, name(x[k])) for k in sorted(x))
    if isinstance(x, (list, tuple)): return "%s(%s)" % (type(x).__name__, ",".join(map(name, x)))
    return "%s:%r" % (type(x).__name__, x)


def copy(x):
    return x.copy() if isinstance(x, np.ndarray) else list(x) if isinstance(x, list) else dict(x) if isinstance(x, dict) else x


def history(S, f, seen, again=True):
    p = pool(S.rng)
    known = set()
    for _ in range(60):
        na = int(S.rng.choice([0, 1, 1, 1, 2, 2]))
        a = [p[int(S.rng.randint(len(p)))] for _ in range(na)]
        k = {q: p[int(S.rng.randint(len(p)))] for q in ("first", "second") if S.rng.rand() < 0.2}
        w = name(tuple(a)) + name(k)
        n = len(seen)
        r = S.call(f, *[copy(x) for x in a], **{q: copy(x) for q, x in k.items()})
        S.check("value of the function: %s" % w[:300], r == "value " + w)
        S.check("evaluated once for the same arguments", len(seen) == n + (w not in known))
        known.add(w)


def recorded(seen):
    def fun(*a, **k):
        w = name(tuple(a)) + name(k)
        seen.append(w)
        return "value " + w
    return fun


@contract("C17", "memoized functions, random histories", [MOD + "memoized.__call__", MOD + "hashable"], sym=False, bounded="histories of sixty calls", runs=40)
def _(S):
    seen = []
    history(S, ca.memoized(recorded(seen)), seen)


@contract("C17", "functions cached on disk, random histories", [MOD + "cachedondisk.__call__", MOD + "cachedondisk.__init__", MOD + "hashable"], sym=False, bounded="histories of sixty calls", runs=20)
def _(S):
    seen = []
    fun = recorded(seen)
    fun.__name__ = "fun%d_%d" % (os.getpid(), S.seed)
    try:
        history(S, ca.cachedondisk(fun), seen)
        # another session
        n = len(seen)
        fun2 = recorded(seen)
        fun2.__name__ = fun.__name__
        g = ca.cachedondisk(fun2)
        for w, a in (("tuple(int:-1)D{}", -1), ("tuple(int:-2)D{}", -2)):
            S.check("value read again", S.call(g, a) == "value " + w)
            S.check("value read again: stored", S.call(g, a) == "value " + w and len(seen) - n <= 2)
    finally:
        drop(fun.__name__)


def drop(prefix):
    for q in os.listdir(".cache") if os.path.isdir(".cache") else []:
        if q.startswith(prefix + "."): os.remove(os.path.join(".cache", q))


@contract("C17", "dictionaries on disk", [MOD + "DiskDictionary.__setitem__", MOD + "DiskDictionary.get"], sym=False, bounded="histories of forty operations", runs=20)
def _(S):
    n = "dict%d_%d" % (os.getpid(), S.seed)
    p = pool(S.rng)
    d, held = ca.DiskDictionary(funname=n), {}
    try:
        for t in range(40):
            k = tuple(p[int(S.rng.randint(len(p)))] for _ in range(int(S.rng.randint(1, 3))))
            if S.rng.rand() < 0.5:
                v = (t, name(k))
                S.call(d.__setitem__, k, v)
                held[name(k)] = v
            S.check("last value stored, or nothing", S.call(d.get, k) == held.get(name(k)))
    finally:
        drop(n)
