"""Intrinsic contracts for Python builtins and NumPy/SciPy functions (trusted base)."""
import ast as _ast, builtins, math, operator, itertools, functools, copy as _copy, warnings as _warnings, time as _time
import numpy as np
from . import terms as tm
from .terms import *
from . import arr
from .arr import (SArr, Buf, Unsupported, asarr, from_fn, elementwise, is_scalar, same_dim, broadcast_shapes,
                  bindex, Hooks, dot, asum, dim_out, MaskedRead)


def has_sym(x):
    from .interp import has_sym as h
    return h(x)


def install(E):
    from .interp import SymRange, SymSeq, PyRaise, Closure
    I = E.intrinsics

    def reg(*fs):
        def deco(g):
            for f in fs:
                if f is not None:
                    I[f] = g
            return g
        return deco

    def native_if_concrete(f):
        """use the library itself when no symbolic value is involved"""
        def deco(g):
            def h(*a, **k):
                if not has_sym(a) and not has_sym(k):
                    return f(*a, **k)
                return g(*a, **k)
            I[f] = h
            return h
        return deco

    # ---------------------------------------------------------------- builtins
    @reg(range)
    def _range(*a):
        a = [x.at(()) if isinstance(x, SArr) else x for x in a]
        a = [int(x.args[0]) if isinstance(x, T) and x.op == "num" else x for x in a]
        if not any(isinstance(x, T) for x in a):
            return range(*[int(x) if not isinstance(x, int) else x for x in a])
        if len(a) == 1:
            return SymRange(0, a[0])
        if len(a) == 2:
            return SymRange(a[0], a[1])
        return SymRange(a[0], a[1], a[2])

    @reg(len)
    def _len(x):
        if isinstance(x, SArr):
            if not x.shp:
                raise TypeError("len() of unsized object")
            return dim_out(x.shp[0])
        if isinstance(x, (SymSeq, SymRange)):
            return dim_out(x.seq()[0])
        if isinstance(x, T):
            raise TypeError("object of type 'float' has no len()")
        d = E.repo_dunder(x, "__len__")
        if d is not None:
            return E.call(d, (), {})
        return len(x)

    @reg(enumerate)
    def _enumerate(x, start=0):
        ss = E.sym_seq(x)
        if ss is not None:
            n, f = ss
            return SymSeq(n, lambda k: (add(k, lift(start)), f(k)))
        return list(enumerate(E.iterate(x), start))

    @reg(zip)
    def _zip(*xs):
        ss = [E.sym_seq(x) for x in xs]
        if any(s is not None for s in ss):
            if not all(s is not None for s in ss):
                raise Unsupported("zip of mixed extents")
            n = ss[0][0]
            for s in ss[1:]:
                if s[0] is not n and not same_dim(s[0], n):
                    E.oblige("zip: equal lengths", eq(s[0], n))
            return SymSeq(n, lambda k: tuple(s[1](k) for s in ss))
        return list(zip(*[E.iterate(x) for x in xs]))

    @reg(reversed)
    def _reversed(x):
        ss = E.sym_seq(x)
        if ss is not None:
            n, f = ss
            return SymSeq(n, lambda k: f(sub(sub(n, ONE), k)))
        return list(reversed(E.iterate(x)))

    @reg(abs, np.abs, np.absolute, np.fabs)
    def _abs(x, **k):
        if is_scalar(x) and not isinstance(x, T):
            return abs(x)
        if isinstance(x, T): return absT(x)
        if isinstance(x, np.ndarray) and not has_sym(x): return np.abs(x)
        return elementwise(absT, x)

    @reg(eval)
    def _eval(src, glob=None, loc=None):
        """an expression, evaluated in a dictionary of names"""
        from .interp import Frame
        if not isinstance(src, str) or glob is None:
            raise Unsupported("eval without names")
        ns = dict(glob)
        ns.update(loc or {})
        try:
            tree = _ast.parse(src.strip(), mode="eval")
        except SyntaxError as e:
            raise PyRaise(e)
        return E.ev(tree.body, Frame("eval", ns))

    @reg(divmod)
    def _divmod(a, b):
        if not isinstance(a, T) and not isinstance(b, T): return divmod(a, b)
        return (E.binop(_ast.FloorDiv, a, b), E.binop(_ast.Mod, a, b))

    def minmax(name, f2):
        nat = getattr(builtins, name)

        def g(*a, **k):
            if k and "key" in k:
                xs = E.iterate(a[0]) if len(a) == 1 else list(a)
                kf = k["key"]
                return nat(xs, key=lambda z: E.call(kf, (z,), {}))
            if len(a) == 1:
                if isinstance(a[0], SArr) and a[0].ndim == 1 and a[0].shp[0].op != "num":
                    return arr.aextreme(a[0], None, name + "_")
                xs = E.iterate(a[0])
                if "default" in k and not xs:
                    return k["default"]
            else:
                xs = list(a)
            if not has_sym(xs):
                return nat(xs)
            r = lift(xs[0]) if is_scalar(xs[0]) else xs[0].at(())
            for x in xs[1:]:
                x = lift(x) if is_scalar(x) else x.at(())
                q, r = r, f2(r, x)
                if r.op == "ite" and r.sort == "I":
                    lo, hi = (q, x) if name == "max" else (x, q)
                    if E.decide(le(lo, hi)) is True: r = x
                    elif E.decide(le(hi, lo)) is True: r = q
            return r
        I[nat] = g
    minmax("max", maxT)
    minmax("min", minT)

    @reg(sum)
    def _sum(x, start=0):
        ss = E.sym_seq(x)
        if ss is not None:
            n, f = ss
            k = fresh("k"); NAT.add(k)
            probe = f(k)
            if is_scalar(probe):
                return add(lift(start), sumT(ZERO, n, lambda q: lift(f(q))))
            a = x._as_sarr() if hasattr(x, "_as_sarr") else x
            return asum(a, 0) + start if not (isinstance(start, int) and start == 0) else asum(a, 0)
        r = start
        for y in E.iterate(x):
            r = E.binop(__import__("ast").Add, r, y)
        return r

    @reg(float)
    def _float(x=0.0):
        if isinstance(x, T):
            return num_of(x)
        if isinstance(x, SArr):
            return num_of(x.item())
        return float(x)

    @reg(np.float64, np.float32)
    def _f64(x=0.0):
        return _float(x)

    @reg(int, np.int64, np.int32)
    def _int(x=0):
        if isinstance(x, SArr):
            x = x.item()
        if isinstance(x, T):
            return arr.truncT(x)
        return int(x)

    @reg(bool)
    def _bool(x=False):
        if isinstance(x, T):
            return bool_of(x)
        if isinstance(x, SArr):
            return bool_of(x.item())
        return E.truth(x)

    @reg(round)
    def _round(x, n=None):
        if isinstance(x, T):
            if x.sort == "I": return x
            raise Unsupported("round")
        return round(x) if n is None else round(x, n)

    @reg(isinstance)
    def _isinstance(x, c):
        if isinstance(c, tuple):
            return any(_isinstance(x, y) for y in c)
        if isinstance(x, SArr):
            return c is np.ndarray or c is object
        if isinstance(x, T):
            if c in (int, np.integer, np.int64):
                return x.sort == "I" and not getattr(x, "_f", False)
            if c in (float, np.floating, np.float64):
                return x.sort == "R"
            if c is bool:
                return x.sort == "B"
            import numbers
            if c in (numbers.Number, numbers.Real, object):
                return True
            return False
        if isinstance(x, SymSeq):
            return c in (list,)
        k = getattr(x, "_as_class_", None)
        if k is not None and isinstance(k, type):
            return issubclass(k, c)
        return isinstance(x, c)

    @reg(type)
    def _type(x):
        if isinstance(x, SArr): return np.ndarray
        if isinstance(x, T): return {"I": int, "R": float, "B": bool}[x.sort]
        return getattr(x, "_as_class_", None) or type(x)

    @reg(getattr)
    def _getattr(o, n, *d):
        try:
            return E.getattr(o, n)
        except PyRaise as e:
            if d and isinstance(e.exc, AttributeError):
                return d[0]
            raise

    @reg(hasattr)
    def _hasattr(o, n):
        try:
            E.getattr(o, n)
            return True
        except PyRaise as e:
            if isinstance(e.exc, AttributeError):
                return False
            raise

    @reg(setattr)
    def _setattr(o, n, v):
        E.setattr(o, n, v)

    @reg(callable)
    def _callable(x):
        if isinstance(x, Closure): return True
        return callable(x)

    @reg(list)
    def _list(x=()):
        if isinstance(x, SymSeq): return x
        if isinstance(x, SymRange):
            n, f = x.seq()
            return SymSeq(n, f) if n.op != "num" else E.iterate(x)
        return list(E.iterate(x))

    @reg(tuple)
    def _tuple(x=()):
        if isinstance(x, SymSeq): return x
        return tuple(E.iterate(x))

    @reg(dict)
    def _dict(*a, **k):
        d = {}
        if a:
            if hasattr(a[0], "keys"):
                d.update(a[0])
            else:
                d.update(E.iterate(a[0]))
        d.update(k)
        return d

    @reg(set)
    def _set(x=()):
        return set(E.iterate(x))

    @reg(map)
    def _map(f, *xs):
        return [E.call(f, t, {}) for t in zip(*[E.iterate(x) for x in xs])]

    @reg(filter)
    def _filter(f, xs):
        return [x for x in E.iterate(xs) if E.truth(E.call(f, (x,), {}))]

    @reg(any)
    def _any(x):
        if isinstance(x, SArr):
            return arr.aany(x)
        r = FALSE
        for y in E.iterate(x):
            if isinstance(y, T):
                r = or_(r, y)
            elif E.truth(y):
                return True
        return False if r is FALSE else r

    @reg(all)
    def _all(x):
        if isinstance(x, SArr):
            return arr.aall(x)
        r = TRUE
        for y in E.iterate(x):
            if isinstance(y, T):
                r = and_(r, y)
            elif not E.truth(y):
                return False
        return True if r is TRUE else r

    @reg(sorted)
    def _sorted(x, key=None, reverse=False):
        xs = E.iterate(x)
        if has_sym(xs):
            if key is not None or len(xs) > 6 or not all(is_scalar(v) for v in xs):
                raise Unsupported("sorted of symbolic values")
            xs = [lift(v) for v in xs]          # sorting network
            for i in range(len(xs)):
                for j in range(len(xs) - 1 - i):
                    xs[j], xs[j + 1] = minT(xs[j], xs[j + 1]), maxT(xs[j], xs[j + 1])
            return xs[::-1] if reverse else xs
        if key is None:
            return sorted(xs, reverse=reverse)
        return sorted(xs, key=lambda z: E.call(key, (z,), {}), reverse=reverse)

    @reg(print)
    def _print(*a, **k):
        return None

    @reg(str, repr)
    def _str(x=""):
        if has_sym(x): return "<sym>"
        return str(x)

    @reg(id)
    def _id(x): return id(x)

    @reg(hash)
    def _hash(x): return hash(x)

    @reg(slice)
    def _slice(*a): return slice(*a)

    @reg(iter)
    def _iter(x): return iter(E.iterate(x))

    @reg(next)
    def _next(x, *d): return next(x, *d)

    @reg(itertools.product)
    def _product(*xs, repeat=1):
        qs = [E.sym_seq(x) for x in xs]
        if any(q is not None for q in qs):
            if repeat != 1: raise Unsupported("product(repeat)")
            fs = []
            for x, q in zip(xs, qs):
                if isinstance(x, SArr) and q is not None and x.ndim == 1:
                    q = (x.shp[0], lambda k, g=x.snap(): g((lift(k),)))
                if q is None:
                    l = list(E.iterate(x))
                    if all(not has_sym(e) for e in l) and l and all(isinstance(e, (int, float)) for e in l):
                        a = asarr(l)
                        q = (num(len(l)), lambda k, a=a: a.at((lift(k),)))
                    else: raise Unsupported("product of a list and a sequence of symbolic length")
                fs.append(q)
            tail = [ONE]
            for n, _ in reversed(fs): tail.append(mul(tail[-1], n))
            tail = tail[::-1]
            from .interp import SymSeq
            return SymSeq(tail[0], lambda r: tuple(f(idiv(imod(lift(r), tail[k]) if k else lift(r), tail[k + 1])) for k, (n, f) in enumerate(fs)))
        return list(itertools.product(*[E.iterate(x) for x in xs], repeat=repeat))

    @reg(itertools.chain)
    def _chain(*xs):
        return list(itertools.chain(*[E.iterate(x) for x in xs]))

    @reg(functools.reduce)
    def _reduce(f, xs, *init):
        xs = E.iterate(xs)
        r = init[0] if init else xs[0]
        for x in (xs if init else xs[1:]):
            r = E.call(f, (r, x), {})
        return r

    @reg(operator.mul)
    def _opmul(a, b):
        import ast
        return E.binop(ast.Mult, a, b)

    @reg(operator.add)
    def _opadd(a, b):
        import ast
        return E.binop(ast.Add, a, b)

    @reg(_copy.copy)
    def _copycopy(x):
        if isinstance(x, (SArr,)): return x.copy()
        if isinstance(x, T): return x
        return _copy.copy(x)

    @reg(_copy.deepcopy)
    def _deepcopy(x):
        if isinstance(x, (SArr,)): return x.copy()
        if isinstance(x, T): return x
        if isinstance(x, dict): return type(x)((k, _deepcopy(v)) for k, v in x.items()) if type(x) is dict else _copy.copy(x)
        if isinstance(x, list): return [_deepcopy(v) for v in x]
        return _copy.deepcopy(x)

    @reg(_warnings.warn)
    def _warn(*a, **k):
        from .interp import Event
        if E.merge:
            E.events.append(Event("warn?", a, list(E.hyps)))
        else:
            E.events.append(Event("warn", a, list(E.hyps)))
        return None

    # ---------------------------------------------------------------- math / ufuncs
    def unary(nm, *fs):
        def g(x, *a, **k):
            if not has_sym(x):
                if nm == "sqrt" and getattr(E, "exact_sqrt", False) and isinstance(x, (int, float)) and x > 0:
                    return fn(nm, lift(x))
                return fs[-1](x)
            if isinstance(x, T):
                return fn(nm, x)
            return elementwise(lambda t: fn(nm, t), x, sort="R")
        for f in fs:
            I[f] = g
    unary("sqrt", math.sqrt, np.sqrt)
    unary("exp", math.exp, np.exp)
    unary("log", math.log, np.log)
    unary("sin", math.sin, np.sin)
    unary("cos", math.cos, np.cos)
    unary("tan", math.tan, np.tan)
    import scipy.special
    unary("erf", math.erf, scipy.special.erf)

    def ufun(f, g, sort=None):
        def h(*a, **k):
            if k.get("out") is not None:
                raise Unsupported("out=")
            if not has_sym(a):
                return f(*a)
            if all(is_scalar(x) for x in a):
                return g(*[lift(x) for x in a])
            return elementwise(g, *a, sort=sort)
        I[f] = h
    n_ = num_of
    ufun(np.add, lambda a, b: tm.add(n_(a), n_(b)))
    ufun(np.subtract, lambda a, b: sub(n_(a), b))
    ufun(np.multiply, mul)
    ufun(np.divide, div, "R")
    ufun(np.maximum, lambda a, b: maxT(n_(a), n_(b)))
    ufun(np.minimum, lambda a, b: minT(n_(a), n_(b)))
    ufun(np.fmax, lambda a, b: maxT(n_(a), n_(b)))
    ufun(np.fmin, lambda a, b: minT(n_(a), n_(b)))
    ufun(np.power, lambda a, b: power(a, b))
    ufun(np.square, lambda a: mul(a, a))
    ufun(np.negative, lambda a: neg(n_(a)))
    ufun(np.floor, lambda a: floorT(n_(a)))
    ufun(math.floor, lambda a: floorT(n_(a)))
    ufun(np.floor_divide, lambda a, b: floorT(div(n_(a), n_(b))))
    ufun(np.isnan, lambda a: FALSE, "B")
    ufun(np.isinf, lambda a: TRUE if a.op == "var" and a.args[0] == "inf" else FALSE, "B")
    ufun(np.isfinite, lambda a: TRUE, "B")
    ufun(math.isnan, lambda a: FALSE, "B")
    ufun(np.logical_and, and_, "B")
    ufun(np.logical_or, or_, "B")
    ufun(np.logical_not, not_, "B")
    ufun(np.sign, lambda a: ite(lt(ZERO, a), ONE, ite(lt(a, ZERO), num(-1), ZERO)))
    ufun(np.greater, lambda a, b: lt(b, a), "B")
    ufun(np.less, lt, "B")
    ufun(np.greater_equal, lambda a, b: le(b, a), "B")
    ufun(np.less_equal, le, "B")
    ufun(np.equal, eq, "B")
    ufun(np.mod, imod)
    ufun(math.pow, lambda a, b: power(a, b))

    @reg(np.where)
    def _where(c, *ab):
        if not ab:
            if not has_sym(c): return np.where(c)
            c = asarr(c)
            if any(d.op != "num" for d in c.shp): raise Unsupported("where")
            r = np.zeros([int(d.args[0]) for d in c.shp], dtype=bool)
            for i in np.ndindex(*r.shape):
                r[i] = E.truth(bool_of(c.at(tuple(num(k) for k in i))))
            return np.where(r)
        if not has_sym((c,) + ab):
            return np.where(c, *ab)
        return elementwise(lambda q, x, y: ite(bool_of(q), n_(x), n_(y)), c, *ab)

    @reg(np.clip)
    def _clip(x, a, b, **k):
        if not has_sym((x, a, b)): return np.clip(x, a, b)
        return elementwise(lambda t, l, h: minT(maxT(t, l), h), x, a, b)

    # ---------------------------------------------------------------- constructors
    def shape_of(s):
        if isinstance(s, SArr):
            s = E.iterate(s) if s.ndim else [s.at(())]
        if isinstance(s, np.ndarray):
            s = list(s.ravel())
        if isinstance(s, (list, tuple)):
            return tuple(lift(d) for d in s)
        return (lift(s),)

    def sort_of(dt):
        if dt is None: return "R"
        try:
            k = np.dtype(dt).kind
        except TypeError:
            raise Unsupported("dtype")
        return {"f": "R", "i": "I", "u": "I", "b": "B"}.get(k) or _uns("dtype")

    def _uns(m):
        raise Unsupported(m)

    @reg(np.zeros)
    def _zeros(s, dtype=None, order=None):
        srt = sort_of(dtype)
        z = FALSE if srt == "B" else ZERO
        return SArr(Buf(shape_of(s), lambda i: z, srt))

    @reg(np.ones)
    def _ones(s, dtype=None, order=None):
        srt = sort_of(dtype)
        z = TRUE if srt == "B" else ONE
        return SArr(Buf(shape_of(s), lambda i: z, srt))
    uid = [0]

    @reg(np.empty)
    def _empty(s, dtype=None, order=None):
        uid[0] += 1
        nm = "uninit%d" % uid[0]
        srt = sort_of(dtype)
        return SArr(Buf(shape_of(s), lambda i: app(nm, i, srt), srt))

    @reg(np.full)
    def _full(s, v, dtype=None, order=None):
        t = lift(v) if is_scalar(v) else v.at(())
        return SArr(Buf(shape_of(s), lambda i: t, sort_of(dtype) if dtype else t.sort))

    def like(f):
        def g(a, dtype=None, **k):
            if not isinstance(a, SArr):
                a = asarr(a)
            srt = sort_of(dtype) if dtype is not None else a.sort
            dt = {"R": float, "I": int, "B": bool}[srt]
            return f(a.shape, dt)
        return g
    I[np.zeros_like] = like(_zeros)
    I[np.ones_like] = like(_ones)
    I[np.empty_like] = like(_empty)
    I[np.full_like] = lambda a, v, dtype=None: _full(asarr(a).shape, v, dtype)

    @reg(np.eye, np.identity)
    def _eye(n, M=None, k=0, dtype=None):
        k = lift(k)
        return SArr(Buf((lift(n), lift(M) if M is not None else lift(n)), lambda i: ite(eq(add(i[0], k), i[1]), ONE, ZERO), "R"))

    @reg(np.array, np.asarray, np.ascontiguousarray, np.asanyarray, np.atleast_1d)
    def _array(x, dtype=None, copy=True, ndmin=0, order=None, **k):
        if isinstance(x, np.ndarray) or (not has_sym(x) and not isinstance(x, (list, tuple, range, int, float))):
            if isinstance(x, np.ndarray):
                r = asarr(x).copy()
            else:
                r = np.array(x, dtype=dtype)
                if r.dtype == object:
                    return r
                return asarr(r)
        elif isinstance(x, (list, tuple)) and not has_sym(x):
            r0 = np.array(x, dtype=dtype)
            if r0.dtype.kind not in "fiub":
                return r0
            return asarr(r0)
        elif isinstance(x, SArr):
            r = x.copy()
        else:
            if isinstance(x, range): x = list(x)
            r = asarr(x)
            r = r.copy()
        if dtype is not None:
            r = r.astype(dtype)
        if k.get("_al", 0) and r.ndim == 0:
            r = r[None]
        while r.ndim < ndmin:
            r = r[None]
        return r

    @reg(np.asarray, np.ascontiguousarray, np.asanyarray)
    def _asarray(x, dtype=None, **k):
        if isinstance(x, SArr) and (dtype is None or sort_of(dtype) == x.sort):
            return x
        return _array(x, dtype)

    @reg(np.atleast_1d)
    def _at1(x):
        r = asarr(x)
        return r[None] if r.ndim == 0 else r

    @reg(np.atleast_2d)
    def _at2(x):
        r = asarr(x)
        if r.ndim == 0: return r[None, None]
        if r.ndim == 1: return r[None, :]
        return r

    @reg(np.copy)
    def _npcopy(x, **k): return asarr(x).copy()

    @reg(np.linspace)
    def _linspace(a, b, n=50, endpoint=True, **k):
        if not has_sym((a, b, n)):
            return asarr(np.linspace(a, b, int(n), endpoint=endpoint))
        a, b, n = [x.at(()) if isinstance(x, SArr) and x.ndim == 0 else x for x in (a, b, n)]
        if isinstance(a, SArr) or isinstance(b, SArr):
            raise Unsupported("linspace of arrays")
        a, b, n = lift(a), lift(b), lift(n)
        d = sub(n, ONE) if endpoint else n
        if d is ZERO:
            return from_fn((n,), lambda i: a)
        if d.op != "num" and E.decide(lt(ZERO, d)) is not True:
            # numpy returns the left end when n == 1
            return from_fn((n,), lambda i: add(a, mul(i[0], ite(eq(d, ZERO), ZERO, div(sub(b, a), d)))))
        return from_fn((n,), lambda i: add(a, mul(i[0], div(sub(b, a), d))))

    @reg(np.arange)
    def _arange(*a, **k):
        if not has_sym(a):
            return asarr(np.arange(*a, **k))
        r = _range(*a)
        n, f = r.seq()
        return from_fn((n,), lambda i: f(i[0]), "I")

    # ---------------------------------------------------------------- shape manipulation
    I[np.reshape] = lambda a, s, order=None: asarr(a).reshape(s, order=order)
    I[np.ravel] = lambda a, **k: asarr(a).ravel()
    I[np.transpose] = lambda a, axes=None: asarr(a).transpose(axes) if axes is not None else asarr(a).transpose()
    I[np.swapaxes] = lambda a, i, j: asarr(a).swapaxes(i, j)
    I[np.squeeze] = lambda a, axis=None: asarr(a).squeeze(axis)
    I[np.expand_dims] = lambda a, axis: _expand(a, axis)
    I[np.ndim] = lambda a: asarr(a).ndim
    I[np.shape] = lambda a: asarr(a).shape
    I[np.size] = lambda a: asarr(a).size

    def _expand(a, axis):
        a = asarr(a)
        ax = axis % (a.ndim + 1)
        return a[tuple([slice(None)] * ax + [None])]

    @reg(np.rollaxis)
    def _rollaxis(a, axis, start=0):
        a = asarr(a)
        n = a.ndim
        axis %= n
        if start < 0: start += n
        if axis < start: start -= 1
        axes = list(range(n))
        axes.remove(axis)
        axes.insert(start, axis)
        return a.transpose(*axes)

    @reg(np.moveaxis)
    def _moveaxis(a, s, d):
        a = asarr(a)
        n = a.ndim
        s %= n; d %= n
        axes = list(range(n))
        axes.remove(s)
        axes.insert(d, s)
        return a.transpose(*axes)

    def seq_concat(xs, axis, prep):
        """concatenation of x(0), ..., x(n-1), all of the same extent along the axis"""
        n = xs.n
        k0 = tm.fresh("k")
        tm.NAT.add(k0)
        nh = len(E.hyps)
        E.hyps += [x for x in (le(ZERO, k0), lt(k0, n)) if x is not TRUE]
        E._ctx = None
        try:
            x = prep(asarr(xs.f(k0)))
            f = tm_memo(x.snap())
            axis = axis % x.ndim
            probe = tuple(tm.fresh("i") for _ in x.shp)
            f(probe)        # read now: the arrays may change later
        finally:
            del E.hyps[nh:]
            E._ctx = None
        c = x.shp[axis]
        if any(k0 in d.fv for d in x.shp):
            raise Unsupported("concatenate of a symbolic list of arrays with different shapes")
        sh = list(x.shp)
        sh[axis] = mul(n, c)
        val = f(probe)

        def g(idx):
            i = idx[axis]
            q, r = (i, ZERO) if c is ONE else (idiv(i, c), imod(i, c))
            m = dict(zip(probe, idx[:axis] + (r,) + idx[axis + 1:]))
            m[k0] = q
            return tm.subst(val, m)
        return SArr(Buf(tuple(sh), g, x.sort))

    def tm_memo(f):
        d = {}

        def g(i):
            if i not in d: d[i] = f(i)
            return d[i]
        return g

    @reg(np.concatenate)
    def _concatenate(xs, axis=0, **k):
        if isinstance(xs, SymSeq):
            return seq_concat(xs, axis, lambda x: x)
        xs = [asarr(x) for x in E.iterate(xs)]
        if not xs:
            raise ValueError("need at least one array to concatenate")
        nd = xs[0].ndim
        axis = axis % nd
        offs = [ZERO]
        for x in xs:
            if x.ndim != nd:
                raise ValueError("all the input array dimensions must match")
            for i in range(nd):
                if i != axis and x.shp[i] is not xs[0].shp[i] and not same_dim(x.shp[i], xs[0].shp[i]):
                    if x.shp[i].op == "num" and xs[0].shp[i].op == "num":
                        raise ValueError("all the input array dimensions must match exactly")
                    E.oblige("concatenate: dimensions agree", eq(x.shp[i], xs[0].shp[i]))
            offs.append(add(offs[-1], x.shp[axis]))
        fs = [x.snap() for x in xs]
        srt = "R" if any(x.sort == "R" for x in xs) else ("I" if any(x.sort == "I" for x in xs) else "B")

        def g(idx):
            i = idx[axis]
            r = None
            for j in range(len(xs) - 1, -1, -1):
                v = fs[j](idx[:axis] + (sub(i, offs[j]),) + idx[axis + 1:]) if not (i.op == "num" and offs[j].op == "num" and i.args[0] < offs[j].args[0]) else ZERO
                v = v if srt == "B" else num_of(v)
                if r is None:
                    r = v
                else:
                    c = lt(i, offs[j + 1])
                    r = v if c is TRUE else (r if c is FALSE else ite(c, v, r))
            return r

        def g2(idx):
            # lazily pick when decided, so that out-of-range pieces are not evaluated
            i = idx[axis]
            for j in range(len(xs)):
                c = lt(i, offs[j + 1])
                if c is TRUE and (j == 0 or le(offs[j], i) is TRUE):
                    return num_of(fs[j](idx[:axis] + (sub(i, offs[j]),) + idx[axis + 1:])) if srt != "B" else fs[j](idx[:axis] + (sub(i, offs[j]),) + idx[axis + 1:])
            return g(idx)
        sh = list(xs[0].shp)
        sh[axis] = offs[-1]
        return SArr(Buf(tuple(sh), g2, srt))

    def np_vstack(xs, **k):
        if isinstance(xs, SymSeq):
            return seq_concat(xs, 0, _at2)
        return _concatenate([_at2(x) for x in E.iterate(xs)], axis=0)
    for nm in ("vstack", "row_stack"):
        try:
            with _warnings.catch_warnings():
                _warnings.simplefilter("ignore")
                f = getattr(np, nm)
        except AttributeError:
            continue
        I[f] = np_vstack

    @reg(np.hstack)
    def _hstack(xs, **k):
        xs = [_at1(x) for x in E.iterate(xs)]
        return _concatenate(xs, axis=0 if xs[0].ndim == 1 else 1)

    @reg(np.column_stack)
    def _column_stack(xs):
        xs = [asarr(x) for x in E.iterate(xs)]
        xs = [x[:, None] if x.ndim == 1 else x for x in xs]
        return _concatenate(xs, axis=1)

    def join_trans(obj, key):
        """np.c_[a, b], np.r_[a, b] for arrays of two dimensions"""
        xs = key if isinstance(key, tuple) else (key,)
        if any(not isinstance(x, (SArr, np.ndarray)) or x.ndim != 2 for x in xs):
            raise Unsupported("np.r_ / np.c_: other than matrices")
        return _concatenate(list(xs), axis=1 if obj is np.c_ else 0)
    E.join_trans = join_trans

    @reg(np.stack)
    def _stack(xs, axis=0, **k):
        xs = [asarr(x) for x in E.iterate(xs)]
        ax = axis % (xs[0].ndim + 1)
        return _concatenate([x[tuple([slice(None)] * ax + [None])] for x in xs], axis=ax)

    @reg(np.append)
    def _append(a, b, axis=None):
        if axis is None:
            return _concatenate([asarr(a).ravel(), _at1(b).ravel()])
        return _concatenate([a, b], axis=axis)

    I[np.repeat] = np_repeat

    @reg(np.tile)
    def _tile(a, reps):
        a = asarr(a)
        if is_scalar(reps): reps = (reps,)
        reps = [lift(r) for r in E.iterate(reps)]
        nd = max(a.ndim, len(reps))
        while a.ndim < nd: a = a[None]
        reps = [ONE] * (nd - len(reps)) + reps
        f = a.snap()
        sh = a.shp
        def g(idx):
            out = []
            for i, d, r in zip(idx, sh, reps):
                if d is ONE: out.append(ZERO)
                elif r is ONE: out.append(i)
                else: out.append(imod(i, d))
            return f(tuple(out))
        return SArr(Buf(tuple(mul(d, r) for d, r in zip(sh, reps)), g, a.sort))

    @reg(np.broadcast_to)
    def _bto(a, shape):
        a = asarr(a)
        f, s = a.snap(), a.shp
        shape = shape_of(shape)
        r = SArr(Buf(shape, lambda idx: f(bindex(s, idx)), a.sort))
        return r

    @reg(np.broadcast_shapes)
    def _bshapes(*s):
        return tuple(dim_out(d) for d in broadcast_shapes([shape_of(x) for x in s]))

    @reg(np.broadcast)
    def _broadcast(*a):
        class B: pass
        b = B()
        sh = broadcast_shapes([asarr(x).shp for x in a])
        b.shape = tuple(dim_out(d) for d in sh)
        b.ndim = len(sh)
        return b

    @reg(np.meshgrid)
    def _meshgrid(*xs, indexing="xy", **k):
        xs = [asarr(x) for x in xs]
        n = len(xs)
        shp = [x.shp[0] for x in xs]
        perm = list(range(n))
        if indexing == "xy" and n > 1:
            perm[0], perm[1] = 1, 0
        shape = [None] * n
        for i in range(n): shape[perm[i]] = shp[i]
        return [from_fn(shape, (lambda f, p: lambda idx: f((idx[p],)))(x.snap(), perm[i]), x.sort) for i, x in enumerate(xs)]

    @reg(np.ix_)
    def _ix(*xs):
        out = []
        for i, x in enumerate(xs):
            a = asarr(x)
            key = [None] * len(xs)
            key[i] = slice(None)
            out.append(a[tuple(key)])
        return tuple(out)

    # ---------------------------------------------------------------- reductions
    def red(name):
        def g(a, axis=None, keepdims=False, **k):
            if not has_sym(a) and not isinstance(a, (SArr,)):
                return getattr(np, name)(a, axis=axis, keepdims=keepdims)
            a = asarr(a)
            m = getattr(a, name)
            r = m(axis=axis, keepdims=keepdims) if keepdims else m(axis=axis)
            return r
        I[getattr(np, name)] = g
    for nm in ("sum", "mean", "max", "min", "prod", "all", "any", "argmax", "argmin", "std", "var"):
        red(nm)
    I[np.amax] = I[np.max]
    I[np.amin] = I[np.min]
    I[np.nanmax] = I[np.max]
    I[np.nanmin] = I[np.min]
    I[np.cumsum] = lambda a, axis=None, **k: arr.cumsum(asarr(a), axis) if has_sym(a) else np.cumsum(a, axis=axis)

    @reg(np.diff)
    def _diff(a, n=1, axis=-1):
        if not has_sym(a): return np.diff(a, n, axis)
        a = asarr(a)
        ax = axis % a.ndim
        k1 = [slice(None)] * a.ndim; k2 = list(k1)
        k1[ax] = slice(1, None); k2[ax] = slice(None, -1)
        return a[tuple(k1)] - a[tuple(k2)]

    # ---------------------------------------------------------------- linear algebra
    I[np.dot] = lambda a, b, **k: np.dot(a, b) if not has_sym((a, b)) else dot(asarr(a), asarr(b))

    @reg(np.matmul)
    def _matmul(a, b):
        a, b = asarr(a), asarr(b)
        return matmul(a, b)

    @reg(np.outer)
    def _outer(a, b):
        a, b = asarr(a).ravel(), asarr(b).ravel()
        return a[:, None] * b[None, :]

    @reg(np.result_type)
    def _result_type(*a):
        return np.result_type(*[x.dtype if isinstance(x, SArr) else x for x in a])

    import quantecon

    @reg(quantecon.cartesian)
    def _qe_cartesian(nodes, order="C"):
        xs = [asarr(x) for x in E.iterate(nodes)]
        if order != "C": raise Unsupported("cartesian order")
        fs = [x.snap() for x in xs]
        ns = [x.shp[0] for x in xs]
        tail = [ONE]
        for n in reversed(ns): tail.append(mul(tail[-1], n))
        tail = tail[::-1]          # tail[k] = n_k * n_{k+1} * ...

        def h(idx):
            i, c = idx
            vals = [num_of(f((idiv(imod(i, tail[k]), tail[k + 1]),))) for k, f in enumerate(fs)]
            r = vals[-1]
            for k in range(len(vals) - 2, -1, -1):
                r = ite(eq(c, num(k)), vals[k], r)
            return r
        srt = "R" if any(x.sort == "R" for x in xs) else "I"
        return SArr(Buf((tail[0], num(len(xs))), h, srt))

    @reg(np.kron)
    def _kron(a, b):
        if not has_sym((a, b)): return np.kron(a, b)
        a, b = asarr(a), asarr(b)
        nd = max(a.ndim, b.ndim)
        while a.ndim < nd: a = a[None]
        while b.ndim < nd: b = b[None]
        f, g = a.snap(), b.snap()
        def h(idx):
            i1 = tuple(ZERO if da is ONE else (i if db is ONE else idiv(i, db)) for i, da, db in zip(idx, a.shp, b.shp))
            i2 = tuple(ZERO if db is ONE else (i if da is ONE else imod(i, db)) for i, da, db in zip(idx, a.shp, b.shp))
            return mul(f(i1), g(i2))
        return SArr(Buf(tuple(mul(x, y) for x, y in zip(a.shp, b.shp)), h, "R"))

    @reg(np.diag)
    def _diag(a, k=0):
        if not has_sym(a) and not isinstance(a, SArr): return np.diag(a, k)
        a = asarr(a)
        kk = lift(k)
        f = a.snap()
        if a.ndim == 1:
            if kk is not ZERO and kk.op != "num": raise Unsupported("diag")
            k = int(kk.args[0])
            n = add(a.shp[0], num(abs(k)))
            if k >= 0:
                return from_fn((n, n), lambda i: ite(eq(add(i[0], num(k)), i[1]), num_of(f((i[0],))), ZERO))
            return from_fn((n, n), lambda i: ite(eq(i[0], add(i[1], num(-k))), num_of(f((i[1],))), ZERO))
        if kk is not ZERO: raise Unsupported("diag")
        return from_fn((a.shp[0],), lambda i: f((i[0], i[0])), a.sort)
    I[np.diagonal] = lambda a: asarr(a).diagonal()
    I[np.trace] = lambda a: asarr(a).trace()

    @reg(np.tensordot)
    def _tensordot(a, b, axes=2):
        a, b = asarr(a), asarr(b)
        if isinstance(axes, int):
            aa = list(range(a.ndim - axes, a.ndim)); bb = list(range(axes))
        else:
            aa, bb = axes
            aa = [aa] if isinstance(aa, int) else [int(x) for x in aa]
            bb = [bb] if isinstance(bb, int) else [int(x) for x in bb]
        aa = [x % a.ndim for x in aa]; bb = [x % b.ndim for x in bb]
        if len(aa) != len(bb):
            raise ValueError("shape-mismatch for sum")
        la = "abcdefghij"[:a.ndim]
        lb = list("klmnopqrst"[:b.ndim])
        for x, y in zip(aa, bb): lb[y] = la[x]
        out = [c for i, c in enumerate(la) if i not in aa] + [c for i, c in enumerate(lb) if i not in bb]
        return einsum(la + "," + "".join(lb) + "->" + "".join(out), a, b)

    I[np.einsum] = lambda s, *ops, **k: einsum(s, *[asarr(o) for o in ops])

    def einsum(s, *ops):
        s = s.replace(" ", "")
        if "->" in s:
            ins, out = s.split("->")
        else:
            ins = s
            letters = sorted(set(ins.replace(",", "").replace(".", "")))
            out = "".join(c for c in letters if ins.count(c) == 1)
            if "..." in ins: out = "..." + out
        ins = ins.split(",")
        if len(ins) != len(ops):
            raise ValueError("einsum: wrong number of operands")
        dims = {}
        # ellipsis
        eshapes = []
        core = []
        for st, o in zip(ins, ops):
            if "..." in st:
                a, b = st.split("...")
                ne = o.ndim - len(a) - len(b)
                core.append((a, ne, b))
                eshapes.append(o.shp[len(a):len(a) + ne])
                lab = list(zip(a, range(len(a)))) + list(zip(b, range(o.ndim - len(b), o.ndim)))
            else:
                if len(st) != o.ndim:
                    raise ValueError("einsum: operand has a different number of dimensions than the subscript")
                core.append((st, 0, ""))
                eshapes.append(())
                lab = list(zip(st, range(len(st))))
            for c, i in lab:
                d = o.shp[i]
                if c in dims and dims[c] is not d:
                    if dims[c] is ONE: dims[c] = d
                    elif d is not ONE and not same_dim(d, dims[c]):
                        if d.op == "num" and dims[c].op == "num":
                            raise ValueError("einsum: dimension mismatch")
                        E.oblige("einsum: dimensions agree", eq(d, dims[c]))
                else:
                    dims.setdefault(c, d)
        esh = broadcast_shapes(eshapes + [()])
        fs = [o.snap() for o in ops]
        shp = [o.shp for o in ops]
        if "..." in out:
            oa, ob = out.split("...")
        else:
            oa, ob = out, ""
            if esh and "..." not in out:
                raise Unsupported("einsum ellipsis summed")
        summed = [c for c in dims if c not in oa + ob]
        shape = [dims[c] for c in oa] + list(esh) + [dims[c] for c in ob]
        def g(idx):
            env = dict(zip(oa, idx[:len(oa)]))
            ei = idx[len(oa):len(oa) + len(esh)]
            env.update(zip(ob, idx[len(oa) + len(esh):]))
            def term(env):
                r = ONE
                for (a, ne, b), f, sh in zip(core, fs, shp):
                    full = [env[c] for c in a] + list(bindex(sh[len(a):len(a) + ne], ei)) + [env[c] for c in b]
                    full = tuple(ZERO if d is ONE else i for i, d in zip(full, sh))
                    r = mul(r, f(full))
                return r
            vs = []
            e2 = dict(env)
            conc = []
            for c in summed:
                v = fresh("k"); NAT.add(v)
                e2[c] = v
                vs.append((v, dims[c]))
            return mk_sum(vs, term(e2)) if vs else term(env)
        if not shape:
            return g(())
        return SArr(Buf(tuple(shape), g, "R"))
    E.einsum = einsum

    @reg(np.linalg.norm)
    def _norm(a, ord=None, axis=None, **k):
        if not has_sym(a): return np.linalg.norm(a, ord, axis)
        a = asarr(a)
        if ord is None or ord == 2 and a.ndim == 1:
            r = asum(a * a, axis)
            return fn("sqrt", r) if isinstance(r, T) else elementwise(lambda t: fn("sqrt", t), r)
        raise Unsupported("norm")

    def lin_uf(name, *mats):
        l = []
        for m in mats:
            f = m.snap()
            l.append(tm.lam(list(m.shp), lambda *ks: f(ks)))
        return l

    def linsolve(a, b):
        """contract of a dense solver: A @ x == b (regular A).  Small concrete sizes: Cramer's rule"""
        if not has_sym((a, b)): return np.linalg.solve(a, b)
        a, b = asarr(a), asarr(b)
        if a.ndim == 3 and b.ndim in (2, 3):
            n = a.shp[0]
            def g(i):
                return linsolve(a[i], b[i])
            p = g(fresh("k"))
            return SArr(Buf((n,) + p.shp, lambda idx: g(idx[0]).at(idx[1:]), "R"))
        if a.ndim != 2:
            raise Unsupported("solve: rank")
        if a.shp[0] is not a.shp[1] and not same_dim(a.shp[0], a.shp[1]):
            raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
        if b.shp[0] is not a.shp[0] and not same_dim(b.shp[0], a.shp[0]):
            if b.shp[0].op == "num" and a.shp[0].op == "num":
                raise ValueError("solve: mismatch in core dimension")
            E.oblige("solve: dimensions agree", eq(b.shp[0], a.shp[0]))
        n = a.shp[0]
        if n.op == "num" and n.args[0] <= 3:
            return cramer(a, b, int(n.args[0]))
        la, = lin_uf("inv", a)
        inv_ = from_fn((n, n), lambda i: app("matinv", (la, i[0], i[1])))
        E.matinvs.append((a.copy(), inv_))
        return dot(inv_, b)
    E.matinvs = []

    def matinv_rule(vds, fs, body):
        vset = {v for v, _ in vds}
        for f in fs:
            if f.op != "app" or f.args[0] != "matinv":
                continue
            la = f.args[1]
            for pos in (2, 3):
                v = f.args[pos]
                if v not in vset or v in la.fv or v in f.args[5 - pos].fv:
                    continue
                others = [g for g in fs if g is not f and v in g.fv]
                if len(others) != 1 or fs.count(f) != 1:
                    continue
                g = others[0]
                lv, ld, lb = tm.open_lam(la)
                if dict(vds)[v] is not ld[0]:
                    continue
                for r in [x for x in tm.subterms([g]) if x.sort == "I" and v not in x.fv]:
                    m = {lv[0]: r, lv[1]: v} if pos == 2 else {lv[0]: v, lv[1]: r}
                    if subst(lb, m) is g:
                        rest = [x for x in fs if x is not f and x is not g]
                        b = ite(eq(r, f.args[5 - pos]), ONE, ZERO)
                        for x in rest:
                            b = mul(b, x)
                        return tm.mk_sum([(w, d) for w, d in vds if w is not v], b)
        return None
    tm.SUM_RULES.append(matinv_rule)

    def cramer(a, b, n):
        A = [[num_of(a.at((num(i), num(j)))) for j in range(n)] for i in range(n)]
        def det(M):
            if len(M) == 0: return ONE
            if len(M) == 1: return M[0][0]
            r = ZERO
            for j in range(len(M)):
                if M[0][j] is ZERO: continue
                m = mul(M[0][j], det([row[:j] + row[j + 1:] for row in M[1:]]))
                r = add(r, m if j % 2 == 0 else neg(m))
            return r
        D = det(A)
        E.det_assumed.append(D)
        if D is ZERO:
            raise np.linalg.LinAlgError("Singular matrix")
        cof = [[scale_sign(det([row[:j] + row[j + 1:] for r, row in enumerate(A) if r != i]), i + j) for j in range(n)] for i in range(n)]
        f = b.snap()
        def g(idx):
            i = idx[0]
            def comp(ii):
                r = ZERO
                for j in range(n):
                    r = add(r, mul(cof[j][ii], num_of(f((num(j),) + idx[1:]))))
                return div(r, D)
            if i.op == "num":
                return comp(int(i.args[0]))
            r = comp(n - 1)
            for q in range(n - 2, -1, -1):
                r = ite(eq(i, num(q)), comp(q), r)
            return r
        return SArr(Buf(b.shp, g, "R"))
    E.det_assumed = []

    def scale_sign(t, k):
        return t if k % 2 == 0 else neg(t)
    I[np.linalg.solve] = linsolve
    import scipy.linalg
    I[scipy.linalg.solve] = lambda a, b, **k: linsolve(a, b)
    I[np.linalg.inv] = lambda a: linsolve(a, _eye(asarr(a).shp[0])) if has_sym(a) else np.linalg.inv(a)

    # sparse matrices behave as dense ones
    import scipy.sparse, scipy.sparse.linalg

    def sparse_from(x, shape=None, dtype=None, copy=False):
        return _zeros(x) if isinstance(x, tuple) else asarr(x).copy()
    I[scipy.sparse.eye] = lambda m, n=None, k=0, dtype=None, format=None: _eye(m, n, k)
    I[scipy.sparse.identity] = lambda n, dtype=None, format=None: _eye(n)
    for nm in ("lil", "csr", "csc", "coo", "dok"):
        for suffix in ("_matrix", "_array"):
            I[getattr(scipy.sparse, nm + suffix)] = sparse_from
    I[scipy.sparse.linalg.spsolve] = lambda a, b, *x, **k: linsolve(a, b)

    def fftconvolve(a, b, mode="full", axes=None):
        a, b = asarr(a), asarr(b)
        if a.ndim != 1 or b.ndim != 1:
            raise Unsupported("convolution of arrays with several axes")
        m, n = a.shp[0], b.shp[0]
        fa, fb = a.snap(), b.snap()
        if mode == "valid":
            if E.truth(lt(n, m)):
                m, n, fa, fb = n, m, fb, fa
            return from_fn((add(sub(n, m), ONE),), lambda i: sumT(ZERO, m, lambda j: mul(fa((j,)), fb((sub(add(i[0], m, num(-1)), j),)))))
        raise Unsupported("convolution mode %s" % mode)
    import scipy.signal
    I[scipy.signal.fftconvolve] = fftconvolve
    I[scipy.signal.convolve] = lambda a, b, mode="full", method="auto": fftconvolve(a, b, mode)
    I[np.convolve] = fftconvolve

    import scipy.stats
    I[("method", id(scipy.stats.norm), "cdf")] = lambda x: normcdf(x) if not has_sym(x) or isinstance(x, (T, SArr)) else _uns("norm.cdf")

    def cholesky(a, lower):
        """trusted contract: the triangular factor of a positive definite matrix (explicit for sizes 1 to 3)"""
        a = asarr(a)
        n = a.shp[0]
        if n.op != "num" or n.args[0] > 3: raise Unsupported("cholesky: size")
        n = int(n.args[0])
        A = [[num_of(a.at((num(max(i, j)), num(min(i, j))) if lower else (num(min(i, j)), num(max(i, j))))) for j in range(n)] for i in range(n)]
        L = [[ZERO] * n for _ in range(n)]
        for j in range(n):
            p = A[j][j]
            for k in range(j): p = sub(p, power(L[j][k], 2))
            E.assume(lt(ZERO, p))
            L[j][j] = fn("sqrt", p)
            for i in range(j + 1, n):
                q = A[i][j]
                for k in range(j): q = sub(q, mul(L[i][k], L[j][k]))
                L[i][j] = div(q, L[j][j])
        if not lower: L = [list(r) for r in zip(*L)]
        return asarr(L)

    @reg(scipy.linalg.cholesky)
    def _chol(a, lower=False, overwrite_a=False, check_finite=True):
        if not has_sym(a): return scipy.linalg.cholesky(a, lower=lower)
        return cholesky(a, lower)

    @reg(np.linalg.cholesky)
    def _npchol(a, **k):
        if not has_sym(a): return np.linalg.cholesky(a)
        return cholesky(a, True)

    @reg(np.linalg.det)
    def _det(a):
        if not has_sym(a): return np.linalg.det(a)
        raise Unsupported("det")

    # ---------------------------------------------------------------- misc
    I[np.isscalar] = lambda x: isinstance(x, (T, int, float, complex, str, np.generic))
    I[np.ndindex] = lambda *s: _product(*[_range(d) for d in (s[0] if len(s) == 1 and isinstance(s[0], tuple) else s)])
    def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        if not has_sym((a, b, rtol, atol)): return np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)
        ok = elementwise(lambda x, y: or_(eq(x, y), le(absT(sub(x, y)), add(lift(atol), mul(lift(rtol), absT(y))))), asarr(a), asarr(b))
        return I[np.all](ok)
    I[np.allclose] = _allclose
    I[np.real_if_close] = lambda a, tol=100: a if has_sym(a) else np.real_if_close(a, tol)
    I[np.finfo] = np.finfo
    I[np.dtype] = np.dtype

    @reg(np.searchsorted)
    def _searchsorted(a, v, side="left", **k):
        if not has_sym((a, v)): return np.searchsorted(a, v, side)
        raise Unsupported("searchsorted")

    @reg(np.vectorize)
    def _vectorize(f, **k):
        def g(*a):
            return elementwise(lambda *t: lift(E.call(f, t, {})), *a)
        g._model_ = True
        return g

    @reg(np.apply_along_axis)
    def _aaa(*a, **k):
        raise Unsupported("apply_along_axis")


def normcdf(x):
    """trusted contract: a distribution function with values in (0,1)"""
    if isinstance(x, SArr):
        return elementwise(lambda t: fn("normcdf", num_of(t)), x, sort="R")
    return fn("normcdf", num_of(lift(x)))


def matmul(a, b):
    if a.ndim <= 2 and b.ndim <= 2:
        return dot(a, b)
    if a.ndim == 1: raise Unsupported("matmul")
    if b.ndim == 1:
        return matmul(a, b[:, None])[..., 0]
    lead = broadcast_shapes([a.shp[:-2], b.shp[:-2]])
    f, g = a.snap(), b.snap()
    n = a.shp[-1]
    if n is not b.shp[-2] and not same_dim(n, b.shp[-2]):
        if n.op == "num" and b.shp[-2].op == "num":
            raise ValueError("matmul: mismatch in core dimension")
        Hooks.oblige("matmul: shapes aligned", eq(n, b.shp[-2]))
    nl = len(lead)
    def h(idx):
        l = idx[:nl]
        return sumT(0, n, lambda k: mul(f(bindex(a.shp[:-2], l) + (idx[nl], k)), g(bindex(b.shp[:-2], l) + (k, idx[nl + 1]))))
    return SArr(Buf(tuple(lead) + (a.shp[-2], b.shp[-1]), h, "R"))


def np_repeat(a, n, axis=None):
    a = asarr(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    axis %= a.ndim
    if isinstance(n, SArr) and n.ndim == 0: n = n.at(())
    if not is_scalar(n): raise Unsupported("repeat counts")
    n = lift(n)
    f = a.snap()
    sh = list(a.shp)
    if sh[axis] is ONE:
        sh[axis] = n
        return SArr(Buf(tuple(sh), lambda idx: f(idx[:axis] + (ZERO,) + idx[axis + 1:]), a.sort))
    sh[axis] = mul(sh[axis], n)
    return SArr(Buf(tuple(sh), lambda idx: f(idx[:axis] + (arr.idiv_idx(idx[axis], n),) + idx[axis + 1:]), a.sort))
