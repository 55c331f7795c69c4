"""Symbolic arrays: concrete rank, symbolic extents, elements given by closures idx -> term."""
import numpy as np
from . import terms as tm
from .terms import *


class Unsupported(Exception):
    pass


JOURNAL = []          # list of dict buf -> old fn
OBLIG = []            # side obligations (name, goal) raised while executing (shape agreement ...)


class Hooks:
    decide = staticmethod(lambda c: None)      # set by the interpreter
    oblige = staticmethod(lambda name, goal: None)


def memo_fn(f):
    memo = {}

    def g(idx):
        r = memo.get(idx)
        if r is None:
            r = memo[idx] = f(idx)
        return r
    return g


class Buf:
    __slots__ = ("shape", "fn", "sort", "name", "serial")
    counter = 0

    def __init__(self, shape, fn, sort="R", name=None):
        self.serial = Buf.counter
        Buf.counter += 1
        self.shape = shape
        self.fn = memo_fn(fn)
        self.sort = sort
        self.name = name

    def write(self, fn):
        for j in JOURNAL:
            if self not in j:
                j[self] = self.fn
        self.fn = memo_fn(fn)


def dimT(d):
    return lift(d)


def dim_out(d):
    """dims are presented as python ints when concrete"""
    d = lift(d)
    if d.op == "num":
        return int(d.args[0])
    return d


def same_dim(a, b):
    a, b = lift(a), lift(b)
    if a is b:
        return True
    if a.op == "num" and b.op == "num":
        return False
    return Hooks.decide(eq(a, b)) is True


class SArr:
    """a view on a buffer"""
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, buf, shape=None, fwd=None, bwd=None):
        self.buf = buf
        self.shp = tuple(lift(d) for d in (buf.shape if shape is None else shape))
        self.fwd = fwd              # view idx -> base idx
        self.bwd = bwd              # base idx -> (cond, view idx);  None with fwd: read only
        self.readonly = fwd is not None and bwd is None
        self.locked = False         # numpy's flags.writeable is False

    def setflags(self, write=True):
        self.locked = not write

    @property
    def flags(self):
        import types
        return types.SimpleNamespace(writeable=not self.locked)

    # ---- basic attributes
    @property
    def shape(self):
        return tuple(dim_out(d) for d in self.shp)

    @property
    def ndim(self):
        return len(self.shp)

    @property
    def size(self):
        r = ONE
        for d in self.shp:
            r = mul(r, d)
        return dim_out(r)

    @property
    def sort(self):
        return self.buf.sort

    @property
    def dtype(self):
        return {"R": np.dtype(float), "I": np.dtype(int), "B": np.dtype(bool)}[self.buf.sort]

    def at(self, idx):
        idx = tuple(idx)
        if self.fwd is None:
            return self.buf.fn(idx)
        return self.buf.fn(self.fwd(idx))

    def snap(self):
        """element function frozen at the present content"""
        f = self.buf.fn
        fwd = self.fwd
        if fwd is None:
            return f
        return lambda idx: f(fwd(idx))

    def __len__(self):
        d = self.shp[0]
        if d.op == "num":
            return int(d.args[0])
        raise Unsupported("len of symbolic array used natively")

    def __repr__(self):
        return "SArr(%s)" % (self.shape,)

    def __iter__(self):
        d = self.shp[0]
        if d.op != "num":
            raise Unsupported("iteration over symbolic extent")
        for i in range(int(d.args[0])):
            yield self[i]

    def __hash__(self):
        return id(self)

    # ---- operators
    def __add__(self, o): return elementwise(lambda a, b: tm.add(num_of(a), num_of(b)), self, o)
    __radd__ = __add__
    def __sub__(self, o): return elementwise(lambda a, b: sub(num_of(a), b), self, o)
    def __rsub__(self, o): return elementwise(lambda a, b: sub(num_of(b), a), self, o)
    def __mul__(self, o): return elementwise(mul, self, o)
    __rmul__ = __mul__
    def __truediv__(self, o): return elementwise(div, self, o, sort="R")
    def __rtruediv__(self, o): return elementwise(lambda a, b: div(b, a), self, o, sort="R")
    def __floordiv__(self, o): return elementwise(idiv, self, o)
    def __rfloordiv__(self, o): return elementwise(lambda a, b: idiv(b, a), self, o)
    def __mod__(self, o): return elementwise(imod, self, o)
    def __pow__(self, o): return elementwise(lambda a, b: power(a, b), self, o)
    def __rpow__(self, o): return elementwise(lambda a, b: power(b, a), self, o)
    def __neg__(self): return elementwise(lambda a: neg(num_of(a)), self)
    def __pos__(self): return self.copy()
    def __abs__(self): return elementwise(absT, self)
    def __lt__(self, o): return elementwise(lt, self, o, sort="B")
    def __le__(self, o): return elementwise(le, self, o, sort="B")
    def __gt__(self, o): return elementwise(lambda a, b: lt(b, a), self, o, sort="B")
    def __ge__(self, o): return elementwise(lambda a, b: le(b, a), self, o, sort="B")
    def __eq__(self, o): return elementwise(eq, self, o, sort="B")
    def __ne__(self, o): return elementwise(ne, self, o, sort="B")
    def __and__(self, o): return elementwise(lambda a, b: and_(a, b), self, o, sort="B")
    __rand__ = __and__
    def __or__(self, o): return elementwise(lambda a, b: or_(a, b), self, o, sort="B")
    __ror__ = __or__
    def __invert__(self): return elementwise(not_, self, sort="B")
    def __matmul__(self, o):
        from .npmodel import matmul
        return matmul(self, asarr(o))

    def __rmatmul__(self, o):
        from .npmodel import matmul
        return matmul(asarr(o), self)

    def __bool__(self):
        if all(d is ONE for d in self.shp):
            return bool(bool_of(self.at(tuple(ZERO for _ in self.shp))))
        if not self.shp:
            return bool(bool_of(self.at(())))
        raise Unsupported("truth value of an array")

    def inplace(self, op, o):
        new = op(self, o)
        if not isinstance(new, SArr):
            new = asarr(new)
        check_broadcast_into(self, new)
        self.assign_all(new)
        return self

    # ---- indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, value):
        setitem(self, key, value)

    def assign_all(self, value):
        setitem(self, (Ellipsis,), value)

    # ---- methods
    def copy(self, order=None):
        return SArr(Buf(self.shp, self.snap(), self.sort))

    flatten = lambda self: self.copy().ravel()

    def ravel(self, order="C"):
        if order == "F":
            return reshape(self.transpose(), (-1,))
        if order != "C":
            raise Unsupported("ravel order")
        return reshape(self, (-1,))

    def reshape(self, *shape, order=None):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, shape, order)

    @property
    def T(self):
        return self.transpose()

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return from_fn(self.shp, lambda i: ZERO)

    @property
    def flat(self):
        return self.ravel()

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        if not axes or axes == (None,):
            axes = tuple(reversed(range(self.ndim)))
        axes = tuple(int(a) % self.ndim for a in axes)
        inv_ = [0] * len(axes)
        for i, a in enumerate(axes):
            inv_[a] = i
        return mkview(self, [self.shp[a] for a in axes],
                      lambda idx: tuple(idx[inv_[j]] for j in range(len(axes))),
                      lambda b: (TRUE, tuple(b[a] for a in axes)))

    def swapaxes(self, i, j):
        ax = list(range(self.ndim))
        ax[i], ax[j] = ax[j], ax[i]
        return self.transpose(*ax)

    def sum(self, axis=None, keepdims=False, **kw):
        return asum(self, axis, keepdims)

    def tocsr(self, *a, **k): return self
    tocsc = tolil = toarray = todense = tocoo = todok = tocsr

    def mean(self, axis=None, keepdims=False, **kw):
        s = asum(self, axis, keepdims)
        n = ONE
        for a in axes_of(self, axis):
            n = mul(n, self.shp[a])
        return s / dim_out(n) if not isinstance(s, T) else div(s, n)

    def max(self, axis=None, **kw):
        return aextreme(self, axis, "max_")

    def min(self, axis=None, **kw):
        return aextreme(self, axis, "min_")

    def argmax(self, axis=None):
        return aextreme(self, axis, "argmax_")

    def argmin(self, axis=None):
        return aextreme(self, axis, "argmin_")

    def prod(self, axis=None):
        if all(self.shp[a].op == "num" for a in axes_of(self, axis)):
            return reduce_concrete(self, axis, mul, ONE)
        raise Unsupported("prod over symbolic extent")

    def all(self, axis=None):
        return aall(self, axis)

    def any(self, axis=None):
        return aany(self, axis)

    def dot(self, o):
        return dot(self, asarr(o))

    def astype(self, dt, **kw):
        dt = np.dtype(dt)
        if dt.kind in "iu" and self.sort == "R":
            # truncation towards zero
            f = self.snap()
            return SArr(Buf(self.shp, lambda i: truncT(f(i)), "I"))
        if dt.kind == "b":
            f = self.snap()
            return SArr(Buf(self.shp, lambda i: bool_of(f(i)), "B"))
        f = self.snap()
        return SArr(Buf(self.shp, lambda i: num_of(f(i)), "R" if dt.kind == "f" else "I"))

    def fill(self, v):
        setitem(self, (Ellipsis,), v)

    def squeeze(self, axis=None):
        key = tuple(0 if (d is ONE and (axis is None or i == axis % self.ndim)) else slice(None) for i, d in enumerate(self.shp))
        return getitem(self, key)

    def tolist(self):
        if self.ndim == 1:
            return [self.at((num(i),)) for i in range(len(self))]
        return [self[i].tolist() for i in range(len(self))]

    def item(self, *a):
        if not a and all(d is ONE for d in self.shp):
            return self.at(tuple(ZERO for _ in self.shp))
        if len(a) == 1 and self.ndim == 1:
            return self.at((lift(a[0]),))
        raise Unsupported("item")

    def cumsum(self, axis=None):
        return cumsum(self, axis)

    def diagonal(self):
        n = self.shp[0]
        f = self.snap()
        return from_fn((n,), lambda i: f((i[0], i[0])), self.sort)

    def trace(self):
        f = self.snap()
        return sumT(0, self.shp[0], lambda k: f((k, k)))

    def repeat(self, n, axis=None):
        from . import npmodel
        return npmodel.np_repeat(self, n, axis)

    def std(self, axis=None):
        m = self.mean(axis=axis, keepdims=True)
        d = self - m
        v = (d * d).mean(axis=axis)
        return fn("sqrt", v) if isinstance(v, T) else elementwise(lambda x: fn("sqrt", x), v)

    def var(self, axis=None):
        m = self.mean(axis=axis, keepdims=True)
        d = self - m
        return (d * d).mean(axis=axis)

    def nonzero(self):
        raise Unsupported("nonzero")


def truncT(t):
    t = num_of(t)
    if t.sort == "I":
        return t
    return ite(le(ZERO, t), floorT(t), neg(floorT(neg(t))))


def mkview(a, shape, f, b):
    """view of a view; f: new idx -> a idx ; b: a idx -> (cond, new idx) or None"""
    af, ab = a.fwd, a.bwd
    fwd = f if af is None else (lambda idx: af(f(idx)))
    if b is None or a.readonly:
        bwd = None
    elif af is None:
        bwd = b
    else:
        def bwd(base):
            c1, i1 = ab(base)
            c2, i2 = b(i1)
            return and_(c1, c2), i2
    v = SArr(a.buf, shape, fwd, bwd)
    v.locked = a.locked
    return v


def from_fn(shape, f, sort="R"):
    shape = tuple(lift(d) for d in shape)
    return SArr(Buf(shape, lambda idx: lift(f(idx)), sort))


def asarr(x):
    if isinstance(x, SArr):
        return x
    if isinstance(x, np.ndarray):
        x2 = x
        sort = {"f": "R", "i": "I", "u": "I", "b": "B"}.get(x.dtype.kind)
        if sort is None:
            raise Unsupported("array dtype %s" % x.dtype)
        shape = tuple(lift(d) for d in x.shape)
        cells = {}
        for i in np.ndindex(*x.shape):
            cells[i] = lift(x[i])
        return from_cells(shape, cells, sort)
    if isinstance(x, (T, int, float, bool, np.generic)):
        t = lift(x)
        return SArr(Buf((), lambda idx: t, t.sort))
    if isinstance(x, (list, tuple)):
        return stack_list(list(x))
    if hasattr(x, "_as_sarr"):
        return x._as_sarr()
    raise Unsupported("array from %r" % type(x))


def from_cells(shape, cells, sort):
    dims = [int(d.args[0]) for d in shape]

    def f(idx):
        if all(i.op == "num" for i in idx):
            k = tuple(int(i.args[0]) for i in idx)
            return cells[k]
        # ite chain
        r = None
        for k in np.ndindex(*dims):
            c = and_(*[eq(i, num(j)) for i, j in zip(idx, k)])
            r = cells[k] if r is None else ite(c, cells[k], r)
        return r if r is not None else ZERO
    return SArr(Buf(shape, f, sort))


def stack_list(xs):
    if len(xs) == 0:
        return SArr(Buf((ZERO,), lambda i: ZERO, "R"))
    parts = [asarr(x) for x in xs]
    sub_ = parts[0].shp
    for p in parts[1:]:
        if len(p.shp) != len(sub_):
            raise Unsupported("ragged array")
        for a, b in zip(p.shp, sub_):
            if not same_dim(a, b):
                Hooks.oblige("array() of equal lengths", eq(a, b))
    fs = [p.snap() for p in parts]
    sorts = [p.sort for p in parts]
    sort = "R" if "R" in sorts else ("I" if "I" in sorts else "B")
    n = len(parts)

    def f(idx):
        i = idx[0]
        if i.op == "num":
            return conv(fs[int(i.args[0])](idx[1:]), sort)
        r = conv(fs[n - 1](idx[1:]), sort)
        for j in range(n - 2, -1, -1):
            r = ite(eq(i, num(j)), conv(fs[j](idx[1:]), sort), r)
        return r
    return SArr(Buf((num(n),) + tuple(sub_), f, sort))


def conv(t, sort):
    if sort == "B":
        return t
    return num_of(t)


# ---------------------------------------------------------------- broadcasting
def bdim(a, b):
    if a is b: return a
    if a is ONE: return b
    if b is ONE: return a
    if a.op == "num" and b.op == "num":
        raise ValueError("operands could not be broadcast together (%s vs %s)" % (a, b))
    if same_dim(a, b):
        return a if b.op != "num" else b
    Hooks.oblige("operands broadcast", or_(eq(a, b), eq(a, ONE), eq(b, ONE)))
    # take them as equal from here on
    return a


def broadcast_shapes(shapes):
    r = max(len(s) for s in shapes)
    out = [ONE] * r
    for s in shapes:
        off = r - len(s)
        for i, d in enumerate(s):
            out[off + i] = bdim(out[off + i], d)
    return tuple(out)


def bindex(shape, idx):
    off = len(idx) - len(shape)
    return tuple(ZERO if d is ONE else idx[off + i] for i, d in enumerate(shape))


def is_scalar(x):
    return isinstance(x, (T, int, float, bool, np.generic))


def elementwise(f, *args, sort=None):
    if any(isinstance(a, np.ndarray) and a.dtype == object for a in args):
        raise Unsupported("object array")
    if any(isinstance(a, (str, dict)) or a is None for a in args):
        return NotImplemented
    arrs = [asarr(a) for a in args]
    if all(is_scalar(a) for a in args):
        return f(*[lift(a) for a in args])
    shape = broadcast_shapes([a.shp for a in arrs])
    fs = [(a.snap(), a.shp) for a in arrs]

    def g(idx):
        return f(*[h(bindex(s, idx)) for h, s in fs])
    if sort is None:
        sort = "R" if any(a.sort == "R" for a in arrs) else "I"
    r = SArr(Buf(shape, g, sort))
    if not shape:
        return r.at(())
    return r


def check_broadcast_into(dst, src):
    off = len(dst.shp) - len(src.shp)
    if off < 0:
        # leading ones allowed
        if all(d is ONE for d in src.shp[:-off]):
            return
        raise ValueError("could not broadcast input array")
    for i, d in enumerate(src.shp):
        e = dst.shp[off + i]
        if d is ONE or d is e:
            continue
        if d.op == "num" and e.op == "num":
            raise ValueError("could not broadcast input array from shape %s into %s" % (src.shape, dst.shape))
        if not same_dim(d, e):
            Hooks.oblige("assignment shapes agree", or_(eq(d, e), eq(d, ONE)))


# ---------------------------------------------------------------- indexing
def norm_index(i, n):
    """python index -> non-negative index"""
    i = num_of(lift(i))
    if i.op == "num":
        if i.args[0] < 0:
            return add(n, i)
        return i
    if tm.nonneg_syntactic(i):
        return i
    d = Hooks.decide(le(ZERO, i))
    if d is True:
        return i
    if d is False:
        return add(n, i)
    return ite(le(ZERO, i), i, add(n, i))


def clampidx(i, n):
    i = num_of(lift(i))
    if i.op == "num" and n.op == "num":
        v = int(i.args[0]); m = int(n.args[0])
        if v < 0: v += m
        return num(max(0, min(v, m)))
    if i.op == "num":
        if i.args[0] >= 0:
            if Hooks.decide(le(i, n)) is True:
                return i
            return minT(i, n)
        j = add(n, i)
        if Hooks.decide(le(ZERO, j)) is True:
            return j
        return maxT(j, ZERO)
    if Hooks.decide(le(ZERO, i)) is not True:
        if Hooks.decide(lt(i, ZERO)) is True:
            i = maxT(add(i, n), ZERO)
        else:
            i = ite(le(ZERO, i), i, maxT(add(i, n), ZERO))
    if Hooks.decide(le(i, n)) is True:
        return i
    return minT(i, n)


def norm_slice(s, n):
    """-> (start, length, step:int)"""
    step = 1 if s.step is None else s.step
    if isinstance(step, T):
        if step.op != "num":
            raise Unsupported("symbolic slice step")
        step = int(step.args[0])
    if step > 0:
        a = ZERO if s.start is None else clampidx(s.start, n)
        b = n if s.stop is None else clampidx(s.stop, n)
        ln = sub(b, a)
        if step != 1:
            ln = idiv(add(ln, num(step - 1)), num(step))
        if not tm.nonneg_syntactic(ln):
            d = Hooks.decide(le(ZERO, ln))
            if d is False:
                ln = ZERO
            elif d is None:
                ln = ite(le(ZERO, ln), ln, ZERO)
        return a, ln, step
    if s.start is None and s.stop is None and step == -1:
        return sub(n, ONE), n, -1
    raise Unsupported("negative slice step")


def expand_key(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    nidx = 0
    for k in key:
        if k is None or k is Ellipsis:
            continue
        if isinstance(k, SArr) and k.sort == "B" and k.ndim > 1:
            nidx += k.ndim
        elif isinstance(k, np.ndarray) and k.dtype == bool and k.ndim > 1:
            nidx += k.ndim
        else:
            nidx += 1
    if any(k is Ellipsis for k in key):
        i = [j for j, k in enumerate(key) if k is Ellipsis][0]
        key[i:i + 1] = [slice(None)] * (a.ndim - nidx)
    else:
        key += [slice(None)] * (a.ndim - nidx)
    if nidx > a.ndim:
        raise IndexError("too many indices for array")
    return key


def is_mask(k):
    return (isinstance(k, SArr) and k.sort == "B") or (isinstance(k, np.ndarray) and k.dtype == bool)


def is_fancy(k):
    return isinstance(k, (SArr, np.ndarray, list)) and not (isinstance(k, SArr) and k.ndim == 0)


def check_bounds(i, n):
    if i.op == "num" and n.op == "num":
        if not (0 <= i.args[0] < n.args[0]):
            raise IndexError("index %s is out of bounds for axis with size %s" % (i, n))
    else:
        c = and_(le(ZERO, i), lt(i, n))
        if c is not TRUE:
            Hooks.oblige("index in bounds", c)


def getitem(a, key):
    if isinstance(key, str):
        raise IndexError("only integers, slices ... are valid indices")
    key = expand_key(a, key)
    if any(is_mask(k) for k in key):
        if len(key) == 1 or all(isinstance(k, slice) and k == slice(None) for k in key[1:]):
            return MaskedRead(a, asarr(key[0]))
        raise Unsupported("mixed mask indexing")
    if any(is_fancy(k) for k in key):
        return fancy_get(a, key)
    # basic
    shape, plan = [], []
    ax = 0
    for k in key:
        if k is None:
            shape.append(ONE)
            plan.append(("new",))
            continue
        n = a.shp[ax]
        if isinstance(k, slice):
            st, ln, sp = norm_slice(k, n)
            shape.append(ln)
            plan.append(("sl", st, sp, ln))
        else:
            if isinstance(k, SArr):
                k = k.at(())
            i = norm_index(k, n)
            check_bounds(i, n)
            plan.append(("ix", i))
        ax += 1
    if all(p[0] == "ix" for p in plan):
        return a.at(tuple(p[1] for p in plan))

    def fwd(idx):
        out = []
        j = 0
        for p in plan:
            if p[0] == "new":
                j += 1
            elif p[0] == "ix":
                out.append(p[1])
            else:
                out.append(add(p[1], mul(num(p[2]), idx[j])) if not (p[1] is ZERO and p[2] == 1) else idx[j])
                j += 1
        return tuple(out)

    def bwd(base):
        c = []
        out = []
        j = 0
        for p in plan:
            if p[0] == "new":
                out.append(ZERO)
            elif p[0] == "ix":
                c.append(eq(base[j], p[1]))
                j += 1
            else:
                b = base[j]
                st, sp, ln = p[1], p[2], p[3]
                if sp == 1:
                    v = sub(b, st)
                    if not (st is ZERO):
                        c.append(le(st, b))
                    if not (ln is a.shp[j] and st is ZERO):
                        c.append(lt(v, ln))
                elif sp == -1:
                    v = sub(st, b)
                else:
                    v = idiv(sub(b, st), num(sp))
                    c += [le(st, b), eq(imod(sub(b, st), num(sp)), ZERO), lt(v, ln)]
                out.append(v)
                j += 1
        return and_(*c), tuple(out)
    return mkview(a, shape, fwd, bwd)


def fancy_get(a, key):
    # integer-array indexing (copy)
    axes = [i for i, k in enumerate(key) if is_fancy(k) or (not isinstance(k, slice) and k is not None)]
    arrs = []
    for k in key:
        if is_fancy(k):
            arrs.append(asarr(k))
    fshape = broadcast_shapes([x.shp for x in arrs])
    adv = [i for i, k in enumerate(key) if not isinstance(k, slice) and k is not None]
    contiguous = adv == list(range(adv[0], adv[-1] + 1))
    shape = []
    plan = []
    ax = 0
    placed = False
    if not contiguous:
        shape += list(fshape)
        placed = True
    for i, k in enumerate(key):
        if k is None:
            plan.append(("new", len(shape)))
            shape.append(ONE)
            continue
        n = a.shp[ax]
        ax += 1
        if isinstance(k, slice):
            st, ln, sp = norm_slice(k, n)
            plan.append(("sl", st, sp, len(shape)))
            shape.append(ln)
        elif is_fancy(k):
            if not placed:
                pos = len(shape)
                shape += list(fshape)
                placed = True
            ka = asarr(k)
            plan.append(("fa", ka.snap(), ka.shp, n))
        else:
            if not placed:
                pos = len(shape)
                shape += list(fshape)
                placed = True
            i_ = norm_index(k, n)
            plan.append(("ix", i_))
    pos = 0 if not contiguous else pos
    nf = len(fshape)
    f0 = a.snap()

    def f(idx):
        out = []
        fi = idx[pos:pos + nf]
        for p in plan:
            if p[0] == "sl":
                out.append(add(p[1], mul(num(p[2]), idx[p[3]])))
            elif p[0] == "ix":
                out.append(p[1])
            elif p[0] == "fa":
                out.append(norm_index(p[1](bindex(p[2], fi)), p[3]))
        return f0(tuple(out))
    return SArr(Buf(tuple(shape), f, a.sort))


class MaskedRead:
    """a[mask]: only usable on the right of x[mask] = ... with the same mask, or in elementwise arithmetic"""

    def __init__(self, a, mask):
        self.f = a.snap()
        self.shp = a.shp
        self.mask = mask
        self.mf = mask.snap()
        self.mshp = mask.shp
        self.sort = a.sort

    def _bin(self, op, o):
        if isinstance(o, MaskedRead):
            g = o.f
        elif is_scalar(o):
            t = lift(o)
            g = lambda idx: t
        else:
            raise Unsupported("masked arithmetic")
        f = self.f
        r = object.__new__(MaskedRead)
        r.f = lambda idx: op(f(idx), g(idx))
        r.shp, r.mask, r.mf, r.mshp, r.sort = self.shp, self.mask, self.mf, self.mshp, self.sort
        return r
    def __add__(self, o): return self._bin(lambda x, y: tm.add(x, y), o)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(sub, o)
    def __mul__(self, o): return self._bin(mul, o)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._bin(div, o)
    def __neg__(self): return self._bin(lambda x, y: neg(x), 0)


def setitem(a, key, value):
    if a.locked:
        raise ValueError("assignment destination is read-only")
    if a.readonly:
        raise Unsupported("write through a read-only view")
    key = expand_key(a, key)
    if any(is_mask(k) for k in key):
        mask = asarr(key[0])
        if not all(isinstance(k, slice) and k == slice(None) for k in key[1:]):
            raise Unsupported("mixed mask assignment")
        mf, nm = mask.snap(), mask.ndim
        for d1, d2 in zip(mask.shp, a.shp):
            if d1 is not d2 and not same_dim(d1, d2):
                if d1.op == "num" and d2.op == "num":
                    raise IndexError("boolean index did not match")
                Hooks.oblige("mask shape agrees", eq(d1, d2))
        if isinstance(value, MaskedRead):
            vf = value.f
            v2, m2 = value.mf, mf
            probe = tuple(fresh("m") for _ in mask.shp)
            if v2(probe) is not m2(probe):
                raise Unsupported("masked assignment with a different mask")
        elif is_scalar(value):
            t = lift(value)
            vf = lambda idx: t
        else:
            v = asarr(value)
            if v.ndim == 0:
                t = v.at(())
                vf = lambda idx: t
            else:
                raise Unsupported("masked assignment of an array")
        old = a.buf.fn
        bwd = a.bwd
        srt = a.sort

        def new(base):
            if bwd is None:
                c, idx = TRUE, base
            else:
                c, idx = bwd(base)
            cc = and_(c, bool_of(mf(idx[:nm])))
            if cc is FALSE:
                return old(base)
            return ite(cc, coerce(vf(idx), srt), old(base))
        a.buf.write(new)
        return
    if any(is_fancy(k) for k in key):
        return fancy_set(a, key, value)
    allix = all(not isinstance(k, slice) and k is not None for k in key)
    if allix:
        idx = []
        for k, n in zip(key, a.shp):
            if isinstance(k, SArr):
                k = k.at(())
            i = norm_index(k, n)
            check_bounds(i, n)
            idx.append(i)
        idx = tuple(idx)
        if isinstance(value, SArr):
            if value.ndim == 0 or all(d is ONE for d in value.shp):
                value = value.at(tuple(ZERO for _ in value.shp))
            else:
                raise ValueError("setting an array element with a sequence.")
        base_i = idx if a.fwd is None else a.fwd(idx)
        t = coerce(lift(value), a.sort)
        old = a.buf.fn

        def new(base):
            c = and_(*[eq(b, i) for b, i in zip(base, base_i)])
            if c is TRUE: return t
            if c is FALSE: return old(base)
            return ite(c, t, old(base))
        a.buf.write(new)
        return
    v = getitem(a, tuple(key))
    src = value if isinstance(value, SArr) else asarr(value)
    check_broadcast_into(v, src)
    sf = src.snap()
    sshp = src.shp
    nd = v.ndim
    old = a.buf.fn
    bwd = v.bwd
    srt = a.sort

    def new(base):
        c, idx = (TRUE, base) if bwd is None else bwd(base)
        if c is FALSE:
            return old(base)
        if len(sshp) <= nd:
            t = sf(bindex(sshp, idx))
        else:
            t = sf((ZERO,) * (len(sshp) - nd) + bindex(sshp[len(sshp) - nd:], idx))
        t = coerce(t, srt)
        if c is TRUE:
            return t
        return ite(c, t, old(base))
    a.buf.write(new)


def coerce(t, sort):
    if sort == "I" and t.sort == "R":
        return truncT(t)
    if sort == "B":
        return bool_of(t)
    return num_of(t)


def fancy_set(a, key, value):
    # supported: fancy indices with concrete entries
    arrs = [(i, asarr(k)) for i, k in enumerate(key) if is_fancy(k)]
    fshape = broadcast_shapes([x.shp for _, x in arrs])
    if not all(d.op == "num" for d in fshape):
        return fancy_set_sym(a, key, value, arrs, fshape)
    src = asarr(value)
    dims = [int(d.args[0]) for d in fshape]
    contiguous = True
    rest_before = sum(1 for k in key[:arrs[0][0]] if isinstance(k, slice) or k is None)
    adv = [i for i, k in enumerate(key) if not isinstance(k, slice) and k is not None]
    if adv != list(range(adv[0], adv[-1] + 1)):
        rest_before = 0
    for k in np.ndindex(*dims):
        idx = tuple(num(j) for j in k)
        kk = list(key)
        for i, x in arrs:
            kk[i] = x.at(bindex(x.shp, idx))
        if src.ndim == 0:
            setitem(a, tuple(kk), src.at(()))
        else:
            nrest = sum(1 for q in kk if isinstance(q, slice) or q is None)
            full = nrest + len(dims)
            if src.ndim == full:
                s = getitem(src, tuple([slice(None)] * rest_before + [0 if src.shp[rest_before + j] is ONE else idx[j] for j in range(len(dims))]))
            elif src.ndim <= nrest - rest_before:
                s = src
            else:
                raise Unsupported("fancy assignment broadcasting")
            setitem(a, tuple(kk), s)


def fancy_set_sym(a, key, value, arrs, fshape):
    """a[i_vec, j_vec] = v with affine index vectors (e.g. arange)"""
    if len(fshape) != 1 or any(isinstance(k, slice) or k is None for k in key if not is_fancy(k)):
        # allow slices only when they are full
        pass
    n = fshape[0]
    k = fresh("k")
    NAT.add(k)
    src = asarr(value)
    plan = []
    sol = None
    for i, q in enumerate(key):
        if is_fancy(q):
            x = asarr(q)
            e = x.at(bindex(x.shp, (k,)))
            plan.append(e)
            if sol is None and k in e.fv:
                sol = (i, e)
        elif isinstance(q, slice) and q == slice(None):
            plan.append("all")
        else:
            plan.append(norm_index(q, a.shp[i]))
    if sol is None or a.bwd is not None:
        raise Unsupported("fancy assignment")
    si, se = sol
    old = a.buf.fn
    sf, sshp = src.snap(), src.shp
    nall = sum(1 for p in plan if isinstance(p, str))
    first = [i for i, p in enumerate(plan) if not isinstance(p, str)][0]
    srt = a.sort

    def new(base):
        kv = solve_for(sub(se, base[si]), k)
        if kv is None:
            raise Unsupported("fancy assignment: index not affine")
        m = {k: kv}
        c = [le(ZERO, kv), lt(kv, n)]
        rest = []
        for b, p in zip(base, plan):
            if isinstance(p, str):
                rest.append(b)
            else:
                c.append(eq(b, subst(p, m)))
        # source index: fancy axis placed at position of the first advanced index
        full = tuple(rest[:first]) + (kv,) + tuple(rest[first:])
        t = sf(bindex(sshp, full))
        return ite(and_(*c), coerce(t, srt), old(base))
    a.buf.write(new)


# ---------------------------------------------------------------- reshape
def reshape(a, shape, order=None):
    if order not in (None, "C"):
        raise Unsupported("reshape order")
    if isinstance(shape, (int, T)):
        shape = (shape,)
    shape = [lift(d) if not isinstance(d, SArr) else d.at(()) for d in shape]
    neg1 = [i for i, d in enumerate(shape) if d.op == "num" and d.args[0] == -1]
    if neg1:
        known = ONE
        for i, d in enumerate(shape):
            if i != neg1[0]:
                known = mul(known, d)
        tot = ONE
        for d in a.shp:
            tot = mul(tot, d)
        q, r = tm._divsplit(tot, known)
        if r is not ZERO:
            q = div(tot, known)
            if q.sort != "I":
                q = idiv(tot, known)
                Hooks.oblige("reshape size", eq(mul(q, known), tot))
        shape[neg1[0]] = q
    old = list(a.shp)
    # group factorisation
    groups = []
    i = j = 0
    while i < len(old) or j < len(shape):
        gi, gj = [], []
        if i < len(old):
            gi.append(i); i += 1
        if j < len(shape):
            gj.append(j); j += 1
        pi, pj = prod_t([old[x] for x in gi]), prod_t([shape[x] for x in gj])
        while pi is not pj:
            # extend whichever side divides the other
            if i < len(old) and (not gj or _divides(pi, pj) or j >= len(shape)):
                if pi is not pj and _divides(pi, pj) or j >= len(shape):
                    gi.append(i); i += 1
                    pi = prod_t([old[x] for x in gi])
                    continue
            if j < len(shape):
                gj.append(j); j += 1
                pj = prod_t([shape[x] for x in gj])
                continue
            if i < len(old):
                gi.append(i); i += 1
                pi = prod_t([old[x] for x in gi])
                continue
            break
        groups.append((gi, gj))
        if pi is not pj:
            if pi.op == "num" and pj.op == "num":
                raise ValueError("cannot reshape array of size")
            Hooks.oblige("reshape preserves size", eq(pi, pj))

    def conv_idx(idx, src_axes, src_dims, dst_axes, dst_dims):
        """flat index over src -> multi index over dst"""
        sx = [x for x in src_axes]
        if len(src_axes) == 1 and len(dst_axes) == 1:
            return [idx[src_axes[0]]]
        flat = ZERO
        for x in src_axes:
            flat = add(mul(flat, src_dims[x]), idx[x])
        out = []
        for n, x in enumerate(dst_axes):
            if dst_dims[x] is ONE:
                out.append(ZERO)
                continue
            # stride of the remaining (non-trivial) axes
            st = prod_t([dst_dims[y] for y in dst_axes[n + 1:]])
            lead = all(dst_dims[y] is ONE for y in dst_axes[:n])
            q = idiv_idx(flat, st)
            out.append(q if lead else imod_idx(q, dst_dims[x]))
        return out

    def fwd(idx):
        out = [None] * len(old)
        for gi, gj in groups:
            for x, v in zip(gi, conv_idx(idx, gj, shape, gi, old)):
                out[x] = v
        return tuple(out)

    def bwd(base):
        out = [None] * len(shape)
        for gi, gj in groups:
            for x, v in zip(gj, conv_idx(base, gi, old, gj, shape)):
                out[x] = v
        return TRUE, tuple(out)
    return mkview(a, shape, fwd, bwd)


def idiv_idx(f, st):
    """quotient of a flat index: remainder terms known to be below the stride vanish"""
    q, r = tm._divsplit(f, st)
    if r is ZERO:
        return q
    if Hooks.decide(and_(le(ZERO, r), lt(r, st))) is True:
        return q
    return idiv(f, st)


def imod_idx(f, m):
    q, r = tm._divsplit(f, m)
    if r is ZERO:
        return ZERO
    if Hooks.decide(and_(le(ZERO, r), lt(r, m))) is True:
        return r
    return imod(f, m)


def prod_t(ds):
    r = ONE
    for d in ds:
        r = mul(r, d)
    return r


def _divides(p, q):
    return tm._divsplit(q, p)[1] is ZERO


# ---------------------------------------------------------------- reductions
def axes_of(a, axis):
    if axis is None:
        return tuple(range(a.ndim))
    if isinstance(axis, (tuple, list)):
        return tuple(int(x) % a.ndim for x in axis)
    ax = int(axis) if not isinstance(axis, T) else int(axis.args[0])
    if not (-a.ndim <= ax < a.ndim):
        raise np.exceptions.AxisError(ax, a.ndim)
    return (ax % a.ndim,)


def reduce_shape(a, axis, keepdims):
    axs = axes_of(a, axis)
    if keepdims:
        return axs, [ONE if i in axs else d for i, d in enumerate(a.shp)]
    return axs, [d for i, d in enumerate(a.shp) if i not in axs]


def _mix(a, axs, idx, ks, keepdims):
    out = []
    it = iter(idx)
    kk = dict(zip(axs, ks))
    for i in range(a.ndim):
        if i in kk:
            out.append(kk[i])
            if keepdims:
                next(it)
        else:
            out.append(next(it))
    return tuple(out)


def asum(a, axis=None, keepdims=False):
    axs, shape = reduce_shape(a, axis, keepdims)
    f = a.snap()
    dims = [a.shp[x] for x in axs]

    def g(idx):
        def rec(i, ks):
            if i == len(axs):
                return num_of(f(_mix(a, axs, idx, ks, keepdims)))
            return sumT(0, dims[i], lambda k: rec(i + 1, ks + [k]))
        return rec(0, [])
    if not shape:
        return g(())
    return SArr(Buf(tuple(shape), g, "I" if a.sort in "IB" else "R"))


def reduce_concrete(a, axis, op, init):
    axs, shape = reduce_shape(a, axis, False)
    f = a.snap()
    dims = [int(a.shp[x].args[0]) for x in axs]

    def g(idx):
        r = init
        for k in np.ndindex(*dims):
            e = f(_mix(a, axs, idx, [num(q) for q in k], False))
            r = e if r is None else op(r, e)
        return r
    if not shape:
        return g(())
    return SArr(Buf(tuple(shape), g, a.sort))


def aextreme(a, axis, kind):
    axs, shape = reduce_shape(a, axis, False)
    if all(a.shp[x].op == "num" for x in axs) and kind in ("max_", "min_"):
        return reduce_concrete(a, axis, maxT if kind == "max_" else minT, None)
    f = a.snap()

    def g(idx):
        dims = [a.shp[x] for x in axs]
        l = tm.lam(dims, lambda *ks: num_of(f(_mix(a, axs, idx, list(ks), False))))
        return app(kind, (l,), "I" if kind.startswith("arg") else ("I" if a.sort == "I" else "R"))
    if not shape:
        return g(())
    return SArr(Buf(tuple(shape), g, "I" if kind.startswith("arg") else a.sort))


def aall(a, axis=None):
    axs, shape = reduce_shape(a, axis, False)
    if all(a.shp[x].op == "num" for x in axs):
        return reduce_concrete(a, axis, and_, TRUE)
    f = a.snap()

    def g(idx):
        dims = [a.shp[x] for x in axs]
        vs = [fresh("l") for _ in dims]
        NAT.update(vs)
        b = bool_of(f(_mix(a, axs, idx, vs, False)))
        if b is TRUE:
            return TRUE
        if not any(v in b.fv for v in vs):
            return b       # extents are at least one
        return app("all_", (mk_lam(dims, vs, ite(b, ONE, ZERO)),), "B")
    if not shape:
        return g(())
    return SArr(Buf(tuple(shape), g, "B"))


def aany(a, axis=None):
    if not isinstance(a, SArr):
        a = asarr(a)
    r = aall(~a if a.sort == "B" else elementwise(not_, a, sort="B"), axis)
    return not_(r) if isinstance(r, T) else ~r


def cumsum(a, axis=None):
    if axis is None:
        a = a.ravel()
        axis = 0
    ax = int(axis) % a.ndim
    f = a.snap()

    def g(idx):
        return sumT(0, add(idx[ax], ONE), lambda k: f(idx[:ax] + (k,) + idx[ax + 1:]))
    return SArr(Buf(a.shp, g, a.sort))


def dot(a, b):
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    f, g = a.snap(), b.snap()
    n = a.shp[-1]
    m = b.shp[-2] if b.ndim > 1 else b.shp[0]
    if n is not m:
        if n.op == "num" and m.op == "num":
            raise ValueError("shapes not aligned")
        if not same_dim(n, m):
            Hooks.oblige("dot: shapes aligned", eq(n, m))
    na = a.ndim - 1
    shape = a.shp[:-1] + (b.shp[:-2] + b.shp[-1:] if b.ndim > 1 else ())

    def h(idx):
        i, j = idx[:na], idx[na:]
        if b.ndim > 1:
            return sumT(0, n, lambda k: mul(f(i + (k,)), g(j[:-1] + (k,) + j[-1:])))
        return sumT(0, n, lambda k: mul(f(i + (k,)), g((k,))))
    if not shape:
        return h(())
    return SArr(Buf(shape, h, "R"))
