"""Symbolic interpreter for the real Python source of /repo functions.

The abstract syntax tree is read from the file on every run; names are resolved in the
module's own globals; library functions are replaced by intrinsic contracts (npmodel);
functions of the repository are executed from their source unless the specification
substitutes their contract.  Loops over symbolic ranges are summarised by inferred
invariants which become obligations of their own.
"""
import ast, builtins, importlib, inspect, operator, types, sys, os
import numpy as np
from . import terms as tm
from .terms import *
from . import arr
from .arr import SArr, Buf, Unsupported, MaskedRead, asarr, elementwise, is_scalar, from_fn
from .smt import Prover, Facts, Ctx, Result

REPO = os.environ.get("VERIF_REPO", "/repo")
CONCRETE_LOOP = 400


from .cut import cut, Restart, own_exit


class PyRaise(Exception):
    def __init__(self, exc, node=None):
        Exception.__init__(self, repr(exc))
        self.exc = exc
        self.node = node


class _Signal(BaseException):
    pass


class Return(_Signal):
    def __init__(self, v): self.v = v


class Break(_Signal): pass


class Continue(_Signal): pass


class PathPruned(_Signal): pass


class IterationEnd(_Signal):
    """end of an iteration of a loop followed by others"""


class NeedMerge(_Signal):
    def __init__(self, c): self.c = c


class SymRange:
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lift(lo), lift(hi), step

    def seq(self):
        if self.step == 1:
            return sub(self.hi, self.lo), (lambda k: add(self.lo, k))
        if self.step == -1:
            return sub(self.lo, self.hi), (lambda k: sub(self.lo, k))
        raise Unsupported("range step")

    def _as_sarr(self):
        n, f = self.seq()
        return from_fn((n,), lambda idx: f(idx[0]), "I")


class SymSeq:
    """a list of symbolic length"""

    def __init__(self, n, f):
        self.n, self.f = lift(n), f

    def seq(self):
        return self.n, self.f

    def _as_sarr(self):
        k = fresh("k")
        NAT.add(k)
        probe = self.f(k)
        if is_scalar(probe):
            return from_fn((self.n,), lambda idx: lift(self.f(idx[0])), lift(probe).sort)
        p = asarr(probe)
        return SArr(Buf((self.n,) + p.shp, lambda idx: asarr(self.f(idx[0])).at(idx[1:]), p.sort))

    def __getitem__(self, i):
        if isinstance(i, slice):
            st, ln, sp = arr.norm_slice(i, self.n)
            return SymSeq(ln, lambda k: self.f(add(st, mul(num(sp), k))))
        return self.f(arr.norm_index(lift(i), self.n))

    def then(self, other):
        """concatenation with another list"""
        n1, f1 = self.n, self.f
        n2, f2 = (other.n, other.f) if isinstance(other, SymSeq) else (num(len(other)), list_at(list(other)))
        if n2 is ZERO: return SymSeq(n1, f1)
        if n1 is ZERO: return SymSeq(n2, f2)

        def at(k):
            c = lt(k, n1)
            if c is TRUE: return f1(k)
            if c is FALSE: return f2(sub(k, n1))
            return ite(c, name_term(f1(k)), name_term(f2(sub(k, n1))))
        return SymSeq(add(n1, n2), at)

    def extend(self, other):
        r = self.then(other)
        self.n, self.f = r.n, r.f
    extend._model_ = True


def name_term(x): return app("str:" + x, ()) if isinstance(x, str) else lift(x)


def list_at(xs):
    """the elements of a list, by symbolic position"""
    def at(k):
        k = lift(k)
        if k.op == "num": return xs[int(k.args[0])]
        r = name_term(xs[-1])
        for j in range(len(xs) - 2, -1, -1): r = ite(eq(k, num(j)), name_term(xs[j]), r)
        return r
    return at


MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "setdefault", "popitem", "add", "discard", "difference_update", "intersection_update"}


class Closure:
    """a function defined by interpreted code"""

    def __init__(self, engine, node, frame, defaults, kwdefaults, name):
        self.engine, self.node, self.frame = engine, node, frame
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.__name__ = name
        self.__dict__["_is_closure"] = True

    def __call__(self, *a, **k):
        return self.engine.call_closure(self, a, k)


class Frame:
    def __init__(self, name, glob, parent=None, cells=None, func=None):
        self.name, self.globals, self.parent, self.cells, self.func = name, glob, parent, cells or {}, func
        self.locals = {}
        self.globnames = set()
        self.nonlocals = set()


_src_cache = {}


def _module_index(filename):
    r = _src_cache.get(filename)
    if r is None:
        src = open(filename).read()
        tree = ast.parse(src)
        idx = {}
        byname = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                idx.setdefault(n.lineno, []).append(n)
                if isinstance(n, ast.FunctionDef):
                    for d in n.decorator_list:
                        idx.setdefault(d.lineno, []).append(n)
                    byname.setdefault(n.name, []).append(n)
        r = _src_cache[filename] = (tree, idx, byname, src)
    return r


def func_ast(f):
    code = f.__code__
    tree, idx, byname, src = _module_index(code.co_filename)
    c = idx.get(code.co_firstlineno, [])
    if code.co_name == "<lambda>":
        ls = [n for n in c if isinstance(n, ast.Lambda)]
        if len(ls) >= 1:
            if len(ls) > 1:
                names = code.co_varnames[:code.co_argcount]
                ls = [n for n in ls if tuple(a.arg for a in n.args.args) == tuple(names)] or ls
            return ls[0]
    for n in c:
        if isinstance(n, ast.FunctionDef) and n.name == code.co_name:
            return n
    raise Unsupported("no source for %s" % (f,))


def in_repo(f):
    code = getattr(f, "__code__", None)
    return code is not None and os.path.abspath(code.co_filename).startswith(os.path.abspath(REPO) + os.sep)


def greek(f):
    """the function behind dolang's greek_tolerance decorator (keyword names only are translated)"""
    if getattr(f, "__qualname__", "") == "greek_tolerance.<locals>.f":
        return f.__closure__[0].cell_contents
    return None


def has_sym(x, depth=0):
    if isinstance(x, (T, SArr, SymSeq, SymRange, MaskedRead, Closure)):
        return True
    if depth > 4:
        return False
    if isinstance(x, (list, tuple, set)):
        return any(has_sym(y, depth + 1) for y in x)
    if isinstance(x, dict):
        return any(has_sym(y, depth + 1) for y in x.values()) or any(has_sym(y, depth + 1) for y in x.keys())
    if isinstance(x, slice):
        return has_sym(x.start) or has_sym(x.stop) or has_sym(x.step)
    if getattr(x, "_symbolic_", False):
        return True
    return False


BINOPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
          ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow,
          ast.MatMult: operator.matmul, ast.BitAnd: operator.and_, ast.BitOr: operator.or_,
          ast.BitXor: operator.xor, ast.LShift: operator.lshift, ast.RShift: operator.rshift}
DUNDER = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.Pow: "pow", ast.MatMult: "matmul",
          ast.FloorDiv: "floordiv", ast.Mod: "mod"}


class Event:
    def __init__(self, kind, data, hyps):
        self.kind, self.data, self.hyps = kind, data, hyps


class Obligation:
    def __init__(self, name, hyps, goal, where=""):
        self.name, self.hyps, self.goal, self.where = name, hyps, goal, where


class Path:
    def __init__(self):
        self.hyps = []
        self.outcome = None       # ('return', v) | ('raise', exc)
        self.obligs = []
        self.events = []


class Engine:
    def __init__(self, facts=None, timeout=10000, use_cvc5=False):
        self.facts = facts or Facts()
        self.prover = Prover(self.facts, timeout, use_cvc5)
        self.base_hyps = []
        self.overrides = {}        # id(callable) -> (callable, model)
        self.hyps = []
        self._ctx = None
        self.decisions = []
        self.dpos = 0
        self.pending = []
        self.merge = 0
        self.regions, self.made = [], {}
        self.obligs = []
        self.events = []
        self.functions = {}        # interpreted functions (name -> count)
        self.intrinsics = {}
        self.depth = 0
        self.while_spec = None
        self.loop_cut = False
        self.loop_tab = {}
        self.inv_obligs = 0
        self.defs = self.prover.defs
        self.kstack = []        # iterations of the summarised loops being executed
        self.rectabs = []
        self.lines = set()
        from . import npmodel
        npmodel.install(self)
        arr.Hooks.decide = self.decide
        arr.Hooks.oblige = self.oblige

    # ------------------------------------------------------------ paths
    def ctx(self):
        if self._ctx is None or self._ctx_key != (len(self.hyps), id(self.hyps[-1]) if self.hyps else 0):
            self._ctx = self.prover.ctx(self.base_hyps + self.hyps)
            self._ctx_key = (len(self.hyps), id(self.hyps[-1]) if self.hyps else 0)
        return self._ctx

    def decide(self, c):
        c = bool_of(lift(c))
        if c is TRUE: return True
        if c is FALSE: return False
        return self.ctx().decide(c)

    def oblige(self, name, goal):
        goal = bool_of(goal)
        if goal is TRUE:
            return
        d = self.decide(goal)
        if d is True:
            return
        self.obligs.append(Obligation(name, list(self.base_hyps + self.hyps), goal, self.where()))
        self.hyps.append(goal)

    def add_oblig(self, name, hyps, goal):
        goal = bool_of(goal)
        if goal is TRUE:
            self.canon_obligs = getattr(self, "canon_obligs", 0) + 1
            return
        self.obligs.append(Obligation(name, list(hyps), goal, self.where()))

    def where(self):
        return "%s:%s" % (getattr(self, "cur_func", "?"), getattr(self, "cur_line", "?"))

    def truth(self, v):
        """python truth value, forking when undetermined"""
        if isinstance(v, T):
            c = bool_of(v)
            d = self.decide(c)
            if d is not None:
                return d
            if self.merge:
                raise NeedMerge(c)
            return self.fork(c)
        if isinstance(v, SArr):
            if all(d is ONE for d in v.shp):
                return self.truth(bool_of(v.at(tuple(ZERO for _ in v.shp))))
            raise PyRaise(ValueError("truth value of an array is ambiguous"))
        if isinstance(v, SymSeq):
            return self.truth(lt(ZERO, v.n))
        f = self.repo_dunder(v, "__bool__") or self.repo_dunder(v, "__len__")
        if f is not None:
            return self.truth(self.call(f, (), {}))
        return bool(v)

    def fork(self, c):
        if self.dpos < len(self.decisions):
            d = self.decisions[self.dpos]
        else:
            d = True
            self.decisions.append(True)
            self.pending.append(self.decisions[:-1] + [False])
            if len(self.pending) > 400:
                raise Unsupported("too many paths")
        self.dpos += 1
        self.hyps.append(c if d else not_(c))
        self._ctx = None
        return d

    def run(self, thunk, max_paths=256):
        """execute thunk() on every path; returns list of Path"""
        paths = []
        self.pending = [[]]
        while self.pending:
            self.decisions = self.pending.pop()
            self.dpos = 0
            self.hyps = []
            self._ctx = None
            self.regions, self.made = [], {}
            self.merge = 0
            self.obligs = []
            self.events = []
            del arr.JOURNAL[:]
            p = Path()
            try:
                v = thunk()
                p.outcome = ("return", v)
            except PyRaise as e:
                p.outcome = ("raise", e.exc)
            except IterationEnd:
                p.outcome = ("iterate", None)
            except PathPruned:
                continue
            except Restart:
                paths = []
                self.pending = [[]]
                self.canon_obligs = 0
                continue
            p.hyps = list(self.hyps)
            p.obligs = self.obligs
            p.events = self.events
            paths.append(p)
            if len(paths) > max_paths:
                raise Unsupported("too many paths")
        return paths

    def assume(self, c):
        c = bool_of(lift(c))
        if c is TRUE: return
        if self.decide(c) is False:
            raise PathPruned()
        self.hyps.append(c)

    # ------------------------------------------------------------ calls
    def override(self, f, model):
        self.overrides[id(f)] = (f, model)
        pf = getattr(f, "py_func", None)
        if pf is not None:
            self.overrides[id(pf)] = (pf, model)

    def repo_dunder(self, obj, name):
        if isinstance(obj, (T, SArr, type, types.ModuleType)):
            return None
        c = type(obj)
        m = getattr(c, name, None)
        if isinstance(m, types.FunctionType) and in_repo(m):
            return types.MethodType(m, obj)
        return None

    def call(self, f, args, kw):
        args = tuple(args)
        o = self.overrides.get(id(f))
        if o is not None:
            return o[1](*args, **kw)
        if isinstance(f, types.MethodType):
            o = self.overrides.get(id(f.__func__))
            if o is not None:
                return o[1](f.__self__, *args, **kw)
            if in_repo(f.__func__):
                return self.call_function(f.__func__, (f.__self__,) + args, kw)
        i = self.intrinsics.get(_key(f))
        if i is not None:
            r = self.guard(i, args, kw)
            return self.new(r) if isinstance(f, type) and isinstance(r, (list, dict, set)) else r
        if type(f).__name__ == "Dispatcher" and hasattr(f, "dispatch"):
            h = f.dispatch(*[type(a) for a in args])
            if h is None:
                raise PyRaise(NotImplementedError("no method of %s" % f.name))
            return self.call(h, args, kw)
        g = greek(f)
        if g is not None:
            from dolang.language import greekify_dict
            return self.call(g, args, self.guard(greekify_dict, (kw,), {}))
        if isinstance(f, Closure):
            return self.call_closure(f, args, kw)
        if hasattr(f, "py_func"):
            return self.call_function(f.py_func, args, kw)
        if isinstance(f, types.FunctionType) and in_repo(f):
            return self.call_function(f, args, kw)
        if isinstance(f, type):
            r = self.instantiate(f, args, kw)
            return self.new(r) if f in (list, dict, set) else r
        import numba.np.ufunc.gufunc as _g
        g = self.gufunc_py(f)
        if g is not None:
            return self.call_gufunc(f, g, args, kw)
        c = self.repo_dunder(f, "__call__")
        if c is not None:
            return self.call(c, args, kw)
        if getattr(f, "_model_", False) or isinstance(f, (types.MethodType, types.BuiltinMethodType)) and isinstance(getattr(f, "__self__", None), (SArr, T, list, dict, SymSeq, tuple, set, MaskedRead)):
            me = getattr(f, "__self__", None)
            if self.merge and isinstance(me, (list, dict, set)) and getattr(f, "__name__", "") in MUTATORS: self.mutated(me)
            return self.guard(f, args, kw)
        if isinstance(f, (types.MethodWrapperType, types.WrapperDescriptorType)) and f.__name__ in ("__init__", "__getitem__", "__setitem__", "__len__", "__contains__", "__iter__"):
            me = f.__self__ if isinstance(f, types.MethodWrapperType) else args[0]
            key = args[0 if isinstance(f, types.MethodWrapperType) else 1:][:1]
            if isinstance(me, (dict, list)) and not isinstance(key and key[0], T):
                if f.__name__ in ("__init__", "__setitem__"): self.mutated(me)
                return self.guard(f, args, kw)
        if isinstance(f, types.MethodType) and getattr(f.__self__, "_model_", False):
            return self.guard(f, args, kw)
        if not has_sym(args) and not has_sym(kw) and not has_sym(getattr(f, "__self__", None)):
            return self.guard(f, args, kw)
        if isinstance(f, types.BuiltinMethodType) and isinstance(getattr(f, "__self__", None), str) and f.__name__ == "format":
            sh = lambda x: _Show() if has_sym(x) else x
            return f(*[sh(x) for x in args], **{k: sh(v) for k, v in kw.items()})
        raise Unsupported("call of %r with symbolic arguments" % (getattr(f, "__qualname__", None) or f,))

    def new(self, obj):
        """a container or object made by the program"""
        self.made[id(obj)] = (obj, len(self.made))
        return obj

    def mutated(self, obj, what="container mutation under a symbolic condition"):
        """inside of a generic iteration, or a branch to be joined, only what was made there may be changed in place"""
        if self.merge:
            m = self.made.get(id(obj))
            if m is None or not self.regions or m[1] < self.regions[-1]:
                raise Unsupported(what)

    def guard(self, f, args, kw):
        """native execution: python exceptions become exceptions of the interpreted program"""
        try:
            return f(*args, **kw)
        except (Unsupported, SymbolicBool, PyRaise, NeedMerge, AssertionError):
            raise
        except (ValueError, IndexError, KeyError, TypeError, AttributeError, ZeroDivisionError, NotImplementedError,
                np.linalg.LinAlgError, StopIteration) as e:
            if isinstance(e, TypeError) and ("cannot lift" in str(e)):
                raise Unsupported(str(e))
            raise PyRaise(e)

    def gufunc_py(self, f):
        t = type(f).__name__
        if t in ("GUFunc", "DUFunc", "ufunc") or (t == "function" and False):
            for m in list(sys.modules.values()):
                nm = getattr(m, "__name__", "")
                if not nm.startswith("dolo"):
                    continue
                for k, v in list(vars(m).items()):
                    if v is f:
                        fnm = m.__file__
                        tree, idx, byname, src = _module_index(fnm)
                        if k in byname:
                            return (byname[k][-1], m, None, self._gu_sig(tree, k))
                        # name = guvectorize(...)(pyfunc)
                        for n in tree.body:
                            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == k \
                                    and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Call) \
                                    and n.value.args and isinstance(n.value.args[0], ast.Name):
                                pf = n.value.args[0].id
                                cands = [q for q in byname.get(pf, []) if q.lineno < n.lineno]
                                if cands:
                                    return (cands[-1], m, None, self._sig_of(n.value.func))
        return None

    def _gu_sig(self, tree, k):
        for n in ast.walk(tree):
            if isinstance(n, ast.FunctionDef) and n.name == k:
                for d in n.decorator_list:
                    if isinstance(d, ast.Call):
                        return self._sig_of(d)
        return None

    def _sig_of(self, call):
        return ast.literal_eval(call.args[1])

    def call_gufunc(self, f, g, args, kw):
        node, mod, _, sig = g
        ins, outs = sig.replace(" ", "").split("->")
        parse = lambda s: [tuple(x for x in p.split(",") if x) for p in s.strip("()").split("),(")]
        ins, outs = parse(ins), parse(outs)
        arrs = [asarr(a) for a in args]
        out_given = len(arrs) > len(ins)
        dims = {}
        loops = []
        for a, core in zip(arrs, ins):
            nc = len(core)
            sh = a.shp
            for d, nme in zip(sh[len(sh) - nc:], core):
                if nme in dims:
                    if not arr.same_dim(dims[nme], d):
                        self.oblige("gufunc core dimensions agree", eq(dims[nme], d))
                dims.setdefault(nme, d)
            loops.append(sh[:len(sh) - nc])
        lshape = arr.broadcast_shapes(loops + [()])
        outs_arr = []
        for j, core in enumerate(outs):
            if out_given:
                outs_arr.append(arrs[len(ins) + j])
            else:
                nm = "gu_uninit"
                outs_arr.append(SArr(Buf(lshape + tuple(dims[c] for c in core), lambda idx: app(nm, idx), "R")))
        fr = Closure(self, node, Frame(node.name, mod.__dict__), [], {}, node.name)

        def body(ks):
            ops = []
            for a, l, core in zip(arrs, loops, ins):
                key = tuple(arr.bindex(l, tuple(ks)))
                v = a[key + (slice(None),) * len(core)] if key or core else a
                ops.append(v)
            for o, core in zip(outs_arr, outs):
                if core:
                    ops.append(o[tuple(ks) + (slice(None),) * len(core)])
                else:
                    v = o[tuple(ks) + (None,)] if True else None
                    ops.append(v)
            # scalars in guvectorize are passed by value on input
            ops = [x.at(()) if isinstance(x, SArr) and x.ndim == 0 else x for x in ops]
            self.call_closure(fr, tuple(ops), {})
        self.symbolic_nest(lshape, body)
        if out_given:
            return outs_arr[0] if len(outs_arr) == 1 else tuple(outs_arr)
        r = [o if o.ndim else o.at(()) for o in outs_arr]
        return r[0] if len(r) == 1 else tuple(r)

    def symbolic_nest(self, shape, body):
        def rec(i, ks):
            if i == len(shape):
                body(ks)
                return
            self.loop_native(shape[i], lambda k: rec(i + 1, ks + [k]))
        rec(0, [])

    def instantiate(self, cls, args, kw):
        i = self.intrinsics.get(_key(cls))
        if i is not None:
            return self.guard(i, args, kw)
        init = getattr(cls, "__init__", None)
        new = cls.__new__
        if isinstance(new, types.FunctionType) and in_repo(new):
            obj = self.call_function(new, (cls,) + args, kw)
            if not isinstance(obj, cls):
                return obj
        elif (isinstance(init, types.FunctionType) and (in_repo(init) or greek(init))) or cls.__module__.startswith("dolo"):
            if issubclass(cls, BaseException):
                return self.guard(cls, args, {})
            obj = self.new(new(cls))
        else:
            if issubclass(cls, BaseException):
                return cls(*args)
            if has_sym(args) or has_sym(kw):
                raise Unsupported("constructing %s from symbolic values" % cls)
            return self.guard(cls, args, kw)
        if isinstance(init, types.FunctionType) and greek(init):
            self.call(init, (obj,) + args, kw)
        elif isinstance(init, types.FunctionType) and in_repo(init):
            self.call_function(init, (obj,) + args, kw)
        elif "__dataclass_params__" in cls.__dict__ and isinstance(init, types.FunctionType):
            # generated by dataclasses: fields are set in order
            try:
                b = inspect.signature(init).bind(obj, *args, **kw)
            except TypeError as e:
                raise PyRaise(e)
            b.apply_defaults()
            for k, v in list(b.arguments.items())[1:]:
                object.__setattr__(obj, k, v)
            post = getattr(cls, "__post_init__", None)
            if post is not None:
                self.call(post, (obj,), {})
        elif args or kw:
            raise PyRaise(TypeError("%s() takes no arguments" % cls.__name__))
        return obj

    def call_function(self, f, args, kw):
        o = self.overrides.get(id(f))
        if o is not None:
            return o[1](*args, **kw)
        node = func_ast(f)
        cells = {}
        if f.__closure__:
            for n, c in zip(f.__code__.co_freevars, f.__closure__):
                cells[n] = c
        fr = Frame(f.__qualname__, f.__globals__, None, cells, f)
        fr.defcls = None
        name = f.__module__ + "." + f.__qualname__
        self.functions[name] = self.functions.get(name, 0) + 1
        return self.invoke(node, fr, args, kw, list(f.__defaults__ or ()), dict(f.__kwdefaults__ or {}), name)

    def call_closure(self, c, args, kw):
        fr = Frame(c.__name__, c.frame.globals, c.frame)
        if c.node is not None and isinstance(c.node, ast.FunctionDef):
            self.functions.setdefault("%s.<local>.%s" % (c.frame.name, c.__name__), 0)
            self.functions["%s.<local>.%s" % (c.frame.name, c.__name__)] += 1
        return self.invoke(c.node, fr, args, kw, c.defaults, c.kwdefaults, c.__name__)

    def invoke(self, node, fr, args, kw, defaults, kwdefaults, name):
        a = node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        loc = {}
        args = list(args)
        kw = dict(kw)
        if len(args) > len(params) and not a.vararg:
            raise PyRaise(TypeError("%s() takes %d positional arguments but %d were given" % (name, len(params), len(args))))
        for p, v in zip(params, args):
            loc[p] = v
        if a.vararg:
            loc[a.vararg.arg] = tuple(args[len(params):])
        for p in params[len(args):]:
            if p in kw:
                loc[p] = kw.pop(p)
        nd = len(defaults)
        for p, d in zip(params[len(params) - nd:], defaults):
            if p not in loc:
                loc[p] = d
        for p in a.kwonlyargs:
            if p.arg in kw:
                loc[p.arg] = kw.pop(p.arg)
            elif p.arg in kwdefaults:
                loc[p.arg] = kwdefaults[p.arg]
        if a.kwarg:
            loc[a.kwarg.arg] = kw
            kw = {}
        dup = [k for k in kw if k in loc]
        if kw:
            raise PyRaise(TypeError("%s() got an unexpected keyword argument %r" % (name, sorted(kw)[0])))
        for p in params + [q.arg for q in a.kwonlyargs]:
            if p not in loc:
                raise PyRaise(TypeError("%s() missing required argument: %r" % (name, p)))
        fr.locals = loc
        self.depth += 1
        saved = (getattr(self, "cur_func", None), getattr(self, "cur_line", None))
        self.cur_func = name
        if self.depth > 80:
            raise Unsupported("call depth")
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, fr)
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in _walk_own(node)):
                return self.generator(node, fr)
            if self.merge:
                return self.block_merge_fn(node.body, fr)
            try:
                self.block(node.body, fr)
            except Return as r:
                return r.v
            return None
        finally:
            self.depth -= 1
            self.cur_func, self.cur_line = saved

    def generator(self, node, fr):
        """eager evaluation of a generator into a list (finite, side effects in order)"""
        out = []
        fr.yields = out
        try:
            self.block(node.body, fr)
        except Return:
            pass
        return iter(out)

    # ------------------------------------------------------------ statements
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        self.cur_line = getattr(s, "lineno", None)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(s).__name__)
        m(s, fr)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Yield):
            if self.merge: raise Unsupported("yield under a symbolic condition")
            fr.yields.append(self.ev(s.value.value, fr) if s.value.value else None)
            return
        if isinstance(s.value, ast.YieldFrom):
            if self.merge: raise Unsupported("yield under a symbolic condition")
            fr.yields.extend(self.iterate(self.ev(s.value.value, fr)))
            return
        self.ev(s.value, fr)

    def s_Pass(self, s, fr): pass

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        op = type(s.op)
        if isinstance(s.target, ast.Name):
            cur = self.lookup(s.target.id, fr)
            v = self.ev(s.value, fr)
            if isinstance(cur, SArr):
                cur.inplace(BINOPS[op], v)
                return
            if isinstance(cur, list) and op is ast.Add:
                self.mutated(cur)
                cur.extend(self.iterate(v))
                return
            self.assign(s.target, self.binop(op, cur, v, inplace=True), fr)
        elif isinstance(s.target, ast.Subscript):
            obj = self.ev(s.target.value, fr)
            key = self.evkey(s.target.slice, fr)
            cur = self.getitem(obj, key)
            v = self.ev(s.value, fr)
            if isinstance(cur, SArr) and isinstance(obj, SArr):
                new = self.binop(op, cur, v)
                self.setitem(obj, key, new)
            else:
                self.setitem(obj, key, self.binop(op, cur, v))
        elif isinstance(s.target, ast.Attribute):
            obj = self.ev(s.target.value, fr)
            cur = self.getattr(obj, s.target.attr)
            v = self.ev(s.value, fr)
            if isinstance(cur, SArr):
                cur.inplace(BINOPS[op], v)
                return
            self.setattr(obj, s.target.attr, self.binop(op, cur, v))
        else:
            raise Unsupported("augmented assignment")

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            if t.id in fr.globnames:
                raise Unsupported("global assignment")
            if t.id in fr.nonlocals:
                p = fr.parent
                while p is not None:
                    if t.id in p.locals:
                        if self.merge: raise Unsupported("assignment to a variable of another function under a symbolic condition")
                        p.locals[t.id] = v
                        return
                    p = p.parent
            fr.locals[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            vals = self.unpack(v, None if star else n)
            if star:
                i = star[0]
                rest = n - i - 1
                for e, x in zip(t.elts[:i], vals[:i]):
                    self.assign(e, x, fr)
                self.assign(t.elts[i].value, list(vals[i:len(vals) - rest]), fr)
                for e, x in zip(t.elts[i + 1:], vals[len(vals) - rest:]):
                    self.assign(e, x, fr)
                return
            if len(vals) != n:
                raise PyRaise(ValueError("not enough/too many values to unpack (expected %d)" % n))
            for e, x in zip(t.elts, vals):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Subscript):
            obj = self.ev(t.value, fr)
            key = self.evkey(t.slice, fr)
            self.setitem(obj, key, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n):
        if isinstance(v, SArr) and n is not None and v.shp and v.shp[0].op != "num":
            self.oblige("unpacking length", eq(v.shp[0], num(n)))
            return [v[i] for i in range(n)]
        return list(self.iterate(v))

    def setattr(self, obj, name, v):
        if not isinstance(obj, SArr): self.mutated(obj, "attribute assignment under a symbolic condition")
        d = getattr(type(obj), name, None)
        if isinstance(d, property) and d.fset is not None and in_repo(d.fset):
            self.call_function(d.fset, (obj, v), {})
            return
        f = self.repo_dunder(obj, "__setattr__")
        if f is not None:
            self.call(f, (name, v), {})
            return
        if isinstance(obj, SArr) and name == "shape":
            raise Unsupported("assignment to shape")
        setattr(obj, name, v)

    def setitem(self, obj, key, v):
        f = self.repo_dunder(obj, "__setitem__")
        if f is not None:
            self.call(f, (key, v), {})
            return
        if isinstance(obj, SArr):
            self.guard(arr.setitem, (obj, key, v), {})
        elif isinstance(obj, (list, dict)):
            self.mutated(obj)
            if isinstance(key, T):
                if key.op != "num":
                    raise Unsupported("symbolic container index")
                key = int(key.args[0])
            self.guard(operator.setitem, (obj, key, v), {})
        elif isinstance(obj, np.ndarray):
            if has_sym(v) or has_sym(key):
                raise Unsupported("symbolic write to a concrete array")
            self.guard(operator.setitem, (obj, key, v), {})
        else:
            self.guard(operator.setitem, (obj, key, v), {})

    def getitem(self, obj, key):
        f = self.repo_dunder(obj, "__getitem__")
        if f is not None:
            return self.call(f, (key,), {})
        if isinstance(obj, SArr):
            return self.guard(arr.getitem, (obj, key), {})
        if (obj is np.c_ or obj is np.r_) and has_sym(key):
            return self.guard(self.join_trans, (obj, key), {})
        if isinstance(obj, np.ndarray) and (has_sym(key)):
            return self.guard(arr.getitem, (asarr(obj), key), {})
        if isinstance(obj, T):
            raise PyRaise(TypeError("scalar is not subscriptable"))
        if isinstance(key, T):
            if key.op == "num" and key.args[0].denominator == 1:
                key = int(key.args[0])
            elif isinstance(obj, (list, tuple)) and all(is_scalar(x) for x in obj):
                return asarr(list(obj))[key]
            elif isinstance(obj, (list, tuple)):
                # symbolic selection in a concrete list
                n = len(obj)
                k = arr.norm_index(key, num(n))
                arr.check_bounds(k, num(n))
                if self.merge or True:
                    r = obj[n - 1]
                    for j in range(n - 2, -1, -1):
                        r = self.merge_values(eq(k, num(j)), obj[j], r)
                    return r
        if isinstance(key, slice):
            key = slice(*[int(x.args[0]) if isinstance(x, T) and x.op == "num" else x for x in (key.start, key.stop, key.step)])
        if isinstance(obj, SymSeq):
            return obj[key]
        return self.guard(operator.getitem, (obj, key), {})

    def s_If(self, s, fr):
        try:
            c = self.truth(self.ev(s.test, fr))
        except NeedMerge as m:
            self.merge_if(m.c, lambda: self.block(s.body, fr), lambda: self.block(s.orelse, fr), fr)
            return
        self.block(s.body if c else s.orelse, fr)

    def merge_if(self, c, thn, els, fr, want_value=False):
        """run both branches and join the states with ite"""
        base = dict(fr.locals)
        results = []
        for cond, br in ((c, thn), (not_(c), els)):
            fr.locals = dict(base)
            j = {}
            arr.JOURNAL.append(j)
            nh = len(self.hyps)
            self.hyps.append(cond)
            self._ctx = None
            sig = None
            val = None
            self.regions.append(len(self.made))
            try:
                try:
                    val = br()
                except PyRaise as e:
                    sig = ("raise", e)
                except Return as r:
                    sig = ("return", r.v)
            finally:
                self.regions.pop()
                arr.JOURNAL.pop()
                # obligations proved inside the branch were assumed inside the branch only
                del self.hyps[nh:]
                self._ctx = None
            new = {b: b.fn for b in j}
            for b, old in j.items():
                b.fn = old
                for jj in arr.JOURNAL:
                    if b not in jj:
                        jj[b] = old
            results.append((fr.locals, new, sig, val))
        (l1, b1, s1, v1), (l2, b2, s2, v2) = results
        if s1 and s1[0] == "return" or s2 and s2[0] == "return":
            fr.locals = base
            raise Unsupported("return inside a branch of a summarised loop")
        if s1 or s2:
            if s1 and s2:
                raise s1[1]
            # the raising branch must be unreachable
            cond = not_(c) if s1 else c
            self.oblige("no exception: %s" % (s1 or s2)[1], cond)
            l, b = (l2, b2) if s1 else (l1, b1)
            fr.locals = l
            for k, f in b.items():
                k.fn = f
            return v2 if s1 else v1
        for b in set(b1) | set(b2):
            f1, f2 = b1.get(b, b.fn), b2.get(b, b.fn)
            b.fn = arr.memo_fn(lambda idx, f1=f1, f2=f2: ite(c, f1(idx), f2(idx)))
        loc = {}
        for k in set(l1) | set(l2):
            if k in l1 and k in l2:
                x, y = l1[k], l2[k]
                loc[k] = x if x is y else self.merge_values(c, x, y)
            else:
                loc[k] = l1[k] if k in l1 else l2[k]       # possibly undefined: python would raise if read
        fr.locals = loc
        if want_value:
            return v1 if v1 is v2 else self.merge_values(c, v1, v2)

    def merge_values(self, c, x, y):
        if x is y:
            return x
        if is_scalar(x) and is_scalar(y):
            return ite(c, lift(x), lift(y))
        if isinstance(x, (SArr, np.ndarray)) and isinstance(y, (SArr, np.ndarray)):
            x, y = asarr(x), asarr(y)
            if len(x.shp) == len(y.shp) and all(arr.same_dim(a, b) for a, b in zip(x.shp, y.shp)):
                f, g = x.snap(), y.snap()
                return SArr(Buf(x.shp, lambda idx: ite(c, f(idx), g(idx)), x.sort))
        if isinstance(x, (list, tuple)) and type(x) == type(y) and len(x) == len(y):
            return type(x)(self.merge_values(c, a, b) for a, b in zip(x, y))
        try:
            if type(x) == type(y) and x == y:
                return x
        except Exception:
            pass
        return Undefined(c, x, y)

    def block_merge_fn(self, stmts, fr):
        """body of a function executed in merge mode: early returns are joined"""
        kind, v = self._bm(list(stmts), fr)
        return v if kind == "return" else None

    def _bm(self, stmts, fr):
        for i, s in enumerate(stmts):
            if isinstance(s, ast.If) and any(isinstance(x, ast.Return) for x in _walk_own_stmts([s])):
                self.cur_line = s.lineno
                try:
                    c = self.truth(self.ev(s.test, fr))
                except NeedMerge as m:
                    rest = stmts[i + 1:]
                    box = {}

                    def br(which, body):
                        def go():
                            k, v = self._bm(list(body) + rest, fr)
                            return v
                        return go
                    v = self.merge_if(m.c, br(0, s.body), br(1, s.orelse), fr, want_value=True)
                    return "return", v
                k, v = self._bm(list(s.body if c else s.orelse), fr)
                if k == "return":
                    return k, v
                continue
            try:
                self.stmt(s, fr)
            except Return as r:
                return "return", r.v
        return "fall", None

    def s_Return(self, s, fr):
        raise Return(self.ev(s.value, fr) if s.value is not None else None)

    def s_Break(self, s, fr): raise Break()
    def s_Continue(self, s, fr): raise Continue()

    def s_Assert(self, s, fr):
        try:
            v = self.ev(s.test, fr)
        except NeedMerge as m:
            v = m.c
        if isinstance(v, SArr) and v.ndim == 0:
            v = v.at(())
        if isinstance(v, T):
            c = bool_of(v)
            d = self.decide(c)
            if d is False:
                raise PyRaise(AssertionError())
            if d is None:
                self.oblige("assert " + ast.unparse(s.test), c)
            return
        if not self.truth(v):
            raise PyRaise(AssertionError())

    def s_Raise(self, s, fr):
        if s.exc is None:
            raise PyRaise(getattr(fr, "exc", RuntimeError("re-raise")))
        e = self.ev(s.exc, fr)
        if isinstance(e, type):
            e = e()
        raise PyRaise(e)

    def s_Try(self, s, fr):
        try:
            self.block(s.body, fr)
        except PyRaise as e:
            for h in s.handlers:
                ok = h.type is None
                if not ok:
                    t = self.ev(h.type, fr)
                    ok = isinstance(e.exc, t)
                if ok:
                    if h.name:
                        fr.locals[h.name] = e.exc
                    fr.exc = e.exc
                    self.block(h.body, fr)
                    break
            else:
                self.block(s.finalbody, fr)
                raise
        else:
            self.block(s.orelse, fr)
        self.block(s.finalbody, fr)

    def s_With(self, s, fr):
        mgrs = []
        for it in s.items:
            m = self.ev(it.context_expr, fr)
            en = self.repo_dunder(m, "__enter__")
            v = self.call(en, (), {}) if en else self.guard(type(m).__enter__, (m,), {})
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
            mgrs.append(m)
        try:
            self.block(s.body, fr)
        finally:
            for m in reversed(mgrs):
                ex = self.repo_dunder(m, "__exit__")
                if ex:
                    self.call(ex, (None, None, None), {})
                else:
                    type(m).__exit__(m, None, None, None)

    def s_Global(self, s, fr): fr.globnames.update(s.names)
    def s_Nonlocal(self, s, fr): fr.nonlocals.update(s.names)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.locals.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o, k = self.ev(t.value, fr), self.evkey(t.slice, fr)
                self.mutated(o)
                self.guard(operator.delitem, (o, k), {})
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                self.mutated(o)
                delattr(o, t.attr)

    def s_Import(self, s, fr):
        for a in s.names:
            m = importlib.import_module(a.name)
            if a.asname:
                fr.locals[a.asname] = m
            else:
                fr.locals[a.name.split(".")[0]] = sys.modules[a.name.split(".")[0]]

    def s_ImportFrom(self, s, fr):
        base = s.module or ""
        if s.level:
            pkg = fr.globals.get("__package__") or ""
            parts = pkg.split(".")
            parts = parts[:len(parts) - (s.level - 1)]
            base = ".".join(parts + ([s.module] if s.module else []))
        try:
            m = importlib.import_module(base)
        except ImportError as e:
            raise PyRaise(e)
        for a in s.names:
            if hasattr(m, a.name):
                v = getattr(m, a.name)
            else:
                try:
                    v = importlib.import_module(base + "." + a.name)
                except ImportError as e:
                    raise PyRaise(e)
            fr.locals[a.asname or a.name] = v

    def s_FunctionDef(self, s, fr):
        d = [self.ev(x, fr) for x in s.args.defaults]
        kd = {p.arg: self.ev(x, fr) for p, x in zip(s.args.kwonlyargs, s.args.kw_defaults) if x is not None}
        c = Closure(self, s, fr, d, kd, s.name)
        v = c
        for dec in reversed(s.decorator_list):
            dv = self.ev(dec, fr)
            v = self.call(dv, (v,), {})
        fr.locals[s.name] = v

    def s_ClassDef(self, s, fr):
        raise Unsupported("local class")

    # ------------------------------------------------------------ loops
    def iterate(self, it):
        """concrete iteration"""
        if isinstance(it, SArr):
            if it.shp[0].op == "num":
                return [it[i] for i in range(int(it.shp[0].args[0]))]
            raise Unsupported("concrete iteration over a symbolic extent")
        if isinstance(it, (SymRange, SymSeq)):
            n, f = it.seq()
            if n.op == "num":
                return [f(num(i)) for i in range(max(0, int(n.args[0])))]
            raise Unsupported("concrete iteration over a symbolic range")
        if isinstance(it, dict):
            return list(it)
        if isinstance(it, T):
            raise PyRaise(TypeError("scalar is not iterable"))
        f = self.repo_dunder(it, "__iter__")
        if f is not None:
            return list(self.iterate(self.call(f, (), {})))
        if getattr(it, "_symbolic_", False) and hasattr(it, "seq"):
            n, f = it.seq()
            return [f(num(i)) for i in range(int(n.args[0]))]
        return list(self.guard(list, (it,), {}))

    def sym_seq(self, it):
        """(n, f) when the iterable has symbolic extent, else None"""
        if isinstance(it, (SymRange, SymSeq)):
            n, f = it.seq()
            if n.op == "num" and n.args[0] <= CONCRETE_LOOP:
                return None
            return n, f
        if isinstance(it, SArr) and it.shp and it.shp[0].op != "num":
            return it.shp[0], (lambda k: it[k])
        if isinstance(it, range) and len(it) > CONCRETE_LOOP:
            return num(len(it)), (lambda k: add(num(it.start), mul(num(it.step), k)))
        return None

    def s_For(self, s, fr):
        it = self.ev(s.iter, fr)
        ss = self.sym_seq(it)
        if ss is None and self.loop_cut and isinstance(it, range) and it.step == 1 and len(it) > 6 and own_exit(s.body) and not s.orelse:
            ss = (num(len(it)), lambda k, lo=it.start: add(k, num(lo)))
        if ss is not None:
            if s.orelse:
                raise Unsupported("for/else over a symbolic range")
            if self.loop_cut and own_exit(s.body):
                n, k = lift(ss[0]), fresh("k")

                def enter(first):
                    if first:
                        return self.truth(lt(ZERO, n))
                    self.hyps += [le(ZERO, k), lt(k, n)]
                    self._ctx = None
                    self.assign(s.target, ss[1](k), fr)
                    return True
                cut(self, s, fr, enter, lambda: self.block(s.body, fr), lambda: self.truth(lt(add(k, ONE), n)))
                return
            self.summarise(ss[0], ss[1], s, fr)
            return
        broke = False
        for x in self.iterate(it):
            self.assign(s.target, x, fr)
            try:
                self.block(s.body, fr)
            except Break:
                broke = True
                break
            except Continue:
                continue
        if not broke:
            self.block(s.orelse, fr)

    def s_While(self, s, fr):
        if self.while_spec is not None:
            done = self.while_spec(self, s, fr)
            if done:
                return
        if self.loop_cut:
            go = lambda *_: self.truth(self.ev(s.test, fr))
            try:
                if cut(self, s, fr, go, lambda: self.block(s.body, fr), go) is False:
                    self.block(s.orelse, fr)
            except NeedMerge:
                raise Unsupported("while loop with a symbolic condition inside a summarised loop")
            return
        n = 0
        while True:
            try:
                c = self.truth(self.ev(s.test, fr))
            except NeedMerge:
                raise Unsupported("while loop with a symbolic condition inside a summarised loop")
            if not c:
                self.block(s.orelse, fr)
                return
            try:
                self.block(s.body, fr)
            except Break:
                return
            except Continue:
                pass
            n += 1
            if n > 300:
                raise Unsupported("while loop without bound")

    def loop_native(self, n, body):
        """summarise a native loop body(k) over 0<=k<n (used for gufuncs and intrinsics)"""
        n = lift(n)
        if n.op == "num":
            for i in range(int(n.args[0])):
                body(num(i))
            return
        fr = Frame("<native>", {})
        self.summarise(n, None, None, fr, native=body)

    def summarise(self, n, elem, s, fr, native=None):
        from .loops import summarise
        summarise(self, n, elem, s, fr, native)

    # ------------------------------------------------------------ expressions
    def lookup(self, name, fr):
        f = fr
        while f is not None:
            if name in f.locals:
                v = f.locals[name]
                if isinstance(v, Undefined):
                    raise Unsupported("use of a variable whose value depends on an unmerged branch: %s" % name)
                return v
            if name in f.cells:
                return f.cells[name].cell_contents
            f = f.parent
        if name in fr.globals:
            return fr.globals[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyRaise(NameError("name %r is not defined" % name))

    def ev(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        if hasattr(e, "lineno"):
            self.cur_line = e.lineno
        return m(e, fr)

    def e_Constant(self, e, fr): return e.value
    def e_Name(self, e, fr): return self.lookup(e.id, fr)

    def e_JoinedStr(self, e, fr):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                x = self.ev(v.value, fr)
                out.append(str(x))
        return "".join(out)

    def e_Tuple(self, e, fr): return tuple(self.elts(e.elts, fr))
    def e_List(self, e, fr): return self.new(list(self.elts(e.elts, fr)))
    def e_Set(self, e, fr): return self.new(set(self.elts(e.elts, fr)))

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, fr)))
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = self.new({})
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, fr))
            else:
                d[self.ev(k, fr)] = self.ev(v, fr)
        return d

    def e_Slice(self, e, fr):
        g = lambda x: None if x is None else self.ev(x, fr)
        return slice(g(e.lower), g(e.upper), g(e.step))

    def evkey(self, e, fr):
        return self.ev(e, fr)

    def e_Subscript(self, e, fr):
        return self.getitem(self.ev(e.value, fr), self.evkey(e.slice, fr))

    def e_Starred(self, e, fr):
        raise Unsupported("starred")

    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def getattr(self, obj, name):
        if isinstance(obj, (T,)):
            return self.scalar_attr(obj, name)
        if isinstance(obj, Closure):
            if name == "__name__":
                return obj.__name__
        if isinstance(obj, types.ModuleType):
            if not hasattr(obj, name):
                raise PyRaise(AttributeError("module %s has no attribute %s" % (obj.__name__, name)))
            return getattr(obj, name)
        d = inspect.getattr_static(type(obj), name, None) if not isinstance(obj, type) else None
        if isinstance(d, property) and d.fget is not None and in_repo(d.fget):
            return self.call_function(d.fget, (obj,), {})
        try:
            return getattr(obj, name)
        except AttributeError as e:
            raise PyRaise(e)

    def scalar_attr(self, t, name):
        if name == "shape": return ()
        if name == "ndim": return 0
        if name == "dtype": return np.dtype(float if t.sort == "R" else int)
        if name == "real": return t
        if name in ("max", "min", "sum", "mean", "item", "copy"):
            f = lambda *a, **k: t
            f._model_ = True
            return f
        if name == "all" or name == "any":
            f = lambda *a, **k: bool_of(t)
            f._model_ = True
            return f
        if name in ("reshape", "ravel", "astype", "flatten", "dot", "T"):
            a = asarr(t)
            return getattr(a, name)
        raise PyRaise(AttributeError("float has no attribute %s" % name))

    def e_BinOp(self, e, fr):
        return self.binop(type(e.op), self.ev(e.left, fr), self.ev(e.right, fr))

    def binop(self, op, a, b, inplace=False):
        if op in DUNDER:
            f = self.repo_dunder(a, "__%s__" % DUNDER[op])
            if f is not None:
                r = self.call(f, (b,), {})
                if r is not NotImplemented:
                    return r
            f = self.repo_dunder(b, "__r%s__" % DUNDER[op])
            if f is not None and not isinstance(a, type(b)):
                return self.call(f, (a,), {})
        if op is ast.Mod and isinstance(a, str):
            return "<formatted>" if has_sym(b) else a % b
        if isinstance(a, np.ndarray) and isinstance(b, (T, SArr)) or isinstance(b, np.ndarray) and isinstance(a, (T, SArr)):
            if isinstance(a, np.ndarray): a = asarr(a)
            if isinstance(b, np.ndarray): b = asarr(b)
        if isinstance(a, (list, tuple)) and isinstance(b, SArr):
            a = asarr(a)
        if isinstance(b, (list, tuple)) and isinstance(a, SArr):
            b = asarr(b)
        if op is ast.Add and (isinstance(a, SymSeq) and isinstance(b, (SymSeq, list)) or isinstance(b, SymSeq) and isinstance(a, list)):
            return (a if isinstance(a, SymSeq) else SymSeq(num(len(a)), list_at(a))).then(b)
        if isinstance(a, list) and isinstance(b, T) and op is ast.Mult:
            if b.op == "num": return a * int(b.args[0])
            if len(a) == 1:
                x = a[0]
                return SymSeq(b, lambda k: x)
        if isinstance(b, list) and isinstance(a, T) and op is ast.Mult:
            return self.binop(op, b, a)
        return self.guard(BINOPS[op], (a, b), {})

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            if isinstance(v, T):
                return not_(v)
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            f = self.repo_dunder(v, "__neg__")
            if f is not None:
                return self.call(f, (), {})
            return self.guard(operator.neg, (v,), {})
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            return self.guard(operator.invert, (v,), {})

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        acc = None
        nh = len(self.hyps)
        try:
            for i, x in enumerate(e.values):
                v = self.ev(x, fr)
                if isinstance(v, SArr) and v.ndim == 0:
                    v = v.at(())
                if isinstance(v, T) and v.sort == "B":
                    d = self.decide(v)
                    if d is None:
                        if self.merge:
                            acc = v if acc is None else (and_(acc, v) if isand else or_(acc, v))
                            self.hyps.append(v if isand else not_(v))
                            self._ctx = None
                            continue
                        d = self.fork(v)
                        nh = len(self.hyps)
                    v = d
                t = self.truth(v)
                if t is not isand:
                    if acc is not None:
                        return FALSE if isand else TRUE
                    return v
                if i == len(e.values) - 1 and acc is None:
                    return v
            return acc
        finally:
            if self.merge:
                del self.hyps[nh:]
                self._ctx = None

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        acc = None
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c, fr)
            v = self.compare(type(op), left, right)
            left = right
            if len(e.ops) == 1:
                return v
            if isinstance(v, T):
                acc = v if acc is None else and_(acc, v)
            else:
                if not v:
                    return v
        return acc if acc is not None else v

    def compare(self, op, a, b):
        if op is ast.Is:
            return a is b or (isinstance(a, (int, float, str)) and a == b and type(a) == type(b))
        if op is ast.IsNot:
            return not self.compare(ast.Is, a, b)
        if op in (ast.In, ast.NotIn):
            f = self.repo_dunder(b, "__contains__")
            if f is not None:
                r = self.call(f, (a,), {})
            elif isinstance(b, (list, tuple)):
                r = False
                for x in b:
                    y = self.compare(ast.Eq, a, x)
                    if isinstance(y, T):
                        r = or_(lift(r) if not isinstance(r, T) else r, y)
                    elif y is True:
                        r = True
                        break
            else:
                r = self.guard(operator.contains, (b, a), {})
            if op is ast.In:
                return r
            return not_(r) if isinstance(r, T) else not r
        if isinstance(a, np.ndarray) and isinstance(b, (T, SArr)): a = asarr(a)
        if isinstance(b, np.ndarray) and isinstance(a, (T, SArr)): b = asarr(b)
        if isinstance(a, list) and isinstance(b, SArr): a = asarr(a)
        if isinstance(b, list) and isinstance(a, SArr): b = asarr(b)
        num_ok = lambda x: is_scalar(x) and not isinstance(x, str)
        if isinstance(a, T) or isinstance(b, T):
            if not (isinstance(a, SArr) or isinstance(b, SArr)):
                if not (num_ok(a) and num_ok(b)):
                    if op is ast.Eq: return False
                    if op is ast.NotEq: return True
                    raise PyRaise(TypeError("comparison not supported"))
                a, b = num_of(lift(a)), num_of(lift(b))
                f = {ast.Eq: eq, ast.NotEq: ne, ast.Lt: lt, ast.LtE: le,
                     ast.Gt: lambda x, y: lt(y, x), ast.GtE: lambda x, y: le(y, x)}[op]
                return f(a, b)
        f = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le,
             ast.Gt: operator.gt, ast.GtE: operator.ge}[op]
        if op in (ast.Eq, ast.NotEq) and isinstance(a, (tuple, list)) and type(a) is type(b):
            if len(a) != len(b):
                return op is ast.NotEq
            r = TRUE
            for x, y in zip(a, b):
                v = self.compare(ast.Eq, x, y)
                r = and_(r, v if isinstance(v, T) else lift(bool(v)))
            if op is ast.NotEq:
                r = not_(r)
            return True if r is TRUE else (False if r is FALSE else r)
        if isinstance(a, SArr) or isinstance(b, SArr):
            if a is None or b is None or isinstance(a, str) or isinstance(b, str):
                return op is ast.NotEq
        d = {ast.Eq: "__eq__", ast.NotEq: "__ne__", ast.Lt: "__lt__", ast.LtE: "__le__", ast.Gt: "__gt__", ast.GtE: "__ge__"}[op]
        m = self.repo_dunder(a, d)
        if m is not None:
            return self.call(m, (b,), {})
        return self.guard(f, (a, b), {})

    def e_IfExp(self, e, fr):
        try:
            c = self.truth(self.ev(e.test, fr))
        except NeedMerge as m:
            return self.merge_if(m.c, lambda: self.ev(e.body, fr), lambda: self.ev(e.orelse, fr), fr, want_value=True)
        return self.ev(e.body if c else e.orelse, fr)

    def e_Lambda(self, e, fr):
        return Closure(self, e, fr, [self.ev(x, fr) for x in e.args.defaults], {}, "<lambda>")

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = fr
            while f is not None and "__class__" not in f.cells:
                f = f.parent
            cls = f.cells["__class__"].cell_contents
            selfv = list(f.locals.values())[0]
            return super(cls, selfv)
        if isinstance(e.func, ast.Name) and e.func.id == "locals" and not e.args:
            return dict(fr.locals)
        f = self.ev(e.func, fr)
        args = self.elts(e.args, fr)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, fr)
                kw.update(d if isinstance(d, dict) else dict(d))
            else:
                kw[k.arg] = self.ev(k.value, fr)
        line = self.cur_line
        r = self.call(f, args, kw)
        self.cur_line = line
        return r

    # comprehensions
    def e_ListComp(self, e, fr): return self.new(self.comp(e, fr, lambda f: self.ev(e.elt, f)))

    def e_SetComp(self, e, fr):
        return self.new(set(self.comp(e, fr, lambda f: self.ev(e.elt, f))))

    def e_GeneratorExp(self, e, fr): return self.comp(e, fr, lambda f: self.ev(e.elt, f))

    def e_DictComp(self, e, fr):
        r = self.comp(e, fr, lambda f: (self.ev(e.key, f), self.ev(e.value, f)))
        if isinstance(r, SymSeq):
            raise Unsupported("dictionary comprehension over a symbolic range")
        return self.new(dict(r))

    def comp(self, e, fr, elt):
        out = []

        def rec(gs, f):
            if not gs:
                out.append(elt(f))
                return
            g = gs[0]
            it = self.ev(g.iter, f)
            ss = self.sym_seq(it)
            if ss is not None:
                if len(e.generators) != 1 or g.ifs:
                    raise Unsupported("comprehension over a symbolic range")
                n, el = ss

                def frozen(f):
                    if f is None: return None
                    r = Frame(f.name, f.globals, frozen(f.parent), f.cells, f.func)
                    r.locals, r.globnames, r.nonlocals = dict(f.locals), f.globnames, f.nonlocals
                    return r

                def at(k, f=frozen(f), g=g, clean=True):
                    f2 = Frame("<comp>", f.globals, f)
                    f2.locals = {}
                    self.merge += 1
                    nh = len(self.hyps)
                    self.hyps += [x for x in (le(ZERO, k), lt(k, n)) if x is not TRUE]
                    self._ctx = None
                    self.regions.append(len(self.made))
                    j, start = {}, Buf.counter
                    arr.JOURNAL.append(j)
                    try:
                        self.assign(g.target, el(k), f2)
                        r = elt(f2)
                    finally:
                        self.merge -= 1
                        del self.hyps[nh:]
                        self._ctx = None
                        self.regions.pop()
                        arr.JOURNAL.pop()
                    if any(q.serial < start for q in j): raise Unsupported("array written by a comprehension over a symbolic range")
                    return r
                # one generic element, all of the others are its instances
                from .loops import instance, NoInstance
                k0, start, nev = fresh("k"), Buf.counter, len(self.events)
                NAT.add(k0)
                self.kstack.append((k0, lift(n)))
                try:
                    v = at(k0)
                except PyRaise:
                    if self.merge == 0 and self.decide(le(lift(n), ZERO)) is None and not self.fork(lt(ZERO, lift(n))):
                        raise _SymComp([])
                    if self.decide(le(lift(n), ZERO)) is True: raise _SymComp([])
                    raise
                finally:
                    self.kstack.pop()
                for ev in self.events[nev:]:
                    ev.loops = getattr(ev, "loops", []) + [(k0, lift(n), {})]
                try:
                    el2 = instance(v, start)
                    raise _SymComp(SymSeq(n, lambda k: el2(lambda t: subst(t, {k0: lift(k)}))))
                except NoInstance:
                    pass
                raise _SymComp(SymSeq(n, at))
            for x in self.iterate(it):
                f2 = Frame("<comp>", f.globals, f)
                self.assign(g.target, x, f2)
                if all(self.truth(self.ev(c, f2)) for c in g.ifs):
                    rec(gs[1:], f2)
        try:
            rec(e.generators, fr)
        except _SymComp as s:
            return s.seq
        return out


class _SymComp(_Signal):
    def __init__(self, s): self.seq = s


class _Show:
    """an unknown value, displayed"""
    def __format__(self, spec): return "?"
    def __str__(self): return "?"
    __repr__ = __str__


class Undefined:
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


def _walk_own(node):
    """nodes of a function body, not descending into nested functions"""
    return _walk_own_stmts(node.body)


def _walk_own_stmts(stmts):
    stack = list(stmts)
    while stack:
        n = stack.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.append(c)


def _key(f):
    try:
        hash(f)
        return f if not isinstance(f, (types.MethodType,)) else ("method", id(f.__self__), f.__name__)
    except TypeError:
        return None
