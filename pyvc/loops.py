"""Summaries of loops over symbolic ranges.

The body is executed once from an arbitrary state (every variable and array it may change is
replaced by an uninterpreted function of the iteration number); a closed form is inferred for each
and the inductive step  closed(k+1) == body(closed(k))  becomes an obligation.
"""
import ast
from . import terms as tm
from .terms import *
from .terms import _poly_items, _from_items
from . import arr
from .arr import SArr, Buf, Unsupported, asarr, is_scalar
import numpy as np


class Item:
    def __init__(self, kind, key, name, shape, sort, init, post):
        self.kind, self.key, self.name, self.shape, self.sort, self.init, self.post = kind, key, name, shape, sort, init, post
        self.closed = None
        self.how = None


def stored_names(nodes):
    out = []
    stack = list(nodes)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)):
            if isinstance(n, ast.FunctionDef):
                out.append(n.name)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.append(n.id)
        stack.extend(ast.iter_child_nodes(n))
    return sorted(set(out))


def strip_continue(stmts):
    """if c: A; continue  ; rest   ->   if c: A  else: rest"""
    out = []
    for i, s in enumerate(stmts):
        if isinstance(s, ast.Continue):
            return out
        if isinstance(s, ast.If):
            def ends(b):
                return b and isinstance(b[-1], ast.Continue)
            rest = stmts[i + 1:]
            if ends(s.body) or ends(s.orelse):
                body = strip_continue(s.body if ends(s.body) else list(s.body) + rest)
                orelse = strip_continue(s.orelse if ends(s.orelse) else list(s.orelse) + rest)
                n = ast.If(test=s.test, body=body or [ast.Pass()], orelse=orelse)
                ast.copy_location(n, s)
                out.append(n)
                return out
        out.append(s)
    return out


def rewrite_apps(t, table, memo=None):
    """replace app(name,args) for name in table by table[name](args)"""
    memo = {} if memo is None else memo

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if t.op == "app" and t.args[0] in table:
            args = tuple(go(x) for x in t.args[1:])
            r = table[t.args[0]](args)
        elif t.op in ("num", "var", "bv", "true", "false"):
            r = t
        else:
            if not any_app(t, table):
                r = t
            else:
                r = rebuild(t, go)
        memo[t] = r
        return r
    return go(t)


_appnames = {}


def app_names(t):
    r = _appnames.get(t)
    if r is None:
        r = frozenset()
        if t.op == "app":
            r = r | {t.args[0]}
        for c in children(t):
            r = r | app_names(c)
        _appnames[t] = r
    return r


def any_app(t, table):
    return any(n in table for n in app_names(t))


_hc = [0]


def summarise(E, n, elem, s, fr, native):
    n = lift(n)
    from .interp import PyRaise, Return, Break, Continue, Undefined
    if E.decide(le(n, ZERO)) is True:
        return
    k = fresh("k")
    NAT.add(k)
    rng = [x for x in (le(ZERO, k), lt(k, n)) if x is not TRUE]
    pre = dict(fr.locals)
    serial0 = Buf_serial()
    body = strip_continue(s.body) if s is not None else None
    names = stored_names([s.target] + s.body) if s is not None else []
    hv_names = [x for x in names if x in pre and (is_scalar(pre[x]) or isinstance(pre[x], SArr))]
    tnames = stored_names([s.target]) if s is not None else []
    hv_names = [x for x in hv_names if x not in tnames]
    lists = appended_names(s.body, pre) if s is not None else []
    frame_bufs = []
    uid = _hc[0]
    _hc[0] += 1
    nob = len(E.obligs)
    nev = len(E.events)
    nrec = len(E.rectabs)
    sorts = {}
    for x in hv_names:
        if is_scalar(pre[x]):
            sorts[x] = num_of(lift(pre[x])).sort if lift(pre[x]).sort != "B" else "B"
    nn_bad = set()      # integers for which non-negativity is not inductive
    for attempt in range(16):
        del E.obligs[nob:]
        del E.events[nev:]
        nn = {}
        loc = dict(pre)
        hvals = {}
        for x in hv_names:
            nm = "H%d_%s" % (uid, x)
            v = pre[x]
            if is_scalar(v):
                hvals[x] = app(nm, (k,), sorts[x])
            else:
                hvals[x] = SArr(Buf(v.shp, (lambda nm, srt: lambda idx: app(nm, (k,) + idx, srt))(nm, v.sort), v.sort))
            loc[x] = hvals[x]
            if is_scalar(v) and sorts[x] == "I" and x not in nn_bad:
                assume_nonneg(E, nn, nn_bad, x, nm, (), lambda idx, v=v: lift(v))
        logs = {x: Appended(E, x) for x in lists}
        loc.update(logs)
        attempt0 = Buf.counter
        saved = {}
        for i, b in enumerate(frame_bufs):
            saved[b] = b.fn
            nm = "H%d_buf%d" % (uid, i)
            b.fn = arr.memo_fn((lambda nm, srt: lambda idx: app(nm, (k,) + idx, srt))(nm, b.sort))
            if b.sort == "I" and b not in nn_bad:
                assume_nonneg(E, nn, nn_bad, b, nm, b.shape, saved[b])
        # a rebound array variable whose buffer is also written: rebinding handled by name only
        fr.locals = loc
        j = {}
        arr.JOURNAL.append(j)
        nh = len(E.hyps)
        E.hyps += rng
        E._ctx = None
        E.merge += 1
        E.regions.append(len(E.made))
        for q in logs.values(): q.stamp = len(E.made)
        err = None
        E.kstack.append((k, n))
        try:
            if native is not None:
                native(k)
            else:
                E.assign(s.target, elem(k), fr)
                E.block(body, fr)
        except (Break, Continue):
            err = Unsupported("break/continue in a loop over a symbolic range")
        except Return:
            err = Unsupported("return inside a loop over a symbolic range")
        except PyRaise as e:
            err = e
        finally:
            arr.JOURNAL.pop()
            E.regions.pop()
            E.merge -= 1
            E.kstack.pop()
        post_bufs = {b: b.fn for b in j}
        post_loc = fr.locals
        for b, old in j.items():
            b.fn = old
        for b, old in saved.items():
            b.fn = old
        fr.locals = dict(pre)
        lost = False
        if err is None or isinstance(err, PyRaise):
            for key, (nm, shape) in nn.items():
                if isinstance(key, Buf):
                    f = post_bufs.get(key)
                    if f is None: continue
                elif is_scalar(post_loc.get(key)):
                    if post_loc[key] is hvals[key]: continue
                    f = lambda idx, v=post_loc[key]: lift(v)
                else:
                    continue
                iv, r = index_vars(shape)
                P = f(iv)
                if P.sort == "R" or not E.prover.prove(E.prover.ctx(E.base_hyps + E.hyps + r), le(ZERO, P), timeout=1500):
                    nn_bad.add(key)
                    lost = True
                else:
                    E.add_oblig("non-negative at each iteration", E.base_hyps + E.hyps + r, le(ZERO, P))
        if lost:
            for nm, _ in nn.values():
                E.facts.on_app.pop(nm, None)
            del E.hyps[nh:]
            E._ctx = None
            continue
        if err is not None:
            del E.hyps[nh:]
            E._ctx = None
            if isinstance(err, PyRaise):
                # raising at a generic iteration: unreachable only when the range is empty
                if E.decide(le(n, ZERO)) is None and E.merge == 0:
                    if not E.fork(lt(ZERO, n)):
                        return
                raise err
            raise err
        new = [b for b in j if b.serial < serial0 and b not in frame_bufs]
        # sorts of scalar variables may widen (int 0 accumulating reals)
        widened = False
        for x in hv_names:
            v = post_loc.get(x)
            if x in sorts and is_scalar(v) and v is not hvals[x]:
                sv = lift(v)
                if sorts[x] == "B" and sv.sort != "B" or sorts[x] == "I" and num_of(sv).sort == "R":
                    sorts[x] = "R" if num_of(sv).sort == "R" else "I"
                    widened = True
            elif isinstance(v, SArr) and isinstance(pre[x], SArr) and v is not hvals[x] and pre[x].sort == "I" and v.sort == "R":
                pass
        if not new and not widened:
            nn_ok = {nm for nm, _ in nn.values()}
            break
        frame_bufs += new
        del E.hyps[nh:]
        E._ctx = None
    else:
        raise Unsupported("loop frame does not stabilise")
    try:
        items = []
        for x in hv_names:
            v = post_loc.get(x)
            if v is hvals[x]:
                continue
            nm = "H%d_%s" % (uid, x)
            if is_scalar(pre[x]):
                if not is_scalar(v):
                    if isinstance(v, SArr) and v.ndim == 0:
                        v = v.at(())
                    else:
                        # rebinding to another kind of value: a temporary
                        items.append(Item("opaque", x, nm, None, None, None, v))
                        continue
                init = lift(pre[x])
                pv = lift(v)
                items.append(Item("scalar", x, nm, (), sorts[x], (lambda t: lambda idx: t)(init), (lambda t: lambda idx: t)(pv)))
            else:
                if isinstance(v, SArr) and len(v.shp) == len(pre[x].shp) and all(arr.same_dim(a, b) for a, b in zip(v.shp, pre[x].shp)):
                    items.append(Item("array", x, nm, pre[x].shp, v.sort, pre[x].snap(), v.snap()))
                else:
                    items.append(Item("opaque", x, nm, None, None, None, v))
        for i, b in enumerate(frame_bufs):
            items.append(Item("buf", b, "H%d_buf%d" % (uid, i), b.shape, b.sort, b.fn, post_bufs[b]))
        allH = {it.name for it in items}
        allH |= {"H%d_%s" % (uid, x) for x in hv_names} | {"H%d_buf%d" % (uid, i) for i in range(len(frame_bufs))}
        work = []
        for it in items:
            if it.kind == "opaque":
                continue
            iv = tuple(fresh("i") for _ in it.shape)
            NAT.update(iv)
            it.iv = iv
            irng = []
            for v, d in zip(iv, it.shape):
                irng += [le(ZERO, v), lt(v, d)]
            it.irng = [x for x in irng if x is not TRUE]
            ctx = E.prover.ctx(E.base_hyps + E.hyps + it.irng)
            it.ctx = ctx
            it.P = E.prover.simp(coerce_sort(it.post(iv), it.sort), ctx)
            it.P = self_reads(it.P, app(it.name, (k,) + iv, it.sort), ctx)
            it.blocks = {}
            it.P = blockify(it, it.P, k, ctx)
            if it.P is app(it.name, (k,) + iv, it.sort):
                it.closed = (lambda it: lambda kk, idx: it.init(idx))(it)
                it.how = "unchanged"
            else:
                work.append(it)
        done = {it.name: it for it in items if it.closed}
        # variables havocked but untouched
        progress = True
        while work and progress:
            progress = False
            for it in list(work):
                table = {d.name: (lambda d: lambda args: d.closed(args[0], args[1:]))(d) for d in done.values()}
                P = rewrite_apps(it.P, table) if any_app(it.P, table) else it.P
                if P is not it.P:
                    P = self_reads(E.prover.simp(P, it.ctx), app(it.name, (k,) + it.iv, it.sort), it.ctx)
                    it.P = P
                others = app_names(P) & (allH - {it.name})
                if others:
                    continue
                c = infer(E, it, P, k, n)
                if c is not None:
                    it.closed = c
                    done[it.name] = it
                    work.remove(it)
                    progress = True
        if work:
            recurrences(E, work, k, n, uid, nn_ok)
            for it in work:
                done[it.name] = it
        # inductive steps
        table_k = {d.name: (lambda d: lambda args: d.closed(args[0], args[1:]))(d) for d in done.values()}
        for it in items:
            if it.kind == "opaque" or it.how in ("unchanged", "recurrence"):
                continue
            lhs = it.closed(add(k, ONE), it.iv)
            rhs = rewrite_apps(it.P, table_k)
            E.add_oblig("loop invariant preserved (%s)" % it.how, E.base_hyps + E.hyps + it.irng, eqv(lhs, rhs))
            E.inv_obligs += 1
        # rewrite the obligations raised inside the body
        for ob in E.obligs[nob:]:
            if any_app(ob.goal, table_k) or any(any_app(h, table_k) for h in ob.hyps):
                ob.goal = rewrite_apps(ob.goal, table_k)
                ob.hyps = [rewrite_apps(h, table_k) for h in ob.hyps]
        for tabs in E.rectabs[nrec:]:
            tabs.append(table_k)
        for ev in E.events[nev:]:
            ev.loops = getattr(ev, "loops", []) + [(k, n, table_k)]
    finally:
        del E.hyps[nh:]
        E._ctx = None
    # state after the loop
    last = {k: sub(n, ONE)}
    fr.locals = dict(pre)
    defined = True if E.decide(lt(ZERO, n)) is True else False

    def at_end(t):
        t = rewrite_apps(lift(t), table_k) if any_app(lift(t), table_k) else lift(t)
        return subst(t, last)
    for x, v in post_loc.items():
        if x in pre and x not in names:
            continue
        if x in hv_names or x in lists:
            continue
        fr.locals[x] = finish_value(v, at_end)
    for x in lists:
        if post_loc.get(x) is not logs[x]: raise Unsupported("list %s reassigned in the loop which extends it" % x)
        fr.locals[x] = grown(pre[x], logs[x].log, attempt0, n, k, table_k)
    for it in items:
        if it.kind == "scalar":
            fr.locals[it.key] = it.closed(n, ())
        elif it.kind == "array":
            fr.locals[it.key] = SArr(Buf(it.shape, (lambda it: lambda idx: it.closed(n, idx))(it), it.sort))
        elif it.kind == "opaque":
            fr.locals[it.key] = finish_value(it.post, at_end)
        else:
            it.key.write((lambda it: lambda idx: it.closed(n, idx))(it))


def index_vars(shape):
    iv = tuple(fresh("i") for _ in shape)
    NAT.update(iv)
    r = []
    for v, d in zip(iv, shape):
        r += [le(ZERO, v), lt(v, d)]
    return iv, [x for x in r if x is not TRUE]


def in_range(idx, shape):
    return and_(*[and_(le(ZERO, i), lt(i, d)) for i, d in zip(idx, shape)])


def assume_nonneg(E, nn, bad, key, nm, shape, init):
    """suppose an integer stays non-negative when it starts so (checked after the body)"""
    iv, r = index_vars(shape)
    if not E.prover.prove(E.prover.ctx(E.base_hyps + E.hyps + r), le(ZERO, num_of(lift(init(iv)))), timeout=1500):
        bad.add(key)
        return
    nn[key] = (nm, shape)
    E.facts.add(nm, lambda args: [implies(in_range(args[1:], shape), le0(neg(app(nm, args, "I"))))])


def appended_names(body, pre):
    """lists of the variables to which the body of a loop appends"""
    r = []
    for st in body:
        for q in ast.walk(st):
            if isinstance(q, ast.Call) and isinstance(q.func, ast.Attribute) and q.func.attr == "append" and isinstance(q.func.value, ast.Name) and isinstance(pre.get(q.func.value.id), list):
                if q.func.value.id not in r: r.append(q.func.value.id)
    # one list, two names
    return [] if len({id(pre[x]) for x in r}) < len(r) else [x for x in r if sum(pre[x] is v for v in pre.values()) == 1]


def grown(old, log, start, n, k, table):
    """a list at the end of a loop, each iteration having appended the values of log"""
    from .interp import SymSeq
    from .cut import Poison
    c = len(log)
    if c == 0: return old
    try:
        el = [instance(v, start) for v in log]
    except NoInstance:
        raise Unsupported("objects appended to a list in a loop over a symbolic range")
    for v in log:
        if isinstance(v, SArr) and v.buf.serial < start: raise Unsupported("array changed elsewhere appended to a list")
    rw = lambda t: rewrite_apps(t, table) if any_app(t, table) else t
    get = lambda j, kk: el[j](lambda t: subst(rw(lift(t)), {k: kk}))
    n0, N = num(len(old)), ite(le(ZERO, n), n, ZERO)
    new = SymSeq(N, lambda i: get(0, lift(i))) if c == 1 else SymSeq(mul(num(c), N), lambda i: pick([get(j, idiv(lift(i), num(c))) for j in range(c)], imod(lift(i), num(c))))
    prev = list(old)
    r = new if not prev else SymSeq(num(len(prev)), lambda i: pick(prev, lift(i))).then(new)
    # the list itself: other names or containers which hold it are not followed
    old.append(Poison("a list extended in a loop over a symbolic range"))
    return r


def pick(xs, i):
    if i.op == "num": return xs[int(i.args[0])]
    from .interp import name_term
    r = name_term(xs[-1])
    for j in range(len(xs) - 2, -1, -1): r = ite(eq(i, num(j)), name_term(xs[j]), r)
    return r


class Appended:
    """a list inside of a loop which appends to it: it can only be appended to"""
    _model_ = True

    def __init__(self, E, name):
        self.E, self.name, self.log, self.stamp = E, name, [], len(E.made)

    def append(self, v):
        if self.E.regions and self.stamp < self.E.regions[-1]: raise Unsupported("list %s changed under a symbolic condition" % self.name)
        self.log.append(v)
    append._model_ = True

    def _no(self, *a, **k):
        raise Unsupported("list %s read in the loop which extends it" % self.name)
    __getitem__ = __setitem__ = __iter__ = __len__ = __bool__ = __add__ = __radd__ = __mul__ = __contains__ = extend = insert = pop = _no


class NoInstance(Exception):
    pass


def instance(v, start):
    """a value computed in a generic iteration -> function giving the value of an iteration, from a map over terms.
    Arrays made in the iteration (serial from start on) are frozen, views of older ones remain views."""
    from .interp import SymSeq
    if v is None or isinstance(v, (str, bool, int, float)) or type(v).__module__ == "numpy" and np.isscalar(v): return lambda g: v
    if is_scalar(v): return lambda g: g(lift(v))
    if isinstance(v, SArr):
        shp, sort = v.shp, v.sort
        if v.buf.serial >= start:
            f = v.snap()
            return lambda g: SArr(Buf(tuple(g(d) for d in shp), lambda idx: g(f(idx)), sort))
        buf, fwd = v.buf, v.fwd
        return lambda g: SArr(buf, tuple(g(d) for d in shp), (lambda idx: idx) if fwd is None else (lambda idx: tuple(g(lift(i)) for i in fwd(idx))))
    if isinstance(v, (list, tuple)) and type(v) in (list, tuple):
        fs = [instance(x, start) for x in v]
        return lambda g: type(v)(f(g) for f in fs)
    if isinstance(v, SymSeq):
        n, f = v.n, v.f
        q = fresh("q")
        instance(f(q), start)
        return lambda g: SymSeq(g(n), lambda j: instance(f(j), start)(g))
    raise NoInstance()


def finish_value(v, at_end):
    from .interp import Undefined
    if is_scalar(v):
        return at_end(v)
    if isinstance(v, SArr):
        f = v.snap()
        shp = tuple(at_end(d) for d in v.shp)
        if v.fwd is not None or True:
            return SArr(Buf(shp, lambda idx: at_end(f(idx)), v.sort))
    if isinstance(v, (list, tuple)):
        return type(v)(finish_value(x, at_end) for x in v)
    return v


def eqv(a, b):
    if a.sort == "B" or b.sort == "B":
        return iff(bool_of(a), bool_of(b))
    return eq(a, b)


def coerce_sort(t, sort):
    t = lift(t)
    return bool_of(t) if sort == "B" else num_of(t)


def self_reads(P, H, ctx):
    """reads of the very cell being updated, written with equal but different index terms"""
    if P.op == "ite":
        c = P.args[0]
        cj = list(c.args) if c.op == "and" else [c]
        a = self_reads(P.args[1], H, ctx.extend(*cj)) if H.args[0] in app_names(P.args[1]) else P.args[1]
        b = self_reads(P.args[2], H, ctx.extend(not_(c))) if H.args[0] in app_names(P.args[2]) else P.args[2]
        return ite(c, a, b)
    if P.op == "poly":
        def ofm(a, c):      # monomials that are a plain conditional
            return scale(self_reads(a, H, ctx), c) if a.op == "ite" and H.args[0] in app_names(a) else scale(a, c)
        it = _poly_items(P)
        if any(len(m) == 1 and m[0][1] == 1 and m[0][0].op == "ite" for m in it):
            P = add(*[ofm(m[0][0], c) if len(m) == 1 and m[0][1] == 1 else _from_items({m: c}) for m, c in it.items()])
            if P.op == "ite":
                return P
    m = {}
    for x in subterms([P]):
        if x.op == "app" and x.args[0] == H.args[0] and x is not H:
            if all(a is b or ctx.decide(eq(a, b)) is True for a, b in zip(x.args[1:], H.args[1:])):
                m[x] = H
    return replace(P, m) if m else P


def sub_into(P, h):
    if P.op == "ite":
        return ite(P.args[0], sub_into(P.args[1], h), sub_into(P.args[2], h))
    if P.op == "poly":
        it = _poly_items(P)
        w = [(m, c) for m, c in it.items() if any(h.args[0] in app_names(a) for a, e in m)]
        if len(w) == 1 and w[0][1] == 1 and len(w[0][0]) == 1 and w[0][0][0][1] == 1 and w[0][0][0][0].op == "ite":
            t = w[0][0][0][0]
            return add(sub_into(t, h), sub(P, t))
    return sub(P, h)


def infer(E, it, P, k, n):
    H = app(it.name, (k,) + it.iv, it.sort)
    iv = it.iv
    own = {it.name: 1}

    def mk(bodyfn):
        # bodyfn(kk) is a term over iv ; instantiate at idx
        def closed(kk, idx):
            return subst(bodyfn(kk), dict(zip(iv, idx)))
        return closed
    init = coerce_sort(it.init(iv), it.sort)
    if not any_app(P, own):
        it.how = "reset"
        return mk(lambda kk: ite(lt(ZERO, kk), subst(P, {k: sub(kk, ONE)}), init))
    if it.sort != "B":
        D = sub_into(P, H)
        if not any_app(D, own):
            it.how = "sum"
            return mk(lambda kk: add(init, sumT(ZERO, kk, lambda t: subst(D, {k: t}))))
        # conditions over the previous value: keep for recurrences
    # condition free of k at the top
    if P.op == "ite" and k not in P.args[0].fv and not any_app(P.args[0], own):
        c = P.args[0]
        x = infer(E, it, P.args[1], k, n) if P.args[1] is not H else (lambda kk, idx: coerce_sort(it.init(idx), it.sort))
        y = infer(E, it, P.args[2], k, n) if P.args[2] is not H else (lambda kk, idx: coerce_sort(it.init(idx), it.sort))
        if x is not None and y is not None:
            it.how = "guarded"

            def closed(kk, idx):
                return ite(subst(c, dict(zip(iv, idx))), x(kk, idx), y(kk, idx))
            return closed
    for e in delta_candidates(P, k):
        r = delta_form(E, it, P, k, n, e, H)
        if r is None:
            continue
        V = r
        V2 = rewrite_apps(V, {it.name: lambda args: init if (args[0] is e and tuple(args[1:]) == tuple(iv)) else app(it.name, args, it.sort)})
        if not any_app(V2, own):
            it.how = "pointwise"
            return mk(lambda kk: ite(and_(le(ZERO, e), lt(e, kk)), V2, init))
    # several writes per iteration, at places a fixed number of iterations apart
    es = delta_candidates(P, k)
    groups = []
    for e in es:
        for g in groups:
            if sub(e, g[0]).op == "num":
                g.append(e)
                break
        else:
            groups.append([e])
    for g in groups:
        if not 2 <= len(g) <= 4:
            continue
        if E.prover.simp(P, it.ctx.extend(*[not_(eq(k, e)) for e in g])) is not H:
            continue
        g = sorted(g, key=lambda e: sub(e, g[0]).args[0])
        done, bad = [], False

        def before(kk, done):
            r = init
            for e, V in done:
                r = ite(and_(le(ZERO, e), lt(e, kk)), V, r)
            return r
        for e in g:
            c2 = E.prover.ctx([subst(h, {k: e}) for h in it.ctx.hyps])
            V = E.prover.simp(subst(P, {k: e}), c2)
            V = rewrite_apps(V, {it.name: lambda args: before(args[0], list(done)) if tuple(args[1:]) == tuple(iv) else app(it.name, args, it.sort)})
            if any_app(V, own):
                bad = True
                break
            done.append((e, V))
        if bad:
            continue
        c = mk(lambda kk, done=tuple(done): before(kk, done))
        step = rewrite_apps(P, {it.name: lambda args: c(args[0], args[1:])})
        if E.prover.prove(it.ctx, eqv(c(add(k, ONE), iv), step)):
            it.how = "pointwise"
            return c
    # several writes per iteration, at different places
    if 2 <= len(es) <= 4:
        R = E.prover.simp(P, it.ctx.extend(*[not_(eq(k, e)) for e in es]))
        if R is H:
            Vs = []
            for e in es:
                c2 = E.prover.ctx([subst(h, {k: e}) for h in it.ctx.hyps])
                V = E.prover.simp(subst(P, {k: e}), c2)
                V = rewrite_apps(V, {it.name: lambda args: init if tuple(args[1:]) == tuple(iv) else app(it.name, args, it.sort)})
                if any_app(V, own):
                    return None
                Vs.append(V)
            for order in (range(len(es)), reversed(range(len(es)))):
                order = list(order)

                def body(kk, order=order):
                    r = init
                    for j in order:
                        r = ite(and_(le(ZERO, es[j]), lt(es[j], kk)), Vs[j], r)
                    return r
                c = mk(body)
                step = rewrite_apps(P, {it.name: lambda args: c(args[0], args[1:])})
                if E.prover.prove(it.ctx, eqv(c(add(k, ONE), iv), step)):
                    it.how = "pointwise"
                    return c
    return None


def tentative(it, args, e):
    ee = subst(e, dict(zip(it.iv, args[1:])))
    return ite(and_(le(ZERO, ee), lt(ee, args[0])), app("F?" + it.name, args[1:], it.sort), coerce_sort(it.init(tuple(args[1:])), it.sort))


def blockify(it, P, k, ctx):
    """a + k*m <= v < a + (k+1)*m   ==>   k == (v-a) // m     (m > 0)"""
    conds = [t for t in subterms([P]) if t.op == "and" and k in t.fv]
    rep = {}
    for c in sorted(conds, key=lambda t: t.id):
        les = [x for x in c.args if x.op == "le" and k in x.fv]
        hit = False
        for x in les:
            p = x.args[0]
            m = sub(subst(p, {k: add(k, ONE)}), p)
            if k in m.fv or m.sort != "I":
                continue
            for y in les:
                if y is x or hit:
                    continue
                if add(p, y.args[0], m) is not ONE or ctx.decide(lt(ZERO, m)) is not True:
                    continue
                p0 = sub(p, mul(k, m))     # a - v
                if k in p0.fv:
                    continue
                for v in it.iv:
                    a = add(p0, v)
                    if v in a.fv or v in m.fv:
                        continue
                    e = idiv(sub(v, a), m)
                    it.blocks[e] = (v, m, a)
                    rep[c] = and_(*([z for z in c.args if z is not x and z is not y] + [eq(k, e)]))
                    hit = True
                    break
            if hit:
                break
    return replace(P, rep) if rep else P


def delta_candidates(P, k):
    out = []
    for t in sorted(subterms([P]), key=lambda t: t.id):
        if t.op == "eq" and k in t.fv:
            e = solve_for(t.args[0], k)
            if e is not None and e not in out:
                out.append(e)
    return out


def delta_form(E, it, P, k, n, e, H):
    """V = P at k=e, provided P == H whenever k != e"""
    ctx = it.ctx
    c1 = ctx.extend(not_(eq(k, e)))
    R = E.prover.simp(P, c1)
    if R is not H:
        return None
    if e in it.blocks:
        # the location is decomposed as v = a + m*q + r with 0 <= r < m, iteration q writing it
        v, m, a = it.blocks[e]
        q, r = fresh("q"), fresh("r")
        NAT.add(r)
        sb = {v: add(a, mul(m, q), r), k: q}
        sb = {k: q, v: add(subst(a, {k: q}), mul(m, q), r)}
        c2 = E.prover.ctx([subst(h, sb) for h in ctx.hyps] + [lt(r, m), le(ZERO, q)])
        V = E.prover.simp(subst(P, sb), c2)
        tent = lambda args: tentative(it, args, e)
        V = E.prover.simp(rewrite_apps(V, {it.name: tent}), c2)
        back = {q: e, r: imod(sub(v, a), m)}
        if any(n.startswith("F?") for n in app_names(V)):
            return None
        return subst(V, back)
    Pe = subst(P, {k: e})
    c2 = E.prover.ctx([subst(h, {k: e}) for h in ctx.hyps])
    return E.prover.simp(Pe, c2)


def recurrences(E, work, k, n, uid, nn_ok):
    """mutually recursive items: values defined by well-founded recursion on the writing iteration,
    or on the iteration number"""
    E_kstack = list(E.kstack)
    outer = tuple(x for x, _ in E_kstack)
    no = len(outer)
    plan = []
    for it in work:
        H = app(it.name, (k,) + it.iv, it.sort)
        fd = None
        it.guard = TRUE
        for e in delta_candidates(it.P, k):
            V = delta_form(E, it, it.P, k, n, e, H)
            if V is not None:
                # conditions on the location only: elsewhere the value is the initial one
                He = app(it.name, (e,) + it.iv, it.sort)
                g = []
                while V.op == "ite" and k not in V.args[0].fv and not (app_names(V.args[0]) & {x.name for x in work}):
                    if V.args[2] is He:
                        g.append(V.args[0])
                        V = V.args[1]
                    elif V.args[1] is He:
                        g.append(not_(V.args[0]))
                        V = V.args[2]
                    else:
                        break
                it.guard = and_(*g) if g else TRUE
                fd = (e, V)
                break
        plan.append((it, fd))
    # values that only depend on locations not written yet are not recursive after all
    tent = {}
    for it, fd in plan:
        if fd is not None:
            def cl(args, it=it, e=fd[0]):
                mm = dict(zip(it.iv, args[1:]))
                ee = subst(e, mm)
                return ite(and_(subst(it.guard, mm), le(ZERO, ee), lt(ee, args[0])), app("F?" + it.name, args[1:], it.sort), coerce_sort(it.init(tuple(args[1:])), it.sort))
            tent[it.name] = cl
    names = {it.name for it in work}
    resolved = {}
    for it, fd in plan:
        if fd is None or (app_names(fd[1]) & names) - set(tent):
            continue
        e, V = fd
        c2 = E.prover.ctx([subst(h, {k: e}) for h in it.ctx.hyps])
        V2 = E.prover.simp(rewrite_apps(V, tent), c2)
        if not any(n.startswith("F?") for n in app_names(V2)):
            resolved[it] = (e, V2)
    for it, (e, V2) in resolved.items():
        it.how = "pointwise"

        def closed(kk, idx, it=it, e=e, V2=V2):
            m = dict(zip(it.iv, idx))
            return ite(and_(subst(it.guard, m), le(ZERO, subst(e, m)), lt(subst(e, m), kk)), subst(V2, m), coerce_sort(it.init(tuple(idx)), it.sort))
        it.closed = closed
    plan = [(it, fd) for it, fd in plan if it not in resolved]
    rtab = {it.name: (lambda it: lambda args: it.closed(args[0], args[1:]))(it) for it in resolved}
    for it, fd in plan:
        it.how = "recurrence"
        it.bypos = fd is not None
        if fd is not None:
            e, V = fd
            nm = "F%d_%s" % (uid, it.name)
            it.F = nm

            def closed(kk, idx, it=it, e=e, nm=nm):
                mm = dict(zip(it.iv, idx))
                ee = subst(e, mm)
                return ite(and_(subst(it.guard, mm), le(ZERO, ee), lt(ee, kk)), app(nm, outer + tuple(idx), it.sort), coerce_sort(it.init(idx), it.sort))
        else:
            nm = "R%d_%s" % (uid, it.name)
            it.F = nm

            def closed(kk, idx, it=it, nm=nm):
                if kk is ZERO:
                    return coerce_sort(it.init(idx), it.sort)
                return app(nm, outer + (kk,) + tuple(idx), it.sort)
        it.closed = closed
    table = {it.name: (lambda it: lambda args: it.closed(args[0], args[1:]))(it) for it, _ in plan}
    table.update(rtab)
    tabs = []       # tables of the loops around this one, once they are summarised
    E.rectabs.append(tabs)

    memo = {}

    def finish(key, gen, syms, args):
        """a definition written in an arbitrary iteration of the loops around (and for an arbitrary
        location), for given iterations and location"""
        g = memo.get((key, len(tabs)))
        if g is None:
            g = lift(gen())
            for tb in tabs:
                if any_app(g, tb):
                    g = rewrite_apps(g, tb)
            memo[key, len(tabs)] = g
        return subst(g, dict(zip(outer + syms, args)))
    for it, fd in plan:
        if fd is not None:
            e, V = fd

            def definition(args, it=it, e=e, V=V):
                return finish(it, lambda: ite(and_(it.guard, le(ZERO, e), lt(e, n)), rewrite_apps(V, table), coerce_sort(it.init(it.iv), it.sort)), tuple(it.iv), args)
        else:
            kq = fresh("k")

            def definition(args, it=it, kq=kq):
                return finish(it, lambda: ite(le(kq, ZERO), coerce_sort(it.init(it.iv), it.sort), rewrite_apps(subst(it.P, {k: sub(kq, ONE)}), table)), (kq,) + tuple(it.iv), args)

        def fact(args, it=it, definition=definition):
            r = [eqv(app(it.F, args, it.sort), definition(tuple(args)))]
            if it.name in nn_ok:
                ko = args[:no]
                rng = and_(TRUE if it.bypos else le(args[no], subst(n, dict(zip(outer, ko)))), in_range(args[no:] if it.bypos else args[no + 1:], it.shape), *[and_(le(ZERO, x), lt(x, subst(m, dict(zip(outer, ko))))) for x, (_, m) in zip(ko, E_kstack)])
                r.append(implies(rng, le0(neg(app(it.F, args, it.sort)))))
            return r
        E.facts.add(it.F, fact)
        E.defs[it.F] = definition


def Buf_serial():
    return Buf.counter
