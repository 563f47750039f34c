"""Loads the current source of /repo/hyperpack under an alias with light AST
instrumentation, so that symbolic values flow through it."""
import ast
import array as _array
import builtins
import importlib.abc
import importlib.util
import logging
import os
import sys

from . import ir, proxies
from .core import MergeAbort, Restart, EngineError, EngineSignal, Frame, to_bool
from .strings import SymStr
from .ir import mk_and, mk_or, mk_not, mk_le, mk_lt, lsub, lconst, lscale, ladc, TRUE, FALSE
from .proxies import (LOGGED, SymInt, SymBool, SymReal, SymRange, SymRepeat, SymRow, SymGrid, Grid,
                      RowSlice, RowsView, lin_of, num_ite, sym_not, sym_range, ratio_of)

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "hyperpack"

# ------------------------------------------------------------------ runtime helpers


def _ctx():
    return proxies._CTX


UNB = type("_Unbound", (), {"__repr__": lambda s: "<unbound>"})()


def rt_enter(q):
    c = proxies._CTX
    if c is not None:
        c.functions.add(q)
        c.stats.steps += 1


def rt_merge(thunk):
    c = proxies._CTX
    if c is None:
        return thunk()
    return c.merge(thunk)


def rt_pure(fn):
    """decorator of side-effect free functions: their paths are merged"""
    import functools

    @functools.wraps(fn)
    def w(*a, **k):
        c = proxies._CTX
        if c is None or "merge" in c.disable:
            return fn(*a, **k)
        return c.merge(lambda: fn(*a, **k))
    return w


def _guarded(c, guards, thunk):
    """evaluate thunk under extra facts; decisions inside may only be merged ones"""
    f = Frame(None)
    f.guards = list(guards)
    mark = len(c.trail)
    c.frames.append(f)
    try:
        for g in guards:
            c.fact(g)
        return c.merge(thunk)
    finally:
        c.frames.pop()
        c._undo(mark)


def _is_sym(x):
    return type(x) in (SymBool, SymInt, SymReal)


def rt_bool(is_or, thunks):
    """test-position and/or"""
    c = proxies._CTX
    if c is None or "merge" in c.disable or c.guards:
        if is_or:
            for t in thunks:
                v = t()
                if v:
                    return True
            return False
        for t in thunks:
            v = t()
            if not v:
                return False
        return True
    # the first operand may have effects
    v = thunks[0]()
    if not _is_sym(v):
        if (True if v else False) == is_or:
            return v
        thunks = thunks[1:]
        if len(thunks) == 1:
            return thunks[0]()
        return c.memo(lambda: _rt_bool(c, is_or, thunks))
    return c.memo(lambda: _rt_bool(c, is_or, [lambda: v] + list(thunks[1:])))


def _rt_bool(c, is_or, thunks):
    acc = []
    pos = 0
    while pos < len(thunks):
        t = thunks[pos]
        if not acc:
            v = t()
        else:
            guards = [mk_not(b) for b in acc] if is_or else list(acc)
            try:
                v = _guarded(c, guards, t)
                if not _is_sym(v) and not isinstance(v, (bool, int, float, type(None), str, tuple, list, dict)):
                    v = bool(v)
            except MergeAbort:
                # fork on what has been collected so far, then go on for real
                b = mk_or(acc) if is_or else mk_and(acc)
                r = c.decide(b)
                if r == is_or:
                    return is_or
                acc = []
                continue
            except Exception:
                b = mk_or(acc) if is_or else mk_and(acc)
                r = c.decide(b)
                if r == is_or:
                    return is_or
                acc = []
                continue
        b = c.simp(to_bool(v))
        pos += 1
        if b is TRUE:
            if is_or:
                return True
            continue
        if b is FALSE:
            if not is_or:
                return False
            continue
        acc.append(b)
    if not acc:
        return not is_or
    return SymBool.wrap(mk_or(acc) if is_or else mk_and(acc))


def rt_boolv(is_or, first, rest):
    """value-position and/or: merged only when every operand is boolean"""
    v = first()
    c = proxies._CTX
    if type(v) is SymBool and c is not None and "merge" not in c.disable and not c.guards:
        try:
            def tail():
                r = None
                for t in rest:
                    r = t()
                    if type(r) not in (bool, SymBool):
                        raise MergeAbort()
                    if (True if r else False) == is_or:
                        return r
                return r
            b = v.b
            r = _guarded(c, [mk_not(b) if is_or else b], tail)
            if type(r) in (bool, SymBool):
                return SymBool.wrap(mk_or([b, to_bool(r)]) if is_or else mk_and([b, to_bool(r)]))
        except MergeAbort:
            pass
        except Exception:
            pass
    if bool(v) == is_or:
        return v
    for t in rest[:-1]:
        v = t()
        if bool(v) == is_or:
            return v
    return rest[-1]()


def rt_not(x):
    if _is_sym(x):
        return sym_not(x)
    return not x


def rt_in(x, c):
    if type(x) is SymInt:
        if type(c) is SymRange:
            return c.contains(x)
        if type(c) is range:
            if abs(c.step) == 1:
                lo, hi = (c.start, c.stop) if c.step > 0 else (c.stop + 1, c.start + 1)
                return SymBool.wrap(mk_and([mk_le(lsub(lconst(lo), x.l)), mk_lt(ladc(x.l, -hi))]))
        if type(c) in (tuple, list, set, frozenset) and all(isinstance(v, (int, float)) for v in c):
            return SymBool.wrap(mk_or([to_bool(x == v) for v in c]))
    if type(x) is int and type(c) is SymRange:
        return c.contains(x)
    if type(x) is SymStr and type(c) is str:
        # substring: any position
        n = len(x)
        return SymBool.wrap(mk_or([to_bool(x == c[i:i + n]) for i in range(len(c) - n + 1)]))
    return x in c


def rt_notin(x, c):
    return rt_not(rt_in(x, c))


def rt_ifexp(cond, fa, fb):
    c = proxies._CTX
    if _is_sym(cond) and c is not None and "merge" not in c.disable and not c.guards:
        b = c.simp(to_bool(cond))
        if b is TRUE:
            return fa()
        if b is FALSE:
            return fb()
        try:
            x = _guarded(c, [b], fa)
            y = _guarded(c, [mk_not(b)], fb)
            if isinstance(x, (int, float)) and isinstance(y, (int, float)):
                if type(x) in (bool, SymBool) and type(y) in (bool, SymBool):
                    return SymBool.wrap(ir.mk_bite(b, to_bool(x), to_bool(y)))
                return num_ite(b, x, y)
        except MergeAbort:
            pass
        except Exception:
            pass
        return fa() if c.decide(b) else fb()
    return fa() if cond else fb()


def rt_exists(it, pred):
    """may the single-if loop body run at all?  (False: skip the loop)"""
    c = proxies._CTX
    if type(it) is not SymRange or c is None or c.guards or "exists" in c.disable \
            or "merge" in c.disable:
        return True
    if c.frames:
        return True
    n = it.trip()
    hi = c.iv(n)[1]
    if hi > 64:
        return True
    out = []
    acc = []
    try:
        for k in range(int(hi)):
            g = c.simp(mk_lt(lsub(lconst(k), n)))
            if g is FALSE:
                break
            x = it.lo + k * it.step
            v = _guarded(c, [g], lambda: pred(x))
            out.append(mk_and([g, to_bool(v)]))
    except MergeAbort:
        return True
    except Exception:
        return True
    return c.decide(mk_or(out))


def _push_guard(c, g):
    mark = len(c.trail)
    c.guards.append(g)
    c.fact(g)
    return mark


def _pop_guard(c, mark):
    if c.guards:
        c.guards.pop()
    c._undo(mark)


def rt_pred(it, loc):
    """iterate a store-only loop once, for all its iterations together"""
    c = proxies._CTX
    if type(it) is not SymRange or c is None or c.frames or "pred" in c.disable \
            or it.step != 1 or ("pred", loc) in c.disable:
        yield from it
        return
    l0, h0 = lin_of(it.lo), lin_of(it.hi)
    if c.guards and (ir.has_rv(l0) or ir.has_rv(h0)):
        raise Restart(("pred", loc))
    g = c.simp(mk_lt(lsub(l0, h0)))
    if g is FALSE:
        return
    n = it.trip()
    lo, hi = c.iv(n)
    if lo == hi == 1:
        yield it.lo
        return
    a, b = c.iv(l0)[0], c.iv(h0)[1]
    if a > b - 1:
        raise Restart(("pred", loc))
    c.fresh_n += 1
    at = ir._mk_atom("rv", (c.fresh_n, a, b - 1), a, b - 1, False)
    v = ir.lvar(at)
    c.range_vars[v] = (l0, h0)
    old = c.pred_loc
    c.pred_loc = loc
    mark = _push_guard(c, g)
    c.fact(mk_le(lsub(l0, v)))
    c.fact(mk_lt(lsub(v, h0)))
    try:
        yield SymInt(v)
    finally:
        _pop_guard(c, mark)
        c.range_vars.pop(v, None)
        c.pred_loc = old


def rt_predif(test, loc):
    """a store-only if: its body runs under a guard instead of forking"""
    c = proxies._CTX
    if not _is_sym(test) or c is None or c.frames or "pred" in c.disable or ("pred", loc) in c.disable:
        if test:
            yield None
        return
    b = c.simp(to_bool(test))
    if b is TRUE:
        yield None
        return
    if b is FALSE:
        return
    if ir.has_rv(b):
        raise Restart(("pred", c.pred_loc))
    old = c.pred_loc
    c.pred_loc = loc
    mark = _push_guard(c, b)
    try:
        yield None
    finally:
        _pop_guard(c, mark)
        c.pred_loc = old


def rt_chk(x):
    c = proxies._CTX
    if c is not None and c.guards and type(x) not in (SymRow, SymGrid):
        raise Restart(("pred", c.pred_loc))
    return x


def rt_blk(fn, names, lv):
    vals = tuple(lv.get(n, UNB) for n in names)
    c = proxies._CTX
    if c is None or "merge" in c.disable or c.guards or "blk" in c.disable:
        return fn(*vals)
    return c.merge(lambda: fn(*vals))


def rt_listcomp(fn, it):
    c = proxies._CTX
    if c is None or "grid" in c.disable:
        return [fn(v) for v in it]
    if type(it) is SymRange:
        if it.step == 1 and type(it.lo) is int and it.lo == 0:
            r = fn(SymInt(ir.lvar(ir._mk_atom("dummy", (), 0, 0, False))))
            if type(r) is SymRow and r.own and r.fresh():
                n = it.symlen()
                return SymGrid(Grid(r.grid.W, n, r.grid.default))
        return [fn(v) for v in it]
    out = [fn(v) for v in it]
    if type(it) is range and out and all(type(r) is SymRow and r.own and r.fresh() for r in out) \
            and len({id(r.grid) for r in out}) == len(out):
        r = out[0]
        if all(o.grid.default == r.grid.default and (o.grid.W is r.grid.W or
               (type(o.grid.W) is SymInt and type(r.grid.W) is SymInt and o.grid.W.l is r.grid.W.l)
               or (type(o.grid.W) is int and o.grid.W == r.grid.W)) for o in out):
            return SymGrid(Grid(r.grid.W, len(out), r.grid.default))
    return out


def sym_any(it):
    t = type(it)
    if t in (SymRow, RowSlice):
        r = it.any()
        if r is not None:
            return r
    if t in (list, tuple) and any(_is_sym(x) for x in it):
        return rt_bool(True, [lambda x=x: x for x in it])
    return any(it)


def sym_all(it):
    if type(it) in (list, tuple) and any(_is_sym(x) for x in it):
        return rt_bool(False, [lambda x=x: x for x in it])
    return all(it)


def sym_len(x):
    f = getattr(type(x), "symlen", None)
    if f is not None:
        return f(x)
    return len(x)


def sym_int(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if type(x) is SymInt:
            return x
        if type(x) is SymBool:
            return proxies._as_int(x)
        if type(x) is SymReal:
            return x.__trunc__()
        f = getattr(type(x), "__sym_int__", None)
        if f is not None:
            return f(x)
        if type(x) is SymStr:
            return x.number()
    return int(*a, **k)


def sym_float(*a):
    if len(a) == 1:
        x = a[0]
        if type(x) is SymReal:
            return x
        if type(x) is SymInt:
            return SymReal(x.l, proxies.ONE)
    return float(*a)


def sym_bool(*a):
    if len(a) == 1 and _is_sym(a[0]):
        return SymBool.wrap(to_bool(a[0]))
    return bool(*a)


def sym_type(*a):
    if len(a) == 1 and type(a[0]).__module__ in ("symx.proxies", "symx.strings"):
        return a[0].__class__
    return type(*a)


def _minmax(native, is_max):
    def f(*a, **k):
        if k:
            return native(*a, **k)
        xs = a
        if len(a) == 1:
            xs = a[0]
            if type(xs) not in (list, tuple):
                xs = list(xs)
        if xs and any(_is_sym(x) for x in xs) and all(isinstance(x, (int, float)) for x in xs) \
                and all(_is_sym(x) or abs(x) != ir.INF for x in xs):
            c = proxies._CTX
            if c is not None and "merge" not in c.disable:
                r = xs[0]
                for x in xs[1:]:
                    b = to_bool((x > r) if is_max else (x < r))
                    b = c.simp(b)
                    r = x if b is TRUE else r if b is FALSE else num_ite(b, x, r)
                return r
            return native(xs)
        return native(xs) if len(a) == 1 else native(*a)
    return f


sym_max = _minmax(max, True)
sym_min = _minmax(min, False)


def sym_array(*a):
    c = proxies._CTX
    if len(a) == 2 and c is not None and "grid" not in c.disable and type(a[0]) is str and a[0] in "bBhHiIlLqQ":
        v = a[1]
        if type(v) is SymRepeat and type(v.v) is int:
            n = lin_of(v.n)
            # a negative repeat count gives an empty list
            pos = c.simp(mk_le(lscale(n, -1)))
            if pos is not TRUE:
                n = ir.mk_ite(pos, n, lconst(0))
            return SymRow(Grid(SymInt.wrap(n), 1, v.v), 0, own=True)
        if type(v) is list and v and all(type(x) is int for x in v) and len(set(v)) == 1:
            return SymRow(Grid(len(v), 1, v[0]), 0, own=True)
        if type(v) is list and not v:
            return SymRow(Grid(0, 1, 0), 0, own=True)
        if type(v) in (SymRow, RowSlice):
            return _array.array(a[0], [int(x) for x in v])
    return _array.array(*a)


HOOKS = {
    range: sym_range, any: sym_any, all: sym_all, len: sym_len, int: sym_int, float: sym_float,
    bool: sym_bool, type: sym_type, max: sym_max, min: sym_min, _array.array: sym_array,
}
HOOK_NAMES = {"range", "any", "all", "len", "int", "float", "bool", "type", "max", "min", "array"}


def rt_call(fn, *a, **k):
    try:
        h = HOOKS.get(fn)
    except TypeError:
        h = None
    if h is not None:
        return h(*a, **k)
    return fn(*a, **k)


LOG_NAMES = {"debug": 10, "info": 20, "warning": 30, "error": 40, "exception": 40, "critical": 50}


def rt_log(f, args, kw):
    """X.debug(...): when the logger is off it does not matter how numbers are formatted"""
    lg = getattr(f, "__self__", None)
    if isinstance(lg, logging.Logger) and type(lg).__module__ == "logging" \
            and not lg.isEnabledFor(LOG_NAMES.get(f.__name__, 50)):
        keep, LOGGED.on = LOGGED.on, True
        try:
            a, k = args(), kw()
        finally:
            LOGGED.on = keep
        return f(*a, **k)
    return f(*args(), **kw())


RUNTIME = {
    "__sx_enter__": rt_enter, "__sx_merge__": rt_merge, "__sx_pure__": rt_pure,
    "__sx_bool__": rt_bool, "__sx_boolv__": rt_boolv, "__sx_not__": rt_not, "__sx_in__": rt_in,
    "__sx_notin__": rt_notin, "__sx_ifexp__": rt_ifexp, "__sx_exists__": rt_exists,
    "__sx_pred__": rt_pred, "__sx_predif__": rt_predif, "__sx_chk__": rt_chk, "__sx_blk__": rt_blk, "__sx_listcomp__": rt_listcomp,
    "__sx_call__": rt_call, "__sx_unb__": UNB, "__sx_log__": rt_log,
}

# merging whole local-only if statements saves paths but costs more than it saves
MERGE_IFS = False

# ------------------------------------------------------------------ purity
PURE_BUILTINS = {"any", "all", "len", "abs", "min", "max", "sum", "int", "float", "bool", "range",
                 "isinstance", "getattr", "hasattr", "tuple", "round", "str", "reversed",
                 "enumerate", "zip", "sorted", "list", "set", "type"}
PURE_METHODS = {"get", "keys", "values", "items", "count", "index", "startswith", "endswith",
                "ceil", "floor"}


class Purity:
    """syntactic side-effect analysis by function name (a name is pure when every
    function of that name in the package is)"""

    def __init__(self, trees):
        self.defs = {}
        for t in trees:
            for n in ast.walk(t):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self.defs.setdefault(n.name, []).append(n)
        self.pure = set(self.defs)
        while True:
            drop = {f for f in self.pure if not all(self.fn_ok(d) for d in self.defs[f])}
            if not drop:
                break
            self.pure -= drop

    def fn_ok(self, d):
        if isinstance(d, ast.AsyncFunctionDef) or d.decorator_list or d.name.startswith("__"):
            return False
        if not any(isinstance(n, ast.Return) and n.value is not None for n in ast.walk(d)):
            return False
        return all(self.st_ok(s) for s in d.body)

    def st_ok(self, s, loop_only=False):
        if isinstance(s, ast.Return):
            return not loop_only and (s.value is None or self.ex_ok(s.value))
        if isinstance(s, ast.Raise):
            return not loop_only and (s.exc is None or self.ex_ok(s.exc, True))
        if isinstance(s, ast.Expr):
            return isinstance(s.value, ast.Constant) or self.ex_ok(s.value)
        if isinstance(s, ast.Assign):
            return all(self.tgt_ok(t) for t in s.targets) and self.ex_ok(s.value)
        if isinstance(s, ast.AnnAssign):
            return self.tgt_ok(s.target) and (s.value is None or self.ex_ok(s.value))
        if isinstance(s, ast.AugAssign):
            return isinstance(s.target, ast.Name) and self.ex_ok(s.value)
        if isinstance(s, ast.If):
            return self.ex_ok(s.test) and all(self.st_ok(x, loop_only) for x in s.body + s.orelse)
        if isinstance(s, ast.For):
            return self.tgt_ok(s.target) and self.ex_ok(s.iter) and \
                all(self.st_ok(x, loop_only) for x in s.body + s.orelse)
        if isinstance(s, ast.While):
            return self.ex_ok(s.test) and all(self.st_ok(x, loop_only) for x in s.body + s.orelse)
        return isinstance(s, (ast.Pass, ast.Break, ast.Continue))

    def tgt_ok(self, t):
        if isinstance(t, ast.Name):
            return True
        if isinstance(t, (ast.Tuple, ast.List)):
            return all(self.tgt_ok(e) for e in t.elts)
        return False

    def ex_ok(self, e, exc=False):
        for n in ast.walk(e):
            if isinstance(n, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom, ast.Lambda,
                              ast.Starred)):
                return False
            if isinstance(n, ast.Call):
                f = n.func
                if exc and n is e:
                    continue
                if isinstance(f, ast.Name):
                    if f.id not in PURE_BUILTINS and f.id not in self.pure:
                        return False
                elif isinstance(f, ast.Attribute):
                    if f.attr not in PURE_METHODS and f.attr not in self.pure:
                        return False
                else:
                    return False
        return True


# ------------------------------------------------------------------ transformer
def _name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


def _call(fn, *args):
    return ast.Call(func=_name(fn), args=list(args), keywords=[])


def _lam(args, body):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in args],
                                         kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)


def _assigned(nodes):
    out = []
    for s in nodes:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in out:
                out.append(n.id)
    return out


class Instrument(ast.NodeTransformer):
    def __init__(self, purity, modname):
        self.p = purity
        self.mod = modname
        self.stack = []
        self.fn = []
        self.test = False
        self.uid = 0

    # -- functions
    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        n.body = [self.visit(x) for x in n.body]
        self.stack.pop()
        return n

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        self.fn.append(n)
        n._orig = [x for x in ast.walk(n)]
        has_yield = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n))
        q = f"{self.mod}.{'.'.join(self.stack)}"
        pure = len(self.fn) == 1 and n.name in self.p.pure and \
            sum(1 for x in ast.walk(n) if isinstance(x, (ast.If, ast.For, ast.While, ast.BoolOp, ast.IfExp))) > 0
        n.body = self.block(n.body)
        doc = 1 if (n.body and isinstance(n.body[0], ast.Expr) and
                    isinstance(n.body[0].value, ast.Constant)) else 0
        n.body.insert(doc, ast.Expr(_call("__sx_enter__", ast.Constant(q))))
        if pure and not has_yield:
            n.decorator_list = n.decorator_list + [_name("__sx_pure__")]
        self.fn.pop()
        self.stack.pop()
        return n

    def visit_AsyncFunctionDef(self, n):
        return n

    def visit_Lambda(self, n):
        if not self.fn:
            return n
        n.body = self.expr(n.body)
        return n

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    # -- expressions
    def expr(self, e, test=False):
        if e is None:
            return None
        old = self.test
        self.test = test
        r = self.visit(e)
        self.test = old
        return r

    def generic_visit(self, n):
        if isinstance(n, ast.expr):
            self.test = False
        return super().generic_visit(n)

    def visit_BoolOp(self, n):
        if not self.fn:
            return n
        test = self.test
        is_or = isinstance(n.op, ast.Or)
        pure = [self.p.ex_ok(v) for v in n.values]
        if any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom))
               for v in n.values for x in ast.walk(v)):
            self.test = False
            return super().generic_visit(n)
        if not all(pure[1:]):
            # impure tail: keep short-circuit forking, still instrument the operands
            n.values = [self.expr(v, test) for v in n.values]
            return n
        vals = [self.expr(v, test) for v in n.values]
        if test:
            return _call("__sx_bool__", ast.Constant(is_or),
                         ast.Tuple(elts=[_lam([], v) for v in vals], ctx=ast.Load()))
        return _call("__sx_boolv__", ast.Constant(is_or), _lam([], vals[0]),
                     ast.Tuple(elts=[_lam([], v) for v in vals[1:]], ctx=ast.Load()))

    def visit_UnaryOp(self, n):
        if not self.fn:
            return n
        if isinstance(n.op, ast.Not):
            return _call("__sx_not__", self.expr(n.operand, True))
        n.operand = self.expr(n.operand)
        return n

    def visit_Compare(self, n):
        if not self.fn:
            return n
        test = self.test
        if len(n.ops) > 1:
            mids = n.comparators[:-1]
            if all(self.p.ex_ok(m) for m in mids):
                import copy
                parts, left = [], n.left
                for op, c in zip(n.ops, n.comparators):
                    parts.append(ast.Compare(left=copy.deepcopy(left), ops=[op],
                                             comparators=[copy.deepcopy(c)]))
                    left = c
                b = ast.BoolOp(op=ast.And(), values=parts)
                self.test = test
                return self.visit_BoolOp(b)
            return super().generic_visit(n)
        n.left = self.expr(n.left)
        n.comparators = [self.expr(c) for c in n.comparators]
        if isinstance(n.ops[0], ast.In):
            return _call("__sx_in__", n.left, n.comparators[0])
        if isinstance(n.ops[0], ast.NotIn):
            return _call("__sx_notin__", n.left, n.comparators[0])
        return n

    def visit_IfExp(self, n):
        if not self.fn:
            return n
        ok = self.p.ex_ok(n.body) and self.p.ex_ok(n.orelse)
        n.test = self.expr(n.test, True)
        n.body = self.expr(n.body)
        n.orelse = self.expr(n.orelse)
        if ok:
            return _call("__sx_ifexp__", n.test, _lam([], n.body), _lam([], n.orelse))
        return n

    def visit_Call(self, n):
        if not self.fn:
            return n
        f = n.func
        gen = (isinstance(f, ast.Name) and f.id in ("any", "all", "sum", "max", "min") and len(n.args) == 1
               and isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)) and self.p.ex_ok(n))
        n.args = [self.expr(a) for a in n.args]
        for k in n.keywords:
            k.value = self.expr(k.value)
        if isinstance(f, ast.Name):
            if f.id in HOOK_NAMES:
                n = ast.Call(func=_name("__sx_call__"), args=[f] + n.args, keywords=n.keywords)
        else:
            n.func = self.expr(f)
            if isinstance(f, ast.Attribute) and f.attr in LOG_NAMES and not any(
                    isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom, ast.Starred)) for x in ast.walk(n)) and any(
                    isinstance(x, (ast.JoinedStr, ast.BinOp, ast.Call)) for a in n.args for x in ast.walk(a)) and all(
                    k.arg for k in n.keywords):
                return _call("__sx_log__", n.func, _lam([], ast.Tuple(elts=n.args, ctx=ast.Load())), _lam([], ast.Dict(
                    keys=[ast.Constant(k.arg) for k in n.keywords], values=[k.value for k in n.keywords])))
            if isinstance(f, ast.Attribute) and f.attr == "array":
                n = ast.Call(func=_name("__sx_call__"), args=[n.func] + n.args, keywords=n.keywords)
        if gen:
            return _call("__sx_merge__", _lam([], n))
        return n

    def visit_ListComp(self, n):
        if not self.fn:
            return n
        simple = len(n.generators) == 1 and not n.generators[0].ifs and not n.generators[0].is_async \
            and isinstance(n.generators[0].target, ast.Name) \
            and not any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(n))
        g0 = n.generators[0]
        rng = isinstance(g0.iter, ast.Call)
        for g in n.generators:
            g.iter = self.expr(g.iter)
            g.ifs = [self.expr(i, True) for i in g.ifs]
        n.elt = self.expr(n.elt)
        if simple and rng:
            return _call("__sx_listcomp__", _lam([g0.target.id], n.elt), g0.iter)
        return n

    def _comp(self, n):
        if not self.fn:
            return n
        for g in n.generators:
            g.iter = self.expr(g.iter)
            g.ifs = [self.expr(i, True) for i in g.ifs]
        if isinstance(n, ast.DictComp):
            n.key, n.value = self.expr(n.key), self.expr(n.value)
        else:
            n.elt = self.expr(n.elt)
        return n

    visit_SetComp = visit_GeneratorExp = visit_DictComp = _comp

    # -- statements
    def visit_If(self, n):
        if not self.fn:
            return n
        if not self._in_pure_fn() and self._pred_if_ok(n):
            self.uid += 1
            loc = f"{self.mod}:if{n.lineno}"
            t = f"_sx_t{self.uid}_"
            out = [ast.Assign(targets=[_name(t, ast.Store())], value=self.expr(n.test, True))]
            for body, neg in ((n.body, False), (n.orelse, True)):
                if not body:
                    continue
                body = self.block(body)
                for s in body:
                    for x in ast.walk(s):
                        if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store):
                            x.value = _call("__sx_chk__", x.value)
                test = _name(t) if not neg else _call("__sx_not__", _name(t))
                out.append(ast.For(target=_name(f"_sx_u{self.uid}_", ast.Store()),
                                   iter=_call("__sx_predif__", test, ast.Constant(loc)),
                                   body=body, orelse=[]))
            return out
        blk = self._local_block(n)
        n.test = self.expr(n.test, True)
        n.body = self.block(n.body)
        n.orelse = self.block(n.orelse)
        return self._wrap_block(n, blk)

    def visit_While(self, n):
        if not self.fn:
            return n
        blk = self._local_block(n)
        n.test = self.expr(n.test, True)
        n.body = self.block(n.body)
        n.orelse = self.block(n.orelse)
        return self._wrap_block(n, blk)

    def visit_Assert(self, n):
        if not self.fn:
            return n
        n.test = self.expr(n.test, True)
        return n

    def _loaded_outside(self, name, node):
        """is the name read outside the node, where this loop could be what bound it?"""
        inside = set(id(x) for x in ast.walk(node))
        for f in self.fn[-1]._orig:
            if isinstance(f, (ast.For, ast.comprehension)) and id(f) not in inside \
                    and name in _assigned([f.target]):
                if isinstance(f, ast.For):
                    # rebound by the other loop before its body runs
                    for s in f.body:
                        if node not in ast.walk(s):
                            inside.update(id(x) for x in ast.walk(s))
            if isinstance(f, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)) \
                    and id(f) not in inside and any(name in _assigned([g.target]) for g in f.generators):
                inside.update(id(x) for x in ast.walk(f))
        for x in self.fn[-1]._orig:
            if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load) \
                    and id(x) not in inside:
                return True
        return False

    def _in_pure_fn(self):
        return self.fn[0].name in self.p.pure

    def visit_For(self, n):
        if not self.fn:
            return n
        loc = f"{self.mod}:{n.lineno}"
        kind = None
        blk = None
        if isinstance(n.target, ast.Name) and not n.orelse and not self._in_pure_fn():
            if len(n.body) == 1 and isinstance(n.body[0], ast.If) and not n.body[0].orelse \
                    and self.p.ex_ok(n.body[0].test) \
                    and not self._loaded_outside(n.target.id, n):
                kind = "exists"
            elif self._store_only(n):
                kind = "pred"
        if kind is None:
            blk = self._local_block(n)
        test0 = None
        if kind == "exists":
            import copy
            test0 = self.expr(copy.deepcopy(n.body[0].test), True)
        n.iter = self.expr(n.iter)
        n.body = self.block(n.body)
        n.orelse = self.block(n.orelse)
        if kind == "exists":
            self.uid += 1
            it = f"_sx_it{self.uid}_"
            a = ast.Assign(targets=[_name(it, ast.Store())], value=n.iter)
            n.iter = _name(it)
            return [a, ast.If(test=_call("__sx_exists__", _name(it), _lam([n.target.id], test0)),
                              body=[n], orelse=[])]
        if kind == "pred":
            n.iter = _call("__sx_pred__", n.iter, ast.Constant(loc))
            for x in ast.walk(n):
                if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store):
                    x.value = _call("__sx_chk__", x.value)
            return n
        return self._wrap_block(n, blk)

    def _pred_if_ok(self, n):
        """an if (with its nested ifs and loops) that only writes cells"""
        self._hs = False
        ok = self._stores(n, n)
        return ok and self._hs

    def _stores(self, s, root):
        if isinstance(s, ast.Assign):
            if not self.p_store_value(s.value):
                return False
            for t in s.targets:
                for e in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    if isinstance(e, ast.Subscript):
                        if not (self.p.ex_ok(e.value) and self.p.ex_ok(e.slice)):
                            return False
                        self._hs = True
                    elif isinstance(e, ast.Name):
                        if self._loaded_outside(e.id, root):
                            return False
                    else:
                        return False
            return True
        if isinstance(s, ast.If):
            return self.p.ex_ok(s.test) and all(self._stores(x, root) for x in s.body + s.orelse)
        if isinstance(s, ast.For):
            return isinstance(s.target, ast.Name) and not s.orelse and self.p.ex_ok(s.iter) \
                and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) \
                and s.iter.func.id == "range" \
                and not self._loaded_outside(s.target.id, root) \
                and all(self._stores(x, root) for x in s.body)
        return isinstance(s, ast.Pass) or (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))

    def _store_only(self, n):
        self._hs = False
        return isinstance(n.target, ast.Name) and self._stores(n, n) and self._hs

    def p_store_value(self, v):
        for x in ast.walk(v):
            if isinstance(x, ast.Call):
                f = x.func
                nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
                if nm not in PURE_BUILTINS and nm != "array" and nm not in self.p.pure:
                    return False
            if isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom, ast.Lambda)):
                return False
        return True

    def _local_block(self, n):
        """a loop that only computes locals -> (names) to be merged as one step"""
        if self._in_pure_fn() or len(self.fn) > 1 or getattr(n, "_inblk", False):
            return None
        if not self.p.st_ok(n, loop_only=True):
            return None
        if isinstance(n, ast.If):
            if not MERGE_IFS:
                return None
            # a break/continue of an enclosing loop cannot move into a nested function
            def escapes(stmts):
                for x in stmts:
                    if isinstance(x, (ast.Break, ast.Continue)):
                        return True
                    if isinstance(x, ast.If) and escapes(x.body + x.orelse):
                        return True
                return False
            if escapes(n.body + n.orelse):
                return None
            if not any(isinstance(x, (ast.Assign, ast.AugAssign)) for x in ast.walk(n)):
                return None
        # only loops over numeric ranges are worth it
        it = n.iter if isinstance(n, ast.For) else None
        if it is not None and not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name)
                                   and it.func.id in ("range", "reversed")):
            return None
        for x in ast.walk(n):
            if x is not n and isinstance(x, (ast.For, ast.While, ast.If)):
                x._inblk = True
        names = _assigned([n])
        live = [v for v in names if self._loaded_outside(v, n)]
        carried = [v for v in names]
        return carried, live

    def _wrap_block(self, n, blk):
        if not blk:
            return n
        carried, live = blk
        self.uid += 1
        fn = f"_sx_blk{self.uid}_"
        ret = ast.Return(ast.Tuple(elts=[_name(v) for v in live], ctx=ast.Load()))
        d = ast.FunctionDef(name=fn, args=ast.arguments(
            posonlyargs=[], args=[ast.arg(arg=a) for a in carried], kwonlyargs=[], kw_defaults=[],
            defaults=[]), body=[n, ret], decorator_list=[], type_params=[])
        call = _call("__sx_blk__", _name(fn),
                     ast.Tuple(elts=[ast.Constant(v) for v in carried], ctx=ast.Load()),
                     _call("locals"))
        out = [d]
        if live:
            out.append(ast.Assign(targets=[ast.Tuple(elts=[_name(v, ast.Store()) for v in live],
                                                     ctx=ast.Store())], value=call))
            for v in live:
                out.append(ast.If(test=ast.Compare(left=_name(v), ops=[ast.Is()],
                                                   comparators=[_name("__sx_unb__")]),
                                  body=[ast.Delete(targets=[_name(v, ast.Del())])], orelse=[]))
        else:
            out.append(ast.Expr(call))
        return out


# ------------------------------------------------------------------ loading
def read_sources():
    root = os.path.join(REPO, PKG)
    out = {}
    for dp, dn, fn in os.walk(root):
        dn[:] = [d for d in dn if d not in ("__pycache__",)]
        for f in fn:
            if f.endswith(".py"):
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, root)
                with open(p, encoding="utf8") as h:
                    out[rel] = h.read()
    return out


def _modname(rel):
    m = rel[:-3].replace(os.sep, ".")
    if m.endswith("__init__"):
        m = m[: -len("__init__")].rstrip(".")
    return m


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, alias, instrument):
        self.alias, self.instrument = alias, instrument
        self.src = read_sources()
        self.mods = {_modname(r): r for r in self.src}
        self.purity = None
        self.codes = {}
        if instrument:
            trees = [ast.parse(s) for r, s in self.src.items() if not r.startswith("benchmarks")]
            self.purity = Purity(trees)

    def find_spec(self, name, path=None, target=None):
        if name != self.alias and not name.startswith(self.alias + "."):
            return None
        sub = name[len(self.alias) + 1:]
        if sub not in self.mods:
            return None
        rel = self.mods[sub]
        spec = importlib.util.spec_from_loader(name, self, is_package=rel.endswith("__init__.py"))
        spec.origin = os.path.join(REPO, PKG, rel)
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        sub = module.__name__[len(self.alias) + 1:]
        rel = self.mods[sub]
        src = self.src[rel]
        fn = os.path.join(REPO, PKG, rel)
        module.__file__ = fn
        tree = ast.parse(src, fn)
        if self.instrument and not rel.startswith("benchmarks"):
            tree = Instrument(self.purity, sub or "__init__").visit(tree)
            ast.fix_missing_locations(tree)
            module.__dict__.update(RUNTIME)
        exec(compile(tree, fn, "exec"), module.__dict__)


_LOADED = {}


def load(alias, instrument):
    """import /repo/hyperpack from its current source under ``alias``"""
    if alias in _LOADED:
        return _LOADED[alias]
    for m in [m for m in sys.modules if m == alias or m.startswith(alias + ".")]:
        del sys.modules[m]
    f = _Finder(alias, instrument)
    sys.meta_path.insert(0, f)
    import logging
    pkg = importlib.import_module(alias)
    for n in f.mods:
        if not n.startswith("benchmarks"):
            importlib.import_module(alias + ("." + n if n else ""))
    _LOADED[alias] = pkg
    return pkg


def modules(alias):
    return [m for n, m in list(sys.modules.items())
            if n == alias or n.startswith(alias + ".")]
