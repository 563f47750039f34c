"""Concolic path explorer: the real code runs on proxy values, every branch on a
symbolic condition becomes a decision whose other side is decided by Z3."""
from fractions import Fraction
import time
import z3

from . import ir
from .concrete import Base
from .ir import (Lin, Bool, U, ev, evb, mk_and, mk_or, mk_not, mk_eq, mk_le, mk_ite,
                 mk_bite, lsub, lconst, lvar, static_iv, INF)

TRUE, FALSE = ir.TRUE, ir.FALSE


class EngineSignal(BaseException):
    pass


class PathAbort(EngineSignal):
    """the current path is infeasible or cut by an assumption"""


class PathStop(EngineSignal):
    """the harness stops the path here (its checks still count)"""


class MergeAbort(EngineSignal):
    pass


class Restart(EngineSignal):
    """an optimisation turned out to be inapplicable: switch it off, start over"""


class EngineError(EngineSignal):
    pass


class OutOfBudget(EngineSignal):
    pass


class Ev:
    __slots__ = ("kind", "b", "taken", "flipped", "hint", "cache", "lvl")

    def __init__(self, kind, b, taken, hint=None):
        self.kind, self.b, self.taken, self.hint = kind, b, taken, hint
        self.flipped = False
        self.cache = None


class Frame:
    __slots__ = ("seq", "pos", "guards")

    def __init__(self, seq):
        self.seq = seq
        self.pos = 0
        self.guards = []


class Stats:
    FIELDS = ("paths", "decisions", "queries", "unsat", "sat", "unknown", "checks",
              "solver_s", "validated", "pruned", "merges", "merge_aborts", "violating",
              "steps")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def as_dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}


class Ctx(Base):
    """Symbolic context handed to a harness."""

    symbolic = True

    def __init__(self, disable=(), query_timeout_ms=60000, alias="hpsym"):
        self.bind(alias) if alias else None
        # "blk" (merging whole local-only loops) costs more than it saves here
        self.disable = set(disable) | {"blk"}
        self.stats = Stats()
        self.solver = z3.Solver()
        self.solver.set("timeout", query_timeout_ms)
        self.events = []
        self.synced = 0          # events already asserted in the solver
        self.levels = 0
        self.functions = set()
        self.covered = set()
        self.inconclusive = []
        self.deadline = None
        self.frames = []
        self.guards = []         # predicated-loop guards
        self.root_cache = {}
        self.extra = {}
        self.max_steps = 2_000_000
        self.active = False

    # ------------------------------------------------------------ facts
    def _reset_path(self):
        self.pos = 0
        self.mpos = -1
        self.inmemo = False
        self.mcount = 0
        self.kn = {}
        self.bounds = {}
        self.lins = {}
        self.nlin = 0
        self.ver = 0
        self.unk = {}
        self.trail = []
        self.frames = []
        self.guards = []
        self.range_vars = {}
        self.pred_loc = None
        self.obligations = []
        self.observed = []
        self.declared = {}
        self.path_extra = {}
        self.nsteps = 0
        self.fresh_n = 0

    def _undo(self, mark):
        tr = self.trail
        while len(tr) > mark:
            op = tr.pop()
            if op[0] == "k":
                del self.kn[op[1]]
            elif op[0] == "b":
                if op[2] is None:
                    del self.bounds[op[1]]
                else:
                    self.bounds[op[1]] = op[2]
            else:
                self.lins[op[1]].pop()

    def fact(self, b):
        if b is TRUE or b in self.kn:
            return
        self.kn[b] = True
        self.trail.append(("k", b))
        nb = mk_not(b)
        if nb not in self.kn:
            self.kn[nb] = False
            self.trail.append(("k", nb))
        self.ver += 1
        k = b.kind
        if k == "and":
            for x in b.args:
                self.fact(x)
        elif k == "not":
            x = b.args[0]
            if x.kind == "or":
                for y in x.args:
                    self.fact(mk_not(y))
        elif k == "le":
            self._lin_fact(b.args[0])
        elif k == "eq":
            l = b.args[0]
            self._lin_fact(l)
            self._lin_fact(ir.lscale(l, -1))

    def _lin_fact(self, l):
        # l <= 0 ; tighten the bounds of its atoms
        ts = l.terms
        if len(ts) <= 4:
            for a, k in ts:
                rest_lo = l.c
                for a2, k2 in ts:
                    if a2 is not a:
                        lo, hi = self.biv(a2)
                        rest_lo += k2 * (lo if k2 > 0 else hi)
                if rest_lo in (INF, -INF):
                    continue
                # k*a <= -rest_lo
                lo, hi = self.biv(a)
                if k > 0:
                    if not a.real and type(k) is int and type(rest_lo) is int:
                        nb = (-rest_lo) // k
                    else:
                        nb = Fraction(-rest_lo) / k
                        if not a.real:
                            nb = nb.numerator // nb.denominator
                    if nb < hi:
                        self._set_bound(a, lo, nb)
                else:
                    if not a.real and type(k) is int and type(rest_lo) is int:
                        nb = _cdiv(-rest_lo, k)
                    else:
                        nb = Fraction(-rest_lo) / k
                        if not a.real:
                            nb = -((-nb.numerator) // nb.denominator)
                    if nb > lo:
                        self._set_bound(a, nb, hi)
        for a, _ in ts:
            lst = self.lins.get(a)
            if lst is None:
                lst = self.lins[a] = []
            lst.append(l)
            self.trail.append(("l", a))

    def _set_bound(self, a, lo, hi):
        self.trail.append(("b", a, self.bounds.get(a)))
        self.bounds[a] = (lo, hi)

    def biv(self, a):
        r = self.bounds.get(a)
        if r is not None:
            return r
        return a.lo, a.hi

    def iv(self, l):
        lo = hi = l.c
        for a, k in l.terms:
            alo, ahi = self.biv(a)
            if k > 0:
                lo += k * alo
                hi += k * ahi
            else:
                lo += k * ahi
                hi += k * alo
        return lo, hi

    def _implied_le(self, g):
        """is g <= 0 a consequence of the bounds and of one recorded linear fact?"""
        if self.iv(g)[1] <= 0:
            return True
        seen = set()
        gd = dict(g.terms)
        for a, _ in g.terms:
            for f in self.lins.get(a, ()):
                if f in seen:
                    continue
                seen.add(f)
                hi = g.c - f.c
                d = dict(gd)
                for x, k in f.terms:
                    d[x] = d.get(x, 0) - k
                for x, k in d.items():
                    if k:
                        lo_, hi_ = self.biv(x)
                        hi += k * (hi_ if k > 0 else lo_)
                if hi <= 0:
                    return True
        return False

    def known(self, b):
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        r = self.kn.get(b)
        if r is not None:
            return r
        if self.unk.get(b) == self.ver:
            return None
        k = b.kind
        r = None
        if k == "le":
            l = b.args[0]
            if self._implied_le(l):
                r = True
            elif not l.real:
                if self._implied_le(ir.ladc(ir.lscale(l, -1), 1)):
                    r = False
            else:
                # not(l<=0) <=> -l < 0 ; conservative
                if self.iv(l)[0] > 0:
                    r = False
        elif k == "eq":
            l = b.args[0]
            lo, hi = self.iv(l)
            if lo > 0 or hi < 0:
                r = False
            elif lo == hi == 0:
                r = True
            elif not l.real:
                if self._implied_le(ir.ladc(l, 1)) or self._implied_le(ir.ladc(ir.lscale(l, -1), 1)):
                    r = False
                elif self._implied_le(l) and self._implied_le(ir.lscale(l, -1)):
                    r = True
        elif k == "not":
            r = self.known(b.args[0])
            if r is not None:
                r = not r
        elif k == "and":
            r = True
            for x in b.args:
                kx = self.known(x)
                if kx is False:
                    r = False
                    break
                if kx is None:
                    r = None
        elif k == "or":
            r = False
            for x in b.args:
                kx = self.known(x)
                if kx is True:
                    r = True
                    break
                if kx is None:
                    r = None
        if r is None:
            self.unk[b] = self.ver
        else:
            # caching a derived consequence is sound until the trail is undone
            self.kn[b] = r
            self.trail.append(("k", b))
        return r

    def simp(self, b):
        r = self.known(b)
        if r is not None:
            return TRUE if r else FALSE
        k = b.kind
        if k == "and" or k == "or":
            out = [self.simp(x) for x in b.args]
            return mk_and(out) if k == "and" else mk_or(out)
        if k == "not":
            return mk_not(self.simp(b.args[0]))
        return b

    # ------------------------------------------------------------ solver
    def _sync(self):
        s = self.solver
        for e in self.events[self.synced:]:
            if e.kind == "D":
                s.push()
                self.levels += 1
            e.lvl = self.levels
            if e.kind != "V":
                s.add(ir.z_bool(e.b if e.taken else mk_not(e.b)))
        self.synced = len(self.events)

    def _cut(self, n):
        """drop events[n:] (events[n] is a decision)"""
        if self.synced > n:
            d = sum(1 for e in self.events[n:self.synced] if e.kind == "D")
            if d:
                self.solver.pop(d)
                self.levels -= d
            self.synced = n
        del self.events[n:]

    def _check(self, *extra):
        t = time.time()
        if extra:
            self.solver.push()
            for x in extra:
                self.solver.add(ir.z_bool(x))
        r = self.solver.check()
        self.stats.queries += 1
        model = None
        if r == z3.sat:
            self.stats.sat += 1
            model = self._extract(self.solver.model())
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        if extra:
            self.solver.pop()
        self.stats.solver_s += time.time() - t
        return r, model

    def _extract(self, m):
        out = {}
        for d in m.decls():
            v = m[d]
            n = d.name()
            if z3.is_int_value(v):
                out[n] = v.as_long()
            elif z3.is_rational_value(v):
                out[n] = Fraction(v.numerator_as_long(), v.denominator_as_long())
            elif z3.is_true(v):
                out[n] = True
            elif z3.is_false(v):
                out[n] = False
            elif z3.is_string_value(v):
                out[n] = v.as_string()
            elif z3.is_algebraic_value(v):
                out[n] = Fraction(v.approx(20).as_fraction())
        return out

    # ------------------------------------------------------------ decisions
    def decide(self, b):
        b = self.simp(b)
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        if self.frames:
            return self._frame_decide(b)
        if self.guards and ir.has_rv(b):
            raise Restart(("pred", self.pred_loc))
        return self._branch(b, None)

    def _tick(self):
        self.nsteps += 1
        if self.nsteps > self.max_steps:
            raise EngineError("step limit")
        if self.deadline and (self.nsteps & 63) == 0 and time.time() > self.deadline:
            raise OutOfBudget()

    def _branch(self, b, hint):
        self._tick()
        if self.pos < len(self.events):
            e = self.events[self.pos]
            if e.b is not b or e.kind != "D":
                raise EngineError(f"nondeterministic re-execution at event {self.pos}")
        else:
            if self.forced:
                kind, taken, hint2 = self.forced.pop(0)
                if kind != "D" or hint2 != hint:
                    raise EngineError("work item prefix mismatch")
                e = Ev("D", b, taken, hint)
                e.flipped = True
                self.events.append(e)
                if not self.forced:
                    self._resolve_model()
            else:
                e = Ev("D", b, evb(b), hint)
                self.events.append(e)
                self.stats.decisions += 1
        self.pos += 1
        self.fact(b if e.taken else mk_not(b))
        return e.taken

    def _resolve_model(self):
        self._sync()
        r, m = self._check()
        if r == z3.unsat:
            raise PathAbort()
        if r != z3.sat:
            self.inconclusive.append("unknown at work item")
            raise PathAbort()
        ir.set_model(m)

    def _frame_decide(self, b):
        f = self.frames[-1]
        if f.seq is None:
            raise MergeAbort()
        if f.pos < len(f.seq):
            e = f.seq[f.pos]
            if e[0] is not b:
                raise EngineError("nondeterministic merge")
        else:
            if len(f.seq) > 400:
                raise MergeAbort()
            e = [b, True, False]
            f.seq.append(e)
        f.pos += 1
        g = b if e[1] else mk_not(b)
        f.guards.append(g)
        self.fact(g)
        return e[1]

    def _passive(self, b):
        """assert b (declarations and assumptions)"""
        if self.pos < len(self.events):
            e = self.events[self.pos]
            if e.b is not b or e.kind != "A":
                raise EngineError(f"nondeterministic re-execution at event {self.pos}")
        else:
            self.events.append(Ev("A", b, True))
        self.pos += 1
        self.fact(b)

    def assume(self, cond):
        b = to_bool(cond)
        b = self.simp(b)
        if b is TRUE:
            return
        if b is FALSE:
            self.stats.pruned += 1
            raise PathAbort()
        if self.frames:
            raise EngineError("assume inside merge")
        replay = self.pos < len(self.events)
        self._passive(b)
        if replay or self.forced:
            return
        if not evb(b):
            self._sync()
            r, m = self._check()
            if r == z3.sat:
                ir.set_model(m)
            else:
                if r != z3.unsat:
                    self.inconclusive.append("unknown at assume")
                self.stats.pruned += 1
                raise PathAbort()

    def entails(self, b):
        """does path (and active merge guards) imply b?"""
        k = self.known(b)
        if k is not None:
            return k
        guards = tuple(g for f in self.frames for g in f.guards)
        e = self.events[self.pos - 1] if self.pos else None
        if e is None:
            cache = self.root_cache
        else:
            if e.cache is None:
                e.cache = {}
            cache = e.cache
        key = (b, guards)
        r = cache.get(key)
        if r is None:
            if self.pos < len(self.events):
                # replaying a prefix: ask on the prefix only
                s = z3.Solver()
                s.set("timeout", 60000)
                for x in self.events[:self.pos]:
                    if x.kind != "V":
                        s.add(ir.z_bool(x.b if x.taken else mk_not(x.b)))
                for g in guards:
                    s.add(ir.z_bool(g))
                s.add(ir.z_bool(mk_not(b)))
                t = time.time()
                res = s.check()
                self.stats.queries += 1
                self.stats.solver_s += time.time() - t
                if res == z3.unsat:
                    self.stats.unsat += 1
                elif res == z3.sat:
                    self.stats.sat += 1
            else:
                self._sync()
                res, _ = self._check(*guards, mk_not(b))
            r = res == z3.unsat
            cache[key] = r
        if r:
            self.fact(b)
        return r

    def require(self, b, exc):
        """b must hold here; otherwise the program raises exc"""
        b = self.simp(b)
        if b is TRUE:
            return
        if self.frames:
            if b is not FALSE and self.entails(b):
                return
            raise MergeAbort()
        if self.guards:
            # inside predicated code only the guarded case matters
            if not self.guarded_decide(mk_or([mk_not(mk_and(self.guards)), b])):
                raise exc()
            return
        if not self.decide(b):
            raise exc()

    def guarded_decide(self, b):
        """fork on a formula that already contains the active guards (which are
        recorded as facts, so it must not be simplified with them)"""
        if b is TRUE:
            return True
        if ir.has_rv(b):
            raise Restart(("pred", self.pred_loc))
        if self.kn.get(b) is True:
            return True
        return self._branch(b, None)

    def concretize(self, l):
        """pick a concrete value for a term (forking over all of them)"""
        if not l.terms:
            return l.c
        lo, hi = self.iv(l)
        if lo == hi:
            return lo
        if self.guards:
            raise Restart(("pred", self.pred_loc))
        if self.frames:
            if hi - lo > 16:
                raise MergeAbort()
            for v in range(lo, hi):
                if self.decide(mk_eq(ir.ladc(l, -v))):
                    return v
            return hi
        while True:
            if self.pos < len(self.events):
                e = self.events[self.pos]
                v = e.hint
                if e.kind == "V":
                    self.pos += 1
                    return v
            elif self.forced:
                kind, _, v = self.forced[0]
                if kind == "V":
                    self.forced.pop(0)
                    self.events.append(Ev("V", TRUE, True, v))
                    self.pos += 1
                    return v
            else:
                v = ev(l)
                b = self.simp(mk_eq(ir.ladc(l, -v)))
                if b is TRUE:
                    self.events.append(Ev("V", TRUE, True, v))
                    self.pos += 1
                    return v
            if v is None:
                raise EngineError("nondeterministic re-execution (value)")
            b = self.simp(mk_eq(ir.ladc(l, -v)))
            if b is TRUE or b is FALSE:
                raise EngineError("stale value hint")
            if self._branch(b, v):
                return v
            lo, hi = self.iv(l)
            if lo == hi:
                return lo

    # ------------------------------------------------------------ merging of pure code
    MERGE_LIMIT = 300

    def memo(self, thunk):
        """value of a side-effect free computation; on the re-execution of a prefix the
        value computed the first time is reused"""
        if self.frames or self.guards or self.inmemo:
            return thunk()
        pos = self.pos
        if self.mpos != pos:
            self.mpos, self.mcount = pos, 0
        self.mcount += 1
        if pos:
            e = self.events[pos - 1]
            if e.cache is None:
                e.cache = {}
            cache = e.cache
        else:
            cache = self.root_cache
        key = ("m", self.mcount)
        r = cache.get(key, cache)
        if r is not cache:
            return r
        self.inmemo = True
        mark = len(self.trail)
        try:
            r = thunk()
        finally:
            self.inmemo = False
        if self.pos == pos:
            # what was derived on the way is not derived when the value is reused
            self._undo(mark)
        if self.pos == pos and _immutable(r):
            cache[key] = r
        return r

    def merge(self, thunk, tag=None):
        if "merge" in self.disable or tag in self.disable or self.guards:
            return thunk()
        return self.memo(lambda: self._merge(thunk))

    def _merge(self, thunk):
        results = []
        seq = []
        self.stats.merges += 1
        try:
            while True:
                f = Frame(seq)
                mark = len(self.trail)
                self.frames.append(f)
                try:
                    r = thunk()
                finally:
                    self.frames.pop()
                    self._undo(mark)
                results.append(([(e[0], e[1]) for e in seq], r))
                if len(results) > self.MERGE_LIMIT:
                    raise MergeAbort()
                while seq and seq[-1][2]:
                    seq.pop()
                if not seq:
                    break
                seq[-1][1] = not seq[-1][1]
                seq[-1][2] = True
            if len(results) == 1:
                return results[0][1]
            return self._combine(results)
        except MergeAbort:
            self.stats.merge_aborts += 1
            return thunk()
        except Exception:
            self.stats.merge_aborts += 1
            return thunk()

    def _combine(self, results):
        shapes = {}
        for path, r in results:
            shapes.setdefault(shape_of(r), []).append(r)
        if len(shapes) > 1:
            if any(s is None for s in shapes):
                raise MergeAbort()
            keys = list(shapes)
            chosen = None
            for s in keys[:-1]:
                b = _tree_bool(results, 0, s)
                if self.decide(b):
                    chosen = s
                    break
            if chosen is None:
                chosen = keys[-1]
            results = [(p, r if shape_of(r) == chosen else _DONTCARE) for p, r in results]
        else:
            chosen = next(iter(shapes))
            if chosen is None:
                raise MergeAbort()
        return _tree_val(results, 0)

    # ------------------------------------------------------------ harness API
    def int(self, name, lo, hi):
        from .proxies import SymInt
        if lo > hi:
            raise PathAbort()
        self.declared[name] = "int"
        fx = self.fixed.get(name)
        if fx is not None:
            lo, hi = max(lo, fx[0]), min(hi, fx[1])
            if lo > hi:
                raise PathAbort()
        if lo == hi:
            self.path_extra.setdefault("consts", {})[name] = lo
            return lo
        a = ir.mk_var(name, lo, hi)
        l = lvar(a)
        # the domain: static interval folding makes mk_le(l - hi) trivially true,
        # so it is asserted to Z3 directly
        self._domain(a)
        return SymInt(l)

    def _domain(self, a):
        key = ("dom", a)
        b = U.bools.get(key)
        if b is None:
            b = ir._mk_bool("domain", (a,))
            z = ir.z_atom(a)
            cs = []
            if a.lo != -INF:
                cs.append(z >= ir._zn(a.lo, a.real))
            if a.hi != INF:
                cs.append(z <= ir._zn(a.hi, a.real))
            b._z = z3.And(cs) if cs else z3.BoolVal(True)
            U.bools[key] = b
        if self.pos < len(self.events):
            e = self.events[self.pos]
            if e.b is not b:
                raise EngineError("nondeterministic declaration")
        else:
            self.events.append(Ev("A", b, True))
            v = U.model.get(a.name)
            if v is None or v < a.lo or v > a.hi:
                U.model[a.name] = a.lo if a.lo != -INF else 0
                U.stamp += 1
        self.pos += 1

    def real(self, name, lo=-INF, hi=INF):
        from .proxies import SymReal
        self.declared[name] = "real"
        a = ir.mk_var(name, lo, hi, real=True)
        self._domain(a)
        return SymReal(lvar(a), lconst(1))

    def bool(self, name):
        from .proxies import SymBool
        self.declared[name] = "bool"
        fx = self.fixed.get(name)
        if fx is not None:
            self.path_extra.setdefault("consts", {})[name] = bool(fx[0])
            return bool(fx[0])
        return SymBool(ir.mk_bvar(name))

    def flag(self, name):
        """a boolean decided right away"""
        return bool(self.bool(name))

    def choice(self, name, options):
        options = list(options)
        v = self.int(f"{name}/{len(options)}", 0, len(options) - 1)
        return options[v.__index__() if not type(v) is int else v]

    def pick(self, v):
        return v if isinstance(v, int) and type(v) is int else v.__index__()

    def check(self, cond, msg):
        self.stats.checks += 1
        b = to_bool(cond)
        self.obligations.append((b, msg))

    def observe(self, *vals):
        self.observed.append(vals)

    def cover(self, name):
        self.covered.add(name)

    def stop(self):
        raise PathStop()

    # ------------------------------------------------------------ logical helpers
    @staticmethod
    def And(*xs):
        from .proxies import SymBool
        return SymBool.wrap(mk_and([to_bool(x) for x in flat(xs)]))

    @staticmethod
    def Or(*xs):
        from .proxies import SymBool
        return SymBool.wrap(mk_or([to_bool(x) for x in flat(xs)]))

    @staticmethod
    def Not(x):
        from .proxies import SymBool
        return SymBool.wrap(mk_not(to_bool(x)))

    @staticmethod
    def Implies(a, b):
        from .proxies import SymBool
        return SymBool.wrap(mk_or([mk_not(to_bool(a)), to_bool(b)]))

    @staticmethod
    def Iff(a, b):
        from .proxies import SymBool
        return SymBool.wrap(mk_bite(to_bool(a), to_bool(b), mk_not(to_bool(b))))

    @staticmethod
    def If(c, x, y):
        from .proxies import SymInt, SymReal, to_lin, SymBool
        b = to_bool(c)
        if b is TRUE:
            return x
        if b is FALSE:
            return y
        if isinstance(x, bool) or isinstance(y, bool):
            return SymBool.wrap(mk_bite(b, to_bool(x), to_bool(y)))
        from .proxies import num_ite
        return num_ite(b, x, y)

    @staticmethod
    def Eq(x, y):
        return x == y

    # ------------------------------------------------------------ exploration
    def explore(self, fn, forced=None, fixed=None, on_path=None, donate=None):
        """Run ``fn(self)`` over every feasible path below the ``forced`` prefix."""
        from . import proxies
        self.fixed = fixed or {}
        first = True
        self.forced = list(forced or [])
        while True:
            self._reset_path()
            if first:
                ir.set_model({})
                first = False
                if not self.forced:
                    pass
            proxies.set_ctx(self)
            self.active = True
            status = "ok"
            try:
                fn(self)
            except PathStop:
                pass
            except PathAbort:
                status = "abort"
            except OutOfBudget:
                return False
            except Exception as e:
                # an exception the harness does not expect: the replay tells whether the
                # real code raises it as well
                self.obligations.append((FALSE, f"unexpected {type(e).__name__}: {e}"))
                if self.extra.get("trace"):
                    import traceback
                    traceback.print_exc()
            finally:
                proxies.set_ctx(None)
                self.active = False
                self.unpatch()
            if self.forced:
                # a forced prefix that was never consumed: nothing to explore here
                if status == "ok":
                    raise EngineError("work item prefix not consumed")
                return True
            # every event past pos (stale) cannot exist: paths are deterministic
            if status == "ok":
                self.stats.paths += 1
                self._finish_path(on_path)
            if donate is not None:
                donate(self)
            if self.deadline and time.time() > self.deadline:
                return False
            if not self._backtrack():
                return True

    def _finish_path(self, on_path):
        bad = None
        pend = []
        for b, msg in self.obligations:
            b2 = self.simp(b)
            if b2 is TRUE:
                continue
            if b2 is FALSE or not evb(b2):
                bad = (dict(U.model), [msg])
                break
            pend.append((b2, msg))
        if bad is None and pend:
            self._sync()
            r, m = self._check(mk_not(mk_and([b for b, _ in pend])))
            if r == z3.sat:
                keep = dict(U.model)
                ir.set_model(m)
                msgs = [msg for b, msg in pend if not evb(b)]
                bad = (m, msgs or ["(undetermined obligation)"])
                ir.set_model(keep)
            elif r != z3.unsat:
                self.inconclusive.append("unknown at property query: " + pend[0][1])
        if bad:
            self.stats.violating += 1
        if on_path is not None:
            on_path(self, bad)

    def values(self, model=None):
        """the inputs of this path under a model, for the concrete replay"""
        model = U.model if model is None else model
        out = {}
        consts = self.path_extra.get("consts", {})
        for n, k in self.declared.items():
            if n in consts:
                out[n] = consts[n]
                continue
            v = model.get(n)
            if v is None:
                if k == "bool":
                    v = False
                elif k == "str":
                    v = ""
                else:
                    a = U.atoms.get(("v", n))
                    v = a.lo if a is not None and a.lo != -INF else 0
            out[n] = v
        return out

    def _backtrack(self):
        while self.events:
            i = len(self.events) - 1
            e = self.events[i]
            if e.kind != "D" or e.flipped:
                # drop passive/exhausted tail lazily
                j = i
                while j >= 0 and (self.events[j].kind != "D" or self.events[j].flipped):
                    j -= 1
                if j < 0:
                    self._cut_all()
                    return False
                self._cut(j + 1) if j + 1 < len(self.events) else None
                i = j
                e = self.events[i]
            b, taken, hint = e.b, e.taken, e.hint
            self._cut(i)
            self._sync()
            ne = Ev("D", b, not taken, hint)
            ne.flipped = True
            self.events.append(ne)
            self._sync()
            r, m = self._check()
            if r == z3.sat:
                ir.set_model(m)
                return True
            if r != z3.unsat:
                self.inconclusive.append("unknown at branch")
            self._cut(i)
        return False

    def _cut_all(self):
        if self.levels:
            self.solver.pop(self.levels)
            self.levels = 0
        self.solver.reset()
        self.synced = 0
        self.events.clear()

    def prefix_for_donation(self):
        """shallowest decision whose other side is still open -> work item"""
        for i, e in enumerate(self.events):
            if e.kind == "D" and not e.flipped:
                e.flipped = True
                pre = [(x.kind, x.taken, x.hint) for x in self.events[:i] if x.kind != "A"]
                pre.append(("D", not e.taken, e.hint))
                return pre
        return None


def _cdiv(a, b):
    """ceil(a / b) for integers"""
    return -((-a) // b)


def _immutable(r):
    from .proxies import SymBool, SymInt, SymReal
    t = type(r)
    if t is tuple:
        return all(_immutable(x) for x in r)
    return t in (bool, int, SymBool, SymInt, SymReal, str, float) or r is None


class _DC:
    pass


_DONTCARE = _DC()


def flat(xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)) or hasattr(x, "__next__"):
            out.extend(flat(x))
        else:
            out.append(x)
    return out


def to_bool(x):
    from .proxies import SymBool, SymInt, SymReal
    t = type(x)
    if t is SymBool:
        return x.b
    if t is Bool:
        return x
    if t is SymInt:
        return mk_not(mk_eq(x.l))
    if t is SymReal:
        return mk_not(mk_eq(x.n))
    return TRUE if x else FALSE


def shape_of(r):
    from .proxies import SymBool, SymInt, SymReal
    t = type(r)
    if t is bool or t is SymBool:
        return "b"
    if t is int or t is SymInt:
        return "i"
    if t is tuple:
        s = tuple(shape_of(x) for x in r)
        return None if any(x is None for x in s) else ("t", s)
    if r is None:
        return "n"
    if t is str:
        return ("s", r)
    return ("o", id(r))


def _tree_bool(results, depth, s):
    if len(results) == 1 and len(results[0][0]) <= depth:
        return TRUE if shape_of(results[0][1]) == s else FALSE
    c = results[0][0][depth][0]
    t = [x for x in results if x[0][depth][1]]
    f = [x for x in results if not x[0][depth][1]]
    pt = _tree_bool(t, depth + 1, s) if t else FALSE
    pf = _tree_bool(f, depth + 1, s) if f else FALSE
    return mk_bite(c, pt, pf)


def _tree_val(results, depth):
    if len(results) == 1 and len(results[0][0]) <= depth:
        return results[0][1]
    c = results[0][0][depth][0]
    t = [x for x in results if x[0][depth][1]]
    f = [x for x in results if not x[0][depth][1]]
    vt = _tree_val(t, depth + 1) if t else _DONTCARE
    vf = _tree_val(f, depth + 1) if f else _DONTCARE
    return _ite_val(c, vt, vf)


def _ite_val(c, x, y):
    from .proxies import SymBool, num_ite
    if x is _DONTCARE:
        return y
    if y is _DONTCARE:
        return x
    if type(x) is tuple:
        return tuple(_ite_val(c, p, q) for p, q in zip(x, y))
    if x is None or type(x) is str:
        return x
    s = shape_of(x)
    if s == "b":
        return SymBool.wrap(mk_bite(c, to_bool(x), to_bool(y)))
    if s == "i":
        return num_ite(c, x, y)
    if x is y:
        return x
    raise MergeAbort()
