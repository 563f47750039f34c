"""Proxy values the real code runs on."""
from fractions import Fraction
import builtins
import threading

from . import ir
from .ir import (Lin, ladd, lsub, lmul, lscale, ladc, lconst, mk_le, mk_lt, mk_eq, mk_not,
                 mk_and, mk_or, mk_ite, static_iv, TRUE, FALSE)
from .core import MergeAbort, Restart, EngineError, to_bool

_CTX = None


def set_ctx(c):
    global _CTX
    _CTX = c


def ctx():
    if _CTX is None:
        raise RuntimeError("symbolic value used outside an exploration")
    return _CTX


def frac(x):
    if type(x) is float:
        return Fraction(repr(x))
    return Fraction(x)


# ------------------------------------------------------------------ booleans
class SymBool:
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b

    @staticmethod
    def wrap(b):
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        return SymBool(b)

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return ctx().decide(self.b)

    def __and__(self, o):
        if isinstance(o, bool):
            return SymBool.wrap(mk_and([self.b, to_bool(o)]))
        return _as_int(self) & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, bool):
            return SymBool.wrap(mk_or([self.b, to_bool(o)]))
        return _as_int(self) | o
    __ror__ = __or__

    def __xor__(self, o):
        a, c = self.b, to_bool(o)
        return SymBool.wrap(ir.mk_bite(a, mk_not(c), c))
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, bool):
            a, c = self.b, to_bool(o)
            return SymBool.wrap(ir.mk_bite(a, c, mk_not(c)))
        if isinstance(o, (int, float)):
            return _as_int(self) == o
        return False

    def __ne__(self, o):
        return sym_not(self.__eq__(o))

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def __add__(self, o):
        return _as_int(self) + o
    __radd__ = __add__

    def __mul__(self, o):
        return _as_int(self) * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return _as_int(self) - o

    def __rsub__(self, o):
        return o - _as_int(self)

    def __lt__(self, o):
        return _as_int(self) < o

    def __le__(self, o):
        return _as_int(self) <= o

    def __gt__(self, o):
        return _as_int(self) > o

    def __ge__(self, o):
        return _as_int(self) >= o

    def __repr__(self):
        if LOGGED.on:
            return "..."
        return repr(bool(self))

    def __format__(self, spec):
        if LOGGED.on:
            return "..."
        return format(bool(self), spec)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return (bool, (bool(self),))


def _as_int(b):
    return SymInt.wrap(mk_ite(b.b, lconst(1), lconst(0)))


def sym_not(x):
    t = type(x)
    if t is SymBool:
        return SymBool.wrap(mk_not(x.b))
    if t is SymInt:
        return SymBool.wrap(mk_eq(x.l))
    if t is SymReal:
        return SymBool.wrap(mk_eq(x.n))
    return not x


# ------------------------------------------------------------------ numbers
def lin_of(x):
    """Lin of an int-like value, or None"""
    t = type(x)
    if t is SymInt:
        return x.l
    if t is int or t is bool:
        return lconst(int(x))
    if t is SymBool:
        return mk_ite(x.b, lconst(1), lconst(0))
    if isinstance(x, int):
        return lconst(int(x))
    return None


to_lin = lin_of


def ratio_of(x):
    """(num, den) of a number or None"""
    t = type(x)
    if t is SymReal:
        return x.n, x.d
    l = lin_of(x)
    if l is not None:
        return l, ONE
    if isinstance(x, (float, Fraction)):
        if isinstance(x, float) and (x != x or x in (ir.INF, -ir.INF)):
            return None
        f = frac(x)
        return lconst(f), ONE
    return None


ONE = lconst(1)


def num_ite(b, x, y):
    """If(b, x, y) on numbers"""
    lx, ly = lin_of(x), lin_of(y)
    if lx is not None and ly is not None:
        return SymInt.wrap(mk_ite(b, lx, ly))
    rx, ry = ratio_of(x), ratio_of(y)
    if rx is None or ry is None:
        raise MergeAbort()
    if rx[1] is ry[1]:
        return SymReal(mk_ite(b, rx[0], ry[0]), rx[1])
    return SymReal(mk_ite(b, rx[0], ry[0]), mk_ite(b, rx[1], ry[1]))


def _cmp(op):
    def f(self, o):
        l = lin_of(o)
        if l is None:
            r = ratio_of(o)
            if r is None:
                if isinstance(o, float):
                    return _cmp_inf(op, o)
                return NotImplemented
            return getattr(SymReal(self.l, ONE), {"lt": "__lt__", "le": "__le__", "gt": "__gt__",
                                                  "ge": "__ge__"}[op])(o)
        if op == "lt":
            return SymBool.wrap(mk_lt(lsub(self.l, l)))
        if op == "le":
            return SymBool.wrap(mk_le(lsub(self.l, l)))
        if op == "gt":
            return SymBool.wrap(mk_lt(lsub(l, self.l)))
        return SymBool.wrap(mk_le(lsub(l, self.l)))
    return f


def _cmp_inf(op, o):
    if o != o:
        return False
    if o > 0:
        return op in ("lt", "le")
    return op in ("gt", "ge")


class SymInt:
    __slots__ = ("l",)

    def __init__(self, l):
        self.l = l

    @staticmethod
    def wrap(l):
        if not l.terms and type(l.c) is int:
            return l.c
        return SymInt(l)

    @property
    def __class__(self):
        return int

    # arithmetic
    def __add__(self, o):
        l = lin_of(o)
        if l is None:
            return SymReal(self.l, ONE) + o if isinstance(o, (float, Fraction)) else NotImplemented
        return SymInt.wrap(ladd(self.l, l))

    def __radd__(self, o):
        return self.__add__(o)

    def __sub__(self, o):
        l = lin_of(o)
        if l is None:
            return SymReal(self.l, ONE) - o if isinstance(o, (float, Fraction)) else NotImplemented
        return SymInt.wrap(lsub(self.l, l))

    def __rsub__(self, o):
        l = lin_of(o)
        if l is None:
            return o - SymReal(self.l, ONE) if isinstance(o, (float, Fraction)) else NotImplemented
        return SymInt.wrap(lsub(l, self.l))

    def __mul__(self, o):
        l = lin_of(o)
        if l is None:
            if isinstance(o, (float, Fraction)):
                return SymReal(self.l, ONE) * o
            if type(o) is list and len(o) == 1:
                return SymRepeat(o[0], self)
            if isinstance(o, (list, tuple, str)):
                return o * self.__index__()
            return NotImplemented
        return SymInt.wrap(lmul(self.l, l))

    def __rmul__(self, o):
        return self.__mul__(o)

    def __neg__(self):
        return SymInt(lscale(self.l, -1))

    def __pos__(self):
        return self

    def __abs__(self):
        return num_ite(mk_le(self.l), SymInt(lscale(self.l, -1)), self)

    def __truediv__(self, o):
        return SymReal(self.l, ONE) / o

    def __rtruediv__(self, o):
        r = ratio_of(o)
        if r is None:
            return NotImplemented
        return SymReal(*r) / self

    def __floordiv__(self, o):
        k = _posint(o)
        if k > 0:
            return SymInt.wrap(ir.mk_floordiv(self.l, k))
        return SymInt.wrap(ir.mk_floordiv(lscale(self.l, -1), -k))

    def __rfloordiv__(self, o):
        return o // self.__index__()

    def __mod__(self, o):
        k = _posint(o)
        return self - (self // k) * k

    def __rmod__(self, o):
        return o % self.__index__()

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, m=None):
        if type(o) is int and 0 <= o <= 4 and m is None:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return self.__index__() ** o

    def __rpow__(self, o):
        return o ** self.__index__()

    def __and__(self, o):
        return self.__index__() & _cint(o)
    __rand__ = __and__

    def __or__(self, o):
        return self.__index__() | _cint(o)
    __ror__ = __or__

    def __xor__(self, o):
        return self.__index__() ^ _cint(o)
    __rxor__ = __xor__

    def __lshift__(self, o):
        return self.__index__() << _cint(o)

    def __rshift__(self, o):
        return self.__index__() >> _cint(o)

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rrshift__(self, o):
        return o >> self.__index__()

    def __invert__(self):
        return -self - 1

    # comparisons
    __lt__ = _cmp("lt")
    __le__ = _cmp("le")
    __gt__ = _cmp("gt")
    __ge__ = _cmp("ge")

    def __eq__(self, o):
        l = lin_of(o)
        if l is None:
            r = ratio_of(o)
            if r is None:
                return False
            return SymReal(self.l, ONE) == o
        return SymBool.wrap(mk_eq(lsub(self.l, l)))

    def __ne__(self, o):
        return sym_not(self.__eq__(o))

    # conversions
    def __bool__(self):
        return ctx().decide(mk_not(mk_eq(self.l)))

    def __index__(self):
        return ctx().concretize(self.l)

    def __int__(self):
        return ctx().concretize(self.l)

    def __float__(self):
        return float(ctx().concretize(self.l))

    def __trunc__(self):
        return self

    def __ceil__(self):
        return self

    def __floor__(self):
        return self

    def __round__(self, n=None):
        return self

    def __hash__(self):
        return hash(ctx().concretize(self.l))

    def __repr__(self):
        if LOGGED.on:
            return "..."
        return repr(ctx().concretize(self.l))

    def __str__(self):
        if LOGGED.on:
            return "..."
        return str(ctx().concretize(self.l))

    def __format__(self, spec):
        if LOGGED.on:
            return "..."
        hook = _FORMAT_HOOK
        if hook is not None:
            return hook(self, spec)
        return format(ctx().concretize(self.l), spec)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return (int, (self.__index__(),))

    def is_integer(self):
        return True

    def bit_length(self):
        return self.__index__().bit_length()

    @property
    def real(self):
        return self

    @property
    def numerator(self):
        return self


_FORMAT_HOOK = None


class _Logged(threading.local):
    on = False


# on: the arguments of a disabled log call are evaluated, nobody sees what is formatted
LOGGED = _Logged()


def set_format_hook(h):
    global _FORMAT_HOOK
    _FORMAT_HOOK = h


def _cint(o):
    return o.__index__()


def _posint(o):
    if isinstance(o, float):
        raise TypeError("float floor division of a symbolic integer")
    k = o if type(o) is int else o.__index__()
    if k == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    return k


class SymReal:
    """num/den with den > 0 known on the current path"""
    __slots__ = ("n", "d")

    def __init__(self, n, d):
        self.n, self.d = n, d

    @property
    def __class__(self):
        return float

    @staticmethod
    def div(n, d):
        """n/d for arbitrary Lin d: decides the sign of d"""
        if not d.terms:
            if d.c == 0:
                raise ZeroDivisionError("division by zero")
            return SymReal(lscale(n, Fraction(1) / d.c), ONE)
        c = ctx()
        if c.decide(mk_eq(d)):
            raise ZeroDivisionError("division by zero")
        if c.decide(mk_lt(lscale(d, -1))):
            return SymReal(n, d)
        return SymReal(lscale(n, -1), lscale(d, -1))

    def _bin(self, o, f):
        r = ratio_of(o)
        if r is None:
            return NotImplemented
        return f(self.n, self.d, r[0], r[1])

    def __add__(self, o):
        if isinstance(o, float) and type(o) is float and o in (ir.INF, -ir.INF):
            return o
        return self._bin(o, lambda a, b, c, d: SymReal(ladd(a, c), b) if b is d else
                         SymReal(ladd(lmul(a, d), lmul(c, b)), lmul(b, d)))
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b, c, d: SymReal(lsub(a, c), b) if b is d else
                         SymReal(lsub(lmul(a, d), lmul(c, b)), lmul(b, d)))

    def __rsub__(self, o):
        r = ratio_of(o)
        if r is None:
            return NotImplemented
        return SymReal(*r) - self

    def __mul__(self, o):
        return self._bin(o, lambda a, b, c, d: SymReal(lmul(a, c), lmul(b, d)))
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, lambda a, b, c, d: SymReal.div(lmul(a, d), lmul(b, c)))

    def __rtruediv__(self, o):
        r = ratio_of(o)
        if r is None:
            return NotImplemented
        return SymReal(*r) / self

    def __neg__(self):
        return SymReal(lscale(self.n, -1), self.d)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymReal(mk_ite(mk_le(self.n), lscale(self.n, -1), self.n), self.d)

    def _diff(self, o):
        r = ratio_of(o)
        if r is None:
            return None
        if r[1] is self.d:
            return lsub(self.n, r[0])
        return lsub(lmul(self.n, r[1]), lmul(r[0], self.d))

    def _c(self, o, op):
        d = self._diff(o)
        if d is None:
            if isinstance(o, float):
                return _cmp_inf(op, o)
            return NotImplemented
        if op == "lt":
            return SymBool.wrap(mk_lt(d))
        if op == "le":
            return SymBool.wrap(mk_le(d))
        if op == "gt":
            return SymBool.wrap(mk_lt(lscale(d, -1)))
        return SymBool.wrap(mk_le(lscale(d, -1)))

    def __lt__(self, o):
        return self._c(o, "lt")

    def __le__(self, o):
        return self._c(o, "le")

    def __gt__(self, o):
        return self._c(o, "gt")

    def __ge__(self, o):
        return self._c(o, "ge")

    def __eq__(self, o):
        d = self._diff(o)
        if d is None:
            return False
        return SymBool.wrap(mk_eq(d))

    def __ne__(self, o):
        return sym_not(self.__eq__(o))

    def __bool__(self):
        return ctx().decide(mk_not(mk_eq(self.n)))

    def __floor__(self):
        if self.d.terms:
            d = ctx().concretize(self.d)
        else:
            d = self.d.c
        # n may have fractional coefficients: scale to integers
        n, k = self.n, Fraction(d)
        m = 1
        for c in [c for _, c in n.terms] + [n.c, k]:
            f = Fraction(c)
            m = m * f.denominator // _gcd(m, f.denominator)
        n2 = lscale(n, m)
        k2 = k * m
        if n2.real:
            raise MergeAbort()
        return SymInt.wrap(ir.mk_floordiv(n2, int(k2)))

    def __ceil__(self):
        r = (-self).__floor__()
        return -r

    def __trunc__(self):
        if self >= 0:
            return self.__floor__()
        return self.__ceil__()

    def __round__(self, n=None):
        if n is not None:
            return SymReal(lconst(0), ONE) + (self * (10 ** n)).__round__() / Fraction(10 ** n)
        # banker's rounding
        f = (self + Fraction(1, 2)).__floor__()
        tie = (self + Fraction(1, 2)) == f
        if tie if isinstance(tie, bool) and type(tie) is bool else bool(tie):
            return f - f % 2
        return f

    def __int__(self):
        return int(ctx().concretize(lin_of(self.__trunc__())))

    def __float__(self):
        c = ctx()
        return float(Fraction(c.concretize(self.n)) / Fraction(c.concretize(self.d)))

    def __hash__(self):
        return hash(self.__float__())

    def __repr__(self):
        if LOGGED.on:
            return "..."
        return repr(self.__float__())

    def __format__(self, spec):
        if LOGGED.on:
            return "..."
        if _FORMAT_HOOK is not None:
            return _FORMAT_HOOK(self, spec)
        return format(self.__float__(), spec)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return (float, (self.__float__(),))

    def is_integer(self):
        return self == self.__floor__()


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def evalue(x):
    """concrete value of anything under the current model"""
    t = type(x)
    if t is SymInt:
        return ir.ev(x.l)
    if t is SymBool:
        return ir.evb(x.b)
    if t is SymReal:
        return Fraction(ir.ev(x.n)) / Fraction(ir.ev(x.d))
    if t is list:
        return [evalue(v) for v in x]
    if t is tuple:
        return tuple(evalue(v) for v in x)
    if t is dict:
        return {evalue(k): evalue(v) for k, v in x.items()}
    if hasattr(t, "__sym_evalue__"):
        return x.__sym_evalue__()
    if isinstance(x, float):
        return frac(x) if x == x and x not in (ir.INF, -ir.INF) else x
    return x


# ------------------------------------------------------------------ ranges
class SymRange:
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    @property
    def __class__(self):
        return range

    def trip(self):
        """(number of iterations as a number, maximal number known)"""
        if self.step > 0:
            d = lsub(lin_of(self.hi), lin_of(self.lo))
        else:
            d = lsub(lin_of(self.lo), lin_of(self.hi))
        k = abs(self.step)
        if k != 1:
            d = lin_of(SymInt.wrap(ir.mk_floordiv(ladc(d, k - 1), k)))
        return d

    def __iter__(self):
        n = self.trip()
        k = 0
        c = ctx()
        while True:
            if not c.decide(mk_lt(lsub(lconst(k), n))):
                return
            yield self.lo + k * self.step
            k += 1

    def __len__(self):
        n = ctx().concretize(self.trip())
        return n if n > 0 else 0

    def symlen(self):
        n = self.trip()
        return SymInt.wrap(mk_ite(mk_le(n), lconst(0), n))

    def __bool__(self):
        return ctx().decide(mk_lt(lscale(self.trip(), -1)))

    def __contains__(self, v):
        return bool(self.contains(v))

    def contains(self, v):
        l = lin_of(v)
        if l is None:
            return False
        if abs(self.step) != 1:
            for x in self:
                if x == v:
                    return True
            return False
        if self.step > 0:
            return SymBool.wrap(mk_and([mk_le(lsub(lin_of(self.lo), l)), mk_lt(lsub(l, lin_of(self.hi)))]))
        return SymBool.wrap(mk_and([mk_le(lsub(l, lin_of(self.lo))), mk_lt(lsub(lin_of(self.hi), l))]))

    def __reversed__(self):
        n = self.trip()
        last = self.lo + (SymInt.wrap(n) - 1) * self.step
        return iter(SymRange(last, self.lo - self.step, -self.step))

    def __getitem__(self, i):
        return list(self)[i]


def sym_range(*a):
    if all(type(x) is int for x in a):
        return range(*a)
    if any(type(x) is not int and type(x) not in (SymInt, SymBool) for x in a):
        return range(*a)
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    st = st if type(st) is int else st.__index__()
    if st == 0:
        raise ValueError("range() arg 3 must not be zero")
    return SymRange(lo, hi, st)


# ------------------------------------------------------------------ arrays of cells
class SymRepeat:
    """[v] * n for symbolic n"""
    __slots__ = ("v", "n")

    def __init__(self, v, n):
        self.v, self.n = v, n

    @property
    def __class__(self):
        return list

    def _mat(self):
        n = ctx().concretize(lin_of(self.n))
        return [self.v] * n

    def __len__(self):
        return max(0, ctx().concretize(lin_of(self.n)))

    def __iter__(self):
        return iter(self._mat())

    def __getitem__(self, i):
        return self._mat()[i]

    def __add__(self, o):
        return self._mat() + list(o)

    def __radd__(self, o):
        return list(o) + self._mat()


class Grid:
    """write log of a two-dimensional block of cells (one or many rows)"""
    __slots__ = ("W", "H", "default", "log")

    def __init__(self, W, H, default):
        self.W, self.H, self.default = W, H, default
        self.log = []   # (guard Bool, y0, y1, x0, x1, value) half open, all Lin / int value

    def read(self, y, x):
        """value at row y (Lin) column x (Lin), both known in range"""
        v = lconst(self.default)
        c = ctx()
        for g, y0, y1, x0, x1, val in self.log:
            cond = mk_and([g, mk_le(lsub(y0, y)), mk_lt(lsub(y, y1)),
                           mk_le(lsub(x0, x)), mk_lt(lsub(x, x1))])
            cond = c.simp(cond)
            v = mk_ite(cond, lconst(val) if type(val) is int else lin_of(val), v)
        return SymInt.wrap(v)

    def any_nonzero(self, y, x0, x1):
        """exists x in [x0,x1) with cell(y,x) != 0"""
        if self.default != 0 or any(type(e[5]) is not int or e[5] == 0 for e in self.log):
            return None
        c = ctx()
        out = []
        for g, a, b, p, q, _ in self.log:
            # [p,q) and [x0,x1) intersect
            cond = mk_and([g, mk_le(lsub(a, y)), mk_lt(lsub(y, b)), mk_lt(lsub(p, q)),
                           mk_lt(lsub(p, x1)), mk_lt(lsub(x0, q))])
            out.append(c.simp(cond))
        return mk_and([mk_lt(lsub(x0, x1)), mk_or(out)])


def _norm_index(i, n):
    """python index -> Lin in range; raises IndexError on the path where it is not"""
    c = ctx()
    l = lin_of(i)
    if l is None:
        raise TypeError("indices must be integers")
    nl = lin_of(n)
    neg = c.simp(mk_lt(l))
    if neg is not FALSE:
        l = mk_ite(neg, ladd(l, nl), l)
    c.require(mk_and([mk_le(lscale(l, -1)), mk_lt(lsub(l, nl))]), IndexError)
    return l


def _norm_slice(s, n):
    c = ctx()
    if s.step is not None and s.step != 1:
        return None
    nl = lin_of(n)

    def norm(v, dflt):
        if v is None:
            return dflt
        l = lin_of(v)
        if l is None:
            raise TypeError("slice indices must be integers")
        neg = c.simp(mk_lt(l))
        if neg is not FALSE:
            m = ladd(l, nl)
            m = mk_ite(c.simp(mk_lt(m)), lconst(0), m)
            l = mk_ite(neg, m, l)
        over = c.simp(mk_lt(lsub(nl, l)))
        if over is not FALSE:
            l = mk_ite(over, nl, l)
        return l

    return norm(s.start, lconst(0)), norm(s.stop, nl)


def _touch_write():
    c = ctx()
    if c.frames:
        raise MergeAbort()
    return c


def _store_item(grid, y0, y1, i, n, value):
    c = _touch_write()
    x1 = None
    if type(i) is SymInt and i.l in c.range_vars:
        x, x1 = c.range_vars[i.l]
        nl = lin_of(n)
        ok = c.simp(mk_and([mk_le(lscale(x, -1)), mk_le(lsub(x1, nl))]))
        if ok is not TRUE:
            raise Restart(("pred", c.pred_loc))
    else:
        x = _norm_index(i, n)
        x1 = ladc(x, 1)
    if isinstance(value, bool):
        value = int(value)
    if not isinstance(value, int):
        raise TypeError("array item must be int")
    g = mk_and(c.guards)
    if c.guards and (ir.has_rv(x) or (type(value) is SymInt and ir.has_rv(value.l))
                     or ir.has_rv(y0) or ir.has_rv(y1)):
        raise Restart(("pred", c.pred_loc))
    grid.log.append((g, y0, y1, x, x1, value))


def _store_slice(grid, y0, y1, s, n, value):
    c = _touch_write()
    r = _norm_slice(s, n)
    if r is None:
        raise Restart("grid")
    a, b = r
    if type(value) is SymRow and value.fresh():
        vn, vv = lin_of(value.grid.W), value.grid.default
    elif type(value) is SymRepeat:
        raise TypeError("can only assign array (not list) to array slice")
    else:
        raise Restart("grid")
    # effective length max(0, b-a); the assignment must not resize the row
    eff = lsub(b, a)
    pos = mk_le(lsub(a, b))
    same = mk_or([mk_and([pos, mk_eq(lsub(eff, vn))]),
                  mk_and([mk_not(pos), mk_eq(vn)])])
    if c.guards:
        if any(ir.has_rv(t) for t in (a, b, vn, y0, y1)):
            raise Restart(("pred", c.pred_loc))
        same = c.simp(same)
        if same is not TRUE and not c.guarded_decide(mk_or([mk_not(mk_and(c.guards)), same])):
            raise Restart("grid")
    elif not c.decide(same):
        raise Restart("grid")
    grid.log.append((mk_and(c.guards), y0, y1, a, b, vv))


class SymRow:
    """one row: array("I", [v] * n)"""
    __slots__ = ("grid", "y", "own")

    def __init__(self, grid, y, own=False):
        self.grid, self.y, self.own = grid, y, own

    @property
    def __class__(self):
        import array
        return array.array

    typecode = "I"
    itemsize = 4

    def fresh(self):
        return not self.grid.log and type(self.grid.default) is int

    def _yr(self):
        c = ctx()
        y = self.y
        if type(y) is SymInt and c.guards:
            r = c.range_vars.get(y.l)
            if r is not None:
                return r
        l = lin_of(y)
        return l, ladc(l, 1)

    def __getitem__(self, i):
        if type(i) is slice:
            r = _norm_slice(i, self.grid.W)
            if r is None:
                return self._mat()[i]
            return RowSlice(self, r[0], r[1])
        x = _norm_index(i, self.grid.W)
        return self.grid.read(lin_of(self.y), x)

    def __setitem__(self, i, v):
        y0, y1 = self._yr()
        if type(i) is slice:
            _store_slice(self.grid, y0, y1, i, self.grid.W, v)
        else:
            _store_item(self.grid, y0, y1, i, self.grid.W, v)

    def __len__(self):
        return ctx().concretize(lin_of(self.grid.W))

    def symlen(self):
        return self.grid.W

    def __iter__(self):
        for x in SymRange(0, self.grid.W, 1) if type(self.grid.W) is not int else range(self.grid.W):
            yield self[x]

    def any(self):
        b = self.grid.any_nonzero(lin_of(self.y), lconst(0), lin_of(self.grid.W))
        if b is None:
            return None
        return SymBool.wrap(b)

    def _mat(self):
        import array
        return [x for x in self]

    def count(self, v):
        return sum(1 for x in self if x == v)

    def tolist(self):
        return self._mat()

    def __bool__(self):
        return ctx().decide(mk_lt(lscale(lin_of(self.grid.W), -1)))

    def __eq__(self, o):
        return self._mat() == list(o)

    def __contains__(self, v):
        return any(x == v for x in self)

    def __deepcopy__(self, memo):
        g = Grid(self.grid.W, self.grid.H, self.grid.default)
        g.log = list(self.grid.log)
        return SymRow(g, self.y)

    __copy__ = lambda self: self.__deepcopy__(None)

    def append(self, v):
        raise Restart("grid")
    extend = insert = pop = remove = append


class RowSlice:
    __slots__ = ("row", "a", "b")

    def __init__(self, row, a, b):
        self.row, self.a, self.b = row, a, b

    @property
    def __class__(self):
        import array
        return array.array

    def any(self):
        b = self.row.grid.any_nonzero(lin_of(self.row.y), self.a, self.b)
        if b is None:
            return None
        return SymBool.wrap(b)

    def __iter__(self):
        for x in SymRange(SymInt(self.a), SymInt(self.b), 1):
            yield self.row.grid.read(lin_of(self.row.y), lin_of(x))

    def __len__(self):
        return max(0, ctx().concretize(lsub(self.b, self.a)))

    def symlen(self):
        n = lsub(self.b, self.a)
        return SymInt.wrap(mk_ite(mk_le(n), lconst(0), n))

    def _mat(self):
        return list(iter(self))

    def __getitem__(self, i):
        return self._mat()[i]

    def __eq__(self, o):
        return self._mat() == list(o)

    def __contains__(self, v):
        return any(x == v for x in self)

    def count(self, v):
        return sum(1 for x in self if x == v)

    def tolist(self):
        return self._mat()

    def __bool__(self):
        return ctx().decide(mk_lt(lsub(self.a, self.b)))


class SymGrid:
    """[array("I", [0]*W) for y in range(L)]"""
    __slots__ = ("grid",)

    def __init__(self, grid):
        self.grid = grid

    @property
    def __class__(self):
        return list

    def __getitem__(self, i):
        if type(i) is slice:
            r = _norm_slice(i, self.grid.H)
            if r is None:
                return list(self)[i]
            return RowsView(self.grid, r[0], r[1])
        if type(i) is int and type(self.grid.H) is int:
            if i < 0:
                i += self.grid.H
            if not 0 <= i < self.grid.H:
                raise IndexError("list index out of range")
            return SymRow(self.grid, i)
        c = ctx()
        rv = c.range_vars
        if rv and type(i) is SymInt and i.l in rv and c.guards:
            lo, hi = rv[i.l]
            nl = lin_of(self.grid.H)
            ok = c.simp(mk_and([mk_le(lscale(lo, -1)), mk_le(lsub(hi, nl))]))
            if ok is not TRUE:
                bb = mk_or([mk_not(mk_and(c.guards)), ok])
                if not c.guarded_decide(bb):
                    raise Restart(("pred", c.pred_loc))
            return SymRow(self.grid, i)
        y = _norm_index(i, self.grid.H)
        return SymRow(self.grid, SymInt.wrap(y))

    def __setitem__(self, i, v):
        raise Restart("grid")

    def __len__(self):
        return ctx().concretize(lin_of(self.grid.H))

    def symlen(self):
        return self.grid.H

    def __iter__(self):
        for y in SymRange(0, self.grid.H, 1) if type(self.grid.H) is not int else range(self.grid.H):
            yield SymRow(self.grid, y)

    def __reversed__(self):
        h = self.grid.H
        rng = SymRange(h - 1, -1, -1) if type(h) is not int else range(h - 1, -1, -1)
        for y in rng:
            yield SymRow(self.grid, y)

    def __bool__(self):
        return ctx().decide(mk_lt(lscale(lin_of(self.grid.H), -1)))

    def __deepcopy__(self, memo):
        g = Grid(self.grid.W, self.grid.H, self.grid.default)
        g.log = list(self.grid.log)
        return SymGrid(g)

    def append(self, v):
        raise Restart("grid")
    extend = insert = pop = remove = append


class RowsView:
    """coords[a:b]"""
    __slots__ = ("grid", "a", "b")

    def __init__(self, grid, a, b):
        self.grid, self.a, self.b = grid, a, b

    @property
    def __class__(self):
        return list

    def __iter__(self):
        for y in SymRange(SymInt(self.a), SymInt(self.b), 1):
            yield SymRow(self.grid, y)

    def __len__(self):
        return max(0, ctx().concretize(lsub(self.b, self.a)))

    def __getitem__(self, i):
        return list(iter(self))[i]

    def __bool__(self):
        return ctx().decide(mk_lt(lsub(self.a, self.b)))
