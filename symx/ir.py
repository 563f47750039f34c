"""Term language of the symbolic executor.

Hash-consed integer/real linear forms (``Lin``) over opaque atoms (``Atom``:
variables, if-then-else, monomials, floor-divisions) and boolean formulas
(``Bool``).  Every term can be evaluated under a concrete assignment and
translated to Z3.
"""
from fractions import Fraction
from math import gcd
import sys
import z3

sys.setrecursionlimit(20000)

INF = float("inf")


class Atom:
    __slots__ = ("id", "kind", "name", "lo", "hi", "real", "args", "_z", "_st", "_v")

    def __repr__(self):
        if self.kind == "v":
            return self.name
        return f"{self.kind}{self.id}"


class Lin:
    __slots__ = ("id", "terms", "c", "real", "_z", "_st", "_v", "_iv", "_le", "_lt", "_eq", "_neg")

    @property
    def const(self):
        return not self.terms

    def __repr__(self):
        s = "+".join((f"{k}*{a!r}" if k != 1 else repr(a)) for a, k in self.terms)
        return f"({s}+{self.c})" if s else str(self.c)


class Bool:
    __slots__ = ("id", "kind", "args", "_z", "_st", "_v", "_neg")

    def __repr__(self):
        return f"{self.kind}{self.args!r}"


class Universe:
    """Holds the hash-consing tables and the current concrete assignment."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.n = 0
        self.atoms = {}
        self.lins = {}
        self.bools = {}
        self.stamp = 1
        self.model = {}


U = Universe()


def _nid():
    U.n += 1
    return U.n


# ---------------------------------------------------------------- atoms / lin
def mk_var(name, lo, hi, real=False):
    key = ("v", name)
    a = U.atoms.get(key)
    if a is None:
        a = Atom()
        a.id, a.kind, a.name, a.lo, a.hi, a.real, a.args = _nid(), "v", name, lo, hi, real, ()
        a._z, a._st, a._v = None, 0, None
        U.atoms[key] = a
    elif (a.lo, a.hi, a.real) != (lo, hi, real):
        raise RuntimeError(f"variable {name} redeclared with another domain")
    return a


def _mk_atom(kind, args, lo, hi, real):
    key = (kind, args)
    a = U.atoms.get(key)
    if a is None:
        a = Atom()
        a.id, a.kind, a.name, a.lo, a.hi, a.real, a.args = _nid(), kind, None, lo, hi, real, args
        a._z, a._st, a._v = None, 0, None
        U.atoms[key] = a
    return a


def _norm_num(x):
    if type(x) is Fraction:
        if x.denominator == 1:
            return int(x)
        return x
    return x


def _tid(t):
    return t[0].id


def mk_lin(terms, c):
    """terms: dict atom->coef"""
    if type(c) is not int:
        c = _norm_num(c)
    ts = [(a, k if type(k) is int else _norm_num(k)) for a, k in terms.items() if k]
    if len(ts) > 1:
        ts.sort(key=_tid)
    ts = tuple(ts)
    key = (ts, c, type(c) is Fraction)
    l = U.lins.get(key)
    if l is None:
        l = Lin()
        l.id, l.terms, l.c = _nid(), ts, c
        l.real = type(c) is Fraction or any(a.real or type(k) is Fraction for a, k in ts)
        l._z, l._st, l._v, l._iv = None, 0, None, None
        l._le = l._lt = l._eq = l._neg = None
        U.lins[key] = l
    return l


_CONST = {}


def lconst(c):
    if type(c) is int:
        r = _CONST.get(c)
        if r is None:
            r = _CONST[c] = mk_lin({}, c)
        return r
    return mk_lin({}, c)


def lvar(a):
    return mk_lin({a: 1}, 0)


def ladd(x, y):
    r = _ADD.get((x, y))
    if r is None:
        r = _ADD[(x, y)] = _ladd(x, y)
    return r


_ADD = {}
_SUB = {}
_ADC = {}


def _ladd(x, y):
    if not y.terms and y.c == 0:
        return x
    if not x.terms and x.c == 0:
        return y
    d = dict(x.terms)
    for a, k in y.terms:
        d[a] = d.get(a, 0) + k
    return mk_lin(d, x.c + y.c)


def lscale(x, k):
    if k == 1:
        return x
    if k == -1:
        r = x._neg
        if r is None:
            r = x._neg = mk_lin({a: -c for a, c in x.terms}, -x.c)
            r._neg = x
        return r
    if k == 0:
        return lconst(0)
    return mk_lin({a: c * k for a, c in x.terms}, x.c * k)


def lsub(x, y):
    r = _SUB.get((x, y))
    if r is None:
        r = _SUB[(x, y)] = _lsub(x, y)
    return r


def _lsub(x, y):
    if x is y:
        return lconst(0)
    d = dict(x.terms)
    for a, k in y.terms:
        d[a] = d.get(a, 0) - k
    return mk_lin(d, x.c - y.c)


def ladc(x, c):
    if c == 0:
        return x
    r = _ADC.get((x, c))
    if r is None:
        r = mk_lin(dict(x.terms), x.c + c)
        if type(c) is int:
            _ADC[(x, c)] = r
    return r


def _mono(a):
    return a.args if a.kind == "mul" else (a,)


def lmul(x, y):
    if not x.terms:
        return lscale(y, x.c)
    if not y.terms:
        return lscale(x, y.c)
    d = {}
    c = x.c * y.c
    if x.c:
        for a, k in y.terms:
            d[a] = d.get(a, 0) + k * x.c
    if y.c:
        for a, k in x.terms:
            d[a] = d.get(a, 0) + k * y.c
    for a, k in x.terms:
        for b, m in y.terms:
            args = tuple(sorted(_mono(a) + _mono(b), key=lambda t: t.id))
            at = mk_mul(args)
            d[at] = d.get(at, 0) + k * m
    return mk_lin(d, c)


def _imul(i, j):
    def m(p, q):
        if p == 0 or q == 0:
            return 0
        return p * q
    v = [m(i[0], j[0]), m(i[0], j[1]), m(i[1], j[0]), m(i[1], j[1])]
    return min(v), max(v)


def mk_mul(args):
    iv = (args[0].lo, args[0].hi)
    for a in args[1:]:
        iv = _imul(iv, (a.lo, a.hi))
    return _mk_atom("mul", args, iv[0], iv[1], any(a.real for a in args))


def static_iv(l):
    if l._iv is None:
        lo = hi = l.c
        for a, k in l.terms:
            if k > 0:
                lo += k * a.lo
                hi += k * a.hi
            else:
                lo += k * a.hi
                hi += k * a.lo
        l._iv = (lo, hi)
    return l._iv


def mk_ite(c, x, y):
    """c: Bool, x,y: Lin -> Lin"""
    if c is TRUE:
        return x
    if c is FALSE:
        return y
    if x is y:
        return x
    if c.kind == "not":
        c, x, y = c.args[0], y, x
    ix, iy = static_iv(x), static_iv(y)
    a = _mk_atom("ite", (c, x, y), min(ix[0], iy[0]), max(ix[1], iy[1]), x.real or y.real)
    return lvar(a)


def mk_floordiv(x, k):
    assert k > 0
    if not x.terms:
        return lconst(x.c // k)
    if all(type(m) is int and m % k == 0 for _, m in x.terms) and not x.real:
        return mk_lin({a: m // k for a, m in x.terms}, x.c // k)
    lo, hi = static_iv(x)
    f = lambda v: v if v in (INF, -INF) else v // k
    return lvar(_mk_atom("fdiv", (x, k), f(lo), f(hi), False))


# ---------------------------------------------------------------- booleans
def _mk_bool(kind, args):
    key = (kind, args)
    b = U.bools.get(key)
    if b is None:
        b = Bool()
        b.id, b.kind, b.args = _nid(), kind, args
        b._z, b._st, b._v, b._neg = None, 0, None, None
        U.bools[key] = b
    return b


TRUE = _mk_bool("T", ())
FALSE = _mk_bool("F", ())


def reset_universe():
    global TRUE, FALSE
    t, f = TRUE, FALSE
    U.reset()
    for d in (_ADD, _SUB, _ADC):
        d.clear()
    for c, l in _CONST.items():
        U.lins[((), c, False)] = l
        l._z, l._st = None, 0
    U.bools[("T", ())] = t
    U.bools[("F", ())] = f
    t.id, f.id = _nid(), _nid()
    t._st = f._st = 0
    t._z = f._z = None


def bconst(v):
    return TRUE if v else FALSE


def mk_bvar(name):
    return _mk_bool("bv", (name,))


def mk_le(l):
    r = l._le
    if r is None:
        r = l._le = _mk_le(l)
    return r


def _mk_le(l):
    """l <= 0"""
    if not l.terms:
        return bconst(l.c <= 0)
    if not l.real:
        g = 0
        for _, k in l.terms:
            g = gcd(g, k)
        if g > 1:
            # sum(k/g * a) <= floor(-c/g)
            l = mk_lin({a: k // g for a, k in l.terms}, -((-l.c) // g))
        lo, hi = static_iv(l)
        if hi <= 0:
            return TRUE
        if lo > 0:
            return FALSE
        if len(l.terms) == 1:
            b = _push(l, "le")
            if b is not None:
                return b
        return _mk_bool("le", (l,))
    lo, hi = static_iv(l)
    if hi <= 0:
        return TRUE
    if lo > 0:
        return FALSE
    return _mk_bool("le", (l,))


def _push(l, op):
    """a comparison of an ITE whose leaves are constants becomes a formula"""
    a, k = l.terms[0]
    if a.kind != "ite":
        return None
    c, x, y = a.args
    if not _leafy(x) or not _leafy(y):
        return None
    return _push_rec(a, k, l.c, op)


_LEAFY = {}


def _leafy(x):
    if not x.terms:
        return True
    if len(x.terms) == 1 and x.terms[0][1] == 1 and x.c == 0 and x.terms[0][0].kind == "ite":
        _, p, q = x.terms[0][0].args
        return _leafy(p) and _leafy(q)
    return False


def _push_rec(a, k, c, op):
    key = ("push", a, k, c, op)
    r = U.bools.get(key)
    if r is not None:
        return r
    cond, x, y = a.args

    def leaf(v):
        if not v.terms:
            n = k * v.c + c
            return bconst(n <= 0 if op == "le" else n == 0)
        return _push_rec(v.terms[0][0], k, c, op)

    px, py = leaf(x), leaf(y)
    r = mk_bite(cond, px, py)
    U.bools[key] = r
    return r


def mk_bite(c, p, q):
    if p is q:
        return p
    if c is TRUE:
        return p
    if c is FALSE:
        return q
    if p is TRUE:
        return mk_or((c, q))
    if p is FALSE:
        return mk_and((mk_not(c), q))
    if q is TRUE:
        return mk_or((mk_not(c), p))
    if q is FALSE:
        return mk_and((c, p))
    return mk_or((mk_and((c, p)), mk_and((mk_not(c), q))))


def mk_lt(l):
    r = l._lt
    if r is None:
        r = l._lt = _mk_lt(l)
    return r


def _mk_lt(l):
    """l < 0"""
    if not l.real:
        return mk_le(ladc(l, 1))
    return mk_not(mk_le(lscale(l, -1)))


def mk_eq(l):
    r = l._eq
    if r is None:
        r = l._eq = _mk_eq(l)
    return r


def _mk_eq(l):
    """l == 0"""
    if not l.terms:
        return bconst(l.c == 0)
    lo, hi = static_iv(l)
    if lo > 0 or hi < 0:
        return FALSE
    if not l.real:
        g = 0
        for _, k in l.terms:
            g = gcd(g, k)
        if l.c % g:
            return FALSE
        if l.terms[0][1] < 0:
            g = -g
        if g != 1:
            l = mk_lin({a: k // g for a, k in l.terms}, l.c // g)
        if len(l.terms) == 1:
            b = _push(l, "eq")
            if b is not None:
                return b
    elif l.terms[0][1] < 0:
        l = lscale(l, -1)
    return _mk_bool("eq", (l,))


def mk_not(b):
    if b._neg is not None:
        return b._neg
    if b is TRUE:
        r = FALSE
    elif b is FALSE:
        r = TRUE
    elif b.kind == "not":
        r = b.args[0]
    elif b.kind == "le" and not b.args[0].real:
        r = mk_le(ladc(lscale(b.args[0], -1), 1))
    else:
        r = _mk_bool("not", (b,))
    b._neg = r
    if r._neg is None:
        r._neg = b
    return r


def _mk_nary(kind, xs, unit, zero):
    out = []
    seen = set()
    stack = list(xs)[::-1]
    while stack:
        b = stack.pop()
        if b is unit:
            continue
        if b is zero:
            return zero
        if b.kind == kind:
            stack.extend(reversed(b.args))
            continue
        if b in seen:
            continue
        if mk_not(b) in seen:
            return zero
        seen.add(b)
        out.append(b)
    if not out:
        return unit
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return _mk_bool(kind, tuple(out))


def mk_and(xs):
    return _mk_nary("and", xs, TRUE, FALSE)


def mk_or(xs):
    return _mk_nary("or", xs, FALSE, TRUE)


# ---------------------------------------------------------------- evaluation
def set_model(model):
    U.model = model
    U.stamp += 1


def ev_atom(a):
    if a._st == U.stamp:
        return a._v
    k = a.kind
    if k == "v":
        v = U.model.get(a.name)
        if v is None:
            v = a.lo if a.lo != -INF else (a.hi if a.hi != INF else 0)
            U.model[a.name] = v
    elif k == "ite":
        c, x, y = a.args
        v = ev(x) if evb(c) else ev(y)
    elif k == "mul":
        v = 1
        for b in a.args:
            v *= ev_atom(b)
    else:
        v = ev(a.args[0]) // a.args[1]
    a._st, a._v = U.stamp, v
    return v


def ev(l):
    if l._st == U.stamp:
        return l._v
    v = l.c
    for a, k in l.terms:
        v += k * ev_atom(a)
    v = _norm_num(v)
    l._st, l._v = U.stamp, v
    return v


def evb(b):
    if b._st == U.stamp:
        return b._v
    k = b.kind
    if k == "le":
        v = ev(b.args[0]) <= 0
    elif k == "eq":
        v = ev(b.args[0]) == 0
    elif k == "and":
        v = True
        for x in b.args:
            if not evb(x):
                v = False
                break
    elif k == "or":
        v = False
        for x in b.args:
            if evb(x):
                v = True
                break
    elif k == "not":
        v = not evb(b.args[0])
    elif k == "bv":
        v = U.model.get(b.args[0])
        if v is None:
            v = False
            U.model[b.args[0]] = v
    elif k == "ext":
        v = b.args[0].evaluate()
    else:
        v = b is TRUE
    b._st, b._v = U.stamp, v
    return v


# ---------------------------------------------------------------- variables in a term
def vars_of(b, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    stack = [b]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if type(x) is Lin:
            stack.extend(a for a, _ in x.terms)
        elif type(x) is Atom:
            if x.kind == "v":
                acc.add(x)
            elif x.kind == "fdiv":
                stack.append(x.args[0])
            else:
                stack.extend(x.args)
        elif x.kind in ("bv", "ext"):
            acc.add(x)
        else:
            stack.extend(x.args)
    return acc


# ---------------------------------------------------------------- Z3
def _zn(c, real):
    if real:
        f = Fraction(c)
        return z3.RealVal(f"{f.numerator}/{f.denominator}")
    return z3.IntVal(c)


def z_atom(a):
    if a._z is not None:
        return a._z
    if a.kind == "v":
        z = z3.Real(a.name) if a.real else z3.Int(a.name)
    elif a.kind == "ite":
        c, x, y = a.args
        z = z3.If(z_bool(c), z_lin(x, a.real), z_lin(y, a.real))
    elif a.kind == "mul":
        z = _z_mul(a.args)
    else:
        z = z_lin(a.args[0]) / z3.IntVal(a.args[1])  # Z3 Int div floors for positive divisors
    a._z = z
    return z


def _z_mul(args):
    """product with at most one wide factor left: the narrow ones are expanded by cases"""
    args = sorted(args, key=lambda t: (t.hi - t.lo, t.id))
    widest = args[-1]
    acc, anyreal = z_atom(widest), widest.real
    lo, hi = widest.lo, widest.hi
    for a in reversed(args[:-1]):
        if not a.real and a.hi - a.lo <= 40:
            za = z_atom(a)
            z = acc * a.hi
            for v in range(a.hi - 1, a.lo - 1, -1):
                z = z3.If(za == v, acc * v, z)
            acc = z
        else:
            acc = acc * z_atom(a)
    return acc


def z_lin(l, real=None):
    if real is None:
        real = l.real
    if l._z is not None and l.real == real:
        return l._z
    parts = []
    for a, k in l.terms:
        z = z_atom(a)
        if real and not a.real:
            z = z3.ToReal(z)
        parts.append(z if k == 1 else _zn(k, real) * z)
    if l.c != 0 or not parts:
        parts.append(_zn(l.c, real))
    z = parts[0] if len(parts) == 1 else z3.Sum(parts)
    if real == l.real:
        l._z = z
    return z


def z_bool(b):
    if b._z is not None:
        return b._z
    k = b.kind
    if k in ("le", "eq"):
        l = b.args[0]
        pos = mk_lin({a: c for a, c in l.terms if c > 0}, l.c if l.c > 0 else 0)
        neg = mk_lin({a: -c for a, c in l.terms if c < 0}, -l.c if l.c < 0 else 0)
        p, n = z_lin(pos, l.real), z_lin(neg, l.real)
        z = (p <= n) if k == "le" else (p == n)
    elif k == "and":
        z = z3.And([z_bool(x) for x in b.args])
    elif k == "or":
        z = z3.Or([z_bool(x) for x in b.args])
    elif k == "not":
        z = z3.Not(z_bool(b.args[0]))
    elif k == "bv":
        z = z3.Bool(b.args[0])
    elif k == "ext":
        z = b.args[0].z3()
    else:
        z = z3.BoolVal(b is TRUE)
    b._z = z
    return z


def mk_ext(obj):
    """an opaque boolean: obj.key (hashable), obj.evaluate(), obj.z3(), obj.decls()"""
    key = ("ext", obj.key)
    b = U.bools.get(key)
    if b is None:
        b = _mk_bool("ext", (obj,))
        U.bools[key] = b
    return b


_RV = {}


def has_rv(b):
    """does the term mention a predicated-loop variable?"""
    seen = set()
    stack = [b]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if type(x) is Lin:
            stack.extend(a for a, _ in x.terms)
        elif type(x) is Atom:
            if x.kind == "rv":
                return True
            if x.kind == "fdiv":
                stack.append(x.args[0])
            elif x.kind != "v":
                stack.extend(x.args)
        elif x.kind not in ("bv", "ext", "domain"):
            stack.extend(x.args)
    return False
