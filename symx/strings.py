"""Strings of a fixed length whose characters may be symbolic code points."""
import re

from . import proxies
from .proxies import SymInt, SymBool


def _ctx():
    return proxies._CTX


def _code(c):
    return ord(c) if isinstance(c, str) and type(c) is not SymStr else c


def _in(c, ranges):
    """c (a code point) is in one of the closed ranges"""
    if type(c) is int:
        return any(a <= c <= b for a, b in ranges)
    bs = []
    for a, b in ranges:
        bs.append((c == a) if a == b else _and(c >= a, c <= b))
    return _or(*bs)


def _and(*xs):
    from .core import Ctx
    return Ctx.And(*xs)


def _or(*xs):
    from .core import Ctx
    return Ctx.Or(*xs)


class SymStr:
    __slots__ = ("cs",)

    def __init__(self, cs):
        self.cs = list(cs)

    @staticmethod
    def wrap(cs):
        cs = list(cs)
        if all(type(c) is int for c in cs):
            return "".join(map(chr, cs))
        return SymStr(cs)

    @staticmethod
    def codes(s):
        if type(s) is SymStr:
            return s.cs
        return [ord(c) for c in s]

    @property
    def __class__(self):
        return str

    def real(self):
        """the string as such: forks over the values of its characters"""
        self.cs = [c if type(c) is int else c.__index__() for c in self.cs]
        return "".join(map(chr, self.cs))

    def __sym_evalue__(self):
        return "".join(chr(proxies.evalue(c)) for c in self.cs)

    def __deepcopy__(self, memo):
        return self

    def __str__(self):
        return self.real()

    def __repr__(self):
        return repr(self.real())

    def __format__(self, spec):
        return format(self.real(), spec)

    def __hash__(self):
        return hash(self.real())

    def __fspath__(self):
        return self.real()

    def __len__(self):
        return len(self.cs)

    def __bool__(self):
        return bool(self.cs)

    def __iter__(self):
        for c in self.cs:
            yield SymStr.wrap([c])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymStr.wrap(self.cs[i])
        return SymStr.wrap([self.cs[i]])

    def __add__(self, o):
        return SymStr.wrap(self.cs + self.codes(o))

    def __radd__(self, o):
        return SymStr.wrap(self.codes(o) + self.cs)

    def __mul__(self, n):
        return SymStr.wrap(self.cs * n)

    def _eq(self, o):
        if not isinstance(o, str):
            return False
        d = self.codes(o)
        if len(d) != len(self.cs):
            return False
        return _and(*[a == b for a, b in zip(self.cs, d)])

    def __eq__(self, o):
        return self._eq(o)

    def __ne__(self, o):
        return proxies.sym_not(self._eq(o))

    def _lt(self, o, strict):
        d = self.codes(o)
        for a, b in zip(self.cs, d):
            if bool(a == b):
                continue
            return a < b
        return len(self.cs) < len(d) if strict else len(self.cs) <= len(d)

    def __lt__(self, o):
        return self._lt(o, True)

    def __le__(self, o):
        return self._lt(o, False)

    def __gt__(self, o):
        return proxies.sym_not(self._lt(o, False))

    def __ge__(self, o):
        return proxies.sym_not(self._lt(o, True))

    def _at(self, i, d):
        return _and(*[a == b for a, b in zip(self.cs[i:i + len(d)], d)])

    def find(self, s, start=0):
        d = self.codes(s)
        for i in range(start, len(self.cs) - len(d) + 1):
            if bool(self._at(i, d)):
                return i
        return -1

    def __contains__(self, s):
        return self.find(s) >= 0

    def count(self, s):
        n, i = 0, 0
        while True:
            i = self.find(s, i)
            if i < 0:
                return n
            n, i = n + 1, i + max(1, len(s))

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self.real().split(sep, maxsplit)
        out, start = [], 0
        while maxsplit != 0:
            i = self.find(sep, start)
            if i < 0:
                break
            out.append(SymStr.wrap(self.cs[start:i]))
            start = i + len(sep)
            maxsplit -= 1
        out.append(SymStr.wrap(self.cs[start:]))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, "", ""
        return SymStr.wrap(self.cs[:i]), sep, SymStr.wrap(self.cs[i + len(sep):])

    def _one(self, s, end):
        d = self.codes(s)
        if len(d) > len(self.cs):
            return False
        return self._at(len(self.cs) - len(d) if end else 0, d)

    def startswith(self, s, *a):
        if a:
            return self.real().startswith(s, *a)
        return _or(*[self._one(x, False) for x in (s if isinstance(s, tuple) else (s,))])

    def endswith(self, s, *a):
        if a:
            return self.real().endswith(s, *a)
        return _or(*[self._one(x, True) for x in (s if isinstance(s, tuple) else (s,))])

    def _all(self, ranges):
        if any(type(c) is SymInt and proxies.ctx().iv(c.l)[1] > 127 for c in self.cs):
            return None
        return bool(self.cs) and _and(*[_in(c, ranges) for c in self.cs])

    def isdigit(self):
        r = self._all([(48, 57)])
        return self.real().isdigit() if r is None else r

    def isdecimal(self):
        r = self._all([(48, 57)])
        return self.real().isdecimal() if r is None else r

    def isnumeric(self):
        r = self._all([(48, 57)])
        return self.real().isnumeric() if r is None else r

    def isalpha(self):
        r = self._all([(65, 90), (97, 122)])
        return self.real().isalpha() if r is None else r

    def isalnum(self):
        r = self._all([(48, 57), (65, 90), (97, 122)])
        return self.real().isalnum() if r is None else r

    def isascii(self):
        return _and(*[_in(c, [(0, 127)]) for c in self.cs])

    def number(self):
        """int(self)"""
        if self.cs and bool(_and(*[_in(c, [(48, 57)]) for c in self.cs])):
            v = 0
            for c in self.cs:
                v = v * 10 + (c - 48)
            return v
        return int(self.real())

    def __int__(self):
        return int(self.real())

    def __float__(self):
        return float(self.real())

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.real(), name)


# ------------------------------------------------------------------ regular expressions
class Unsupported(Exception):
    pass


class SymMatch:
    def __init__(self, s, groups, pattern):
        self.s, self.groups_, self.re = s, groups, pattern
        self.string = s

    def span(self, g=0):
        if isinstance(g, str):
            g = self.re.groupindex[g]
        return self.groups_.get(g, (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _g(self, g, default=None):
        a, b = self.span(g)
        return default if a < 0 else SymStr.wrap(self.s.cs[a:b])

    def group(self, *gs):
        if not gs:
            return self._g(0)
        if len(gs) == 1:
            return self._g(gs[0])
        return tuple(self._g(g) for g in gs)

    def __getitem__(self, g):
        return self._g(g)

    def groups(self, default=None):
        return tuple(self._g(g, default) for g in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._g(g, default) for k, g in self.re.groupindex.items()}

    def __bool__(self):
        return True


CATS = {"CATEGORY_DIGIT": [(48, 57)], "CATEGORY_WORD": [(48, 57), (65, 90), (95, 95), (97, 122)],
        "CATEGORY_SPACE": [(9, 13), (32, 32)]}


class _Matcher:
    def __init__(self, cs, flags):
        self.cs, self.n = cs, len(cs)
        if flags & (re.I | re.M | re.S | re.X):
            raise Unsupported("flags")

    def item(self, c, op, av):
        name = str(op)
        if name == "LITERAL":
            return c == av
        if name == "NOT_LITERAL":
            return proxies.sym_not(c == av)
        if name == "ANY":
            return proxies.sym_not(c == 10)
        if name == "RANGE":
            return _in(c, [av])
        if name == "CATEGORY":
            cat = str(av)
            if type(c) is SymInt and _ctx().iv(c.l)[1] > 127:
                raise Unsupported("unicode category")
            if cat in CATS:
                return _in(c, CATS[cat])
            if cat.replace("_NOT_", "_") in CATS:
                return proxies.sym_not(_in(c, CATS[cat.replace("_NOT_", "_")]))
            raise Unsupported(cat)
        if name == "IN":
            neg = str(av[0][0]) == "NEGATE"
            b = _or(*[self.item(c, o, a) for o, a in (av[1:] if neg else av)])
            return proxies.sym_not(b) if neg else b
        raise Unsupported(name)

    def run(self, seq, k, i, groups):
        """every (end, groups) the sub-pattern can match from i on, in the engine's order"""
        if k == len(seq):
            yield i, groups
            return
        op, av = seq[k]
        name = str(op)
        if name in ("LITERAL", "NOT_LITERAL", "ANY", "RANGE", "IN", "CATEGORY"):
            if i < self.n and bool(self.item(self.cs[i], op, av)):
                yield from self.run(seq, k + 1, i + 1, groups)
        elif name in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
            lo, hi, sub = av
            for j, g in self.repeat(list(sub), lo, int(hi), i, groups, name):
                yield from self.run(seq, k + 1, j, g)
                if name == "POSSESSIVE_REPEAT":
                    return
        elif name == "SUBPATTERN":
            g, add, rem, sub = av
            if add or rem:
                raise Unsupported("flags")
            for j, gs in self.run(list(sub), 0, i, groups):
                if g is not None:
                    gs = dict(gs)
                    gs[g] = (i, j)
                yield from self.run(seq, k + 1, j, gs)
        elif name == "BRANCH":
            for sub in av[1]:
                for j, gs in self.run(list(sub), 0, i, groups):
                    yield from self.run(seq, k + 1, j, gs)
        elif name == "AT":
            a = str(av)
            if a in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
                ok = i == 0
            elif a == "AT_END_STRING":
                ok = i == self.n
            elif a == "AT_END":
                ok = i == self.n or (i == self.n - 1 and bool(self.cs[i] == 10))
            else:
                raise Unsupported(a)
            if ok:
                yield from self.run(seq, k + 1, i, groups)
        elif name in ("ASSERT", "ASSERT_NOT"):
            d, sub = av
            if d < 0:
                raise Unsupported("lookbehind")
            hit = next(self.run(list(sub), 0, i, groups), None)
            if (hit is not None) == (name == "ASSERT"):
                yield from self.run(seq, k + 1, i, groups)
        else:
            raise Unsupported(name)

    def repeat(self, sub, lo, hi, i, groups, name):
        if name != "MIN_REPEAT":
            if hi > 0:
                for j, g in self.run(sub, 0, i, groups):
                    if j == i and lo <= 0:
                        continue
                    yield from self.repeat(sub, lo - 1, hi - 1, j, g, name)
            if lo <= 0:
                yield i, groups
        else:
            if lo <= 0:
                yield i, groups
            if hi > 0:
                for j, g in self.run(sub, 0, i, groups):
                    if j == i and lo <= 0:
                        continue
                    yield from self.repeat(sub, lo - 1, hi - 1, j, g, name)


class SymPattern:
    """a compiled pattern that also takes symbolic strings"""

    def __init__(self, p):
        self.p = p
        self.seq = list(re._parser.parse(p.pattern, p.flags & ~re.U))

    def __getattr__(self, name):
        return getattr(self.p, name)

    def _go(self, s, mode, pos=0, *a):
        if type(s) is not SymStr:
            return getattr(self.p, mode)(s, pos, *a)
        if a:
            raise Unsupported("endpos")
        try:
            m = _Matcher(s.cs, self.p.flags & ~re.U)
            starts = range(pos, len(s.cs) + 1) if mode == "search" else [pos]
            for i in starts:
                for j, g in m.run(self.seq, 0, i, {}):
                    if mode == "fullmatch" and j != len(s.cs):
                        continue
                    g = dict(g)
                    g[0] = (i, j)
                    return SymMatch(s, g, self.p)
            return None
        except Unsupported:
            return getattr(self.p, mode)(s.real(), pos)

    def match(self, s, *a):
        return self._go(s, "match", *a)

    def fullmatch(self, s, *a):
        return self._go(s, "fullmatch", *a)

    def search(self, s, *a):
        return self._go(s, "search", *a)

    def findall(self, s, *a):
        if type(s) is not SymStr:
            return self.p.findall(s, *a)
        out = []
        for m in self.finditer(s):
            n = self.p.groups
            out.append(m.group() if not n else m.group(1) if n == 1 else m.groups(""))
        return out

    def finditer(self, s, *a):
        if type(s) is not SymStr:
            yield from self.p.finditer(s, *a)
            return
        i = 0
        while i <= len(s.cs):
            m = self._go(s, "search", i)
            if m is None:
                return
            yield m
            i = m.end() if m.end() > m.start() else m.end() + 1

    def _real(name):
        def f(self, *a, **k):
            return getattr(self.p, name)(*[x.real() if type(x) is SymStr else x for x in a], **k)
        return f

    split, sub, subn = _real("split"), _real("sub"), _real("subn")


class FakeRe:
    def __getattr__(self, name):
        if name in ("match", "fullmatch", "search", "findall", "finditer", "split", "sub", "subn"):
            def f(pattern, *a, flags=0, **k):
                p = pattern if isinstance(pattern, SymPattern) else \
                    SymPattern(re.compile(pattern, flags) if not isinstance(pattern, re.Pattern) else pattern)
                return getattr(p, name)(*a, **k)
            return f
        if name == "compile":
            return lambda p, flags=0: SymPattern(re.compile(p, flags))
        return getattr(re, name)


def install(ctx):
    """let the package's regular expressions take symbolic strings"""
    if not ctx.symbolic:
        return
    ctx.replace_globals([(re, FakeRe()), (re.match, FakeRe().match), (re.fullmatch, FakeRe().fullmatch),
                         (re.search, FakeRe().search), (re.compile, FakeRe().compile)])
    for mod in ctx.modules():
        for k, v in list(mod.__dict__.items()):
            if isinstance(v, re.Pattern):
                ctx.patch(mod.__dict__, k, SymPattern(v))
            elif isinstance(v, type) and v.__module__.startswith(ctx.alias):
                for a, x in list(v.__dict__.items()):
                    if isinstance(x, re.Pattern):
                        ctx.patch(v, a, SymPattern(x))
