"""Concrete twin of the symbolic context: runs the same harness on the pristine package
with the input values of a solver model."""
from fractions import Fraction
import sys


class ConcreteStop(BaseException):
    pass


class ConcreteAbort(BaseException):
    pass


class Base:
    """what both contexts offer to a harness"""

    def bind(self, alias):
        self.alias = alias
        self.hp = sys.modules[alias]
        self._patches = []

    def m(self, name):
        return sys.modules[self.alias + "." + name]

    def patch(self, obj, name, value):
        if isinstance(obj, dict):
            self._patches.append((obj, name, obj.get(name, _MISSING)))
            obj[name] = value
        else:
            old = obj.__dict__.get(name, _MISSING) if hasattr(obj, "__dict__") else getattr(obj, name)
            self._patches.append((obj, name, old))
            setattr(obj, name, value)

    def unpatch(self):
        while self._patches:
            obj, name, old = self._patches.pop()
            if isinstance(obj, dict):
                if old is _MISSING:
                    obj.pop(name, None)
                else:
                    obj[name] = old
            elif old is _MISSING:
                delattr(obj, name)
            else:
                setattr(obj, name, old)

    def modules(self):
        return [m for n, m in list(sys.modules.items())
                if (n == self.alias or n.startswith(self.alias + ".")) and ".benchmarks" not in n]

    def replace_globals(self, mapping):
        """replace, in every module of the package, the globals that are one of the given
        objects: mapping is a list of (object, replacement)"""
        n = 0
        for mod in self.modules():
            for k, v in list(mod.__dict__.items()):
                if k.startswith("__"):
                    continue
                for o, r in mapping:
                    if v is o:
                        self.patch(mod.__dict__, k, r)
                        n += 1
                        break
        return n

    @staticmethod
    def attempt(fn, *exc):
        """(result, exception) of fn(); exceptions outside exc propagate"""
        try:
            return fn(), None
        except (exc or (Exception,)) as e:
            return None, e

    def text(self, name, n, lo=32, hi=126):
        """a string of n arbitrary characters"""
        cs = [self.int(f"{name}{i}", lo, hi) for i in range(n)]
        if not self.symbolic:
            return "".join(map(chr, cs))
        from .strings import SymStr, install
        s = SymStr.wrap(cs)
        if type(s) is SymStr and "symstr" in self.disable:
            return s.real()
        return s

    def close(self, a, b, eps=Fraction(1, 10 ** 9)):
        d = a - b
        if isinstance(d, float) and self.symbolic is False:
            eps = float(eps)
        return self.And(d <= eps, d >= -eps)


_MISSING = object()


def denorm(v):
    if isinstance(v, str) and v.startswith("frac:"):
        return Fraction(v[5:])
    return v


def norm(v):
    if isinstance(v, Fraction):
        return v.numerator if v.denominator == 1 else f"frac:{v}"
    return v


class ConcreteCtx(Base):
    symbolic = False

    def __init__(self, values, alias="hpreal"):
        self.values = {k: denorm(v) for k, v in values.items()}
        self.failed = []
        self.observed = []
        self.covered = set()
        self.nchecks = 0
        self.path_extra = {}
        self.bind(alias)

    # inputs
    def int(self, name, lo, hi):
        v = self.values.get(name)
        if lo > hi:
            raise ConcreteAbort()
        if v is None:
            v = max(lo, min(hi, 0)) if lo > -10 ** 9 else 0
        v = int(v)
        if v < lo or v > hi:
            raise ConcreteAbort()
        return v

    def real(self, name, lo=None, hi=None):
        v = self.values.get(name, lo if lo is not None else 0)
        return float(v)

    def bool(self, name):
        return bool(self.values.get(name, False))

    flag = bool

    def str(self, name, *a, **k):
        return self.values.get(name, "")

    def choice(self, name, options):
        options = list(options)
        return options[self.int(f"{name}/{len(options)}", 0, len(options) - 1)]

    def pick(self, v):
        return v

    def assume(self, cond):
        if not cond:
            raise ConcreteAbort()

    def stop(self):
        raise ConcreteStop()

    def check(self, cond, msg):
        self.nchecks += 1
        if not cond:
            self.failed.append(msg)

    def observe(self, *vals):
        self.observed.append(vals)

    def cover(self, name):
        self.covered.add(name)

    # logic
    @staticmethod
    def _flat(xs):
        for x in xs:
            if isinstance(x, (list, tuple)) or hasattr(x, "__next__"):
                yield from ConcreteCtx._flat(x)
            else:
                yield x

    def And(self, *xs):
        return all([bool(x) for x in self._flat(xs)])

    def Or(self, *xs):
        return any([bool(x) for x in self._flat(xs)])

    def Not(self, x):
        return not x

    def Implies(self, a, b):
        return (not a) or bool(b)

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def If(self, c, x, y):
        return x if c else y

    def Eq(self, x, y):
        return x == y


def run_concrete(fn, values, params=None, alias="hpreal"):
    """-> (status, ctx): status is ok / aborted / raised"""
    c = ConcreteCtx(values, alias)
    status = "ok"
    try:
        fn(c, **(params or {}))
    except ConcreteStop:
        pass
    except ConcreteAbort:
        status = "aborted"
    except Exception as e:
        import traceback
        status = "raised"
        c.failed.append(f"unexpected {type(e).__name__}: {e}")
        c.traceback = traceback.format_exc()
    finally:
        c.unpatch()
    return status, c


def same(a, b):
    """an observation evaluated under the model equals the concrete one"""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (int, float, Fraction)) and isinstance(b, (int, float, Fraction)):
        if a == b:
            return True
        try:
            return abs(float(a) - float(b)) <= 1e-9 * max(1.0, abs(float(b)))
        except OverflowError:
            return False
    return a == b
