"""Shared pieces of the harnesses."""

# longer than any id one would draw
LONG = "an item-id of more than forty characters, \u00e4nd with \U0001f4e6 s_gns" * 3
# ids that are parts of each other, differ in case or spaces only, look like numbers, are empty or long
IDS = ("i1", "i10", " i1", "", LONG, "I1", "i", "10", "1i ", LONG + "!", "i-1", "0")
CIDS = ("c1", "c10", " c1", "", LONG, "C1", "c", "10") + tuple(f"c1{k}" for k in range(7, 24))


def ids_of(n, ids=IDS):
    return [ids[k] if k < len(ids) else f"{ids[0]}{k}" for k in range(n)]


def number(ctx, name, n):
    """a number, any of a range (a tuple) or any of a list"""
    if isinstance(n, tuple):
        return ctx.pick(ctx.int(name, *n))
    return ctx.choice(name, n) if isinstance(n, list) else n


POINTS = ("A", "B", "C", "D", "A_", "B_", "B__", "A__", "E", "F")


class Strategy(tuple):
    """A strategy whose order is decided lazily: only the relative order of point classes
    that hold points at the same time is ever decided."""

    def __new__(cls, ctx, partial=False):
        s = super().__new__(cls, POINTS)
        s.ctx = ctx
        s.partial = partial     # points may be missing
        s.out = set()
        s.points = None
        s.prec = set()
        return s

    def _before(self, a, b):
        if (a, b) in self.prec:
            return True
        if (b, a) in self.prec:
            return False
        x, y = sorted((a, b))
        r = self.ctx.flag(f"S_{x}_{y}")
        p = (x, y) if r else (y, x)
        add = {(p[0], p[1])}
        pre = {q for q, z in self.prec if z == p[0]} | {p[0]}
        post = {z for q, z in self.prec if q == p[1]} | {p[1]}
        self.prec |= add | {(q, z) for q in pre for z in post}
        return p[0] == a

    def __iter__(self):
        if self.points is None:
            return super().__iter__()
        full = [k for k in POINTS if self.points[k]]
        if self.partial:
            for k in full:
                if not self.ctx.flag(f"I_{k}"):
                    self.out.add(k)
            full = [k for k in full if k not in self.out]
        best = None
        for k in full:
            if best is None or self._before(k, best):
                best = k
        return iter([k for k in linear(self.prec, first=best) if k not in self.out])


def linear(prec, first=None):
    """a total order compatible with the pairs"""
    left = list(POINTS)
    out = []
    while left:
        for k in left:
            if not any((q, k) in prec for q in left if q != k):
                out.append(k)
                left.remove(k)
                break
        else:
            raise AssertionError("cyclic order")
    if first is not None:
        # the classes before it are empty (or the order would have put them first)
        out.remove(first)
        out.insert(0, first)
    return out


def make_strategy(ctx, problem_cls, partial=False):
    """(class to instantiate, strategy to assign) with a symbolic strategy"""
    if ctx.symbolic:
        if "symstr" in ctx.disable or not hasattr(problem_cls, "_get_initial_potential_points"):
            return problem_cls, POINTS
        st = Strategy(ctx, partial)

        class P(problem_cls):
            def _get_initial_potential_points(self):
                d = super()._get_initial_potential_points()
                if set(POINTS) <= set(d):
                    st.points = d
                return d

        P.__name__ = problem_cls.__name__
        return P, st
    prec = set()
    for k, v in ctx.values.items():
        if k.startswith("S_"):
            for a in POINTS:
                for b in POINTS:
                    if k == f"S_{a}_{b}" and a < b:
                        prec.add((a, b) if v else (b, a))
    changed = True
    while changed:
        n = len(prec)
        prec |= {(a, d) for a, b in prec for c, d in prec if b == c}
        changed = len(prec) != n
    return problem_cls, tuple(k for k in linear(prec) if ctx.values.get(f"I_{k}", True))


def dims(ctx, name, lo, hi):
    return ctx.int(name, lo, hi)


def snapshot(sol):
    return {c: {i: list(v) for i, v in its.items()} for c, its in sol.items()}


def overlap(ctx, p, q):
    """the rectangles (x, y, w, l) share a cell"""
    return ctx.And(p[0] < q[0] + q[2], q[0] < p[0] + p[2], p[1] < q[1] + q[3], q[1] < p[1] + p[3])
