"""Stand-ins of the environment: clock, solver of one sequence, processes, queues."""
import time as _time
from itertools import permutations

from .common import POINTS


class Clock:
    """a clock that only moves when the harness moves it"""

    def __init__(self, ctx, now=0):
        self.ctx, self.now = ctx, now
        self.reads = 0

    def __call__(self, *a):
        self.reads += 1
        return self.now

    def advance(self, d):
        self.now = self.now + d

    def install(self):
        clock = self

        class FakeTime:
            def __getattr__(self, name):
                if name in ("time", "monotonic", "perf_counter"):
                    return clock
                return getattr(_time, name)

        self.ctx.replace_globals([(_time.time, self), (_time.monotonic, self),
                                  (_time.perf_counter, self), (_time, FakeTime())])
        return self


class Eval:
    __slots__ = ("k", "seq", "strategy", "v", "height", "complete", "start", "cont_height", "obj")


class Landscape:
    """solve() of a problem replaced by an arbitrary function (sequence, strategy) -> utilization;
    every evaluation leaves a solution that identifies it"""

    def __init__(self, ctx, p, R, clock=None, maxdur=0, cid="c", tag=""):
        self.ctx, self.p, self.R = ctx, p, R
        self.cids = [cid] if cid not in p.containers else list(p.containers)
        # the score of full utilization: with several containers the last one counts 7/10
        self.full = R if len(self.cids) == 1 else R * (10 * len(self.cids) - 3)
        self.parts = {}
        self.clock, self.maxdur, self.cid, self.tag = clock, maxdur, cid, tag
        self.values, self.marks = {}, {}
        self.evals = []
        self.ids = list(p.items)
        p.solve = self.solve
        p._solve = self._solve

    def value(self, seq, strategy):
        key = (tuple(seq), tuple(strategy))
        if key not in self.values and self.const is not None:
            self.parts[key] = (self.const,) * len(self.cids)
            self.values[key] = self.const
        elif key not in self.values and self.peaks is not None:
            u = self.base
            for pos, v in self.peaks:
                if pos == len(self.values):
                    u = v
            self.parts[key] = (u,)
            self.values[key] = u
        elif key not in self.values:
            perm = "".join(str(self.ids.index(i)) for i in key[0])
            s = self.strategy_name(key[1])
            name = f"u{self.tag}_{s}_{perm}"
            if len(self.cids) == 1:
                u = self.ctx.int(name, 0, self.R)
                self.parts[key] = (u,)
                self.values[key] = u
            else:
                us = self.parts[key] = [self.ctx.int(f"{name}_{c}", 0, self.R) for c in range(len(self.cids))]
                self.values[key] = 10 * sum(us[:-1], 0) + 7 * us[-1]
        return self.values[key]

    names = None
    const = None
    peaks = None
    late = None

    def sparse(self, base, peaks, last):
        """all the evaluations are alike but for a few, wherever they come in the search"""
        if len(self.cids) > 1:
            raise AssertionError("one container")
        self.base, self.peaks = base, []
        for k in range(peaks):
            pos = self.ctx.int(f"pos{self.tag}{k}_{last}", 0, last)
            if self.peaks:
                self.ctx.assume(pos > self.peaks[-1][0])
            self.peaks.append((pos, self.ctx.int(f"peak{self.tag}{k}", 0, self.R)))

    def linger(self, T, last):
        """only one evaluation, whichever it is, takes its time"""
        self.late = (self.ctx.int(f"late{self.tag}_{last}", 0, last), self.ctx.int(f"dur{self.tag}", 0, T + 1))

    def strategy_name(self, st):
        if self.names is None:
            return "d"
        return self.names.get(tuple(st), "d")

    def _solve(self, sequence=None, debug=False, **kw):
        seq = list(self.p.items) if sequence is None else list(sequence)
        if sorted(seq) != sorted(self.ids):
            self.ctx.check(False, "the items of an evaluated sequence are not the problem's items")
            self.ctx.stop()
        e = Eval()
        e.k, e.seq = len(self.evals), seq
        e.strategy = tuple(self.p.potential_points_strategy)
        e.start = self.clock.now if self.clock else 0
        e.v = self.value(seq, e.strategy)
        self.evals.append(e)
        if self.clock and self.late:
            if self.late[0] == e.k:
                self.clock.advance(self.late[1])
        elif self.clock and self.maxdur:
            self.clock.advance(self.ctx.int(f"d{self.tag}{e.k}", 0, self.maxdur))
        # the marker identifies (sequence, strategy): equal calls give equal solutions
        mark = self.marks.setdefault((tuple(seq), e.strategy), len(self.marks) + 1)
        # the items lie in any of the containers
        sol = {c: {} for c in self.cids}
        for k, i in enumerate(seq):
            sol[self.cids[k % len(self.cids)]][i] = [mark, 0, 1, 1]
        return sol, {c: self.ratio(u) for c, u in zip(self.cids, self.parts[tuple(seq), e.strategy])}

    def utilization_ok(self, key):
        """the problem's utilization is that of the solution it holds"""
        got = self.p.obj_val_per_container
        if list(got) != self.cids:
            return False
        return self.ctx.And([got[c] * self.R == u for c, u in zip(self.cids, self.parts[key])])

    def ratio(self, v):
        return v / self.R

    def solve(self, sequence=None, debug=False, **kw):
        self.p.solution, self.p.obj_val_per_container = self._solve(sequence, debug)

    def retained(self):
        """(sequence, strategy) of the solution the problem holds at the end"""
        try:
            marks = {r[0] for c in self.cids for r in self.p.solution[c].values()}
            if len(marks) == 1 and list(self.p.solution) == self.cids:
                key = list(self.marks)[marks.pop() - 1]
                n = len(self.cids)
                if all(set(self.p.solution[c]) == set(key[0][k::n]) for k, c in enumerate(self.cids)):
                    return key
        except (KeyError, IndexError, TypeError):
            pass
        return None


def strategies(k):
    """k different valid strategies (the default one is none of them)"""
    out = []
    for i in range(1, k + 1):
        if i > 9:
            break
        out.append(POINTS[i:] + POINTS[:i])
    # many: such that most of them only differ in a few points
    for s in permutations(POINTS[:5]):
        if len(out) < k:
            if s != POINTS[:5]:
                out.append(s + POINTS[5:])
    return out
