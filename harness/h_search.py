"""C07-C10, C25-C28: the searches."""
from itertools import combinations, permutations

from symx.runner import Job
from .common import ids_of, number, overlap, snapshot
from .stubs import Clock, Landscape, strategies

STUBS = ("solve() of one sequence replaced by an arbitrary deterministic function of (sequence, strategy) with "
         "values 0, 1/R .. 1; solve() itself is decided by C01-C06",
         "time.time replaced by a clock that advances by an arbitrary amount during every evaluation",
         "logging disabled")


# values apart by as little as a millionth
TOP = 2 ** 20


def problem(ctx, n, maxtime=10, strip=None, ncont=1):
    hp = ctx.hp
    # neither are they all oriented in the same way nor sorted
    items = {i: {"w": 1, "l": 1} if strip else {"w": 1 + k % 3, "l": 1 + (k + 1) % 3} for k, i in enumerate(ids_of(n))}
    kw = {"items": items, "settings": {"max_time_in_seconds": maxtime, "rotation": True}}
    if strip:
        return hp.HyperPack(strip_pack_width=strip, **kw)
    names = ["c"] + [f"d{k}" for k in range(1, ncont)]
    return hp.HyperPack(containers={c: {"W": 4, "L": 4} for c in names}, **kw)


def swaps(seq):
    for i, j in combinations(range(len(seq)), 2):
        s = list(seq)
        s[i], s[j] = s[j], s[i]
        yield s


def state(p):
    return (p.items.deepcopy(), list(p.items), p.containers.deepcopy(), dict(p.settings))


def evaluated(ctx, land):
    """nothing to decide when the search does not evaluate through the replaced solve()"""
    if not land.evals:
        ctx.stop()


def before_search(p, land, prior, again):
    """what happened before the search that is judged"""
    if prior == "solved":
        # with the items' sequence and the current strategy
        p.solve()
    elif prior == "other":
        p.solve(sequence=list(reversed(land.ids)))
    elif prior == "searched":
        again()
    elif prior == "local":
        p.local_search()
    elif prior == "hyper":
        sts = strategies(2)
        land.names = {**{s: f"b{i}" for i, s in enumerate(sts)}, **(land.names or {})}
        st, own = p.potential_points_strategy, p.get_strategies
        p.get_strategies = lambda **kw: list(sts)
        p.hypersearch(orientation=None, sorting_by=None)
        p.get_strategies = own
        p.potential_points_strategy = st
    if prior:
        # long ago
        land.clock.advance(10 ** 4)
    land.evals.clear()


def ls(ctx, n, R, T=0, throttle=None, check=None, prior=None, ncont=1, peaks=None):
    """one local_search over an arbitrary landscape"""
    n = number(ctx, "n", n)
    p = problem(ctx, n, maxtime=T or 10, ncont=ncont)
    clock = Clock(ctx, 100).install()
    land = Landscape(ctx, p, R, clock, maxdur=(T + 1) if T else 0)
    if peaks is not None:
        land.sparse(R // 2, peaks, peaks * n * (n - 1) // 2)
        if T:
            land.linger(T, (peaks + 1) * n * (n - 1) // 2)
    before, strat = state(p), p.potential_points_strategy
    kw = {}
    limit = None
    if throttle:
        limit = throttle
        ctx.patch(ctx.hp.HyperPack, "MAX_NEIGHBORS_THROTTLE", throttle)
        kw["throttle"] = ctx.flag("throttle")
        if not kw["throttle"]:
            limit = None
    before_search(p, land, prior, p.local_search)
    start = clock.now
    p.local_search(**kw)
    evaluated(ctx, land)
    ctx.observe(p.solution, p.obj_val_per_container, len(land.evals))
    return p, land, start, before, strat, limit


def best_of(ctx, land, p):
    key = land.retained()
    ctx.check(key is not None and any((tuple(e.seq), e.strategy) == key for e in land.evals),
              "the retained solution is not one that was evaluated")
    if key is None:
        ctx.stop()
    return key, land.values[key]


def c08(ctx, **kw):
    p, land, start, before, strat, limit = ls(ctx, **kw)
    key, best = best_of(ctx, land, p)
    ctx.check(land.utilization_ok(key),
              "the retained utilization is not the retained solution's")
    for e in land.evals:
        ctx.check(e.v <= best, "a better evaluated solution was not retained")
    ctx.check(ctx.And(land.evals[0].seq == before[1], land.evals[0].v <= best),
              "the search does not start from the items' sequence")
    # local optimum, unless something documented stopped the search
    stopped = ctx.Or(best >= land.full, clock_out(ctx, kw, land, start))
    if limit is None:
        done = {tuple(e.seq) for e in land.evals}
        rest = [s for s in swaps(key[0]) if tuple(s) not in done]
        if rest:
            ctx.cover("stopped before a local optimum")
            ctx.check(stopped, "the search ended although a neighbour of the retained sequence was never tried")
        else:
            ctx.cover("local optimum")
    if len(land.evals) > 1 and key[0] != tuple(before[1]):
        ctx.cover("moved to a better node")


def clock_out(ctx, kw, land, start):
    if not kw.get("T"):
        return False
    return land.clock.now - start >= kw["T"]


def c09_ls(ctx, **kw):
    p, land, start, before, strat, limit = ls(ctx, **kw)
    T = kw["T"]
    late = 0
    for e in land.evals:
        late = late + ctx.If(e.start - start >= T, 1, 0)
    ctx.check(late <= 1, "the local search goes on after its time is over")
    if len(land.evals) > 2:
        ctx.cover("several evaluations")
    best_of(ctx, land, p)


def c28(ctx, **kw):
    p, land, start, before, strat, limit = ls(ctx, **kw)
    # split the trace in nodes: a node ends with an evaluation better than all before
    best = land.evals[0].v
    per = 0
    for e in land.evals[1:]:
        per += 1
        if limit is not None:
            ctx.check(per <= limit, "more neighbours of a node were tried than the throttle allows")
        if e.v > best:
            best = e.v
            per = 0
            ctx.cover("new node")
    if limit is not None and per == limit:
        ctx.cover("throttled")
    n = len(land.ids)
    if limit is None:
        # the last node has no better neighbour: all of them must have been tried
        ctx.check(ctx.Or(best >= land.full, per >= n * (n - 1) // 2),
                  "neighbours were left out without throttle")
    else:
        ctx.check(ctx.Or(best >= land.full, per >= min(limit, n * (n - 1) // 2)),
                  "fewer neighbours were tried than the throttle allows")


def c28_hs(ctx, R, k, n, limit, peaks=1):
    """every strategy of a hypersearch, however late, is throttled as asked"""
    n = number(ctx, "n", n)
    k = number(ctx, "k", k)
    ctx.patch(ctx.hp.HyperPack, "MAX_NEIGHBORS_THROTTLE", limit)
    p = problem(ctx, n)
    land = Landscape(ctx, p, R, Clock(ctx, 100).install())
    total = n * (n - 1) // 2
    thr = ctx.choice("throttle", [True, False, "default"])
    per = total if thr is False else min(limit, total)
    land.sparse(R // 2, peaks, k * per)
    sts = strategies(k)
    p.get_strategies = lambda **kw: list(sts)
    p.hypersearch(orientation=None, sorting_by=None, **({} if thr == "default" else {"throttle": thr}))
    evaluated(ctx, land)
    init = land.evals.pop(0)
    full = ctx.Or([e.v >= land.full for e in [init] + land.evals])
    for st in sts:
        evals = [e for e in land.evals if e.strategy == st]
        best, got = None, 0
        for e in evals:
            if best is None:
                best = e.v
                continue
            got += 1
            ctx.check(got <= per, "more neighbours of a node were tried than the throttle allows")
            if e.v > best:
                # the next node
                best, got = e.v, 0
        ctx.check(ctx.Or(full, got >= per), "fewer neighbours of a strategy's last node were tried than the throttle allows")
        if got == per < total:
            ctx.cover("throttled")


def c28_large(ctx, lo, hi):
    """the documented throttle with as many items as it takes"""
    n = ctx.pick(ctx.int("n", lo, hi))
    p = problem(ctx, n)
    land = Landscape(ctx, p, 2, Clock(ctx, 100).install())
    land.const = 1
    thr = ctx.flag("throttle")
    before = state(p)
    p.local_search(throttle=thr)
    evaluated(ctx, land)
    total = n * (n - 1) // 2
    ctx.check(len(land.evals) - 1 == (min(total, 2500) if thr else total), "number of neighbours tried")
    seen = {tuple(e.seq) for e in land.evals}
    ctx.check(len(seen) == len(land.evals), "a neighbour is tried twice")
    ids = list(p.items)
    ctx.check(all(sum(a != b for a, b in zip(s, ids)) == 2 for s in seen if s != tuple(ids)), "a sequence was tried that is not a neighbour")
    if thr and total > 2500:
        ctx.cover("throttled")
    ctx.check(state(p) == before, "the search changed the problem")


def c28_num(ctx):
    """the number of neighbours per node, for any number of items"""
    p = problem(ctx, 2)
    n = ctx.int("n", 1, 120)
    thr = ctx.bool("throttle")
    limit = p.MAX_NEIGHBORS_THROTTLE
    got = p.get_max_neighbors_num(thr, n)
    total = n * (n - 1)
    ctx.check(ctx.If(ctx.And(thr, total > 2 * limit), got == limit, got * 2 == total),
              "number of neighbours per node")
    ctx.check(limit == 2500, "the documented throttle is 2500 neighbours")


# ------------------------------------------------------------------ hypersearch
def hs(ctx, n, R, k, T=0, custom=False, prior=None, ncont=1, peaks=None, throttle=None):
    n = number(ctx, "n", n)
    k = number(ctx, "k", k)
    if throttle:
        ctx.patch(ctx.hp.HyperPack, "MAX_NEIGHBORS_THROTTLE", throttle)
    p = problem(ctx, n, maxtime=T or 10, ncont=ncont)
    clock = Clock(ctx, 100).install()
    land = Landscape(ctx, p, R, clock, maxdur=(T + 1) if T else 0)
    # no number: the problem's own strategies
    sts = strategies(k) if k else [tuple(st) for st in p.get_strategies()]
    k = len(sts)
    land.names = {s: f"s{i}" for i, s in enumerate(sts)}
    if peaks is not None:
        last = k * (min(throttle or 10 ** 6, n * (n - 1) // 2) + 1)
        land.sparse(R // 2, peaks, last)
        if T:
            land.linger(T, last)
    if custom:
        init = tuple(reversed(sts[0]))
        p.potential_points_strategy = init
    p.get_strategies = lambda **kw: list(sts)
    before_search(p, land, prior, lambda: p.hypersearch(orientation=None, sorting_by=None))
    init = tuple(p.potential_points_strategy)
    before = state(p)
    start = clock.now
    p.hypersearch(orientation=None, sorting_by=None)
    evaluated(ctx, land)
    ctx.observe(p.solution, p.obj_val_per_container, list(p.best_strategy), len(land.evals))
    return p, land, sts, init, before, start


def c10(ctx, **kw):
    p, land, sts, init, before, start = hs(ctx, **kw)
    key, best = best_of(ctx, land, p)
    ctx.check(land.utilization_ok(key),
              "the retained utilization is not the retained solution's")
    for e in land.evals:
        ctx.check(e.v <= best, "a better evaluated solution was not retained")
    ctx.check(tuple(p.best_strategy) == key[1], "best_strategy is not the strategy of the retained solution")
    tried = {e.strategy for e in land.evals}
    ctx.check(tried <= set(sts) | {init}, "a strategy was tried that is not one of the search's")
    if not set(sts) <= tried:
        ctx.cover("stopped early")
        over = land.clock.now - start > (kw.get("T") or 10 ** 6)
        ctx.check(ctx.Or(best >= land.full, over), "strategies were left out without a stopping criterion")
    else:
        ctx.cover("all strategies tried")
    if key[1] == init:
        ctx.cover("initial solution remains")
    # every strategy starts from the items' own sequence
    seen = set()
    for e in land.evals:
        if e.strategy not in seen:
            seen.add(e.strategy)
            ctx.check(e.seq == before[1], "a strategy's search does not start from the items' sequence")
    # and goes on to a local optimum of its own
    if kw.get("throttle") or kw.get("T"):
        return
    for st in sts:
        evals = [e for e in land.evals if e.strategy == st]
        if not evals:
            continue
        top = evals[0]
        for e in evals[1:]:
            if e.v > top.v:
                top = e
        done = {tuple(e.seq) for e in evals}
        if any(tuple(s) not in done for s in swaps(top.seq)):
            ctx.check(best >= land.full, "a strategy's search ended although a neighbour of its best sequence was never tried")
        else:
            ctx.cover("local optimum of a strategy")


def c09_hs(ctx, **kw):
    p, land, sts, init, before, start = hs(ctx, **kw)
    T = kw["T"]
    late = 0
    for e in land.evals:
        late = late + ctx.If(e.start - start > T, 1, 0)
    ctx.check(late <= 2, "the hypersearch goes on after its time is over")
    best_of(ctx, land, p)
    # strategies begun after the time is over: only the first one
    seen = []
    for e in land.evals[1:]:
        if e.strategy not in seen:
            if seen:
                ctx.check(e.start - start <= T, "a further strategy is begun after the time is over")
                ctx.cover("further strategy")
            seen.append(e.strategy)


def c26(ctx, hyper=True, **kw):
    if hyper:
        p, land, sts, init, before, start = hs(ctx, **kw)
    else:
        p, land, start, before, strat, limit = ls(ctx, **kw)
    full = None
    for e in land.evals:
        if full is not None:
            ctx.check(e.strategy == full.strategy,
                      "another strategy is tried after all the containers are fully utilized")
            ctx.check(full is init_eval,
                      "neighbours are evaluated after reaching full utilization in the search")
        elif e.v >= land.full:
            full = e
            ctx.cover("full utilization")
        # the first evaluation of a strategy is its initial solution
        if full is e:
            first = next(x for x in land.evals if x.strategy == e.strategy)
            init_eval = e if first is e else None
    if full is not None:
        key = land.retained()
        ctx.check(key is not None and land.values[key] >= land.full, "the full utilization was not retained")
    if full is land.evals[0] and hyper:
        ctx.cover("initially full")
        ctx.check(len(land.evals) == 1, "the search goes on although the initial solution is full")


def c25(ctx, hyper, **kw):
    if hyper:
        p, land, sts, init, before, start = hs(ctx, **kw)
    else:
        p, land, start, before, strat, limit = ls(ctx, **kw)
        ctx.check(tuple(p.potential_points_strategy) == tuple(strat), "the local search changed the strategy")
    after = state(p)
    ctx.check(after[1] == before[1], "the search changed the items' sequence")
    ctx.check(after[0] == before[0], "the search changed the items")
    ctx.check(after[2] == before[2], "the search changed the containers")
    ctx.check(after[3] == before[3], "the search changed the settings")
    ctx.check(list(p.solution) == list(p.containers), "the solution has not the containers of the problem")


# ------------------------------------------------------------------ strip packing
class StripLandscape(Landscape):
    """evaluations of a strip: complete ones of height h (density A/h) or incomplete ones"""

    def __init__(self, ctx, p, A, a, hmax, **kw):
        self.A, self.a, self.hmax = A, a, hmax
        super().__init__(ctx, p, 1, cid=p.STRIP_PACK_CONT_ID, **kw)

    def _solve(self, sequence=None, debug=False, **kw):
        ctx, p = self.ctx, self.p
        seq = list(p.items) if sequence is None else list(sequence)
        if sorted(seq) != sorted(self.ids):
            ctx.check(False, "the items of an evaluated sequence are not the problem's items")
            ctx.stop()
        e = Eval_()
        e.k, e.seq, e.strategy = len(self.evals), seq, tuple(p.potential_points_strategy)
        e.start = self.clock.now if self.clock else 0
        e.cont_height = H = p.container_height
        # a strip of this height may only have room for a part of the items
        alike = self.peaks is not None
        for pos in self.peaks or ():
            if pos == e.k:
                alike = False
        if alike:
            e.complete = bool(H >= self.base)
            area = self.A if e.complete else self.a
            e.height = self.base if e.complete else H
            return self.done(e, area)
        if H >= self.A:
            e.complete = ctx.flag(f"full{self.tag}{e.k}")
        else:
            e.complete = False
        area = self.A if e.complete else self.a
        e.height = ctx.int(f"h{self.tag}{e.k}", self.a, self.hmax)
        ctx.assume(e.height >= area)
        ctx.assume(e.height <= H)
        return self.done(e, area)

    def done(self, e, area):
        e.obj = area / e.height
        e.v = e.obj
        self.evals.append(e)
        ids = self.ids if e.complete else self.ids[:-1]
        sol = {self.cid: {i: [e.k, 0, 1, 1 if j else e.height] for j, i in enumerate(ids)}}
        return sol, {self.cid: e.obj}

    def sparse(self, peaks, last):
        self.base = self.ctx.int("base", self.A, self.hmax)
        self.peaks = []
        for k in range(peaks):
            pos = self.ctx.int(f"pos{k}_{last}", 0, last)
            if self.peaks:
                self.ctx.assume(pos > self.peaks[-1])
            self.peaks.append(pos)

    def retained(self):
        try:
            marks = {r[0] for r in self.p.solution[self.cid].values()}
            if len(marks) == 1:
                return self.evals[marks.pop()]
        except (KeyError, IndexError, TypeError):
            pass
        return None


class Eval_:
    pass


def c07(ctx, n, hmax, hyper=0, minheight=False, peaks=None, throttle=None, prior=None):
    A, a = 3, 2
    n = number(ctx, "n", n)
    p = problem(ctx, n, strip=1)
    clock = Clock(ctx, 100).install()
    if throttle:
        ctx.patch(ctx.hp.HyperPack, "MAX_NEIGHBORS_THROTTLE", throttle)
    H0 = ctx.int("H", A, hmax)
    p.container_height = H0
    m = None
    if minheight:
        m = ctx.int("m", 1, hmax)
        ctx.assume(m <= H0)
        p.container_min_height = m
    land = StripLandscape(ctx, p, A, a, hmax, clock=clock)
    if peaks is not None:
        per = n * (n - 1) // 2
        if throttle:
            per = min(per, throttle)
        land.sparse(peaks, ((hyper or peaks) + 1) * (per + 1))
        ctx.assume(land.base <= H0)
    def search():
        if hyper:
            p.hypersearch(orientation=None, sorting_by=None)
        else:
            p.local_search()
    if hyper:
        sts = strategies(hyper)
        p.get_strategies = lambda **kw: list(sts)
    if prior:
        # a search that lowered the strip, whose height is then set again
        land.tag = "before"
        if prior == "local":
            p.local_search()
        else:
            search()
        land.tag = ""
        if minheight:
            ctx.check(p.container_min_height == m, "the search changed container_min_height")
        p.container_height = H0
        clock.advance(10 ** 4)
        land.evals.clear()
    search()
    evaluated(ctx, land)
    ctx.observe(p.solution, p.obj_val_per_container, p.container_height, len(land.evals))
    e = land.retained()
    ctx.check(e is not None, "the retained solution is not one that was evaluated")
    if e is None:
        ctx.stop()
    ctx.check(p.obj_val_per_container[land.cid] == e.obj, "the retained utilization is not the retained solution's")
    evs = land.evals
    # the strip never grows, and only gets as low as an evaluated stack
    for x, y in zip(evs, evs[1:]):
        ctx.check(y.cont_height <= x.cont_height, "the strip's height grew during the search")
    ctx.check(p.container_height <= evs[-1].cont_height, "the strip's height grew during the search")
    ctx.check(p.container_height <= H0, "the strip's height grew during the search")
    if m is None:
        if evs[0].complete:
            ctx.cover("complete at start")
            ctx.check(e.complete, "a solution missing items replaced a complete one")
        if not e.complete:
            ctx.check(e is evs[0], "a solution missing items was accepted")
        # every local search starts with the first evaluation of its strategy
        first = {}
        for x in evs[1:] if hyper else evs:
            first.setdefault(x.strategy, x)
        for x in evs:
            if not x.complete:
                continue
            s = evs[0] if x is evs[0] else first[x.strategy]
            counts = True if s.complete else x.obj > s.obj
            if e.complete:
                ctx.check(ctx.Implies(counts, e.height <= x.height), "a lower complete solution was not retained")
            else:
                ctx.check(ctx.Implies(counts, x.obj <= e.obj), "a better complete solution was not accepted")
        if e.complete and e is not evs[0]:
            ctx.cover("improved")
        # the strip is pushed to the height of complete solutions only
        ctx.check(ctx.Or(p.container_height == H0, [ctx.And(x.complete, p.container_height == x.height) for x in evs]),
                  "the strip's height is neither the initial nor that of an accepted solution")
        if e.complete:
            ctx.check(p.container_height >= e.height, "the strip is lower than the retained stack")
        # after accepting a better complete solution the search continues in a strip of that height
        best = evs[0].obj
        for x, y in zip(evs[1:], evs[2:]):
            if x.complete and x.obj > best and not hyper:
                best = x.obj
                ctx.check(y.cont_height == x.height, "the strip was not pushed to the better solution's height")
                ctx.cover("ratchet")
    else:
        ctx.check(p.container_height >= m, "the strip went below container_min_height")
        ctx.check(p.container_min_height == m, "the search changed container_min_height")
        for x in evs:
            ctx.check(x.cont_height >= m, "the strip went below container_min_height")
            ctx.check(x.obj <= e.obj, "a better utilization was not retained")
        if not hyper:
            best = evs[0].obj
            for x, y in zip(evs[1:], evs[2:]):
                if x.obj > best:
                    best = x.obj
                    ctx.check(y.cont_height == ctx.If(x.height > m, x.height, m),
                              "the strip was not pushed to the better solution's height")
                    ctx.cover("ratchet")


# ------------------------------------------------------------------ searches of real problems
def real(ctx, n, M, W, L, ncont=1, k=0, strip=False, rot=None):
    """a search of small problems with the real solve(): (problem, values of all sequences)"""
    hp = ctx.hp
    rotation = ctx.bool("rot") if rot is None else rot
    its = {i: {"w": ctx.int(f"w{j}", 1, M), "l": ctx.int(f"l{j}", 1, M)} for j, i in enumerate(ids_of(n))}
    conts = {c: {"W": W, "L": L} for c in ["c"] + [f"d{j}" for j in range(1, ncont)]}

    def new():
        kw = {"items": {i: dict(d) for i, d in its.items()}, "settings": {"rotation": rotation}}
        if strip:
            q = hp.HyperPack(strip_pack_width=W, **kw)
            q.container_height = L
            return q
        return hp.HyperPack(containers={c: dict(d) for c, d in conts.items()}, **kw)
    p, q = new(), new()
    sts = strategies(k) if k else [p.potential_points_strategy]
    init = tuple(p.potential_points_strategy)
    Clock(ctx, 100).install()
    if k:
        p.get_strategies = lambda **kw: list(sts)
        p.hypersearch(orientation=None, sorting_by=None)
    else:
        p.local_search()
    ctx.observe(p.solution, p.obj_val_per_container)
    sol, util = snapshot(p.solution), dict(p.obj_val_per_container)
    for i, d in its.items():
        ctx.check(ctx.And(p.items[i]["w"] == d["w"], p.items[i]["l"] == d["l"]), "the search changed the items")
    ctx.check(list(p.items) == list(its), "the search changed the items' order")
    runs = {}
    for st in dict.fromkeys([init] + list(sts)):
        q.potential_points_strategy = st
        for seq in permutations(its):
            if st not in sts and seq != tuple(its):
                continue
            q.solve(sequence=list(seq))
            runs[seq, st] = (snapshot(q.solution), dict(q.obj_val_per_container))
    return p, sol, util, runs, init, sts, its


def equal(ctx, a, b):
    if list(a) != list(b) or any(set(a[c]) != set(b[c]) for c in a):
        return False
    return ctx.And([u == v for c in a for i in a[c] for u, v in zip(a[c][i], b[c][i])])


def score(util):
    us = list(util.values())
    return us[0] if len(us) == 1 else sum(us[:-1], 0) + 7 * us[-1] / 10


def c08_real(ctx, **kw):
    p, sol, util, runs, init, sts, its = real(ctx, **kw)
    start = score(runs[tuple(its), init][1])
    mine = score(util)
    ctx.check(mine >= start - 1e-9, "the search ends with less than solve() gives")
    # it is the solution of a sequence with no better neighbour
    opt = []
    for (seq, st), (s, u) in runs.items():
        v = score(u)
        near = [score(runs[tuple(t), st][1]) for t in swaps(seq)]
        opt.append(ctx.And(equal(ctx, s, sol), [util[c] == u[c] for c in u],
                           ctx.Or(v >= 1 - 1e-9 if len(u) == 1 else v >= len(u) - 0.3 - 1e-9,
                                  ctx.And([v >= x - 1e-9 for x in near]))))
        if seq != tuple(its) and v > start + 1e-9:
            ctx.cover("better than the first")
    ctx.check(ctx.Or(opt), "the retained solution is not that of a local optimum")


def c10_real(ctx, **kw):
    p, sol, util, runs, init, sts, its = real(ctx, **kw)
    mine = score(util)
    st = tuple(p.best_strategy)
    ctx.check(any(s == st for q, s in runs), "best_strategy is none of the search's")
    ctx.check(ctx.Or([ctx.And(equal(ctx, s, sol), [util[c] == u[c] for c in u])
                      for (seq, t), (s, u) in runs.items() if t == st]),
              "the retained solution is not one of best_strategy")
    for (seq, t), (s, u) in runs.items():
        # with two items every local search sees both sequences
        if len(its) <= 2 or seq == tuple(its):
            ctx.check(mine >= score(u) - 1e-9, "a better solution was not retained")
    if mine > score(runs[tuple(its), init][1]) + 1e-9:
        ctx.cover("better than the first")


def c07_real(ctx, n, M, W, L, k=0):
    p, sol, util, runs, init, sts, its = real(ctx, n, M, W, L, strip=True, k=k)
    (cid,) = sol
    H = p.container_height
    ctx.check(H <= L, "the strip's height grew during the search")

    def height(s):
        top = 0
        for r in s[cid].values():
            top = ctx.If(r[1] + r[3] > top, r[1] + r[3], top)
        return top
    first = runs[tuple(its), init][0]
    mine = height(sol)
    if len(first[cid]) == n:
        ctx.cover("complete at start")
        ctx.check(len(sol[cid]) == n, "a solution missing items replaced a complete one")
        if len(sol[cid]) == n:
            ctx.check(mine <= height(first), "a higher solution replaced a lower one")
            ctx.check(H >= mine, "the strip is lower than the retained stack")
            if mine < height(first):
                ctx.cover("improved")
    elif len(sol[cid]) != n:
        ctx.check(equal(ctx, sol, first), "a solution missing items was accepted")
    # wherever it ended, the retained stack is one the items can have
    rects = list(sol[cid].items())
    area = 0
    for j, (i, r) in enumerate(rects):
        area = area + r[2] * r[3]
        ctx.check(ctx.And(r[0] >= 0, r[1] >= 0, r[0] + r[2] <= W, r[1] + r[3] <= L), "an item lies outside the strip")
        for _, t in rects[:j]:
            ctx.check(ctx.Not(overlap(ctx, r, t)), "two items overlap")
    if rects:
        ctx.check(ctx.close(util[cid] * (W * mine), area, 1e-6), "the retained utilization is not the retained solution's")


def realjob(fn, name, mandatory=True, covers=(), budget=None, tiers=("quick", "thorough"), **kw):
    b = (f"{kw['n']} items of any w, l in 1..{kw['M']}" + ("" if fn is c07_real else ", rotation on and off")
         + (f"; strip of width {kw['W']} and height {kw['L']}" if fn is c07_real else
            f"; {kw.get('ncont', 1)} container(s) {kw['W']} x {kw['L']}")
         + (f"; {kw['k']} strategies" if kw.get("k") else ""))
    return Job(name, fn, b, kw, tiers=tiers, mandatory=mandatory, covers=covers, budget=budget,
               stubs=("the clock stands still", "logging disabled"))


def lsjob(fn, name, mandatory=True, tiers=("quick", "thorough"), covers=(), budget=None, **params):
    names = {"peaks": "all evaluations alike but for this many, at any point of the search", "n": "items", "R": "utilization levels above 0", "T": "time limit, evaluations last 0..T+1", "k": "strategies",
             "custom": "initial strategy none of them", "hmax": "highest strip", "hyper": "strategies",
             "minheight": "container_min_height set", "prior": "the problem was before", "ncont": "containers", "throttle": "limit of neighbours"}
    b = ", ".join(f"{names.get(k, k)}: {v}" for k, v in params.items())
    return Job(name, fn, b, params,
               tiers=tiers, mandatory=mandatory, covers=covers, budget=budget, stubs=STUBS)


JOBS = {
    "C07": [
        lsjob(c07, "local-two", n=2, hmax=7),
        lsjob(c07, "local-three", n=3, hmax=6, covers=("complete at start", "improved", "ratchet")),
        lsjob(c07, "local-min-height", n=3, hmax=4, minheight=True, covers=("ratchet",)),
        lsjob(c07, "hyper", n=2, hmax=6, hyper=2),
        lsjob(c07, "hyper-min-height", n=2, hmax=5, hyper=2, minheight=True),
        lsjob(c07, "local-three-high", n=3, hmax=8, mandatory=False, tiers=("thorough",)),
        lsjob(c07, "local-min-height-high", n=3, hmax=6, minheight=True, mandatory=False, tiers=("thorough",)),
        lsjob(c07, "hyper-min-height-high", n=2, hmax=6, hyper=2, minheight=True, mandatory=False, tiers=("thorough",)),
        lsjob(c07, "local-small-steps", n=3, hmax=10 ** 6, peaks=2, covers=("improved",)),
        lsjob(c07, "local-searched-before", n=2, hmax=7, prior="local", covers=("complete at start", "improved")),
        lsjob(c07, "hyper-searched-before", n=2, hmax=9, hyper=2, peaks=2, prior="local", covers=("complete at start", "improved")),
        lsjob(c07, "hyper-hypersearched-before", n=2, hmax=9, hyper=2, peaks=2, prior="hyper", covers=("complete at start", "improved")),
        lsjob(c07, "min-height-searched-before", n=2, hmax=9, minheight=True, peaks=1, prior="local"),
        lsjob(c07, "local-many", n=(4, 6), hmax=10 ** 6, peaks=2, covers=("improved", "ratchet")),
        lsjob(c07, "local-many-min-height", n=(4, 6), hmax=10 ** 6, peaks=1, minheight=True, covers=("ratchet",)),
        lsjob(c07, "hyper-many", n=2, hmax=10 ** 6, hyper=8, peaks=2, covers=("improved",)),
        lsjob(c07, "local-thirty", n=[12, 30], hmax=9, peaks=1, throttle=3, covers=("improved",)),
        lsjob(c07, "hyper-many-both", n=[4, 12, 30], hmax=9, hyper=5, peaks=1, throttle=2, covers=("improved",)),
        lsjob(c07, "local-more", n=(7, 9), hmax=9, peaks=2, mandatory=False, tiers=("thorough",)),
        lsjob(c07, "hyper-three", n=2, hmax=7, hyper=3, mandatory=False),
        realjob(c07_real, "real-local", n=3, M=3, W=4, L=6, covers=("complete at start", "improved")),
        realjob(c07_real, "real-hyper", n=2, M=4, W=4, L=6, k=3, covers=("complete at start", "improved")),
        realjob(c07_real, "real-hyper-three", n=3, M=3, W=3, L=6, k=2, mandatory=False),
        realjob(c07_real, "real-local-four", n=4, M=2, W=3, L=5, mandatory=False),
    ],
    "C08": [
        lsjob(c08, "two-items", n=2, R=TOP),
        lsjob(c08, "three-items", n=3, R=TOP, covers=("local optimum", "moved to a better node")),
        lsjob(c08, "three-items-time", n=3, R=TOP, T=2, covers=("stopped before a local optimum",), mandatory=False),
        lsjob(c08, "two-items-time", n=2, R=TOP, T=2),
        lsjob(c08, "four-items", n=4, R=TOP, mandatory=False),
        lsjob(c08, "many-items", n=(4, 7), R=TOP, peaks=2, covers=("local optimum", "moved to a better node")),
        lsjob(c08, "many-items-time", n=(4, 7), R=1024, peaks=1, T=2, covers=("stopped before a local optimum",)),
        lsjob(c08, "more-items", n=[8, 12, 20], R=TOP, peaks=1, covers=("moved to a better node",)),
        lsjob(c08, "even-more-items", n=(8, 12), R=1024, peaks=2, mandatory=False, tiers=("thorough",)),
        lsjob(c08, "solved-before", n=3, R=TOP, prior="solved"),
        lsjob(c08, "other-solved-before", n=2, R=TOP, prior="other"),
        lsjob(c08, "searched-before", n=3, R=TOP, prior="searched"),
        lsjob(c08, "hypersearched-before", n=3, R=1024, peaks=2, prior="hyper", covers=("local optimum",)),
        lsjob(c08, "hypersearched-before-time", n=3, R=1024, peaks=1, T=2, prior="hyper", covers=("local optimum",), mandatory=False),
        lsjob(c08, "two-containers", n=3, R=2, ncont=2),
        lsjob(c08, "three-containers", n=2, R=2, ncont=3),
        realjob(c08_real, "real-two", n=2, M=8, W=8, L=8, covers=("better than the first",)),
        realjob(c08_real, "real-three", n=3, M=4, W=4, L=2, ncont=2, covers=("better than the first",)),
        realjob(c08_real, "real-four", n=4, M=2, W=4, L=2),
        realjob(c08_real, "real-three-square", n=3, M=4, W=4, L=4, mandatory=False),
    ],
    "C09": [
        lsjob(c09_ls, "local-three", n=3, R=3, T=2, covers=("several evaluations",)),
        lsjob(c09_hs, "hyper-two", n=2, R=3, k=2, T=2, covers=("further strategy",)),
        lsjob(c09_hs, "hyper-three", n=1, R=3, k=3, T=3),
        lsjob(c09_hs, "hyper-three-items", n=3, R=3, k=2, T=2, mandatory=False),
        lsjob(c09_ls, "local-many", n=(4, 9), R=1024, T=5, peaks=1, covers=("several evaluations",)),
        lsjob(c09_hs, "hyper-many-strategies", n=1, R=1024, k=40, T=5, peaks=1, covers=("further strategy",)),
        lsjob(c09_hs, "hyper-many-both", n=[2, 12, 30], R=1024, k=10, T=5, peaks=1, throttle=2, covers=("further strategy",)),
        lsjob(c09_hs, "hyper-many-items", n=(3, 5), R=1024, k=2, T=5, peaks=1, covers=("further strategy",)),
        lsjob(c09_ls, "local-more", n=(10, 12), R=1024, T=5, peaks=1, mandatory=False, tiers=("thorough",)),
        lsjob(c09_ls, "local-solved-before", n=3, R=2, T=2, prior="solved"),
        lsjob(c09_ls, "local-hypersearched-before", n=2, R=1, T=2, prior="hyper"),
        lsjob(c09_hs, "hyper-searched-before-one", n=1, R=2, k=2, T=2, prior="searched"),
        lsjob(c09_hs, "hyper-searched-before", n=2, R=2, k=2, T=2, prior="searched", mandatory=False),
    ],
    "C10": [
        lsjob(c10, "one-item", n=1, R=TOP, k=3, custom=True),
        lsjob(c10, "two-items", n=2, R=TOP, k=2, covers=("all strategies tried", "stopped early", "initial solution remains")),
        lsjob(c10, "two-items-custom", n=2, R=TOP, k=2, custom=True),
        lsjob(c10, "time", n=1, R=TOP, k=3, T=2),
        lsjob(c10, "two-items-three-strategies", n=2, R=TOP, k=3, mandatory=False),
        lsjob(c10, "three-items", n=3, R=TOP, k=2, mandatory=False),
        lsjob(c10, "many-strategies", n=1, R=TOP, k=40, peaks=2, covers=("all strategies tried", "stopped early")),
        lsjob(c10, "many-items", n=(3, 5), R=1024, k=3, peaks=1, covers=("all strategies tried",)),
        lsjob(c10, "many-both", n=[2, 12, 25, 55], R=1024, k=30, peaks=1, throttle=1, covers=("all strategies tried",)),
        lsjob(c10, "all-strategies", n=(1, 40), R=TOP, k=0, peaks=0, throttle=1, covers=("all strategies tried",)),
        lsjob(c10, "all-strategies-better", n=1, R=1024, k=0, peaks=1, mandatory=False),
        lsjob(c10, "solved-before", n=2, R=TOP, k=2, prior="solved"),
        lsjob(c10, "other-solved-before", n=2, R=TOP, k=2, prior="other"),
        lsjob(c10, "searched-before", n=2, R=1024, k=3, peaks=2, prior="searched"),
        lsjob(c10, "local-searched-before", n=3, R=1024, k=2, peaks=2, prior="local"),
        lsjob(c10, "time-searched-before", n=1, R=1024, k=3, peaks=1, T=2, prior="searched"),
        lsjob(c10, "two-containers", n=2, R=2, k=2, ncont=2),
        lsjob(c10, "three-containers", n=1, R=2, k=2, ncont=3),
        realjob(c10_real, "real-two", n=2, M=4, W=4, L=4, k=3, covers=("better than the first",)),
        realjob(c10_real, "real-three", n=3, M=2, W=4, L=2, k=2),
        realjob(c10_real, "real-two-containers", n=2, M=4, W=2, L=4, k=2, ncont=2),
        realjob(c10_real, "real-two-large", n=2, M=8, W=8, L=8, k=3, mandatory=False),
        realjob(c10_real, "real-three-square", n=3, M=4, W=4, L=4, k=2, mandatory=False),
    ],
    "C25": [
        lsjob(c25, "local", hyper=False, n=3, R=3),
        lsjob(c25, "hyper", hyper=True, n=2, R=3, k=2),
        lsjob(c25, "local-solved-before", hyper=False, n=2, R=3, prior="solved"),
        lsjob(c25, "hyper-searched-before", hyper=True, n=2, R=3, k=2, prior="searched"),
        lsjob(c25, "local-hypersearched-before", hyper=False, n=2, R=3, prior="hyper"),
        lsjob(c25, "local-many", hyper=False, n=(4, 7), R=1024, peaks=1),
        lsjob(c25, "local-more", hyper=False, n=[12, 20], R=1024, peaks=1),
        lsjob(c25, "hyper-many-both", hyper=True, n=[2, 12, 30], R=1024, k=10, peaks=1, throttle=2),
        lsjob(c25, "hyper-many", hyper=True, n=(3, 5), R=1024, k=3, peaks=1),
        lsjob(c25, "hyper-two-containers", hyper=True, n=2, R=2, k=2, ncont=2),
    ],
    "C26": [
        lsjob(c26, "hyper", n=2, R=2, k=3, covers=("full utilization", "initially full")),
        lsjob(c26, "local", hyper=False, n=3, R=3, covers=("full utilization",)),
        lsjob(c26, "hyper-three-items", n=3, R=2, k=2, mandatory=False),
        lsjob(c26, "hyper-two-containers", n=2, R=2, k=2, ncont=2, covers=("full utilization",)),
        lsjob(c26, "local-two-containers", hyper=False, n=3, R=2, ncont=2),
        lsjob(c26, "local-many", hyper=False, n=(4, 8), R=1024, peaks=1, covers=("full utilization",)),
        lsjob(c26, "local-more", hyper=False, n=[12, 20], R=1024, peaks=1, covers=("full utilization",)),
        lsjob(c26, "hyper-many-both", n=[2, 12, 30], R=1024, k=10, peaks=1, throttle=2, covers=("full utilization",)),
        lsjob(c26, "hyper-many", n=(3, 5), R=1024, k=2, peaks=1, covers=("full utilization",)),
        lsjob(c26, "hyper-many-strategies", n=1, R=1024, k=40, peaks=1, covers=("full utilization",)),
        lsjob(c26, "hyper-solved-before", n=2, R=2, k=2, prior="solved"),
        lsjob(c26, "local-searched-before", hyper=False, n=3, R=2, prior="searched"),
        lsjob(c26, "hyper-searched-before", n=2, R=2, k=2, prior="searched"),
        lsjob(c26, "local-hypersearched-before", hyper=False, n=2, R=2, prior="hyper"),
    ],
    "C28": [
        lsjob(c28, "throttle", n=3, R=3, throttle=2, covers=("throttled", "new node")),
        lsjob(c28, "throttle-one", n=3, R=3, throttle=1),
        Job("large", c28_large, "70 to 73 items, equal utilizations, throttle on and off", {"lo": 70, "hi": 73},
            covers=("throttled",), stubs=STUBS),
        Job("neighbours", c28_num, "items 1..120, throttle on and off", stubs=STUBS),
        Job("hyper", c28_hs, "3 to 5 items, 1, 2 or 5 strategies, one of the utilizations differs from the others, throttle of 4, on and off",
            {"n": (3, 5), "k": [1, 2, 5], "R": 1024, "limit": 4}, covers=("throttled",), stubs=STUBS),
        Job("hyper-many-strategies", c28_hs, "4 to 8 items, 40, 100 or 125 strategies, equal utilizations, throttle of 2, on and off",
            {"n": (4, 8), "k": [40, 100, 125], "R": 1024, "limit": 2, "peaks": 0}, covers=("throttled",), stubs=STUBS),
        lsjob(c28, "many-items", n=(4, 6), R=1024, peaks=1, throttle=5, covers=("throttled", "new node")),
        lsjob(c28, "throttle-searched-before", n=3, R=2, throttle=2, prior="searched", covers=("throttled",)),
        lsjob(c28, "throttle-hypersearched-before", n=3, R=1, throttle=2, prior="hyper", mandatory=False),
        lsjob(c28, "throttle-four-items", n=4, R=2, throttle=4, mandatory=False),
    ],
}
