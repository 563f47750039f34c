"""C11, C12 and the multi-process parts of C07, C09, C26, C28."""
from symx.runner import Job
from .common import ids_of, number
from .mpstub import Sched, Killed
from .stubs import Clock, strategies

STUBS = ("worker processes run as threads under a scheduler whose choices are symbolic: a worker can be preempted "
         "before every access of the shared array (one access is atomic); 'spawn'/'fork' and pickling are not modelled",
         "a worker may raise, or be killed, at any evaluation (faults), or be killed before it hands in its output (late); a queue with a large output keeps "
         "its worker alive until it is read; a timed get may time out once before the output arrives",
         "solve() of one sequence replaced by an arbitrary function of (sequence, strategy)",
         "time.time replaced by a clock that advances by an arbitrary amount during every evaluation",
         "logging disabled")


# values apart by as little as 1e-9
TOP = 2 ** 30


class Ev:
    pass


class World:
    tag = ""

    def __init__(self, ctx, n, R, k, workers, T=0, faults=0, big=False, slow=False, strip=None, const=None, late=False,
                 prior=None, real=False, peaks=None, throttle=None):
        self.ctx, self.R, self.T, self.faults = ctx, R, T, faults
        hp = ctx.hp
        self.sched = Sched(ctx, big=ctx.flag("big") if big else False, slow=slow,
                           preempt=const is None and peaks is None).install()
        n = number(ctx, "n", n)
        # neither are they all oriented in the same way nor sorted
        items = {i: {"w": k % 3 + 1, "l": (k + 1) % 3 + 1} for k, i in enumerate(ids_of(n))}
        kw = {"items": items, "settings": {"max_time_in_seconds": T or 10, "rotation": True, "workers_num": workers}}
        if late:
            self.sched.late = self.kill_late
        self.strip = strip
        if strip:
            p = self.p = hp.HyperPack(strip_pack_width=9, **kw)
            p.container_height = strip[0]
            if strip[1]:
                p.container_min_height = strip[1]
            self.cid = p.STRIP_PACK_CONT_ID
        else:
            p = self.p = hp.HyperPack(containers={"c": {"W": 9, "L": 8}}, **kw)
            self.cid = "c"
        self.ids = list(p.items)
        self.clock = Clock(ctx, 100).install()
        if throttle:
            ctx.patch(hp.HyperPack, "MAX_NEIGHBORS_THROTTLE", throttle)
        # real: the problem's own strategies
        self.sts = [tuple(st) for st in p.get_strategies()] if real else strategies(k)
        self.names = {s: f"s{i}" for i, s in enumerate(self.sts)}
        self.marks = {}
        self.values, self.evals, self.fault, self.nev = {}, [], {}, {}
        self.const = const
        self.peaks = []
        for j in range(peaks or 0):
            # all the evaluations are alike but for a few
            last = len(self.sts) * (1 + min(n * (n - 1) // 2, throttle or n * n))
            pos = ctx.int(f"pos{j}_{last}", 0, last)
            if self.peaks:
                ctx.assume(pos > self.peaks[-1][0])
            self.peaks.append((pos, ctx.int(f"peak{j}", 0, R)))
        w = self

        def _solve(self, sequence=None, debug=False, **kw):
            return w.solve(self, sequence)

        def solve(self, sequence=None, debug=False, **kw):
            self.solution, self.obj_val_per_container = w.solve(self, sequence)

        cls = hp.HyperPack
        ctx.patch(cls, "_solve", _solve)
        ctx.patch(cls, "solve", solve)
        if not real:
            ctx.patch(cls, "get_strategies", lambda self, **kw: list(w.sts))
        self.before = (p.items.deepcopy(), list(p.items), p.containers.deepcopy(), dict(p.settings))
        self.prior(prior)
        self.start = self.clock.now

    def prior(self, prior):
        """what happened before the search"""
        p, faults, self.faults = self.p, self.faults, 0
        if prior == "solved":
            p.solve()
        elif prior == "other":
            # another strategy and another sequence
            st = p.potential_points_strategy
            p.potential_points_strategy = strategies(9)[-1]
            p.solve(sequence=list(reversed(self.ids)))
            p.potential_points_strategy = st
        elif prior == "searched":
            p.local_search()
        elif prior in ("hypersearched", "failed"):
            if prior == "failed":
                # a search in which any worker, or all of them, failed
                self.faults, self.tag = 2, "before"
            self.run()
            self.fault.clear()
            self.tag = ""
            self.sched.procs.clear()
            self.sched.log.clear()
            self.sched.cancel = False
        self.faults = faults
        if prior:
            # long ago
            self.clock.advance(10 ** 4)
        self.evals.clear()
        self.nev.clear()

    def value(self, seq, st):
        key = (tuple(seq), tuple(st))
        if key not in self.values:
            perm = "".join(str(self.ids.index(i)) for i in seq)
            if self.peaks:
                u = self.R // 2
                for pos, v in self.peaks:
                    if pos == len(self.values):
                        u = v
                self.values[key] = u
                return u
            self.values[key] = self.const if self.const is not None else self.ctx.int(f"u_{self.names.get(key[1], 'd')}_{perm}", 0, self.R)
        return self.values[key]

    def solve(self, inst, sequence):
        ctx = self.ctx
        cur = self.sched.current
        who = cur.k if cur else None
        seq = list(inst.items) if sequence is None else list(sequence)
        ctx.check(sorted(seq) == sorted(self.ids), "the items of an evaluated sequence are not the problem's items")
        k = self.nev[who] = self.nev.get(who, -1) + 1
        e = Ev()
        e.who, e.inst, e.seq, e.strategy = who, inst, seq, tuple(inst.potential_points_strategy)
        e.start, e.at = self.clock.now, len(self.sched.log)
        e.height, e.min = inst.container_height, inst.container_min_height
        e.v = self.value(seq, e.strategy)
        e.items = {i: (inst.items[i]["w"], inst.items[i]["l"]) for i in inst.items}
        e.conts = {i: (inst.containers[i]["W"], inst.containers[i]["L"]) for i in inst.containers}
        e.order = list(inst.items)
        self.evals.append(e)
        if self.faults and who is not None and who not in self.fault:
            if self.ctx.flag(f"fault{self.tag}{who}_{k}"):
                self.fault[who] = kind = self.ctx.flag(f"killed{self.tag}{who}")
                if kind:
                    raise Killed()
                raise RuntimeError("worker fault")
            if k >= self.faults - 1:
                self.fault[who] = None
        if self.T:
            self.clock.advance(ctx.int(f"d{len(self.evals)}", 0, self.T + 1))
        mark = self.marks.setdefault((tuple(seq), e.strategy), len(self.marks) + 1)
        return {self.cid: {i: [mark, 0, 1, 1] for i in self.ids}}, {self.cid: e.v / self.R}

    def kill_late(self, pr):
        if pr.k not in self.fault or self.fault[pr.k] is None:
            if self.ctx.flag(f"late{pr.k}"):
                self.fault[pr.k] = True
                raise Killed()

    def failed(self):
        return {k for k, v in self.fault.items() if v is not None}

    def retained(self):
        try:
            marks = {r[0] for r in self.p.solution[self.cid].values()}
            if len(marks) == 1 and set(self.p.solution[self.cid]) == set(self.ids):
                return list(self.marks)[marks.pop() - 1]
        except (KeyError, IndexError, TypeError):
            pass
        return None

    def run(self, orientation=None, sorting_by=None, **kw):
        try:
            self.p.hypersearch(orientation=orientation, sorting_by=sorting_by, **kw)
            self.exc = None
        except self.ctx.m("exceptions").MultiProcessError as e:
            self.exc = e
        finally:
            self.sched.close()
        if self.exc is None:
            self.ctx.observe(self.p.solution, self.p.obj_val_per_container, self.p.best_strategy, len(self.evals))
        else:
            self.ctx.observe("failed", len(self.evals))


def c11(ctx, **kw):
    w = World(ctx, **kw)
    init = tuple(w.p.potential_points_strategy)
    w.run()
    ctx.check(w.exc is None, "MultiProcessError although no worker failed")
    if w.exc is not None:
        ctx.stop()
    best(ctx, w, init)


def best(ctx, w, init):
    key = w.retained()
    ctx.check(key is not None, "the retained solution is not one that was evaluated")
    if key is None:
        ctx.stop()
    bad = w.failed()
    good = [e for e in w.evals if e.who not in bad]
    b = w.values[key]
    ctx.check(any((tuple(e.seq), e.strategy) == key for e in good),
              "the retained solution is not one that a surviving worker evaluated")
    ctx.check(w.p.obj_val_per_container[w.cid] * w.R == b, "the retained utilization is not the retained solution's")
    for e in good:
        ctx.check(e.v <= b, "a better solution of a surviving worker was not retained")
    bs = w.p.best_strategy
    if key[1] == init:
        ctx.cover("initial solution remains")
        ctx.check(bs is None or tuple(bs) == init, "best_strategy is not the strategy of the retained solution")
    else:
        ctx.cover("strategy wins")
        ctx.check(bs is not None and tuple(bs) == key[1], "best_strategy is not the strategy of the retained solution")
    p, before = w.p, w.before
    ctx.check((p.items.deepcopy(), list(p.items), p.containers.deepcopy(), dict(p.settings)) == before,
              "the search changed the problem")


def c11_faults(ctx, **kw):
    """the best of the surviving workers, even if some worker fails after others saw its results"""
    w = World(ctx, **kw)
    init = tuple(w.p.potential_points_strategy)
    w.run()
    if w.exc is not None:
        ctx.stop()
    if w.failed():
        ctx.cover("some failed")
    best(ctx, w, init)


def c12(ctx, **kw):
    w = World(ctx, **kw)
    init = tuple(w.p.potential_points_strategy)
    w.run()
    bad = w.failed()
    nprocs = len(w.sched.procs)
    if w.exc is None:
        ctx.check(len(bad) < nprocs, "no MultiProcessError although every worker failed")
        if len(bad) == nprocs:
            ctx.stop()
        if bad:
            ctx.cover("some failed")
        best(ctx, w, init)
    else:
        ctx.cover("all failed")
        ctx.check(len(bad) == nprocs, "MultiProcessError although a worker survived")


def c12_part(ctx, kmax, wmax, strip=False, real=False, n=2):
    """the workers partition the strategies and get the problem as it is"""
    k = 1 if real else ctx.pick(ctx.int("k", 1, kmax))
    workers = ctx.pick(ctx.int("workers", 2, wmax))
    size = None
    if strip:
        h = ctx.pick(ctx.int("height", 7, 12))
        # no min height, a low one, one just below the height, and the height itself
        size = (h, {0: 0, 1: 1, 2: 3, 3: h - 1, 4: h}[ctx.pick(ctx.int("min", 0, 4))])
    w = World(ctx, n=n, R=3, k=k, workers=workers, strip=size, const=1, real=real)
    rot = ctx.flag("rotation")
    w.p.settings = dict(w.p.settings, rotation=rot)
    sort = ctx.choice("sorting", [None, ("area", True), ("area", False)])
    orient = ctx.choice("orient", [None, "long", "wide"])
    w.run(orientation=orient, sorting_by=sort)
    ctx.check(w.exc is None, "MultiProcessError although no worker failed")
    n = len(w.sched.procs)
    ctx.check(n <= workers, "more worker processes than workers_num")
    ctx.check(n >= 1 and not w.sched.runnable(), "a worker process is left running")
    tried = {}
    for e in w.evals:
        if e.strategy in w.sts:
            tried.setdefault(e.strategy, set()).add(e.who)
    for s in w.sts:
        ctx.check(s in tried, "a strategy was not tried by any worker")
        ctx.check(len(tried.get(s, ())) == 1, "a strategy was tried by several workers")
    seen = set()
    for e in w.evals:
        if e.who is None:
            continue
        q = e.inst
        ctx.check(e.order == list(w.p.items), "a worker's items are not in the problem's sequence")
        ctx.check(e.items == {i: (w.p.items[i]["w"], w.p.items[i]["l"]) for i in w.p.items},
                  "a worker's items are not those of the problem")
        ctx.check(e.conts == {i: (w.p.containers[i]["W"], w.p.containers[i]["L"]) for i in w.p.containers},
                  "a worker's containers are not those of the problem")
        ctx.check(q._rotation == rot and q._max_time_in_seconds == 10, "a worker's settings are not the problem's")
        ctx.check(e.min == w.p.container_min_height, "a worker has not the problem's container_min_height")
        if (e.who, e.strategy) not in seen:
            ctx.check(e.seq == e.order, "a worker's search does not start from the items' sequence")
        if e.who not in {x for x, _ in seen}:
            ctx.check(e.height == w.p.container_height, "a worker has not the problem's container_height")
        seen.add((e.who, e.strategy))
    if n > 1:
        ctx.cover("several workers")


def c09_mp(ctx, **kw):
    w = World(ctx, **kw)
    w.run()
    T = kw["T"]
    seen = {}
    for e in w.evals:
        if e.who is None or e.strategy not in w.sts:
            continue
        if e.strategy not in seen.setdefault(e.who, []):
            if seen[e.who]:
                ctx.check(e.start - w.start <= T, "a worker begins a further strategy after the time is over")
                ctx.cover("further strategy")
            seen[e.who].append(e.strategy)


def c26_mp(ctx, **kw):
    """once a worker published full utilization no other begins a strategy after looking at it"""
    w = World(ctx, **kw)
    w.run()
    log = w.sched.log
    key = w.retained()
    first = None
    for j, ev in enumerate(log):
        if ev[0] == "write" and first is None and ctx.symbolic is not None:
            if ev[3] * w.R >= w.R:
                first = j
    full = [e for e in w.evals if e.v >= w.R]
    if full:
        ctx.cover("full utilization")
        ctx.check(key is not None and w.values[key] >= w.R, "the full utilization was not retained")
    if first is not None:
        writer = log[first][1]
        for who in {ev[1] for ev in log}:
            reads = [j for j, ev in enumerate(log) if ev[0] == "read" and ev[1] == who and j > first]
            # the write is published at log[first]; a read logged later sees it
            before = {e.strategy for e in w.evals if e.who == who and e.at <= (reads[0] if reads else 10 ** 9)}
            for e in w.evals:
                if reads and e.who == who and who is not None and e.at > reads[0]:
                    ctx.check(e.strategy in before, "a worker begins a strategy although it saw full utilization")
            if reads and who is not None and who != writer:
                ctx.cover("seen by another worker")
    # a worker whose own initial solution is full tries no strategy
    for who in {e.who for e in w.evals}:
        mine = [e for e in w.evals if e.who == who]
        if mine[0].v >= w.R:
            ctx.check(len(mine) == 1, "a worker goes on although its initial solution is full")


def c25_mp(ctx, **kw):
    """the problem is as before"""
    w = World(ctx, **kw)
    sol = w.p.solution
    w.run()
    p = w.p
    ctx.check(list(p.items) == w.before[1], "the search changed the items' sequence")
    ctx.check(p.items.deepcopy() == w.before[0], "the search changed the items")
    ctx.check(p.containers.deepcopy() == w.before[2], "the search changed the containers")
    ctx.check(dict(p.settings) == w.before[3], "the search changed the settings")
    if w.exc is None:
        ctx.check(list(p.solution) == list(p.containers), "the solution has not the containers of the problem")


def c28_mp(ctx, wmax=0, **kw):
    if wmax:
        kw["workers"] = ctx.pick(ctx.int("workers", 2, wmax))
    ctx.patch(ctx.hp.HyperPack, "MAX_NEIGHBORS_THROTTLE", 1)
    w = World(ctx, const=1, **kw)
    thr = ctx.flag("throttle")
    w.run(throttle=thr)
    n = len(w.ids)
    count = {}
    for e in w.evals:
        count[e.strategy] = count.get(e.strategy, 0) + 1
    for s in w.sts:
        ctx.check(count.get(s, 0) == 1 + (1 if thr else n * (n - 1) // 2), "the throttle setting does not reach the workers")


def job(fn, name, mandatory=True, tiers=("quick", "thorough"), covers=(), budget=None, **params):
    b = ", ".join(f"{k}={v}" for k, v in params.items())
    j = Job(name, fn, f"{b} (n items, k strategies, utilization levels 0..R; faults: evaluations at which a worker "
            "can fail)", params, tiers=tiers, mandatory=mandatory, covers=covers, budget=budget, stubs=STUBS)
    # accesses of the shared array are scheduling points: nothing may be executed speculatively
    j.disable = ("merge", "pred", "exists")
    return j


JOBS = {
    "C11": [
        job(c11, "two-workers", n=1, R=TOP, k=2, workers=2, covers=("strategy wins", "initial solution remains")),
        job(c11, "two-workers-swap", n=2, R=TOP, k=2, workers=2, covers=("strategy wins",)),
        job(c11, "three-workers", n=1, R=TOP, k=3, workers=3, covers=("strategy wins",), mandatory=False),
        job(c11, "two-workers-four", n=1, R=TOP, k=4, workers=2, covers=("strategy wins",)),
        job(c11, "two-workers-time", n=1, R=TOP, k=3, workers=2, T=2, mandatory=False),
        job(c11, "other-solved-before", n=2, R=TOP, k=2, workers=2, prior="other", covers=("strategy wins",)),
        job(c11, "searched-before", n=2, R=TOP, k=2, workers=2, prior="searched"),
        job(c11, "hypersearched-before", n=1, R=TOP, k=2, workers=2, prior="hypersearched", covers=("strategy wins",), mandatory=False),
        job(c11, "failed-before", n=1, R=2, k=2, workers=2, prior="failed", covers=("strategy wins",), mandatory=False),
        job(c11_faults, "killed-late", n=1, R=TOP, k=2, workers=2, late=True, covers=("some failed",)),
        job(c11_faults, "killed-between", n=1, R=TOP, k=4, workers=2, faults=3, covers=("some failed",)),
        job(c11, "three-workers-five", n=1, R=TOP, k=5, workers=3, mandatory=False),
        job(c11, "many-strategies", n=1, R=TOP, k=24, workers=3, peaks=2, covers=("strategy wins",)),
        job(c11, "many-both", n=[2, 12, 30], R=TOP, k=8, workers=2, peaks=1, throttle=1, covers=("strategy wins",)),
        job(c11, "many-items", n=(2, 5), R=TOP, k=4, workers=2, peaks=1, covers=("strategy wins",)),
    ],
    "C12": [
        job(c12, "one-evaluation", n=1, R=TOP, k=2, workers=2, faults=2, big=True, slow=True,
            covers=("some failed", "all failed")),
        job(c12, "two-strategies", n=1, R=TOP, k=3, workers=2, faults=3, big=True, covers=("some failed", "all failed")),
        job(c12, "three-workers", n=1, R=TOP, k=3, workers=3, faults=2, mandatory=False),
        job(c12, "killed-late", n=1, R=TOP, k=2, workers=2, late=True, covers=("some failed", "all failed")),
        job(c12, "killed-between", n=1, R=TOP, k=3, workers=2, faults=3),
        job(c12, "any-fault", n=1, R=TOP, k=3, workers=2, faults=3, late=True, big=True, slow=True, mandatory=False),
        job(c12, "four-strategies", n=1, R=TOP, k=4, workers=2, faults=3, late=True, mandatory=False),
        job(c12, "solved-before", n=1, R=TOP, k=2, workers=2, faults=2, prior="other", covers=("some failed", "all failed")),
        job(c12_part, "partition", kmax=5, wmax=4, covers=("several workers",)),
        job(c12_part, "partition-all", kmax=0, wmax=8, real=True, covers=("several workers",)),
        job(c12_part, "partition-many-items", kmax=2, wmax=2, n=(20, 40), covers=("several workers",)),
        job(c12, "failed-before", n=1, R=1, k=2, workers=2, peaks=0, faults=1, prior="failed", covers=("some failed",)),
        job(c12, "many-strategies", n=1, R=TOP, k=12, workers=3, peaks=1, faults=2, covers=("some failed", "all failed")),
        job(c12_part, "partition-strip", kmax=3, wmax=3, strip=True, covers=("several workers",)),
    ],
    "C09": [job(c09_mp, "two-workers", n=1, R=2, k=3, workers=2, T=2, covers=("further strategy",))],
    "C25": [job(c25_mp, "two-workers", n=(2, 3), R=TOP, k=3, workers=2, peaks=1),
            job(c25_mp, "two-workers-many", n=(4, 30), R=2, k=3, workers=2, const=1),
            job(c25_mp, "two-workers-strip", n=3, R=TOP, k=2, workers=2, peaks=1, strip=(12, 3))],
    "C26": [job(c26_mp, "two-workers", n=1, R=2, k=4, workers=2,
                covers=("full utilization", "seen by another worker"))],
    "C28": [job(c28_mp, "two-workers", n=3, R=2, k=2, workers=2),
            job(c28_mp, "two-workers-many", n=(20, 40), R=2, k=2, workers=2),
            job(c28_mp, "all-strategies", n=3, R=2, k=1, wmax=8, real=True)],
}
