"""C01-C06: what one solve() must give."""
from collections import deque
from itertools import permutations

from symx.runner import Job
from .common import CIDS, IDS, POINTS, ids_of, make_strategy, overlap, snapshot
from .reference import generate, pack


def build(ctx, n, M, ncont=1, rot=None, strat=None, strip=False, items_order=None, mdim=None,
          size=None, dims=None, past=False):
    """a problem with symbolic dimensions; returns (problem, containers, items)"""
    hp = ctx.hp
    rotation = ctx.bool("rot") if rot is None else rot
    cls, st = hp.HyperPack, None
    if strat in ("sym", "part"):
        cls, st = make_strategy(ctx, hp.HyperPack, strat == "part")
    kw = {"settings": {"rotation": rotation}}
    if strip:
        kw["strip_pack_width"] = W = size[0] if size else ctx.int("W", 1, M)
        conts = {hp.HyperPack.STRIP_PACK_CONT_ID: {"W": W, "L": None}}
    else:
        kw["containers"] = conts = {}
        for k, (a, b) in enumerate(size or ()):
            conts[CIDS[k]] = {"W": a, "L": b}
            ncont = 0
        for c in range(ncont):
            conts[CIDS[c]] = {"W": ctx.int(f"W{c}", 1, M), "L": ctx.int(f"L{c}", 1, M)}
    its = {}
    for i, iid in enumerate(ids_of(n)):
        r = dims[i] if dims else (1, mdim or M) * 2
        its[iid] = {"w": ctx.int(f"w{i}", *r[:2]), "l": ctx.int(f"l{i}", *r[2:])}
    kw["items"] = {k: dict(v) for k, v in its.items()}
    p = become(ctx, cls, kw, strip) if past else cls(**kw)
    if st is not None:
        p.potential_points_strategy = st
    elif strat:
        p.potential_points_strategy = strat
    if strip:
        H = size[1] if size else ctx.int("H", 1, strip)
        p.container_height = H
        conts[hp.HyperPack.STRIP_PACK_CONT_ID]["L"] = H
    return p, conts, its, rotation


def become(ctx, cls, kw, strip):
    """the problem, made of another one that was solved before: with the same and other ids"""
    how = ctx.choice("how", ["dimensions", "entries", "structures"])
    what = ctx.choice("before", ["solved", "searched"])
    conts, its = kw.get("containers"), kw["items"]
    past = {"gone": {"w": 1, "l": 1}, **{i: {"w": 1 + k % 2, "l": 2 - k % 3 % 2} for k, i in enumerate(reversed(list(its)))}}
    args = {"items": past, "settings": {"rotation": ctx.flag("rotation_before"), "max_time_in_seconds": 5}}
    if strip:
        args["strip_pack_width"] = kw["strip_pack_width"]
    else:
        args["containers"] = {"away": {"W": 2, "L": 1}, **{c: {"W": 3, "L": 2} for c in reversed(list(conts))}}
    p = cls(**args)
    strategy = p.potential_points_strategy
    p.potential_points_strategy = tuple(reversed(strategy))
    if what == "solved":
        p.solve()
        p.solve(sequence=list(past)[:2])
    else:
        p.MAX_NEIGHBORS_THROTTLE = 2
        p.local_search()
    p.potential_points_strategy = strategy
    if how == "structures":
        p.items = its
        if not strip:
            p.containers = conts
    else:
        for which, new in ((p.items, its),) + (() if strip else ((p.containers, conts),)):
            keys = list(which.keys())
            del which[keys[0]]
            for i, d in new.items():
                # the new order
                which["tmp"] = dict(which[i])
                del which[i]
                if how == "entries":
                    which[i] = d
                else:
                    which[i] = dict(which["tmp"])
                    for x in d:
                        which[i][x] = d[x]
                del which["tmp"]
    if how == "entries":
        p.settings["rotation"] = kw["settings"]["rotation"]
        p.validate_settings()
    else:
        p.settings = kw["settings"]
    return p


def solve(ctx, seq=False, **kw):
    p, conts, its, rotation = build(ctx, **kw)
    if seq:
        # any sequence of any of the items
        ids = list(its)
        seqs = [s for k in range(len(ids), 0, -1) for s in permutations(ids, k)]
        ids = list(seqs[ctx.pick(ctx.int("seq", 0, len(seqs) - 1))])
        p.solve(sequence=list(ids))
        for i, d in its.items():
            ctx.check(ctx.And(p.items[i]["w"] == d["w"], p.items[i]["l"] == d["l"]), "solve changed the items")
        ctx.check(list(p.items) == list(its), "solve changed the items' order")
        its = {i: its[i] for i in ids}
    else:
        p.solve()
    ctx.observe(p.solution, p.obj_val_per_container)
    return p, conts, its, rotation


def c01(ctx, **kw):
    p, conts, its, rotation = solve(ctx, **kw)
    for cid, c in conts.items():
        sol = p.solution[cid]
        rects = list(sol.values())
        if len(rects) >= 2:
            ctx.cover("two items in a container")
        for k, r in enumerate(rects):
            x, y, w, l = r
            ctx.check(ctx.And(x >= 0, y >= 0, w >= 1, l >= 1, x + w <= c["W"], y + l <= c["L"]),
                      f"an item lies outside its container {cid}")
            for q in rects[:k]:
                ctx.check(ctx.Not(overlap(ctx, r, q)), f"two items overlap in {cid}")


def c02(ctx, **kw):
    p, conts, its, rotation = solve(ctx, **kw)
    sol = p.solution
    ctx.check(list(sol) == list(conts), "the solution has not exactly the containers of the problem")
    ctx.check(list(p.obj_val_per_container) == list(conts), "utilization of other containers")
    seen = []
    for cid in sol:
        for iid, r in sol[cid].items():
            ctx.check(iid in its, "a placed id is not one of the items")
            if iid not in its:
                continue
            ctx.check(iid not in seen, "an item is placed twice")
            seen.append(iid)
            w, l = its[iid]["w"], its[iid]["l"]
            same = ctx.And(r[2] == w, r[3] == l)
            turned = ctx.And(r[2] == l, r[3] == w)
            ctx.check(ctx.Or(same, ctx.And(rotation, turned)),
                      "an item has other dimensions than given (or is turned with rotation off)")
    if len(seen) < len(its):
        ctx.cover("an item left out")
    if seen:
        ctx.cover("an item placed")
    if "seq" in kw:
        return
    for iid, d in its.items():
        ctx.check(ctx.And(p.items[iid]["w"] == d["w"], p.items[iid]["l"] == d["l"]),
                  "solve changed the items")
    ctx.check(list(p.items) == list(its), "solve changed the items' order")


def c03(ctx, **kw):
    p, conts, its, rotation = solve(ctx, **kw)
    for cid, c in conts.items():
        area = 0
        for r in p.solution[cid].values():
            area = area + r[2] * r[3]
        u = p.obj_val_per_container[cid]
        if not p.solution[cid]:
            ctx.check(u == 0, "utilization of an empty container is not 0")
            continue
        ctx.cover("a used container")
        ctx.check(ctx.close(u * (c["W"] * c["L"]), area, 1e-6),
                  "utilization is not the packed share of the container's area")
        ctx.check(ctx.And(u >= 0, u <= 1 + 1e-9), "utilization out of [0, 1]")


def same_solution(ctx, a, b):
    if list(a) != list(b):
        return False
    conds = []
    for cid in a:
        if list(a[cid]) != list(b[cid]):
            return False
        for i in a[cid]:
            conds += [u == v for u, v in zip(a[cid][i], b[cid][i])]
            conds.append(len(a[cid][i]) == len(b[cid][i]))
    return ctx.And(conds)


def c04(ctx, **kw):
    """the solution is the one the reference model of the heuristic gives"""
    p, conts, its, rotation = solve(ctx, **kw)
    got = p.solution
    st = p.potential_points_strategy

    def order(pts):
        if type(st) is tuple:
            return st
        st.points = pts
        return list(st)

    left = [(i, d["w"], d["l"]) for i, d in its.items()]
    for cid, c in conts.items():
        want, left = pack(ctx, c["W"], c["L"], left, rotation, order)
        if len(want) >= 2:
            ctx.cover("two items packed")
        ctx.check(list(got[cid]) == list(want), f"other items (or another order) than the heuristic's in {cid}")
        for i in want:
            if i in got[cid]:
                ctx.check(ctx.And([u == v for u, v in zip(got[cid][i], want[i])]),
                          f"an item is not where the heuristic puts it in {cid}")


class Recorded(deque):
    """a deque that records what is appended to it"""

    def __init__(self, it=()):
        self.log = []
        super().__init__(it)

    def append(self, v):
        self.log.append(v)
        super().append(v)

    def appendleft(self, v):
        self.log.append(("left", v))
        super().appendleft(v)

    def extend(self, it):
        for v in it:
            self.append(v)


def c04_layout(ctx, K, M, mdim=None):
    """the points generated for items placed anywhere: the problem's potential points start with
    those of an arbitrary layout"""
    hp = ctx.hp
    W, L = ctx.int("W", 1, M), ctx.int("L", 1, M)
    rects = []
    for k in range(K):
        r = tuple(ctx.int(f"{a}{k}", 1 if a in "wl" else 0, (mdim or M) if a in "wl" else M - 1) for a in "xywl")
        x, y, w, l = r
        ctx.assume(ctx.And(x + w <= W, y + l <= L))
        for q in rects:
            ctx.assume(ctx.Not(overlap(ctx, r, q)))
        rects.append(r)
    points, calls, inits = {}, [], []

    class P(hp.HyperPack):
        def _generate_points(self, *a, **k):
            # only those of the last item, which sees the whole layout
            calls.append(1)
            if len(calls) >= K:
                return super()._generate_points(*a, **k)

        def _get_initial_potential_points(self):
            d = super()._get_initial_potential_points()
            for c in d:
                if c in POINTS:
                    d[c] = Recorded(r[:2] for r in rects[1:]) if c == "A" else Recorded()
            points.clear()
            points.update(d)
            return d

        def _get_initial_point(self, *a, **k):
            inits.append(1)
            return rects[0][:2], "O"

    P.__name__ = "HyperPack"
    p = P(containers={"c": {"W": W, "L": L}}, items={IDS[k]: {"w": r[2], "l": r[3]} for k, r in enumerate(rects)},
          settings={"rotation": False})
    p.solve()
    if not inits or not points or any(not isinstance(points.get(c), Recorded) for c in POINTS):
        ctx.stop()
    ctx.observe(p.solution, [points[c].log for c in POINTS])
    got = p.solution["c"]
    ctx.check(list(got) == ids_of(K), "an item that fits at a potential point is not placed there")
    if len(got) < K:
        ctx.stop()
    want = {c: [] for c in POINTS}
    for k, (x, y, w, l) in enumerate(rects):
        ctx.check(ctx.And([u == v for u, v in zip(got[IDS[k]], (x, y, w, l))]), "an item is not at the point it fits at")
        if not calls or k == K - 1:
            generate(ctx, want, rects[:k + 1], W, L, x, y, w, l)
    for c in POINTS:
        log = points[c].log
        ctx.check(len(log) == len(want[c]), f"other {c} points are generated than the heuristic's")
        for u, v in zip(log, want[c]):
            ctx.check(ctx.And(u[0] == v[0], u[1] == v[1]), f"another {c} point is generated than the heuristic's")
        if log:
            ctx.cover(c)


def layout(ctx, K, M, mdim=None, strip=False, probe=None, L=None):
    """a problem whose potential points are those of K rectangles laid out anywhere (and the point
    probe), with items of the same dimensions: returns it with the rectangles"""
    hp = ctx.hp
    ML = strip or L or M
    W, L = ctx.int("W", 1, M), ctx.int("L", 1, ML)
    D = mdim or M
    rects = []
    for k in range(K):
        x, y, w, l = r = (ctx.int(f"x{k}", 0, M - 1), ctx.int(f"y{k}", 0, ML - 1),
                          ctx.int(f"w{k}", 1, D), ctx.int(f"l{k}", 1, min(D, ML)))
        ctx.assume(ctx.And(x + w <= W, y + l <= L))
        for q in rects:
            ctx.assume(ctx.Not(overlap(ctx, r, q)))
        rects.append(r)
    asked, inits, calls = [], [], []

    class P(hp.HyperPack):
        def _get_initial_potential_points(self):
            d = super()._get_initial_potential_points()
            for r in rects[1:]:
                d["A"].append(r[:2])
            if probe:
                d["A"].append(probe[:2])
            asked.append(1)
            return d

        def _get_initial_point(self, *a, **k):
            inits.append(1)
            return rects[0][:2], "O"

        def _generate_points(self, *a, **k):
            calls.append(1)

    P.__name__ = "HyperPack"
    items = {IDS[k]: {"w": r[2], "l": r[3]} for k, r in enumerate(rects)}
    kw = {}
    if probe:
        items["probe"] = {"w": probe[2], "l": probe[3]}
        kw["rotation"] = probe[4]
    else:
        kw["rotation"] = False
    if strip:
        p = P(strip_pack_width=W, items=items, settings=kw)
        p.container_height = L
        cid = p.STRIP_PACK_CONT_ID
    else:
        cid = "c"
        p = P(containers={"c": {"W": W, "L": L}}, items=items, settings=kw)
    p.solve()
    if len(asked) != 1 or len(inits) != 1 or len(calls) != len(p.solution[cid]):
        # the layout cannot be given to this code this way
        ctx.stop()
    return p, p.solution[cid], p.obj_val_per_container[cid], W, L, rects


def fitting(ctx, K, M, exact=False, mdim=None, L=None):
    """an item tried at any point of any layout is only placed (and, for C04, exactly then) where
    it fits"""
    ML = L or M
    X, Y, w, l = ctx.int("X", 0, M - 1), ctx.int("Y", 0, ML - 1), ctx.int("w", 1, M), ctx.int("l", 1, ML)
    rotation = ctx.bool("rot")
    ctx.assume(ctx.And(X < ctx.int("W", 1, M), Y < ctx.int("L", 1, ML)))
    p, got, u, W, L, rects = layout(ctx, K, M, mdim, probe=(X, Y, w, l, rotation), L=ML)
    ctx.observe(got)
    for k, r in enumerate(rects):
        if IDS[k] not in got:
            ctx.check(not exact, "an item that fits at a potential point is not placed there")
            ctx.stop()
        if not ctx.And([u == v for u, v in zip(got[IDS[k]], r)]):
            # the probe has taken its place
            ctx.stop()

    def free(r):
        return ctx.And(r[0] + r[2] <= W, r[1] + r[3] <= L, [ctx.Not(overlap(ctx, r, q)) for q in rects])
    if "probe" in got:
        ctx.check(free(got["probe"]), "an item is placed outside its container or over another one")
        ctx.cover("placed")
        if exact:
            x, y, a, b = got["probe"]
            ctx.check(ctx.And(x == X, y == Y), "an item is not placed at the potential point")
            ctx.check(ctx.Or(ctx.And(a == w, b == l), ctx.And(rotation, a == l, b == w, ctx.Not(free((X, Y, w, l))))),
                      "an item is turned although it fits as it is")
    else:
        ctx.cover("not placed")
        if exact:
            ctx.check(ctx.Not(ctx.Or(free((X, Y, w, l)), ctx.And(rotation, free((X, Y, l, w))))),
                      "an item that fits at a potential point is not placed there")


def c03_layout(ctx, K, M, mdim=None):
    """the utilization of any layout"""
    p, got, u, W, L, rects = layout(ctx, K, M, mdim)
    ctx.observe(got, u)
    area = 0
    for r in got.values():
        area = area + r[2] * r[3]
    if len(got) == K:
        ctx.cover("all placed")
    ctx.check(ctx.close(u * (W * L), area, 1e-6), "utilization is not the packed share of the container's area")
    ctx.check(ctx.And(u >= 0, u <= 1 + 1e-9), "utilization out of [0, 1]")


def c06_layout(ctx, K, M, strip, mdim=None):
    """the utilization of any layout in a strip"""
    p, got, u, W, L, rects = layout(ctx, K, M, mdim, strip=strip)
    ctx.observe(got, u)
    area, top = 0, 0
    for r in got.values():
        area = area + r[2] * r[3]
        top = ctx.If(r[1] + r[3] > top, r[1] + r[3], top)
    if len(got) == K:
        ctx.cover("all placed")
    ctx.check(ctx.close(u * (W * top), area, 1e-6),
              "utilization is not the packed share of the strip up to the stack's height")


def c05(ctx, other=None, **kw):
    """solve() depends on nothing but the problem: not on earlier solves, other problems or
    what the caller does with the results"""
    p, conts, its, rotation = build(ctx, **kw)
    p.solve()
    first, val = snapshot(p.solution), dict(p.obj_val_per_container)
    ctx.observe(first, val)
    # the caller damages the previous result, solves another sequence and another problem
    for cid in p.solution:
        for i in p.solution[cid]:
            p.solution[cid][i][:] = [0, 0, 0, 0]
        p.solution[cid].clear()
    seq = list(reversed(list(p.items)))
    keep = list(seq)
    p.solve(sequence=seq)
    ctx.check(seq == keep, "solve changed the sequence it was given")
    q = ctx.hp.HyperPack(containers={"z": {"W": 3, "L": 2}}, items={"a": {"w": 2, "l": 1}, "b": {"w": 1, "l": 1}},
                         settings={"rotation": False})
    q.solve()
    ctx.check(q.solution == {"z": {"a": [0, 0, 2, 1], "b": [0, 1, 1, 1]}}, "another problem is solved differently")
    p.solve()
    ctx.check(same_solution(ctx, p.solution, first), "solving again gives another solution")
    ctx.check(ctx.And([p.obj_val_per_container[c] == val[c] for c in val]), "solving again gives another utilization")
    p.solve(sequence=list(p.items))
    ctx.check(same_solution(ctx, p.solution, first), "solving for the items' own sequence gives another solution")
    for i, d in its.items():
        ctx.check(ctx.And(p.items[i]["w"] == d["w"], p.items[i]["l"] == d["l"]), "solve changed the items")
    if not kw.get("strip"):
        for c, d in conts.items():
            ctx.check(ctx.And(p.containers[c]["W"] == d["W"], p.containers[c]["L"] == d["L"]),
                      "solve changed the containers")


def c05_change(ctx, n=2, M=3, what="", strip=False):
    """after any change of the problem solve() gives what it gives for a new problem"""
    hp = ctx.hp
    p, conts, its, rotation = build(ctx, n=n, M=M, rot=None if what == "rotation" else False, strip=strip,
                                    ncont=2 if what == "containers" else 1)
    p.solve()
    st = p.potential_points_strategy
    height = p.container_height
    new = {k: ctx.int(f"new_{k}", 1, M) for k in "ab"}
    a = IDS[0]
    if what == "dimension":
        which = ctx.choice("which", ["w", "l"])
        p.items[a][which] = its[a][which] = new["a"]
    elif what == "item":
        p.items[a] = its[a] = {"w": new["a"], "l": new["b"]}
    elif what == "add":
        p.items["new"] = its["new"] = {"w": new["a"], "l": new["b"]}
    elif what == "remove":
        x = ctx.choice("which", list(its))
        del p.items[x], its[x]
    elif what == "items":
        p.items = its = {"new": {"w": new["a"], "l": new["b"]}, **{k: its[k] for k in reversed(list(its))}}
    elif what == "container":
        which = ctx.choice("which", ["W", "L"])
        c = CIDS[0]
        p.containers[c][which] = new["a"]
        conts = {c: dict(conts[c], **{which: new["a"]})}
    elif what == "containers":
        p.containers = conts = {"new": {"W": new["a"], "L": new["b"]}, CIDS[0]: conts[CIDS[0]]}
    elif what == "rotation":
        rotation = ctx.Not(rotation)
        p.settings = {"rotation": rotation}
    elif what == "strategy":
        p.potential_points_strategy = st = tuple(reversed(st))
    elif what == "height":
        p.container_height = height = ctx.int("H2", 1, strip)
    elif what == "search":
        # a search, sorting and turning items must not have an effect of their own either
        p.local_search()
    else:
        raise AssertionError(what)
    p.solve()
    kw = {"items": {i: dict(d) for i, d in its.items()}, "settings": {"rotation": rotation}}
    if strip:
        q = hp.HyperPack(strip_pack_width=list(conts.values())[0]["W"], **kw)
        q.container_height = p.container_height if what == "search" else height
    else:
        q = hp.HyperPack(containers={c: dict(d) for c, d in conts.items()}, **kw)
    q.potential_points_strategy = st
    q.solve()
    ctx.observe(p.solution, p.obj_val_per_container, q.solution)
    ctx.check(same_solution(ctx, p.solution, q.solution), "a changed problem is solved differently from a new one")
    ctx.check(list(p.obj_val_per_container) == list(q.obj_val_per_container), "utilization of other containers")
    ctx.check(ctx.And([p.obj_val_per_container[c] == v for c, v in q.obj_val_per_container.items()]),
              "a changed problem has another utilization than a new one")
    if any(len(v) > 1 for v in p.solution.values()):
        ctx.cover("two items placed")


def c05_same(ctx, n=2, M=3, strip=False):
    """PointGenPack, debugging and later instances give the same solution"""
    hp = ctx.hp
    p, conts, its, rotation = build(ctx, n=n, M=M, strip=strip)
    p.solve()
    first, val = snapshot(p.solution), dict(p.obj_val_per_container)
    ctx.observe(first, val)
    kw = {"items": {i: dict(d) for i, d in its.items()}, "settings": {"rotation": rotation}}
    if strip:
        kw["strip_pack_width"] = list(conts.values())[0]["W"]
    else:
        kw["containers"] = {c: dict(d) for c, d in conts.items()}
    q = hp.PointGenPack(**kw)
    if strip:
        q.container_height = p.container_height
    q.solve()
    r = hp.HyperPack(**kw)
    if strip:
        r.container_height = p.container_height
    r.solve(debug=True)
    for x, name in ((q, "PointGenPack"), (r, "debug")):
        ctx.check(same_solution(ctx, x.solution, first), f"another solution ({name})")
        ctx.check(ctx.And([x.obj_val_per_container[c] == v for c, v in val.items()]), f"another utilization ({name})")


def c06(ctx, **kw):
    p, conts, its, rotation = build(ctx, **kw)
    H0 = p.container_height
    p.solve()
    ctx.observe(p.solution, p.obj_val_per_container)
    (cid, c), = conts.items()
    ctx.check(list(p.solution) == [cid], "the solution has not exactly the strip")
    ctx.check(p.container_height == H0, "a solve changed the strip's height")
    rects = list(p.solution[cid].values())
    u = p.obj_val_per_container[cid]
    if not rects:
        ctx.check(u == 0, "utilization of an empty strip is not 0")
        return
    area, top = 0, 0
    for r in rects:
        area = area + r[2] * r[3]
        top = ctx.If(r[1] + r[3] > top, r[1] + r[3], top)
        ctx.check(ctx.And(r[0] >= 0, r[1] >= 0, r[0] + r[2] <= c["W"], r[1] + r[3] <= H0),
                  "an item lies outside the strip")
    ctx.cover("a used strip")
    if len(rects) > 1:
        ctx.cover("a stack")
    ctx.check(ctx.close(u * (c["W"] * top), area, 1e-6),
              "utilization is not the packed share of the strip up to the stack's height")
    ctx.check(ctx.And(u > 0, u <= 1 + 1e-9), "utilization out of (0, 1]")


STUBS = ("logging disabled",)
BX = "items w,l"


def bounds(n, M, past=False, **kw):
    return bounds_now(n, M, **kw) + ("; made of another problem, solved or searched before, in three ways" if past else "")


def bounds_now(n, M, ncont=1, rot=None, strat=None, strip=False, mdim=None, seq=False, size=None, dims=None, **_):
    if size:
        return (f"a strip {size[0]} x {size[1]}" if strip else "containers " + ", ".join(f"{a} x {b}" for a, b in size)) + (
                "; items of " + ", ".join("w {}..{}, l {}..{}".format(*d) for d in dims)
                + "; rotation " + ("on and off" if rot is None else "on" if rot else "off"))
    s = f"{n} items, every w, l in 1..{mdim or M}"
    if strip:
        s += f"; strip width 1..{M}, strip height 1..{strip}"
    else:
        s += f"; {ncont} container(s), every W, L in 1..{M}"
    s += "; rotation " + ("on and off" if rot is None else "on" if rot else "off")
    s += "; every sequence of any of the items" if seq else ""
    s += "; " + ("every order of the potential points" if strat == "sym" else
                 "every order of any of the potential points" if strat == "part" else
                 "default strategy" if strat is None else f"strategy {strat}")
    return s


def job(fn, name, mandatory=True, tiers=("quick", "thorough"), covers=(), budget=None, validate=1, **params):
    return Job(name, fn, bounds(**params), params, tiers=tiers, mandatory=mandatory, covers=covers,
               budget=budget, validate=validate, stubs=STUBS)


def grid_jobs(fn, covers=()):
    return [
        job(fn, "two-items", n=2, M=8, strat="sym", covers=covers),
        job(fn, "three-items-small", n=3, M=4, strat="sym"),
        job(fn, "four-items-small", n=4, M=3),
        job(fn, "two-containers", n=2, M=4, ncont=2),
        job(fn, "strip", n=2, M=4, strip=6),
        job(fn, "strip-three", n=3, M=3, strip=5, mandatory=False),
        job(fn, "three-items", n=3, M=7, mandatory=False, budget=90),
        job(fn, "three-items-every-order", n=3, M=7, strat="sym", mandatory=False, tiers=("thorough",)),
        job(fn, "four-items", n=4, M=5, strat="sym", mandatory=False, tiers=("thorough",)),
        job(fn, "five-items", n=5, M=3, mandatory=False, tiers=("thorough",)),
    ]


def ljob(fn, name, K, M, mandatory=True, tiers=("quick", "thorough"), covers=(), strip=None, **kw):
    b = f"any layout of {K} rectangles in a container of W in 1..{M}, L in 1..{kw.get('L', M)}"
    if strip:
        b = f"any layout of {K} rectangles in a strip of width 1..{M} and height 1..{strip}"
        kw["strip"] = strip
    if fn is fitting:
        b += f"; an item of w in 1..{M}, l in 1..{kw.get('L', M)} tried at any point, rotation on and off"
    return Job(name, fn, b, dict(K=K, M=M, **kw), tiers=tiers, mandatory=mandatory, covers=covers,
               stubs=STUBS + ("the potential points of the solve are those of the layout",))


def change_jobs():
    out = []
    for what in ("dimension", "item", "add", "remove", "items", "container", "containers", "rotation", "strategy", "search"):
        n, M = {"add": (2, 2), "remove": (3, 2), "items": (2, 2), "search": (2, 3), "containers": (2, 2)}.get(what, (2, 3))
        out.append(Job(f"changed-{what}", c05_change, f"{n} items, every dimension in 1..{M}, then {what} changed to "
                       "anything", {"n": n, "M": M, "what": what}, covers=("two items placed",), stubs=STUBS))
    for what in ("height", "item", "search"):
        out.append(Job(f"strip-changed-{what}", c05_change, f"2 items, width and dimensions 1..2, height 1..4, then {what} "
                       "changed to anything", {"n": 2, "M": 2, "what": what, "strip": 4}, stubs=STUBS))
    return out


FIVE = [(3, 4, 3, 3), (2, 2, 2, 3), (2, 3, 2, 2), (1, 2, 1, 1), (5, 5, 1, 2)]


def past_jobs(fn, strip=True, bins=True):
    out = []
    if bins:
        out += [job(fn, "past", n=2, M=4, past=True), job(fn, "past-two-containers", n=2, M=3, ncont=2, past=True),
                job(fn, "past-five-items", n=5, M=0, past=True, size=[(6, 5), (4, 4)], dims=FIVE)]
    if strip:
        out += [job(fn, "past-strip", n=2, M=3, strip=5, past=True),
                job(fn, "past-strip-five-items", n=5, M=0, past=True, strip=True, size=(5, 9), dims=FIVE)]
    return out


def extra(fn, *names):
    jobs = {
        "sequence": job(fn, "sequence", n=2, M=5, seq=True),
        "sequence-three": job(fn, "sequence-three", n=3, M=3, seq=True, mandatory=False),
        "partial": job(fn, "some-points-only", n=3, M=3, strat="part"),
        "partial-four": job(fn, "some-points-only-four", n=4, M=3, strat="part", mandatory=False, tiers=("thorough",)),
        "large": job(fn, "two-items-large", n=2, M=30),
        "three-containers": job(fn, "three-containers", n=2, M=3, ncont=3),
        "items-two-containers": job(fn, "three-items-two-containers", n=3, M=3, ncont=2),
        "small-items": job(fn, "three-small-items", n=3, M=30, mdim=3, mandatory=False, tiers=("thorough",)),
    }
    return [jobs[n] for n in names]


SHAPES = {
    # one of every pair of neighbouring dimensions decides about the rest of a large container
    "nearly-full": dict(size=[(40, 30)], dims=[(38, 40, 28, 30), (37, 40, 1, 2), (1, 2, 1, 3), (1, 2, 1, 2)]),
    "narrow": dict(size=[(2, 200)], dims=[(1, 2, 98, 102), (1, 2, 97, 102), (1, 2, 1, 3)]),
    "wide": dict(size=[(200, 2)], dims=[(98, 102, 1, 2), (97, 102, 1, 2), (1, 3, 1, 2)]),
    "quarters": dict(size=[(40, 40)], dims=[(19, 21, 19, 21)] * 2 + [(20, 21, 20, 21)] * 2 + [(1, 2, 1, 1)]),
    "eight-items": dict(size=[(9, 9)], dims=[(3, 4, 3, 4)] * 2 + [(2, 3, 2, 2)] * 3 + [(1, 2, 1, 1)] * 3),
    "ten-items": dict(size=[(7, 12)], dims=[(3, 4, 2, 2), (2, 2, 5, 5), (1, 3, 4, 4), (3, 3, 3, 3), (2, 2, 1, 3), (4, 4, 2, 2),
                                            (1, 1, 3, 3), (2, 2, 2, 2), (1, 1, 1, 1), (3, 3, 1, 2)]),
    "thirty-items": dict(size=[(12, 12)], dims=([(2, 2, 3, 3), (1, 1, 2, 2), (3, 3, 1, 1), (2, 3, 2, 2), (1, 1, 1, 1)] * 6)),
    "ten-items-three-containers": dict(size=[(5, 5), (4, 6), (6, 3)], dims=[
        (3, 4, 2, 2), (2, 2, 5, 5), (1, 2, 4, 4), (3, 3, 3, 3), (2, 2, 2, 3), (4, 4, 2, 2), (1, 1, 3, 3), (2, 3, 2, 2), (1, 1, 1, 2),
        (3, 3, 1, 1)]),
    "fourteen-containers": dict(size=[(4, 3), (1, 1)] + [(2, 2)] * 9 + [(5, 1), (3, 3), (1, 6)], dims=[
        (1, 5, 2, 3), (2, 3, 2, 2), (3, 3, 1, 4), (1, 1, 5, 6)]),
    # the first containers are full long before the items end
    "filled-early": dict(size=[(3, 2), (1, 1), (2, 4), (5, 5)], dims=[(2, 3, 1, 2)] * 2 + [(1, 1, 1, 1), (1, 2, 1, 1)] + [
        (1, 1, 1, 2), (2, 2, 1, 1), (1, 1, 1, 1), (2, 2, 2, 2)] * 4),
    "page": dict(size=[(297, 210)], dims=[(146, 150, 103, 107), (147, 149, 104, 106), (147, 149, 104, 106), (1, 150, 1, 106)]),
    "strip-eight-items": dict(strip=True, size=(6, 20), dims=[(3, 4, 3, 4)] * 2 + [(2, 3, 2, 2)] * 3 + [(1, 2, 1, 1)] * 3),
    "strip-long": dict(strip=True, size=(3, 1400), dims=[(1, 3, 598, 600), (1, 3, 499, 501), (2, 3, 1, 2)]),
}


def shaped(fn, *names, budget=None):
    """larger problems, of which a part of the dimensions is symbolic"""
    out = []
    for name in names:
        sh = SHAPES[name]
        slow = name in ("page",)
        out.append(job(fn, name, n=len(sh["dims"]), M=0, mandatory=not slow, **sh))
    return out


JOBS = {
    "C01": past_jobs(c01) + grid_jobs(c01, ("two items in a container",)) + shaped(c01, *SHAPES) + extra(c01, "large", "partial", "three-containers", "small-items") + [
        ljob(fitting, "fitting-two", 2, 6, covers=("placed", "not placed")),
        ljob(fitting, "fitting-three", 3, 12, covers=("placed", "not placed")),
        ljob(fitting, "fitting-four", 4, 8),
        ljob(fitting, "fitting-wide", 2, 300, L=3),
        ljob(fitting, "fitting-long", 1, 3, L=70),
        ljob(fitting, "fitting-three-large", 3, 20, mandatory=False, tiers=("thorough",)),
        ljob(fitting, "fitting-five", 5, 8, mandatory=False, tiers=("thorough",)),
    ],
    "C02": past_jobs(c02) + grid_jobs(c02, ("an item left out", "an item placed")) + shaped(c02, *SHAPES) + extra(
        c02, "large", "sequence", "three-containers", "items-two-containers", "sequence-three"),
    "C03": past_jobs(c03, strip=False) + [j for j in grid_jobs(c03, ("a used container",)) + shaped(c03, *SHAPES) if "strip" not in j.name] + extra(
        c03, "three-containers", "sequence", "items-two-containers") + [
        ljob(c03_layout, "layout-three", 3, 8, covers=("all placed",)),
        ljob(c03_layout, "layout-four", 4, 5),
        ljob(c03_layout, "layout-three-large", 3, 16, mandatory=False, tiers=("thorough",)),
        ljob(c03_layout, "layout-five", 5, 5, mandatory=False, tiers=("thorough",)),
    ],
    "C04": past_jobs(c04) + grid_jobs(c04, ("two items packed",)) + shaped(c04, *SHAPES) + extra(
        c04, "sequence", "partial", "three-containers", "items-two-containers", "sequence-three", "partial-four") + [
        ljob(c04_layout, "points-two", 2, 5),
        ljob(c04_layout, "points-three", 3, 4, covers=("A", "B", "A__", "B__", "C", "D", "E", "F")),
        ljob(c04_layout, "points-three-larger", 3, 5, mandatory=False, tiers=("thorough",)),
        ljob(c04_layout, "points-two-large", 2, 8, mandatory=False, tiers=("thorough",)),
        ljob(c04_layout, "points-four", 4, 4, mandatory=False, tiers=("thorough",)),
        ljob(fitting, "fitting-two", 2, 8, exact=True, covers=("placed", "not placed")),
        ljob(fitting, "fitting-three", 3, 7, exact=True, covers=("placed", "not placed")),
        ljob(fitting, "fitting-three-large", 3, 12, exact=True, mandatory=False, tiers=("thorough",)),
    ],
    "C05": change_jobs() + shaped(c05, "nearly-full", "ten-items", "ten-items-three-containers", "strip-long") + [
        Job("classes-and-debug", c05_same, "2 items, every dimension in 1..3, rotation on and off", {"n": 2, "M": 3}, stubs=STUBS),
        Job("classes-and-debug-strip", c05_same, "2 items, width and dimensions 1..2, strip height 1..4",
            {"n": 2, "M": 2, "strip": 4}, stubs=STUBS),
        job(c05, "two-items", n=2, M=5, strat="sym"),
        job(c05, "three-items", n=3, M=3, rot=False),
        job(c05, "two-containers", n=2, M=3, ncont=2),
        job(c05, "strip", n=2, M=3, strip=4),
        job(c05, "three-items-larger", n=3, M=5, mandatory=False),
    ],
    "C06": past_jobs(c06, bins=False) + shaped(c06, *[s for s in SHAPES if "strip" in s]) + [
        job(c06, "one-item", n=1, M=8, strip=12),
        job(c06, "two-items", n=2, M=5, strip=8, covers=("a used strip", "a stack")),
        job(c06, "three-items", n=3, M=3, strip=6),
        ljob(c06_layout, "layout-two", 2, 4, strip=8, covers=("all placed",)),
        ljob(c06_layout, "layout-three", 3, 3, strip=5, covers=("all placed",)),
        ljob(c06_layout, "layout-two-larger", 2, 6, strip=9, mandatory=False, tiers=("thorough",)),
        ljob(c06_layout, "layout-three-larger", 3, 4, strip=8, mandatory=False, tiers=("thorough",)),
        job(c06, "three-items-larger", n=3, M=5, strip=8, mandatory=False),
        job(c06, "every-order", n=3, M=4, strip=8, strat="sym", mandatory=False),
    ],
}
