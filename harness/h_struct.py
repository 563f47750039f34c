"""C14-C16: the items, the containers and the strip."""
from collections import OrderedDict, defaultdict

from symx.runner import Job
from .common import LONG
from .stubs import strategies

STUBS = ("logging disabled",)
STRIP = "strip-pack-container"


def dim_value(ctx, name, kinds, M):
    """(value, is it a valid dimension)"""
    kind = ctx.choice(name + "_kind", kinds)
    if kind == "pos":
        return ctx.int(name, 1, M), True
    if kind == "nonpos":
        return ctx.int(name + "n", -M, 0), False
    return {"float": 2.0, "str": "2", "none": None, "list": [2]}[kind], False


def dims_value(ctx, name, keys, M, full=True):
    """(dimensions, valid)"""
    shape = ctx.choice(name + "_shape", ["ok", "ordered", "default", "missing", "extra", "case", "empty", "type", "none"])
    a, b = keys
    if shape == "ok":
        x, okx = dim_value(ctx, name + a, ["pos", "nonpos", "float", "str", "none"], M)
        y, oky = dim_value(ctx, name + b, ["pos", "nonpos", "float", "none"], M) if okx else (3, True)
        return {a: x, b: y}, okx and oky
    if shape == "ordered":
        return OrderedDict([(b, 3), (a, 2)]), True
    if shape == "default":
        return defaultdict(int, {a: 4, b: 1}), True
    if shape == "missing":
        return {a: 2}, False
    if shape == "extra":
        return {a: 2, b: 2, "h": 2}, False
    if shape == "case":
        return {a.swapcase(): 2, b: 2}, False
    return {"empty": {}, "type": [(a, 2), (b, 3)], "none": None}[shape], False


def id_value(ctx, name, new="new"):
    v = ctx.choice(name + "_id", [new, "s0", "", " \u00e9\n", LONG, 5, None, ("t",)])
    return v, isinstance(v, str)


def keys_of(which):
    return ("w", "l") if which == "items" else ("W", "L")


def errors(ctx, *names):
    m = ctx.m("exceptions")
    return tuple(getattr(m, n) for n in names)


def dump(s):
    return {k: {d: s[k][d] for d in s[k]} for k in s}


def make(ctx, strip=False, cls="HyperPack", n=2, ncont=2):
    hp = ctx.hp
    items = {f"s{i}": {"w": 2 + i, "l": 3} for i in range(n)}
    if strip:
        return getattr(hp, cls)(items=items, strip_pack_width=7)
    conts = {f"s{i}": {"W": 5 + i, "L": 6} for i in range(ncont)}
    return getattr(hp, cls)(containers=conts, items=items)


def well_formed(ctx, s, which, what):
    ks = keys_of(which)
    ctx.check(len(s) >= 1, f"the {which} are empty {what}")
    for k in s:
        ctx.check(isinstance(k, str), f"an id of the {which} is no string {what}")
        d = s[k]
        ctx.check(sorted(d) == sorted(ks), f"the {which} have other dimensions {what}")
        for x in ks:
            v = d[x] if x in d else None
            ok = isinstance(v, int)
            ctx.check(ok, f"a dimension of the {which} is no integer {what}")
            if ok:
                ctx.check(v >= 1, f"a dimension of the {which} is not positive {what}")


# ------------------------------------------------------------------ construction
def c14_new(ctx, which, M, cls="HyperPack"):
    hp = ctx.hp
    m = ctx.m("exceptions")
    kind = ctx.choice("structure", ["dict", "ordered", "default", "none", "empty", "list", "str", "pairs"])
    ok = True
    if kind in ("dict", "ordered", "default"):
        keys = keys_of(which)
        val = {"dict": dict, "ordered": OrderedDict, "default": lambda: defaultdict(dict)}[kind]()
        first, okf = id_value(ctx, "a", "one")
        d, okd = dims_value(ctx, "a", keys, M)
        val[first] = d
        ok = okf and okd
        if ok and ctx.flag("two"):
            d2, ok2 = dims_value(ctx, "b", keys, M)
            val["two"] = d2
            ok = ok2
    else:
        val = {"none": None, "empty": {}, "list": [1], "str": "s", "pairs": [("a", {"w": 1, "l": 1})]}[kind]
        ok = False
    good_items = {"i": {"w": 1, "l": 1}}
    good_conts = {"c": {"W": 1, "L": 1}}

    def go():
        if which == "items":
            return getattr(hp, cls)(containers=good_conts, items=val)
        return getattr(hp, cls)(containers=val, items=good_items)

    own = m.ItemsError if which == "items" else m.ContainersError
    p, e = ctx.attempt(go, own, m.DimensionsError)
    ctx.check((e is None) == ok, f"{which} are accepted exactly when they are well formed")
    if p is not None:
        ctx.cover("accepted")
        s = getattr(p, which)
        well_formed(ctx, s, which, "after construction")
        ctx.check(list(s) == list(val), f"the ids of the {which} are not the given ones")
        if ok:
            ctx.check(dump(s) == {k: dict(v) for k, v in val.items()}, f"the {which} are not the given ones")
            # the caller's dictionary is not aliased
            for k in list(val):
                val[k]["q"] = 1
                val[k][keys_of(which)[0]] = -1
            val["z"] = None
            well_formed(ctx, s, which, "after changing the caller's dictionary")
    else:
        ctx.cover("rejected")


# ------------------------------------------------------------------ operations
OPS = ("set", "setdim", "update", "ior", "updatedim", "iordim", "setdefault", "setdefaultdim", "del", "deldim",
       "pop", "popitem", "clear", "popdim", "cleardim", "assign", "delattr")
MORE = ("updates", "updatedims", "assigns", "keyword", "pairs", "setdefaultnone", "popdefault", "popmissing", "delmissing",
        "popitemdim", "deldimmissing", "replace", "keep", "reassign")


def operate(ctx, p, which, k, M, strip=False, ops=OPS):
    """one arbitrary operation; returns (name, is it valid, exception, what the structure is after it)"""
    m = ctx.m("exceptions")
    s = getattr(p, which)
    keys = keys_of(which)
    op = ctx.choice(f"op{k}", ops)
    n = f"o{k}"
    ids = list(s)
    first = ids[0]
    if len(ids) > 1 and ctx.flag(n + "_last"):
        first = ids[-1]
    valid = None
    want = dump(s)

    def put(i, d):
        if isinstance(d, dict):
            want[i] = dict(d)

    def run():
        nonlocal valid, want
        if op == "set":
            i, oki = id_value(ctx, n, "s9")
            d, okd = dims_value(ctx, n, keys, M, False)
            valid = oki and okd
            put(i, d)
            s[i] = d
        elif op == "setdim":
            x = ctx.choice(n + "key", [keys[0], keys[1], "q"])
            v, okv = dim_value(ctx, n, ["pos", "nonpos", "float", "str", "none"], M)
            valid = okv and x != "q"
            want[first][x] = v
            s[first][x] = v
        elif op in ("update", "ior"):
            d, okd = dims_value(ctx, n, keys, M, False)
            i = ctx.choice(n + "_sid", [first, "s9"])
            valid = okd
            put(i, d)
            if op == "update":
                s.update({i: d})
            else:
                t = s
                t |= {i: d}
        elif op in ("updatedim", "iordim"):
            v, okv = dim_value(ctx, n, ["pos", "nonpos", "float"], M)
            x = ctx.choice(n + "key", list(keys))
            valid = okv
            want[first][x] = v
            if op == "updatedim":
                s[first].update({x: v})
            else:
                t = s[first]
                t |= {x: v}
        elif op == "setdefault":
            i = ctx.choice(n + "_sid", [first, "s9"])
            if i in s:
                valid = None
                s.setdefault(i, {"w": 0})
            else:
                d, okd = dims_value(ctx, n, keys, M, False)
                valid = okd
                put(i, d)
                s.setdefault(i, d)
        elif op == "updates":
            # the first entry is fine: it may be taken over or not
            d, okd = dims_value(ctx, n, keys, M, False)
            valid = okd
            put(first, {keys[0]: 1, keys[1]: 1})
            put("s9", d)
            s.update({first: {keys[0]: 1, keys[1]: 1}, "s9": d})
        elif op == "updatedims":
            v, okv = dim_value(ctx, n, ["pos", "nonpos", "str"], M)
            valid = okv
            put(first, {keys[0]: 1, keys[1]: v})
            s[first].update({keys[0]: 1, keys[1]: v})
        elif op == "assigns":
            d, okd = dims_value(ctx, n, keys, M, False)
            valid = okd
            want = {"n0": {keys[0]: 1, keys[1]: 2}}
            put(first, d)
            setattr(p, which, {"n0": {keys[0]: 1, keys[1]: 2}, first: d})
        elif op == "keyword":
            d, okd = dims_value(ctx, n, keys, M, False)
            valid = okd
            put("s9", d)
            s.update(s9=d)
        elif op == "pairs":
            d, okd = dims_value(ctx, n, keys, M, False)
            valid = okd
            put("s9", d)
            s.update([("s9", d)])
        elif op == "setdefaultnone":
            valid = False
            s.setdefault("s9")
        elif op == "popdefault":
            valid = None
            s.pop("nope", None)
        elif op in ("popmissing", "delmissing", "deldimmissing"):
            valid = False
            try:
                if op == "popmissing":
                    s.pop("nope")
                elif op == "delmissing":
                    del s["nope"]
                else:
                    del s[first]["nope"]
            except KeyError:
                raise m.ItemsError("as it should")
        elif op == "popitemdim":
            valid = False
            s[first].popitem()
        elif op == "replace":
            # an entry of the same dimensions as another one
            d = dict(s[ids[0]].data)
            valid = True
            put(first, d)
            s[first] = d
        elif op == "keep":
            # some of the entries are assigned as the new ones
            kept = ids[:1] if ctx.flag(n + "_one") else ids[::-1]
            valid = True
            want = {i: want[i] for i in kept}
            setattr(p, which, {i: dict(s[i].data) for i in kept})
        elif op == "reassign":
            # the same ids with another dimension
            d = {i: dict(s[i].data) for i in ids}
            d[first][keys[1]] = ctx.int(n + "re", 1, M)
            valid = True
            want = {i: dict(d[i]) for i in ids}
            setattr(p, which, d)
        elif op == "setdefaultdim":
            valid = None
            s[first].setdefault(keys[0], -1)
        elif op == "del":
            valid = len(s) > 1
            del want[first]
            del s[first]
        elif op == "deldim":
            valid = False
            del s[first][keys[0]]
        elif op == "pop":
            valid = len(s) > 1
            del want[first]
            got = s.pop(first)
            ctx.check(sorted(got) == sorted(keys), "pop does not give the popped entry")
        elif op == "popitem":
            valid = len(s) > 1
            want = None
            s.popitem()
        elif op == "clear":
            valid = False
            s.clear()
        elif op == "popdim":
            valid = False
            s[first].pop(keys[0])
        elif op == "cleardim":
            valid = False
            s[first].clear()
        elif op == "assign":
            d, okd = dims_value(ctx, n, keys, M, False)
            valid = okd
            want = {}
            put("n0", d)
            setattr(p, which, {"n0": d})
        elif op == "delattr":
            valid = False
            delattr(p, which)

    _, e = ctx.attempt(run, m.ItemsError, m.ContainersError, m.DimensionsError)
    return op, valid, e, want


def is_as(ctx, s, want, what):
    """the structure is the wanted one"""
    got = dump(s)
    ctx.check(sorted(got) == sorted(want), f"other ids than expected {what}")
    for i in want:
        if i in got and sorted(got[i]) == sorted(want[i]):
            ctx.check(ctx.And([got[i][d] == want[i][d] for d in want[i]]), f"another dimension than given {what}")


def c14_ops(ctx, which, M, steps=1, n=2, **kw):
    p = make(ctx, n=n, ncont=n)
    for k in range(steps):
        before = dump(getattr(p, which))
        op, valid, e, want = operate(ctx, p, which, k, M, **kw)
        after = getattr(p, which)
        well_formed(ctx, after, which, f"after {op}")
        if valid is not None:
            ctx.check((e is None) == valid, f"{op} on the {which} is accepted exactly when it is valid")
        if e is None and want is not None:
            is_as(ctx, after, want, f"after {op}")
        elif e is None:
            left = dump(after)
            ctx.check(len(left) == len(before) - 1 and all(before.get(i) == left[i] for i in left), "popitem does not pop one entry")
        if e is not None and op not in ("clear", "updates", "updatedims"):
            ctx.check(dump(after) == before, f"a rejected {op} changed the {which}")
            ctx.cover("rejected")


def c15(ctx, which, M, steps=1, strip=False, n=2, **kw):
    p = make(ctx, strip=strip, n=n, ncont=n)
    cid = STRIP if strip else "s0"

    def fill():
        p.solution = {c: {} for c in p.containers}
        p.solution[list(p.containers)[0]] = {list(p.items)[0]: [0, 0, 1, 1]}
        p.obj_val_per_container = {c: 0.25 for c in p.containers}

    for k in range(steps):
        fill()
        before = (dump(p.items), list(p.items), dump(p.containers), list(p.containers))
        op, valid, e, want = operate(ctx, p, which, k, M, **kw)
        after = (dump(p.items), list(p.items), dump(p.containers), list(p.containers))
        same = ctx.And(after[1] == before[1], after[3] == before[3],
                       [after[0][i][d] == before[0][i][d] for i in after[0] for d in after[0][i] if i in before[0]],
                       [after[2][i][d] == before[2][i][d] for i in after[2] for d in after[2][i] if i in before[2]])
        reset = p.solution == {} and p.obj_val_per_container == {}
        ctx.check(ctx.Or(same, reset), f"{op} changed the {which} but kept the old solution")
        if e is None and reset:
            ctx.cover("reset")
        # the next solution and its value are of the changed problem
        p.solve()
        ctx.check(list(p.solution) == list(p.containers), "the solution has not the containers of the problem")
        ctx.check(list(p.obj_val_per_container) == list(p.containers), "utilizations of other containers")
        vals = [0.5 + 0.125 * c for c in range(len(p.containers))]
        p.obj_val_per_container = dict(zip(p.containers, vals))
        if len(p.containers) == 1:
            want = vals[0]
        else:
            want = sum(vals[:-1]) + vals[-1] * 0.7
        ctx.check(ctx.close(p.calculate_obj_value(), want), f"the objective value does not follow the containers after {op}")


def c15_read(ctx, strip=False):
    """reading does not lose the solution"""
    p = make(ctx, strip=strip)
    p.solve()
    sol, val = p.solution, p.obj_val_per_container
    op = ctx.choice("op", ["deepcopy", "iter", "str", "get", "len", "settings", "height", "strategy", "log", "copy"])
    which = ctx.choice("which", ["items", "containers"])
    s = getattr(p, which)
    if op == "deepcopy":
        d = s.deepcopy()
        ctx.check(d == dump(s), "deepcopy differs")
        for k in d:
            d[k].clear()
        d.clear()
        well_formed(ctx, s, which, "after changing a deepcopy")
        some = list(reversed(list(s)))
        d = s.deepcopy(some)
        ctx.check(list(d) == some and d == dump(s), "deepcopy of a sequence differs")
    elif op == "iter":
        for k in s:
            list(s[k].items())
    elif op == "str":
        str(s)
    elif op == "get":
        s.get("s0"), s.get("nope"), "s0" in s, s.keys(), s.values(), s.items()
    elif op == "len":
        len(s)
    elif op == "settings":
        p.settings = {"rotation": False}
    elif op == "height":
        s._get_height() if strip and which == "containers" else None
    elif op == "strategy":
        p.potential_points_strategy = p.potential_points_strategy
    elif op == "log":
        p.log_solution()
    elif op == "copy":
        ctx.check(dump(s.copy()) == dump(s), "copy differs")
        for k in s:
            ctx.check(dict(s[k].copy()) == dump(s)[k], "copy of the dimensions differs")
    ctx.check(p.solution is sol and p.obj_val_per_container is val and bool(sol), f"{op} lost the solution")


def c15_free(ctx, M):
    """structures without a problem"""
    m = ctx.m("structures")
    which = ctx.choice("which", ["items", "containers"])
    keys = keys_of(which)
    cls = m.Items if which == "items" else m.Containers

    class Holder:
        pass

    p = Holder()
    setattr(p, which, cls({"s0": {keys[0]: 2, keys[1]: 3}, "s1": {keys[0]: 2, keys[1]: 3}}))
    op, valid, e, want = operate(ctx, p, which, 0, M)
    if op in ("assign", "delattr"):
        ctx.stop()
    s = getattr(p, which)
    well_formed(ctx, s, which, f"after {op}")
    if valid is not None:
        ctx.check((e is None) == valid, f"{op} on the {which} is accepted exactly when it is valid")
    ctx.observe(dump(s))


# ------------------------------------------------------------------ strips
def c16_new(ctx, M):
    hp = ctx.hp
    m = ctx.m("exceptions")
    cls = ctx.choice("cls", ["HyperPack", "PointGenPack"])
    W, ok = dim_value(ctx, "W", ["pos", "nonpos", "float", "str", "list"], M)
    conts = ctx.choice("containers", [None, {"c": {"W": 1, "L": 1}}, {}])
    items = {"i": {"w": 1, "l": 1}}
    p, e = ctx.attempt(lambda: getattr(hp, cls)(items=items, containers=conts, strip_pack_width=W),
                       m.DimensionsError, m.ContainersError)
    ctx.check((e is None) == (ok and conts is None), "a strip is accepted exactly when it is well formed")
    if p is not None:
        ctx.cover("accepted")
        ctx.check(list(p.containers) == [STRIP], "a strip has one container")
        ctx.check(p.containers[STRIP]["W"] == W, "the strip has not the given width")
        ctx.check(p.container_height == 10 * W, "the initial height of the strip is ten times its width")
        ctx.check(p.container_min_height is None, "a strip starts without a minimum height")
        ctx.check(p.containers._get_height(STRIP) == 10 * W, "the height of an unsolved strip")


def c16_lock(ctx, M, steps=1, **kw):
    p = make(ctx, strip=True)
    for k in range(steps):
        before = dump(p.containers)
        # assigning the containers must fail as well
        op, valid, e, want = operate(ctx, p, "containers", k, M, **kw)
        after = dump(p.containers)
        ctx.check(after == before, f"{op} changed the container of a strip")
        if valid or op not in ("setdefault", "setdefaultdim", "popdefault"):
            ctx.check(e is not None, f"{op} on the container of a strip is accepted")
        ctx.check(p.container_height == 70, "the strip's height changed")


def c16_heights(ctx, M, steps):
    """the heights of a strip under any sequence of operations"""
    m = ctx.m("exceptions")
    p = make(ctx, strip=True)
    h, mn = 70, None
    for k in range(steps):
        op = ctx.choice(f"op{k}", ["height", "min", "reset", "delete", "solve", "search"])
        if op in ("height", "min"):
            v, ok = dim_value(ctx, f"v{k}", ["pos", "nonpos", "float", "str", "none"], M)
            name = "container_height" if op == "height" else "container_min_height"
            if ok:
                lim = (v >= mn if mn is not None else True) if op == "height" else (v <= h)
                ok = bool(lim)
            _, e = ctx.attempt(lambda: setattr(p, name, v), m.DimensionsError, m.ContainersError)
            ctx.check((e is None) == ok, f"{name} is accepted exactly when it is valid")
            if e is None:
                if op == "height":
                    h = v
                else:
                    mn = v
                ctx.cover(op)
            else:
                ctx.cover(op + " rejected")
        elif op == "reset":
            p.reset_container_height()
            h, mn = 70, None
        elif op == "delete":
            which = ctx.choice(f"del{k}", ["container_height", "container_min_height"])
            _, e = ctx.attempt(lambda: delattr(p, which), m.DimensionsError)
            ctx.check(e is not None, f"{which} can be deleted")
        elif op == "search":
            # a search in which every evaluation gives a lower stack than the one before
            hyper = ctx.flag(f"hyper{k}")
            heights = []

            def solve(sequence=None, debug=False):
                heights.append(max(3, 9 - len(heights)))
                fits = p.container_height >= heights[-1]
                p.solution = {STRIP: {i: [0, 0, 1, heights[-1]] for i in (p.items if fits else ())}}
                p.obj_val_per_container = {STRIP: 0.5 + len(heights) / 100 if fits else 0}
            p.solve = solve
            p._solve = lambda *a, **k: (solve(), (p.solution, p.obj_val_per_container))[1]
            p.get_strategies = lambda **k: strategies(2)
            if hyper:
                p.hypersearch(orientation=None, sorting_by=None)
            else:
                p.local_search()
            del p.solve, p._solve
            ctx.check(p.container_height <= h, "a search made the strip higher")
            h = p.container_height
            ctx.cover("search")
        else:
            p.solution = {STRIP: {"s0": [0, 0, 2, 3]}}
            want = 3
            if mn is not None:
                want = ctx.If(mn > 3, mn, 3)
            ctx.check(p.containers._get_height(STRIP) == want, "the height of a solved strip")
        ctx.check(p.container_height == h, f"the strip's height after {op}")
        if mn is None:
            ctx.check(p.container_min_height is None, f"the strip's minimum height after {op}")
        else:
            ctx.check(p.container_min_height is not None and p.container_min_height == mn,
                      f"the strip's minimum height after {op}")
            ctx.check(mn <= h, "the strip is lower than its minimum height")


def c16_bin(ctx):
    """bin packing has no strip height"""
    p = make(ctx)
    ctx.check(p.container_height is None and p.container_min_height is None, "bin packing has no container_height")
    p.reset_container_height()
    ctx.check(p.container_height is None, "bin packing has no container_height")
    v = ctx.int("L", 1, 1000)
    p.containers["s1"]["L"] = v
    ctx.check(p.containers._get_height("s1") == v, "the height of a container is its length")
    p.solve()
    ctx.check(p.containers._get_height("s1") == v, "the height of a container is its length")


def job(fn, name, bounds, mandatory=True, tiers=("quick", "thorough"), covers=(), **params):
    return Job(name, fn, bounds, params, tiers=tiers, mandatory=mandatory, covers=covers, stubs=STUBS)


ANY = "dimensions any integer of -M..M or one of the other kinds (float, str, None, list), "
JOBS = {
    "C14": [
        job(c14_new, "new-items", ANY + "up to two entries, M=10**9", which="items", M=10 ** 9, covers=("accepted", "rejected")),
        job(c14_new, "new-containers", ANY + "up to two entries, M=10**9", which="containers", M=10 ** 9, cls="PointGenPack"),
        job(c14_ops, "items-operation", ANY + "one of 17 operations", which="items", M=10 ** 9, covers=("rejected",)),
        job(c14_ops, "containers-operation", ANY + "one of 17 operations", which="containers", M=10 ** 9),
        job(c14_ops, "items-further", ANY + "one of 14 further operations", which="items", M=10 ** 9, ops=MORE),
        job(c14_ops, "containers-further", ANY + "one of 14 further operations", which="containers", M=10 ** 9, ops=MORE),
        job(c14_ops, "items-three", ANY + "one of 31 operations, three entries", which="items", M=10 ** 9, n=3, ops=OPS + MORE),
        job(c14_ops, "containers-one", ANY + "one of 31 operations, a single entry", which="containers", M=10 ** 9, n=1, ops=OPS + MORE),
        job(c15_free, "free-standing", ANY + "one of 15 operations on structures without a problem", M=10 ** 9),
        job(c14_ops, "items-two-operations", ANY + "two of 17 operations", which="items", M=10 ** 9, steps=2, mandatory=False),
        job(c14_ops, "items-three-operations", ANY + "three of 17 operations", which="items", M=10 ** 9, steps=3,
            mandatory=False, tiers=("thorough",)),
        job(c14_ops, "containers-three-operations", ANY + "three of 17 operations", which="containers", M=10 ** 9, steps=3,
            mandatory=False, tiers=("thorough",)),
    ],
    "C15": [
        job(c15, "items", "one of 17 operations, M=6", which="items", M=6, covers=("reset",)),
        job(c15, "containers", "one of 17 operations, M=6", which="containers", M=6, covers=("reset",)),
        job(c15, "items-further", "one of 14 further operations, M=6", which="items", M=6, ops=MORE),
        job(c15, "containers-further", "one of 14 further operations, M=6", which="containers", M=6, ops=MORE),
        job(c15, "containers-three", "one of 31 operations on three entries, M=6", which="containers", M=6, n=3, ops=OPS + MORE),
        job(c15, "items-three", "one of 31 operations on three entries, M=6", which="items", M=6, n=3, ops=OPS + MORE),
        job(c15, "strip-items", "one of 17 operations, M=6", which="items", M=6, strip=True),
        job(c15, "items-two", "two of 17 operations, M=4", which="items", M=4, steps=2, mandatory=False),
        job(c15, "containers-two", "two of 17 operations, M=4", which="containers", M=4, steps=2, mandatory=False),
        job(c15_read, "reading", "ten reading operations"),
        job(c15_read, "reading-strip", "ten reading operations", strip=True),
    ],
    "C16": [
        job(c16_new, "new", ANY + "M=10**6", M=10 ** 6, covers=("accepted",)),
        job(c16_lock, "lock", "one of 17 operations on the container", M=10 ** 6),
        job(c16_lock, "lock-further", "one of 14 further operations on the container", M=10 ** 6, ops=MORE),
        job(c16_heights, "heights", "two operations on the heights, M=1000", M=1000, steps=2,
            covers=("height", "min", "min rejected", "search")),
        job(c16_heights, "heights-three", "three operations on the heights, M=1000", M=1000, steps=3,
            covers=("height rejected",)),
        job(c16_heights, "heights-four", "four operations on the heights, M=1000", M=1000, steps=4, mandatory=False,
            tiers=("thorough",)),
        job(c16_bin, "bin", "one container length of 1..1000"),
        job(c16_lock, "lock-two", "two of 17 operations on the container", M=100, steps=2, mandatory=False),
    ],
}
