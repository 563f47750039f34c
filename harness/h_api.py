"""C13, C17-C24, C27: settings, strategies, sorting, logging, figures, generated data."""
import json
import multiprocessing
import pathlib
import platform
import random
import re
import sys
import types

from symx import strings
from symx.runner import Job
from .common import CIDS, IDS, LONG, POINTS, dims, ids_of
from .stubs import Clock, Landscape, strategies

LOG = ("logging disabled",)


def bins(ctx, n=1, ncont=1, cls="HyperPack", **kw):
    items = {i: {"w": 1, "l": 1} for i in ids_of(n)}
    return getattr(ctx.hp, cls)(containers={i: {"W": 9, "L": 8} for i in ids_of(ncont, CIDS)}, items=items, **kw)


# ------------------------------------------------------------------ C13 strategies
def c13(ctx, strip, cls="HyperPack"):
    """an arbitrary order of the free points is one of the strategies"""
    hp = ctx.hp
    p = hp.HyperPack(items={"i": {"w": 1, "l": 1}}, strip_pack_width=5) if strip else bins(ctx)
    # neither the current strategy nor what was done with earlier results matters
    before = ctx.choice("before", [None, "reversed", "some points", "no point", "asked"])
    if before == "asked":
        p.get_strategies().clear()
        p.solve()
    elif before:
        p.potential_points_strategy = {"reversed": POINTS[::-1], "some points": ("C", "A", "F"), "no point": ()}[before]
    sts = [tuple(s) for s in p.get_strategies()]
    default = tuple(p.DEFAULT_POTENTIAL_POINTS_STRATEGY)
    ctx.check(sorted(default) == sorted(POINTS), "the default strategy has not the ten points")
    ctx.check(len(set(sts)) == len(sts), "a strategy is given twice")
    for s in sts:
        ctx.check(sorted(s) == sorted(POINTS), "a strategy has not exactly the ten points")
    free = [x for x in POINTS if x not in ("A__", "B__", "F", "E")]
    order = [ctx.int(f"p{k}", 0, 5) for k in range(6)]
    ctx.assume(ctx.And([order[a] != order[b] for a in range(6) for b in range(a)]))
    hits = []
    for s in sts:
        head = s[:6]
        if set(head) != set(free):
            ctx.check(False, "a strategy does not start with the points to permutate")
            continue
        hits.append(ctx.And([order[k] == free.index(head[k]) for k in range(6)]))
        ctx.check(s[6:] in (p.STRATEGIES_SUFFIX, p.STRATEGIES_SUFFIX_STRIPACK), "a strategy has another suffix")
    ctx.check(ctx.Or(hits), "an order of the points is in no strategy")
    for s in sts[:5] + sts[-5:]:
        p.potential_points_strategy = s
    for s in p.get_strategies(_exhaustive=False):
        ctx.check(set(s) <= set(POINTS) and len(set(s)) == len(s), "a predefined strategy is no strategy")


# ------------------------------------------------------------------ C17 numeric settings
def setting(ctx, name, M, absent=True):
    """(value or ABSENT, valid, effective value or None for the default)"""
    kind = ctx.choice(name, ["absent", "none", "int", "float", "str", "list"])
    if kind == "absent":
        return ABSENT, True, None
    if kind == "int":
        v = ctx.int(name + "v", -M, M)
        return v, v >= 1, v
    return {"none": None, "float": 2.5, "str": "3", "list": [1]}[kind], False, None


ABSENT = object()


def env(ctx):
    """the machine the settings are validated on"""
    cpus = ctx.int("cpus", 1, 256)
    system = ctx.choice("system", ["Linux", "Windows"])
    main = ctx.flag("main")

    class P:
        name = "MainProcess" if main else "other"

    class FakePlatform:
        def __getattr__(self, n):
            return (lambda: system) if n == "system" else getattr(platform, n)

    ctx.replace_globals([(multiprocessing.cpu_count, lambda: cpus), (platform, FakePlatform()),
                         (platform.system, lambda: system), (multiprocessing.current_process, lambda: P())])


def c17(ctx, M, how, cls="HyperPack"):
    hp = ctx.hp
    m = ctx.m("exceptions")
    env(ctx)
    s = {}
    mt, okt, efft = setting(ctx, "max_time_in_seconds", M)
    if mt is not ABSENT:
        s["max_time_in_seconds"] = mt
    wn, okw, effw = setting(ctx, "workers_num", M)
    if wn is None:
        okw = True
    if wn is not ABSENT:
        s["workers_num"] = wn
    rk = ctx.choice("rotation", ["absent", "none", "true", "false", "int", "str"])
    if rk != "absent":
        s["rotation"] = {"none": None, "true": True, "false": False, "int": 1, "str": "no"}[rk]
    okr = rk not in ("int", "str")
    base = {"items": {"i": {"w": 1, "l": 1}}, "containers": {"c": {"W": 3, "L": 3}}}
    if how == "new":
        p, e = ctx.attempt(lambda: hp.HyperPack(settings=s, **base), m.SettingsError)
    elif how == "same":
        # the settings are changed and the same dictionary is assigned again
        p = hp.HyperPack(settings={"rotation": False, "workers_num": 3, "max_time_in_seconds": 7}, **base)
        p.settings.clear()
        p.settings.update(s)
        _, e = ctx.attempt(lambda: setattr(p, "settings", p.settings), m.SettingsError)
    elif how == "assign":
        p = hp.HyperPack(settings={"rotation": False, "workers_num": 3, "max_time_in_seconds": 7}, **base)
        p.solve()
        sol = p.solution
        _, e = ctx.attempt(lambda: setattr(p, "settings", s), m.SettingsError)
        ctx.check(p.solution is sol, "assigning the settings lost the solution")
    else:
        p = hp.HyperPack(settings={"rotation": False, "workers_num": 3, "max_time_in_seconds": 7}, **base)
        p.settings.clear()
        p.settings.update(s)
        ctx.check(p._max_time_in_seconds == 7 and p._workers_num == 3 and p._rotation is False,
                  "settings are applied without validate_settings")
        _, e = ctx.attempt(p.validate_settings, m.SettingsError)
    valid = ctx.And(okt, okw, okr)
    ctx.check(ctx.Iff(e is None, valid), "settings are accepted exactly when they are valid")
    if e is None:
        ctx.cover("accepted")
        ctx.check(p._max_time_in_seconds == (60 if efft is None else efft), "the effective max_time_in_seconds")
        ctx.check(p._workers_num == (1 if effw is None else effw), "the effective workers_num")
        ctx.check(p._rotation is {"true": True, "false": False}.get(rk, True), "the effective rotation")
    else:
        ctx.cover("rejected")


def c17_type(ctx):
    m = ctx.m("exceptions")
    v = ctx.choice("settings", [None, {}, [], "s", 5, [1], ("a",), True])
    cls = ctx.choice("cls", ["HyperPack", "PointGenPack"])
    how = ctx.choice("how", ["new", "assign"])
    if how == "new":
        p, e = ctx.attempt(lambda: bins(ctx, cls=cls, settings=v), m.SettingsError)
        # falsy values are the default
        ok = not v or isinstance(v, dict)
    else:
        p = bins(ctx, cls=cls)
        _, e = ctx.attempt(lambda: setattr(p, "settings", v), m.SettingsError)
        ok = isinstance(v, dict)
    ctx.check((e is None) == ok, "settings are accepted exactly when they are a dictionary")
    q = bins(ctx, cls=cls)
    _, e = ctx.attempt(lambda: delattr(q, "settings"), m.SettingsError)
    ctx.check(e is not None, "settings can be deleted")


# ------------------------------------------------------------------ C18 figure settings
def libs(ctx, plotly="5.14.0", kaleido="0.2.1"):
    """the installed versions (None: not installed)"""
    for name, v in (("plotly", plotly), ("kaleido", kaleido)):
        mod = None
        if v is not None:
            mod = types.ModuleType(name)
            mod.__version__ = v
        ctx.patch(sys.modules, name, mod)


class FakePath:
    """the file system: every path is arbitrary"""
    facts = {}

    def __init__(self, p):
        self.p = p

    def exists(self, **kw):
        return FakePath.facts["exists"]

    def is_fifo(self):
        return FakePath.facts["exists"] and FakePath.facts["dir"] == "other"

    def is_symlink(self):
        return False

    is_mount = is_socket = is_block_device = is_char_device = is_symlink

    def is_dir(self):
        return FakePath.facts["exists"] and FakePath.facts["dir"] is True

    def is_file(self):
        return FakePath.facts["exists"] and not FakePath.facts["dir"]

    def is_absolute(self):
        return True

    def __truediv__(self, o):
        return FakePath(f"{self.p}/{o}")

    def __fspath__(self):
        return self.p

    def __str__(self):
        return self.p

    @property
    def name(self):
        return self.p.rsplit("/", 1)[-1]

    @property
    def parent(self):
        return FakePath(self.p.rsplit("/", 1)[0])


def filesystem(ctx, exists=True, isdir=True):
    FakePath.facts = {"exists": exists, "dir": isdir}
    ctx.replace_globals([(pathlib.Path, FakePath)])


def figure(ctx, export, cls="HyperPack", show=ABSENT):
    m = ctx.m("exceptions")
    f = {"export": export} if export is not ABSENT else {}
    if show is not ABSENT:
        f["show"] = show
    return ctx.attempt(lambda: bins(ctx, cls=cls, settings={"figure": f}), m.SettingsError)


def version(ctx, name, parts, digits, suffix):
    """(version string, its three leading numbers)"""
    text, nums = "", []
    for k in range(parts):
        n = ctx.pick(ctx.int(f"{name}n{k}", 1, digits[k] if k < len(digits) else 1))
        t = ctx.text(f"{name}{k}_{n}_", n, 48, 57)
        nums.append(sum((strings.SymStr.codes(t)[j] - 48) * 10 ** (n - 1 - j) for j in range(n)))
        text = text + ("." if k else "") + t
    if suffix:
        text = text + ctx.choice(name + "_suffix", ["", "rc1", ".dev3", "+local", "a0"])
    return text, (nums + [0, 0, 0])[:3]


def lex_ge(ctx, a, b):
    """a >= b for lists of numbers"""
    r = True
    for x, y in reversed(list(zip(a, b))):
        r = ctx.Or(x > y, ctx.And(x == y, r))
    return r


def c18_versions(ctx, parts, digits, which, suffix=False):
    strings.install(ctx)
    filesystem(ctx)
    m = ctx.m("exceptions")
    v, nums = version(ctx, "v", parts, digits, suffix)
    if which == "plotly":
        libs(ctx, v, "0.2.1")
        ok = ctx.And(lex_ge(ctx, nums, [5, 14, 0]), ctx.Not(lex_ge(ctx, nums, [6, 0, 0])))
        p, e = figure(ctx, {"type": "html", "path": "/x"})
    else:
        libs(ctx, "5.20.1", v)
        ok = ctx.And(lex_ge(ctx, nums, [0, 2, 1]), ctx.Not(lex_ge(ctx, nums, [0, 3, 0])))
        p, e = figure(ctx, {"type": "image", "path": "/x", "format": "png"})
    ctx.check(ctx.Iff(e is None, ok), f"the {which} version is accepted exactly when it is in the range")
    ctx.cover("accepted" if e is None else "rejected")


def c18_missing(ctx):
    """libraries that are not there"""
    m = ctx.m("exceptions")
    filesystem(ctx)
    pl, ka = ctx.flag("plotly"), ctx.flag("kaleido")
    libs(ctx, "5.14.0" if pl else None, "0.2.1" if ka else None)
    kind = ctx.choice("kind", ["none", "empty", "show", "html", "image"])
    s = {"none": {}, "empty": {"figure": {}}, "show": {"figure": {"show": ctx.flag("show")}},
         "html": {"figure": {"export": {"type": "html", "path": "/x"}}},
         "image": {"figure": {"export": {"type": "image", "path": "/x", "format": "svg"}}}}[kind]
    p, e = ctx.attempt(lambda: bins(ctx, settings=s), m.SettingsError)
    need = kind not in ("none", "empty")
    ok = (pl or not need) and (ka or kind != "image")
    ctx.check((e is None) == ok, "figure settings are accepted exactly when the libraries they need are there")


def c18_name(ctx, lengths):
    """every file name"""
    strings.install(ctx)
    libs(ctx)
    filesystem(ctx)
    n = ctx.choice("length", lengths)
    t = ctx.text(f"c{n}_", n, 0, 255)
    cs = strings.SymStr.codes(t)
    if n:
        # the documented pattern ends in $, which lets a final newline through
        ctx.assume(cs[-1] != 10)
    ok = ctx.And(1 <= n <= 45, [ctx.Or(ctx.And(c >= 48, c <= 57), ctx.And(c >= 65, c <= 90), ctx.And(c >= 97, c <= 122),
                                       c == 95, c == 45) for c in cs])
    p, e = figure(ctx, {"type": "html", "path": "/x", "file_name": t})
    ctx.check(ctx.Iff(e is None, ok), "file_name is accepted exactly when it follows the documented pattern")
    ctx.cover("accepted" if e is None else "rejected")


def c18_export(ctx, M):
    libs(ctx)
    # a directory, a file or something else (a device, a fifo)
    exists, isdir = ctx.flag("exists"), ctx.choice("isdir", [True, False, "other"])
    filesystem(ctx, exists, isdir)
    kind = ctx.choice("kind", ["dict", "none", "list", "str"])
    show = ctx.choice("show", [ABSENT, True, False, None, 1, "yes"])
    okshow = show is ABSENT or isinstance(show, bool)
    if kind != "dict":
        p, e = figure(ctx, {"none": None, "list": ["html"], "str": "html"}[kind], show=show)
        ctx.check(e is not None, "an export that is no dictionary is accepted")
        ctx.stop()
    ex, ok = {}, True
    t = ctx.choice("type", [ABSENT, None, "html", "image", "jpg", "HTML", ".html", "", 5])
    path = ctx.choice("path", [ABSENT, None, "/some/dir", 5]) if t in ("html", "image") else "/some/dir"
    fmt = ctx.choice("format", [ABSENT, None, "pdf", "png", "jpeg", "webp", "svg", "gif", "html", "PNG", ".png", " pdf", "", 7]) \
        if path == "/some/dir" and t in ("html", "image") else "png"
    name = ctx.choice("file_name", [ABSENT, None, "good_Name-1", "bad name", "", "good.png", "g/n", 5])
    for k, v in (("type", t), ("path", path), ("format", fmt), ("file_name", name)):
        if v is not ABSENT:
            ex[k] = v
    ok = t in ("html", "image") and path == "/some/dir" and exists and isdir is True
    if t == "image":
        ok = ok and fmt in ("pdf", "png", "jpeg", "webp", "svg")
    ok = ok and (name is ABSENT or name in (None, "good_Name-1"))
    ok = ok and okshow
    size_ok = True
    if ok:
        for d in ("width", "height"):
            kd = ctx.choice(d, ["absent", "none", "int", "float", "str"])
            if kd == "int":
                v = ex[d] = ctx.int(d + "v", -M, M)
                size_ok = ctx.And(size_ok, v >= 1)
            elif kd != "absent":
                ex[d] = {"none": None, "float": 2.5, "str": "9"}[kd]
                size_ok = ctx.And(size_ok, kd == "none")
    want = dict(ex)
    p, e = figure(ctx, ex, show=show)
    ctx.check(ctx.Iff(e is None, ctx.And(ok, size_ok)), "export settings are accepted exactly when they are valid")
    if e is None:
        ctx.cover("accepted")
        got = p.settings["figure"]["export"]
        if want.get("file_name") is None:
            ctx.check(got.get("file_name") == "PlotlyGraph", "the default file_name")
        else:
            ctx.check(got["file_name"] == want["file_name"], "file_name was changed")
        for k in ("type", "path", "format"):
            ctx.check(got.get(k) == want.get(k), f"{k} was changed")
    else:
        ctx.cover("rejected")


# ------------------------------------------------------------------ C19 strategy attribute
def c19(ctx, n):
    m = ctx.m("exceptions")
    cls = ctx.choice("cls", ["HyperPack", "PointGenPack"])
    p = bins(ctx, cls=cls)
    old = p.potential_points_strategy
    ctx.check(tuple(old) == tuple(p.DEFAULT_POTENTIAL_POINTS_STRATEGY), "a problem starts with the default strategy")
    # another one was assigned before
    before = ctx.choice("before", [None, (), ("B", "A"), tuple(reversed(POINTS))])
    if before is not None:
        p.potential_points_strategy = old = before
    kind = ctx.choice("type", ["tuple", "list", "none", "str", "set"])
    k = ctx.pick(ctx.int("len", 0, n))
    els = [ctx.choice(f"e{j}", list(POINTS) + ["Z", "a", "A___", " A", "B_ ", "AB", "", 5, None]) for j in range(k)] if kind == "tuple" else ["A"]
    val = {"tuple": tuple, "list": list, "none": lambda e: None, "str": lambda e: "A", "set": set}[kind](els)
    ok = kind == "tuple" and all(e in POINTS for e in els) and len(set(els)) == len(els)
    _, e = ctx.attempt(lambda: setattr(p, "potential_points_strategy", val), m.PotentialPointsError)
    ctx.check((e is None) == ok, "a strategy is accepted exactly when it has distinct potential points")
    now = p.potential_points_strategy
    ctx.check(now == (val if e is None else old), "the strategy after assigning it")
    _, e = ctx.attempt(lambda: delattr(p, "potential_points_strategy"), m.PotentialPointsError)
    ctx.check(e is not None and p.potential_points_strategy == now, "the strategy can be deleted")


# ------------------------------------------------------------------ C20 / C21
def items_problem(ctx, n, M, ids=None, L=None, rotation=True, lo=1, before=None):
    """before: done to the problem with other items, which are then changed to these"""
    ids = ids or ids_of(n)
    its = {i: {"w": ctx.int(f"w{k}", lo, M), "l": ctx.int(f"l{k}", lo, L or M)} for k, i in enumerate(ids)}
    if before:
        how = ctx.choice("changed", ["in place", "entries", "items"])
        p = ctx.hp.HyperPack(containers={"c": {"W": 3, "L": 3}}, items={i: {"w": 1 + k % 2, "l": 2 - k % 2} for k, i in enumerate(ids)},
                             settings={"rotation": rotation})
        p.solve()
        before(p)
        # in the order asked for
        for i in ids:
            p.items["tmp"] = dict(p.items[i])
            del p.items[i]
            p.items[i] = dict(p.items["tmp"])
            del p.items["tmp"]
        before(p)
        if list(p.items) != ids or how == "items":
            p.items = {k: dict(v) for k, v in its.items()}
        for i, d in its.items():
            if how == "entries":
                p.items[i] = dict(d)
            else:
                for x in d:
                    p.items[i][x] = d[x]
        p.solution = {"c": {ids[0]: [0, 0, 1, 1]}}
        p.obj_val_per_container = {"c": 0.5}
        return p, its
    p = ctx.hp.HyperPack(containers={"c": {"W": 3, "L": 3}}, items={k: dict(v) for k, v in its.items()},
                         settings={"rotation": rotation})
    p.solution = {"c": {ids[0]: [0, 0, 1, 1]}}
    p.obj_val_per_container = {"c": 0.5}
    return p, its


def same_items(ctx, p, its, what):
    ctx.check(sorted(p.items) == sorted(its), f"{what} lost or made an item")
    for i in p.items:
        if i in its:
            ctx.check(ctx.And(p.items[i]["w"] == its[i]["w"], p.items[i]["l"] == its[i]["l"]),
                      f"{what} changed the dimensions of an item")


def c20(ctx, n, M, by, L=None, lo=1, before=False):
    ids = ["b", "a", "B", "ab"][:n]
    reverse = ctx.flag("reverse")
    p, its = items_problem(ctx, n, M, ids, L, lo=lo, before=(lambda p: p.sort_items(sorting_by=(by, reverse))) if before else None)
    p.sort_items(sorting_by=(by, reverse))
    same_items(ctx, p, its, "sort_items")
    order = list(p.items)
    ctx.observe(order)
    ctx.check(p.solution == {}, "the solution survived sort_items")
    num, den = {"area": (lambda w, l: w * l, None), "perimeter": (lambda w, l: w + l, None),
                "longest_side_ratio": (lambda w, l: ctx.If(w > l, w, l), lambda w, l: ctx.If(w > l, l, w))}[by]
    for x, y in zip(order, order[1:]):
        a, b = its[x], its[y]
        u, v = num(a["w"], a["l"]), num(b["w"], b["l"])
        if den:
            u, v = u * den(b["w"], b["l"]), v * den(a["w"], a["l"])
        ctx.check(u >= v if reverse else u <= v, f"the items are not sorted by {by}")
    if order != ids:
        ctx.cover("reordered")


def c20_other(ctx):
    ids = ["b", "a", "c"][:ctx.choice("n", [3, 1, 2])]
    p, its = items_problem(ctx, len(ids), 4, ids)
    arg = ctx.choice("by", [None, ("area", True), ("volume", True), ("", False)])
    sol = p.solution
    _, e = ctx.attempt(lambda: p.sort_items(sorting_by=arg), NotImplementedError)
    same_items(ctx, p, its, "sort_items")
    if arg is None:
        ctx.check(e is None and list(p.items) == ids, "sort_items(None) reorders the items")
        ctx.check(p.solution is sol, "sort_items(None) loses the solution")
    elif arg[0] == "area":
        ctx.check(e is None, "sorting by area is rejected")
        ctx.check(p.solution == {}, "the solution survived sort_items")
    else:
        ctx.check(e is not None and list(p.items) == ids, "an unknown criterion is accepted")


def sorted_by(ctx, by, reverse, a, b):
    """item a may stand before item b"""
    if by == "area":
        u, v = a["w"] * a["l"], b["w"] * b["l"]
    elif by == "perimeter":
        u, v = a["w"] + a["l"], b["w"] + b["l"]
    else:
        hi = [ctx.If(x["w"] > x["l"], x["w"], x["l"]) for x in (a, b)]
        lo = [ctx.If(x["w"] > x["l"], x["l"], x["w"]) for x in (a, b)]
        u, v = hi[0] * lo[1], hi[1] * lo[0]
    return u >= v if reverse else u <= v


def c20_search(ctx, n, M, what):
    """a hypersearch sorts and turns the items as asked before it solves anything"""
    rot = ctx.flag("rotation")
    p, its = items_problem(ctx, n, M, rotation=rot)
    ids = list(its)
    p.get_strategies = lambda **kw: strategies(1)
    land = Landscape(ctx, p, 2, Clock(ctx, 100).install())
    land.const = 1
    default = ctx.flag("defaults")
    o, by = "wide", ("area", True)
    if default:
        p.hypersearch()
    else:
        o = ctx.choice("orientation", ["wide", "long", None])
        by = ctx.choice("by", [None, ("area", False), ("perimeter", True), ("longest_side_ratio", True)])
        p.hypersearch(orientation=o, sorting_by=by)
    if not land.evals:
        ctx.stop()
    order = list(p.items)
    ctx.observe(order)
    ctx.check(sorted(order) == sorted(ids), "hypersearch lost or made an item")
    if sorted(order) != sorted(ids):
        ctx.stop()
    if what == "order":
        ctx.check(land.evals[0].seq == order, "hypersearch does not start from the sorted items")
        ctx.check(by is not None or order == ids, "hypersearch sorted the items although not asked to")
        if by:
            for x, y in zip(order, order[1:]):
                ctx.check(sorted_by(ctx, *by, its[x], its[y]), f"hypersearch did not sort the items by {by}")
        if order != ids:
            ctx.cover("reordered")
        return
    for i in ids:
        w, l = its[i]["w"], its[i]["l"]
        if rot and o:
            hi, lo = ctx.If(w > l, w, l), ctx.If(w > l, l, w)
            w, l = (hi, lo) if o == "wide" else (lo, hi)
        ctx.check(ctx.And(p.items[i]["w"] == w, p.items[i]["l"] == l), "hypersearch did not orient the items as asked")


def c21(ctx, n, M, before=False):
    rot = ctx.choice("rotation", [True, False, None, "absent", "later"])
    o = ctx.choice("orientation", ["wide", "long", None, "tall", ""])
    p, its = items_problem(ctx, n, M, rotation=rot in (True, "later", "absent") if rot is not None else None,
                           before=(lambda p: p.orient_items(orientation=o)) if before else None)
    if rot == "later":
        # what was set later counts
        p.settings = {"rotation": False}
        rot = False
    elif rot == "absent":
        p.settings = {}
    rot = rot is not False
    ids = list(its)
    p.orient_items(orientation=o)
    ctx.check(list(p.items) == ids, "orient_items lost, made or reordered an item")
    ctx.observe([(p.items[i]["w"], p.items[i]["l"]) for i in p.items])
    for i in ids:
        a, b = p.items[i], its[i]
        w, l = b["w"], b["l"]
        if rot and o in ("wide", "long"):
            hi, lo = ctx.If(w > l, w, l), ctx.If(w > l, l, w)
            if o == "long":
                hi, lo = lo, hi
            ctx.check(ctx.And(a["w"] == hi, a["l"] == lo), f"an item is not oriented {o}")
        else:
            ctx.check(ctx.And(a["w"] == w, a["l"] == l), "an item was turned although it should not")
    if rot and o in ("wide", "long"):
        turned = ctx.Or([its[i]["l"] > its[i]["w"] if o == "wide" else its[i]["w"] > its[i]["l"] for i in ids])
        ctx.check(ctx.Or(ctx.Not(turned), p.solution == {}), "the solution survived orient_items")


# ------------------------------------------------------------------ C22 log
class Fmt:
    """formatting keeps the values: a formatted symbolic number is a token"""

    def __init__(self, ctx):
        self.ctx, self.vals = ctx, []

    def __enter__(self):
        from symx import proxies

        def hook(v, spec):
            self.vals.append((v, spec))
            return f"\u2983{len(self.vals) - 1}\u2984"
        if self.ctx.symbolic:
            proxies.set_format_hook(hook)
        return self

    def __exit__(self, *a):
        from symx import proxies
        proxies.set_format_hook(None)

    NUM = r"(-?\d+(?:\.\d+)?(?:e[+-]?\d+)?|\u2983\d+\u2984)"

    def value(self, s):
        if s.startswith("\u2983"):
            return self.vals[int(s[1:-1])][0]
        return float(s) if "." in s or "e" in s else int(s)


def c22(ctx, strip, n, ncont, M, minh=False, before=False):
    hp = ctx.hp
    ids = ids_of(n)
    items = {i: {"w": 1, "l": 1} for i in ids}
    W = {}
    L = {}
    if strip:
        cid = hp.HyperPack.STRIP_PACK_CONT_ID
        W[cid] = ctx.pick(ctx.int("W0", 1, M))
        p = hp.HyperPack(items=items, strip_pack_width=W[cid])
    else:
        for c in range(ncont):
            W[CIDS[c]], L[CIDS[c]] = ctx.pick(ctx.int(f"W{c}", 1, M)), ctx.int(f"L{c}", 1, M)
        p = hp.HyperPack(items=items, containers={c: {"W": W[c], "L": L[c]} for c in W})
    conts = list(p.containers)
    sol = {c: {} for c in conts}
    for k, i in enumerate(ids):
        where = ctx.choice(f"in{k}", [None] + conts)
        if where is not None:
            sol[where][i] = [ctx.int(f"x{k}", 0, M), ctx.int(f"y{k}", 0, M), ctx.pick(ctx.int(f"w{k}", 1, 2)),
                             ctx.int(f"l{k}", 1, M)]
    p.solution = sol
    p.obj_val_per_container = {c: 0 for c in conts}
    mh = None
    if minh:
        mh = ctx.int("min", 1, M)
        p.container_min_height = mh
    if before:
        # another solution of the same utilizations was logged
        other = {c: {} for c in conts}
        for k, i in enumerate(ids):
            where = ctx.choice(f"before{k}", [None] + conts)
            if where is not None:
                other[where][i] = [0, 0, 1, 1]
        p.solution = other
        with Fmt(ctx):
            p.log_solution()
        if ctx.flag("reset"):
            p.items[ids[0]]["w"] = 1
        p.solution = sol
        p.obj_val_per_container = {c: 0 for c in conts}
    with Fmt(ctx) as f:
        log = p.log_solution()
    placed = {i for s in sol.values() for i in s}
    m = re.search(r"Percent total items stored : " + f.NUM + "%", log)
    ctx.check(m is not None, "the log has no stored items percentage")
    if m:
        d = f.value(m.group(1)) - len(placed) * 100 / n
        ctx.check(-0.0001 <= d <= 0.0001, "the percentage of stored items is wrong")
    parts = re.split(r"Container: ", log)
    ctx.check(len(parts) == len(conts) + 1, "the log has not one section per container")
    for c, part in zip(conts, parts[1:]):
        head = re.match(re.escape(c) + " " + f.NUM + "x" + f.NUM, part)
        util = re.search(r"\[util%\] : " + f.NUM + "%", part)
        ctx.check(head is not None and util is not None, "a container's section is incomplete")
        if head is None or util is None:
            continue
        its = list(sol[c].values())
        top = 0
        for r in its:
            top = ctx.If(r[1] + r[3] > top, r[1] + r[3], top)
        H = L[c] if not strip else top if mh is None else ctx.If(mh > top, mh, top)
        ctx.check(ctx.And(f.value(head.group(1)) == W[c], f.value(head.group(2)) == H),
                  "the log's container dimensions are wrong")
        area = sum(r[2] * r[3] for r in its)
        u = f.value(util.group(1))
        ctx.check(ctx.If(H == 0, u == 0, ctx.And(u * W[c] * H - area * 100 <= W[c] * H * 0.0001,
                                                 u * W[c] * H - area * 100 >= W[c] * H * -0.0001)),
                  "the log's utilization is wrong")
        if strip:
            mx = re.search(r"\[max height\] : " + f.NUM, part)
            ctx.check(mx is not None and f.value(mx.group(1)) == top, "the log's max height is wrong")
    rem = re.search(r"Remaining items : \[(.*)\]", log)
    ctx.check(rem is not None, "the log has no remaining items")
    if rem:
        got = re.findall(r"'([^']*)'", rem.group(1))
        ctx.check(got == [i for i in ids if i not in placed], "the remaining items are wrong")
    ctx.cover("some stored" if placed else "nothing stored")


def c22_none(ctx):
    p = bins(ctx)
    ctx.check(p.log_solution() is None, "log_solution without a solution")
    if ctx.flag("solved"):
        p.solve()
        p.items[IDS[0]]["w"] = ctx.int("w", 1, 5)
        ctx.check(p.log_solution() is None, "log_solution after the solution was reset")


# ------------------------------------------------------------------ C23 figure
class Recorder:
    def __init__(self):
        self.figs = []
        self.fail = False


def fake_plotly(ctx):
    rec = Recorder()
    mod = types.ModuleType("plotly")
    mod.__version__ = "5.20.0"
    kal = types.ModuleType("kaleido")
    kal.__version__ = "0.2.1"

    class Figure:
        def __init__(self, *a, **k):
            self.shapes, self.traces, self.files, self.shown = [], [], [], 0
            self.title = None
            self.x = self.y = None
            rec.figs.append(self)

        def add_shape(self, **k):
            self.shapes.append(k)

        def add_trace(self, t):
            self.traces.append(t)

        def update_layout(self, **k):
            self.title = k.get("title", self.title)

        def update_xaxes(self, **k):
            self.x = k

        def update_yaxes(self, **k):
            self.y = k

        def show(self, *a, **k):
            self.shown += 1

        def write_html(self, path, *a, **k):
            if rec.fail:
                raise OSError("disk full")
            self.files.append(str(path))

        def write_image(self, path, *a, **k):
            if rec.fail:
                raise ValueError("no image")
            scope = mod.io.kaleido.scope
            w, h, scale = k.get("width"), k.get("height"), k.get("scale")
            self.files.append((str(path), scope.default_width if w is None else w,
                               scope.default_height if h is None else h,
                               scope.default_scale if scale is None else scale))

        def __getattr__(self, name):
            if name.startswith("_"):
                raise AttributeError(name)
            return lambda *a, **k: None

    class Scatter:
        def __init__(self, **k):
            self.k = k

    go = types.ModuleType("plotly.graph_objects")
    go.Figure, go.Scatter = Figure, Scatter
    io = types.ModuleType("plotly.io")
    io.kaleido = types.SimpleNamespace(scope=types.SimpleNamespace(
        default_width=700, default_height=500, default_scale=1, default_format="png"))
    mod.graph_objects, mod.io = go, io
    for n, v in (("plotly", mod), ("plotly.graph_objects", go), ("plotly.io", io), ("kaleido", kal)):
        ctx.patch(sys.modules, n, v)
    return rec


def c23(ctx, strip, n, ncont, M, odd=False, minh=False, before=False):
    hp = ctx.hp
    m = ctx.m("exceptions")
    rec = fake_plotly(ctx)
    filesystem(ctx)
    FakePath.facts = {"exists": True, "dir": True}
    kind = ctx.choice("figure", ["none", "show", "noshow", "html", "html-named", "image", "html-show"])
    image = {"type": "image", "path": "/d"}
    if kind == "image":
        image["format"] = ctx.choice("format", ["svg", "png"])
        if ctx.flag("with_width"):
            image["width"] = ctx.int("width", 1, 5000)
        if ctx.flag("with_height"):
            image["height"] = ctx.int("height", 1, 5000)
    fig = {"none": None, "show": {"show": True}, "noshow": {"show": False},
           "html": {"export": {"type": "html", "path": "/d"}},
           "html-named": {"export": {"type": "html", "path": "/d", "file_name": "name"}},
           "image": {"export": image},
           "html-show": {"export": {"type": "html", "path": "/d"}, "show": True}}[kind]
    settings = {} if fig is None else {"figure": fig}
    ids = ["i 1", LONG, "é/1"][:n] if odd else ids_of(n)
    cids = ("c 1", LONG, "c.é") if odd else CIDS
    items = {i: {"w": 1, "l": 1} for i in ids}
    W, L = {}, {}
    if strip:
        cid = hp.HyperPack.STRIP_PACK_CONT_ID
        W[cid] = ctx.int("W0", 1, M)
        p = hp.HyperPack(items=items, strip_pack_width=W[cid], settings=settings)
    else:
        for c in range(ncont):
            W[cids[c]], L[cids[c]] = ctx.int(f"W{c}", 1, M), ctx.int(f"L{c}", 1, M)
        p = hp.HyperPack(items=items, containers={c: {"W": W[c], "L": L[c]} for c in W}, settings=settings)
    conts = list(p.containers)
    show_arg = ctx.flag("show")
    mh = None
    if minh:
        mh = ctx.int("min", 1, 10)
        p.container_min_height = mh
    if ctx.flag("unsolved"):
        p.create_figure(show=show_arg)
        ctx.check(not rec.figs, "a figure is made without a solution")
        ctx.stop()
    sol = {c: {} for c in conts}
    for k, i in enumerate(ids):
        where = ctx.choice(f"in{k}", [None] + conts)
        if where is not None:
            sol[where][i] = [ctx.int(f"x{k}", 0, M), ctx.int(f"y{k}", 0, M), ctx.int(f"w{k}", 1, M), ctx.int(f"l{k}", 1, M)]
    if before:
        # another solution of the same utilizations was drawn
        p.solution = {c: {} for c in conts}
        for i in ids:
            p.solution[ctx.choice(f"before{i}", conts)][i] = [0, 0, 1, 1]
        p.obj_val_per_container = {c: 0 for c in conts}
        ctx.attempt(lambda: p.create_figure(show=ctx.flag("shown_before")), m.FigureExportError)
        rec.figs.clear()
    p.solution = sol
    p.obj_val_per_container = {c: 0 for c in conts}
    export = kind in ("html", "html-named", "image", "html-show")
    rec.fail = export and ctx.flag("export_fails")
    show = {"show": True, "noshow": False, "html-show": True}.get(kind, show_arg)
    _, e = ctx.attempt(lambda: p.create_figure(show=show_arg), m.FigureExportError)
    ctx.check((e is not None) == rec.fail, "an export error is a FigureExportError")
    if rec.fail:
        ctx.stop()
    if not show and not export:
        ctx.check(not any(f.shown or f.files for f in rec.figs), "a figure is shown or exported unasked")
        ctx.stop()
    ctx.cover("drawn")
    ctx.check(len(rec.figs) == len(conts), "there is not one figure per container")
    for c, f in zip(conts, rec.figs):
        ctx.check(f.shown == (1 if show else 0), "the figure is shown exactly when asked")
        name = "name" if kind == "html-named" else "PlotlyGraph"
        if not export:
            ctx.check(not f.files, "a figure is exported unasked")
        elif kind == "image":
            want = (f"/d/{name}__{c}.{image['format']}", image.get("width", 1700), image.get("height", 1700))
            ctx.check(len(f.files) == 1, "the figure is not exported once")
            if len(f.files) == 1:
                g = f.files[0]
                ctx.check(ctx.And(g[0] == want[0], g[1] == want[1], g[2] == want[2]), "the exported image's path or size")
        else:
            ctx.check(f.files == [f"/d/{name}__{c}.html"], "the exported file's path")
        its = sol[c]
        top = 0
        for r in its.values():
            top = ctx.If(r[1] + r[3] > top, r[1] + r[3], top)
        H = L[c] if not strip else top if mh is None else ctx.If(mh > top, mh, top)
        labelled = {}
        frame = []
        for s in f.shapes:
            label = s.get("label") or {}
            if label.get("text") in its:
                ctx.check(label["text"] not in labelled, "an item is drawn twice")
                labelled[label["text"]] = s
                ctx.check(re.fullmatch(r"#[0-9a-fA-F]{6}", str(s.get("fillcolor"))) is not None, "an item has no color")
            else:
                frame.append(s)
        ctx.check(set(labelled) == set(its), "an item of the solution is not drawn")
        for i, s in labelled.items():
            x, y, w, l = its[i]
            ctx.check(ctx.And(s["x0"] == x, s["y0"] == y, s["x1"] == x + w, s["y1"] == y + l),
                      "an item is drawn somewhere else")
        ctx.check(len(frame) == 1, "the container is not drawn once")
        for s in frame:
            ctx.check(ctx.And(s["x0"] == 0, s["y0"] == 0, s["x1"] == W[c], s["y1"] == H), "the container's frame is wrong")
        for axis, size in ((f.x, W[c]), (f.y, H)):
            r = (axis or {}).get("range")
            if r is not None:
                ctx.check(ctx.And(r[0] <= 0, r[1] >= size), "the axes do not show the whole container")
        for t in f.traces:
            if "x" in t.k and "y" in t.k:
                pts = list(zip(t.k["x"], t.k["y"]))
                ctx.check(ctx.Or([ctx.And([ctx.And(x <= u, u <= x + w, y <= v, v <= y + l) for u, v in pts])
                                  for x, y, w, l in its.values()]), "a trace does not belong to any item")


def c23_many(ctx, counts, M):
    hp = ctx.hp
    rec = fake_plotly(ctx)
    n = ctx.choice("items", list(counts))
    W = ctx.int("W", 1, M)
    p = hp.HyperPack(items={f"i{k}": {"w": 1, "l": 1} for k in range(n)}, containers={"c0": {"W": W, "L": 5}})
    x, w = ctx.int("x", 0, M), ctx.int("w", 1, M)
    p.solution = {"c0": {f"i{k}": [x, k, w, 1] for k in range(n)}}
    p.obj_val_per_container = {"c0": 0}
    p.create_figure(show=True)
    ctx.check(len(rec.figs) == 1, "there is not one figure per container")
    shapes = [s for f in rec.figs for s in f.shapes]
    labelled = {(s.get("label") or {}).get("text"): s for s in shapes}
    for k in range(n):
        s = labelled.get(f"i{k}")
        ctx.check(s is not None, "an item of the solution is not drawn")
        if s is None:
            return
        ctx.check(re.fullmatch(r"#[0-9a-fA-F]{6}", str(s.get("fillcolor"))) is not None, "an item has no color")
        ctx.check(ctx.And(s["x0"] == x, s["y0"] == k, s["x1"] == x + w, s["y1"] == k + 1), "an item is drawn somewhere else")


# ------------------------------------------------------------------ C24 generator
def c24(ctx, M, nc, ni, concrete=False):
    hp = ctx.hp
    mod = ctx.m("utils")
    drawn = []

    def randint(a, b):
        ctx.check(a <= b, "an empty range of random dimensions")
        if concrete and len(drawn) % 100 > 2:
            drawn.append((a, a, b))
            return a if len(drawn) % 2 else b
        v = ctx.int(f"r{len(drawn)}", -M, 2 * M + 5)
        ctx.assume(ctx.And(v >= a, v <= b))
        drawn.append((v, a, b))
        return v

    class FakeRandom:
        def __getattr__(self, name):
            if name == "randint":
                return randint
            if name == "randrange":
                return lambda a, b: randint(a, b - 1)
            return getattr(random, name)

    class FakeJson:
        def __getattr__(self, name):
            return (lambda *a, **k: "") if name == "dumps" else getattr(json, name)

    ctx.replace_globals([(random, FakeRandom()), (random.randint, randint), (json, FakeJson()), (json.dumps, FakeJson().dumps)])
    ctx.patch(mod.__dict__, "print", lambda *a, **k: None)
    kw = {}
    if ctx.flag("given"):
        kw = {"containers_num": ctx.choice("cn", nc), "items_num": ctx.choice("in", ni)}
        for k in ("containers_length", "containers_width", "items_length", "items_width"):
            kw[k] = 10 if concrete and k != "items_width" else ctx.int(k, 1, M)
    full = dict({"containers_num": 1, "items_num": 30, "containers_length": 50, "containers_width": 50,
                 "items_length": 3, "items_width": 5}, **kw)
    data = mod.generate_problem_data(**kw)
    ctx.check(sorted(data) == ["containers", "items"], "the generated data has containers and items")
    cs, its = data["containers"], data["items"]
    ctx.check(len(cs) == full["containers_num"], "the number of containers")
    ctx.check(len(its) == full["containers_num"] * full["items_num"], "the number of items")

    def around(v, mean, part, what):
        # the deviation is rounded, and at least 1 for the items
        ctx.check(v >= 1, f"{what} is not positive")
        ctx.check(ctx.And((v - mean) * 10 <= mean * part + 10, (mean - v) * 10 <= mean * part + 10), f"{what} is out of its range")

    for c in cs.values():
        around(c["W"], full["containers_width"], 1, "a container's width")
        around(c["L"], full["containers_length"], 1, "a container's length")
    for i in its.values():
        around(i["w"], full["items_width"], 6, "an item's width")
        around(i["l"], full["items_length"], 6, "an item's length")
    p = hp.HyperPack(**data)
    ctx.check(len(p.items) == len(its), "the generated data is no problem")


# ------------------------------------------------------------------ C27 objective
def c27(ctx, sizes):
    n = ctx.choice("n", sizes)
    p = bins(ctx, ncont=n)
    op = ctx.choice("op", ["none", "add", "delete", "assign", "keep", "pop", "update"])
    if op == "add":
        p.containers["new"] = {"W": 2, "L": 2}
    elif op in ("delete", "pop"):
        if n > 1:
            if op == "delete":
                del p.containers[CIDS[0]]
            else:
                p.containers.pop(CIDS[0])
    elif op == "assign":
        k = ctx.choice("k", sizes)
        p.containers = {f"d{i}": {"W": 2, "L": 2} for i in range(k)}
    elif op == "keep":
        p.containers = {i: {"W": 5, "L": 5} for i in ids_of(ctx.choice(f"kept{n}", [x for x in sizes if x <= n]), CIDS)[::-1]}
    elif op == "update":
        p.containers.update({"u0": {"W": 2, "L": 2}, CIDS[0]: {"W": 3, "L": 3}})
    ids = list(p.containers)
    u = [ctx.int(f"u{k}", 0, 100) for k in range(len(ids))]
    p.obj_val_per_container = {c: v / 100 for c, v in zip(ids, u)}
    p.solution = {c: {} for c in ids}
    got = p.calculate_obj_value()
    want = u[0] if len(ids) == 1 else sum(u[:-1]) + u[-1] * 0.7
    ctx.check(ctx.close(got * 100, want, 1e-6), "the objective value is not the weighted sum of the utilizations")
    opt = p.get_optimum_objective_val()
    top = 1 if len(ids) == 1 else len(ids) - 1 + 0.7
    ctx.check(ctx.close(opt, top, 1e-6), "the optimum is not the value of full containers")
    # full containers, and only (nearly) full ones, are the optimum
    ctx.check(ctx.Implies(ctx.And([v == 100 for v in u]), got >= opt), "full containers do not reach the optimum")
    ctx.check(ctx.Implies(got >= opt, ctx.And([v == 100 for v in u])), "the optimum is reached without full containers")


def c27_compare(ctx):
    """acceptance of a solution in bin packing: strictly better"""
    p = bins(ctx)
    p.solution = {"c0": {}}
    a, b = ctx.int("a", 0, 1000), ctx.int("b", 0, 1000)
    ctx.check(ctx.Iff(p.compare_node(a / 1000, b / 1000), a > b), "a node is accepted exactly when it is better")


def job(fn, name, bounds, mandatory=True, tiers=("quick", "thorough"), covers=(), stubs=LOG, **params):
    return Job(name, fn, bounds, params, tiers=tiers, mandatory=mandatory, covers=covers, stubs=stubs)


FIG = LOG + ("plotly and kaleido are stand-in modules with the version under test",
             "pathlib.Path replaced by an arbitrary file system (the path exists or not, is a directory or not)")
JOBS = {
    "C13": [
        job(c13, "bins", "every order of the six free points", strip=False),
        job(c13, "strip", "every order of the six free points", strip=True),
    ],
    "C17": [
        job(c17, "new", "integers of -M..M, M=10**6, or None, float, str, list; cpu count 1..256; Linux, Windows",
            M=10 ** 6, how="new", covers=("accepted", "rejected")),
        job(c17, "assign", "the same, assigned to settings", M=10 ** 6, how="assign", covers=("accepted", "rejected")),
        job(c17, "same", "the same dictionary changed and assigned again", M=10 ** 6, how="same", covers=("accepted", "rejected")),
        job(c17, "validate", "the same, validated explicitly", M=10 ** 6, how="validate"),
        job(c17_type, "type", "eight kinds of settings"),
    ],
    "C18": [
        job(c18_versions, "plotly", "versions of three numbers of up to 1, 2, 2 digits", parts=3, digits=(1, 2, 2), which="plotly",
            stubs=FIG, covers=("accepted", "rejected")),
        job(c18_versions, "plotly-two-digit-major", "versions of three numbers of up to 2, 3, 1 digits", parts=3,
            digits=(2, 3, 1), which="plotly", stubs=FIG),
        job(c18_versions, "plotly-suffix", "versions of 1..4 numbers with suffixes", parts=3, digits=(1, 2, 1), which="plotly",
            suffix=True, stubs=FIG),
        job(c18_versions, "plotly-short", "versions of two numbers", parts=2, digits=(1, 2), which="plotly", stubs=FIG),
        job(c18_versions, "kaleido", "versions of three numbers of up to 1, 2, 2 digits", parts=3, digits=(1, 2, 2),
            which="kaleido", stubs=FIG, covers=("accepted", "rejected")),
        job(c18_versions, "kaleido-suffix", "versions of four numbers with suffixes", parts=4, digits=(1, 1, 2, 1),
            which="kaleido", suffix=True, stubs=FIG),
        job(c18_missing, "libraries", "both libraries installed or not, five figure settings", stubs=FIG),
        job(c18_name, "file-name", "every string of 0..3, 44..47 characters (code points 0..255) without a final newline",
            lengths=[0, 1, 2, 3, 44, 45, 46, 47], stubs=FIG, covers=("accepted", "rejected")),
        job(c18_export, "export", "all combinations of the export keys, sizes -M..M, M=10**6", M=10 ** 6, stubs=FIG,
            covers=("accepted", "rejected")),
        job(c18_name, "file-name-all", "every string of 0..60 characters (code points 0..255) without a final newline",
            lengths=list(range(0, 61)), stubs=FIG, mandatory=False, tiers=("thorough",)),
        job(c18_versions, "plotly-long", "versions of three numbers of up to 3, 4, 4 digits", parts=3, digits=(3, 4, 4),
            which="plotly", stubs=FIG, mandatory=False, tiers=("thorough",)),
    ],
    "C19": [
        job(c19, "assign", "tuples of up to two elements (ten points, five others), four other types, with four strategies before", n=2),
        job(c19, "assign-three", "tuples of up to three elements", n=3, mandatory=False),
    ],
    "C20": [
        job(c20, "perimeter", "three items, dimensions 1..M, M=10**6", n=3, M=10 ** 6, by="perimeter", covers=("reordered",)),
        job(c20, "area", "two items, widths 1..12, lengths 1..1000", n=2, M=12, L=1000, by="area", covers=("reordered",)),
        job(c20, "area-three", "three items, dimensions 1..5", n=3, M=5, by="area", covers=("reordered",)),
        job(c20, "ratio", "two items, dimensions 1..8", n=2, M=8, by="longest_side_ratio", covers=("reordered",)),
        job(c20, "ratio-three", "three items, dimensions 1..3", n=3, M=3, by="longest_side_ratio"),
        job(c20_search, "hypersearch", "two items, dimensions 1..4, default and other sortings and orientations", n=2, M=4, what="order",
            covers=("reordered",)),
        job(c20, "area-before", "two items, dimensions 1..4, sorted before and changed in three ways", n=2, M=4, by="area", before=True,
            covers=("reordered",)),
        job(c20, "perimeter-before", "three items, dimensions 1..M, M=10**6, sorted before and changed in three ways", n=3, M=10 ** 6,
            by="perimeter", before=True, covers=("reordered",)),
        job(c20, "ratio-before", "two items, dimensions 1..4, sorted before and changed in three ways", n=2, M=4,
            by="longest_side_ratio", before=True, covers=("reordered",)),
        job(c20_other, "other", "one to three items, dimensions 1..4, other criteria"),
        job(c20, "ratio-close", "two items, dimensions 300..304", n=2, M=304, lo=300, by="longest_side_ratio", covers=("reordered",)),
        job(c20, "ratio-closer", "two items, dimensions 10**6 .. 10**6 + 3", n=2, M=10 ** 6 + 3, lo=10 ** 6, by="longest_side_ratio",
            covers=("reordered",)),
        job(c20, "area-close", "two items, dimensions 10**6 .. 10**6 + 4", n=2, M=10 ** 6 + 4, lo=10 ** 6, by="area", covers=("reordered",)),
        job(c20, "perimeter-four", "four items, dimensions 1..M, M=10**6", n=4, M=10 ** 6, by="perimeter", mandatory=False),
        job(c20, "ratio-three-large", "three items, dimensions 1..6", n=3, M=6, by="longest_side_ratio", mandatory=False,
            tiers=("thorough",)),
    ],
    "C21": [
        job(c21, "three-items", "three items, dimensions 1..10**9, five orientations, rotation on, off, None, not given, changed", n=3, M=10 ** 9),
        job(c20_search, "hypersearch", "two items, dimensions 1..4, default and other sortings and orientations", n=2, M=4, what="turn"),
        job(c21, "before", "two items, oriented before and changed in three ways", n=2, M=10 ** 9, before=True),
        job(c21, "five-items", "five items, dimensions 1..10**9", n=5, M=10 ** 9, mandatory=False),
    ],
    "C22": [
        job(c22, "bins", "two items, one container, dimensions 1..3", strip=False, n=2, ncont=1, M=3,
            covers=("some stored", "nothing stored")),
        job(c22, "two-bins", "two items, two containers, dimensions 1..2", strip=False, n=2, ncont=2, M=2),
        job(c22, "strip", "two items, dimensions 1..4", strip=True, n=2, ncont=1, M=4, covers=("some stored", "nothing stored")),
        job(c22, "strip-min-height", "two items, dimensions 1..4", strip=True, n=2, ncont=1, M=4, minh=True),
        job(c22, "five-bins", "three items, five containers, dimensions 1", strip=False, n=3, ncont=5, M=1),
        job(c22, "bins-before", "two items, one container, dimensions 1..2, another solution logged before", strip=False, n=2, ncont=1, M=2,
            before=True, covers=("some stored", "nothing stored")),
        job(c22, "strip-before", "two items, dimensions 1..2, another solution logged before", strip=True, n=2, ncont=1, M=2, before=True),
        job(c22_none, "none", "no solution, reset solution"),
        job(c22, "bins-large", "three items, one container, dimensions 1..6", strip=False, n=3, ncont=1, M=6,
            mandatory=False, tiers=("thorough",)),
    ],
    "C23": [
        job(c23, "bins", "two items, two containers, coordinates 0..M, M=10**6, seven figure settings", strip=False, n=2, ncont=2,
            M=10 ** 6, stubs=FIG, covers=("drawn",)),
        job(c23, "strip", "two items, coordinates 0..M, M=10**6", strip=True, n=2, ncont=1, M=10 ** 6, stubs=FIG,
            covers=("drawn",)),
        job(c23, "odd-ids", "two items, two containers, ids with other signs than letters and digits", strip=False, n=2, ncont=2, M=10 ** 6,
            odd=True, stubs=FIG, covers=("drawn",)),
        job(c23, "strip-min-height", "two items, coordinates 0..M, M=10**6, container_min_height 1..10", strip=True, n=2, ncont=1,
            M=10 ** 6, minh=True, stubs=FIG, covers=("drawn",)),
        job(c23, "bins-before", "two items, two containers, another solution drawn before", strip=False, n=2, ncont=2,
            M=10 ** 6, before=True, stubs=FIG, covers=("drawn",)),
        job(c23_many, "many-items", "1, 999, 1000, 1001 or 2003 items in a container, their place and width up to 10**6",
            counts=(1, 999, 1000, 1001, 2003), M=10 ** 6, stubs=FIG),
    ],
    "C24": [
        job(c24, "data", "mean dimensions 1..M, M=100, up to 2 containers and 2 items per container; the default arguments", M=100, nc=[1, 2], ni=[1, 2],
            stubs=LOG + ("random.randint returns any number of its range", "print and json.dumps do nothing")),
        job(c24, "many", "1, 3 or 11 containers, 1, 101 or 334 items per container, mean width of the items 1..100", M=100, nc=[1, 3, 11],
            ni=[1, 101, 334], concrete=True,
            stubs=LOG + ("random.randint returns any number of its range in 3 of 100 calls, otherwise an end of it", "print and json.dumps do nothing")),
    ],
    "C27": [
        job(c27, "objective", "1..4 containers, utilizations k/100, seven changes of the containers", sizes=[1, 2, 3, 4]),
        job(c27, "many-containers", "1, 2, 9, 20 or 40 containers, utilizations k/100, seven changes of the containers",
            sizes=[1, 2, 9, 20, 40]),
        job(c27_compare, "compare", "values k/1000"),
    ],
}
