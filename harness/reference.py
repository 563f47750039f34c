"""Short reference model of the point generation heuristic, written over rectangles instead
of cell arrays.  Runs on symbolic and on concrete values."""
from .common import POINTS, overlap


def mark(ctx, placed, x, y):
    """0 free, 1 inside, 2 side, 3 corner of a placed item"""
    v = 0
    for X, Y, w, l in placed:
        inside = ctx.And(X <= x, x < X + w, Y <= y, y < Y + l)
        onx = ctx.Or(x == X, x == X + w - 1)
        ony = ctx.Or(y == Y, y == Y + l - 1)
        kind = ctx.If(ctx.And(onx, ony), 3, ctx.If(ctx.Or(onx, ony), 2, 1))
        v = ctx.If(inside, kind, v)
    return v


def border(ctx, m):
    return ctx.Or(m == 2, m == 3)


def fits(ctx, placed, W, L, x, y, w, l):
    r = (x, y, w, l)
    return ctx.And(x + w <= W, y + l <= L, [ctx.Not(overlap(ctx, r, q)) for q in placed])


def generate(ctx, pts, placed, W, L, X, Y, w, l):
    def m(x, y):
        return mark(ctx, placed, x, y)

    T, R = Y + l, X + w      # top edge, right edge

    # upper left corner of the new item
    if T < L and m(X, T) == 0:
        if X == 0:
            good = True
        else:
            a, b = m(X - 1, T - 1), m(X - 1, T)
            good = ctx.Or(ctx.And(border(ctx, a), border(ctx, b)),
                          ctx.And(ctx.Or(a == 0, a == 3), b == 3))
        if good:
            pts["A"].append((X, T))
        else:
            if m(X - 1, T - 1) == 0 and m(X - 1, T) == 0:
                x = X - 1
                while x >= 0:
                    up, low = m(x, T), m(x, T - 1)
                    if border(ctx, up):
                        if ctx.Or(low == 0, border(ctx, low)):
                            _near(ctx, pts, "A_", "E", x + 1, T, X - (x + 1), W)
                            break
                    elif ctx.And(x == 0, up == 0, low == 0):
                        _near(ctx, pts, "A_", "E", x, T, X - x, W)
                        break
                    x = x - 1
            pts["A__"].append((X, T))
    elif T < L and X > 0 and m(X - 1, T - 1) == 0 and m(X - 1, T) == 0:
        # the upper left cell is taken: only the horizontal search remains
        x = X - 1
        while x >= 0:
            up, low = m(x, T), m(x, T - 1)
            if border(ctx, up):
                if ctx.Or(low == 0, border(ctx, low)):
                    _near(ctx, pts, "A_", "E", x + 1, T, X - (x + 1), W)
                    break
            elif ctx.And(x == 0, up == 0, low == 0):
                _near(ctx, pts, "A_", "E", x, T, X - x, W)
                break
            x = x - 1

    # lower right corner of the new item
    bgen = bfree = False
    if R < W:
        if m(R, Y) == 0:
            bfree = True
            if Y == 0:
                bgen = True
            else:
                a, b = m(R - 1, Y - 1), m(R, Y - 1)
                bgen = ctx.Or(ctx.And(border(ctx, a), border(ctx, b)),
                              ctx.And(ctx.Or(a == 0, a == 3), b == 3))
        if bgen:
            bgen = True
            pts["B"].append((R, Y))
        elif Y > 0 and m(R - 1, Y - 1) == 0 and m(R, Y - 1) == 0:
            y = Y - 1
            while y >= 0:
                right, left = m(R, y), m(R - 1, y)
                if ctx.And(right == 0, border(ctx, left)):
                    break
                if border(ctx, right):
                    if ctx.Or(left == 0, border(ctx, left)):
                        _near(ctx, pts, "B_", "F", R, y + 1, Y - (y + 1), L)
                        break
                elif ctx.And(y == 0, right == 0, left == 0):
                    _near(ctx, pts, "B_", "F", R, y, Y - y, L)
                    break
                y = y - 1
        if bgen is not True and bfree:
            pts["B__"].append((R, Y))

    # corners of the items touched from below and from the left
    if T < L:
        x = X
        while x < R - 1:
            if ctx.And(m(x, T) == 3, m(x + 1, T) == 0):
                pts["C"].append((x + 1, T))
            x = x + 1
    if R < W:
        y = Y
        while y < T - 1:
            if ctx.And(m(R, y) == 3, m(R, y + 1) == 0):
                pts["D"].append((R, y + 1))
            y = y + 1


def _near(ctx, pts, near, far, x, y, dist, size):
    # within a fifth of the container's size
    if dist * 5 <= size:
        pts[near].append((x, y))
    else:
        pts[far].append((x, y))


def pack(ctx, W, L, seq, rotation, order):
    """seq: [(id, w, l)]; order(pts) gives the classes in strategy order.
    -> ({id: (x, y, w, l)}, [left])"""
    placed, out = [], {}
    left = list(seq)
    pts = {k: [] for k in POINTS}
    cur = (0, 0)
    while cur is not None and left:
        x, y = cur
        for it in left:
            i, w, l = it
            if fits(ctx, placed, W, L, x, y, w, l):
                pass
            elif rotation and fits(ctx, placed, W, L, x, y, l, w):
                w, l = l, w
            else:
                continue
            left.remove(it)
            placed.append((x, y, w, l))
            out[i] = (x, y, w, l)
            generate(ctx, pts, placed, W, L, x, y, w, l)
            break
        cur = None
        for k in order(pts):
            if pts[k]:
                cur = pts[k].pop(0)
                break
    return out, left
