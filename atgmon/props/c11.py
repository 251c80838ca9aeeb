"""C11: append, + and concat combine entries, tiers, groups and textgrids without loss."""
from aligned_textgrid import (AlignedTextGrid, TierGroup, PointsGroup, SequenceTier, SequencePointTier,
                              SequenceInterval, SequencePoint, custom_classes)
from .. import build, gen, inv, model
from ..inv import ent, short

CASES = {"quick": 4000, "thorough": 100000}
RULE = ("one of 12 combining operations (tier append at any level with/without subset or superset intervals, tier +, "
        "tier concat, group +, group concat, group append of a tier, textgrid append, interval append, their point "
        "counterparts) on random hierarchies and times; result compared with the operands. Distinct by operation, sizes "
        "and class kind; non-trivial: both operands were non-empty")
REQUIRED = ["app.rows", "app.identity", "app.links", "app.intier", "cat.shift", "cat.kids", "cat.rows", "add.rows",
            "grp.rows", "grp.levels", "atg.group", "atg.others", "int.subset", "int.lower", "pt.rows", "app.again"]
ASSUME = ["combined entries do not overlap in one tier", "class names within one textgrid name one class"]


def rows_close(ctx, mon, got, want):
    ok = len(got) == len(want) and all(
        a[-1] == b[-1] and all(abs(p - q) < 1e-6 for p, q in zip(a[:-1], b[:-1])) for a, b in zip(got, want))
    ctx.check(mon, ok, "\n has ", got, "\n want", want)


def spec(rng, nlev, st, t0=0, n=None):
    return gen.Group(rng, nlev, st, t0=t0, n_top=n or rng.randint(1, 4), max_kids=3)


def grouped(ctx, g, levels):
    """A live group equals the reference relation over levels."""
    want, parents = model.relate([model.by_time(l) for l in levels])
    ctx.eq("grp.levels", len(g), len(levels))
    for l, t in enumerate(g):
        rows_close(ctx, "grp.rows", inv.rows(t), want[l])
        for i, x in enumerate(t):
            p = parents[l][i]
            ctx.check("app.links", x.super_instance is (None if p is None else g[l - 1][p]), short(x), "under",
                      short(x.super_instance), "want", None if p is None else short(g[l - 1][p]))
            ctx.check("app.intier", x.intier is t, short(x))
    inv.links(ctx, inv.closure(g))
    for t in g:
        inv.tier_views(ctx, t)


def later(rng, st):
    """A style for what is put behind: it does not start before 0, so nothing overlaps after the shift."""
    return gen.Style(rng, ["int0", "dec0", "float"]) if st.kind == "neg" else st


def live(rng, s, classes, in_atg):
    g = build.group(rng, s, classes)
    if in_atg:
        g.name = "first"
        atg = AlignedTextGrid([g])
        return atg[0], atg
    return g, None


def case(ctx, rng, idx):
    op = OPS[idx % len(OPS)]
    st = gen.Style(rng, ["int0", "int", "dec0", "float", "np", "offset", "mixed", "big", "fine", "neg"])
    if st.kind == "neg" and rng.random() < 0.5:
        st.base -= 80                           # every time below 0
    nlev = gen.depth(rng, [1, 2, 2, 3, 3, 4])
    ctx.op(op.__name__, st.kind, nlev)
    op(ctx, rng, st, nlev, gen.family(rng, nlev))


def tier_append(ctx, rng, st, nlev, cls):
    """Ungrouped tier."""
    s = spec(rng, 1, st, n=rng.randint(2, 8))
    c = rng.choice(cls)
    rows = s.levels[0]
    k = rng.randint(0, len(rows) - 1)
    first, rest = rows[:k], rows[k:]
    rng.shuffle(rest)
    t = build.tier(rng, first, c)
    objs = list(t)
    for r in rest:
        x = c(r)
        t.append(x)
        objs.append(x)
        ctx.check("app.identity", any(x is y for y in t), short(x))
        ctx.check("app.intier", x.intier is t)
    rows_close(ctx, "app.rows", inv.rows(t), rows)
    ctx.check("app.identity", {id(x) for x in t} == {id(x) for x in objs})
    t.append(rng.choice(objs))
    ctx.eq("app.again", len(t), len(objs))
    inv.tier_views(ctx, t)
    ctx.sig("tier_append", c.__name__, k, len(rows), st.kind)


def tier_append_grouped(ctx, rng, st, nlev, cls):
    s = spec(rng, nlev, st)
    g, atg = live(rng, s, cls, rng.random() < 0.5)
    old = [list(t) for t in g]
    hi = s.span[1]
    l = rng.randrange(nlev)
    gap = rng.choice([0, 0, 0, 2])
    n = rng.randint(1, 3)
    extra = gen.forest(rng, nlev - l, n_top=1, max_kids=3, t0=hi + gap)
    lv = gen.levels_of(extra, nlev - l)
    base = rng.random() < 0.5
    kls = (lambda i: cls[i]) if base else (lambda i: g[i].entry_class)

    def make(node, depth):
        x = kls(l + depth)((st(node.a), st(node.b), node.label))
        if node.kids and with_kids:
            x.set_subset_list([make(k, depth + 1) for k in node.kids])
        return x
    with_kids = rng.random() < 0.6
    x = make(extra[0], 0)
    levels = [list(a) for a in s.levels]
    if with_kids:
        for d, nodes in enumerate(lv):
            levels[l + d] += [(st(n.a), st(n.b), n.label) for n in nodes]
    else:
        levels[l].append(ent(x))
    how = "x"
    if l > 0 and rng.random() < 0.3 and with_kids:
        u = kls(l - 1)((x.start, x.end, "up"))
        u.set_subset_list([x])
        levels[l - 1].append(ent(u))
        how = "with super"
    ctx.log("append", how, short(x), "level", l, "kids", len(x), "gap", gap, "base class" if base else "grid class")
    g[l].append(x)
    ctx.check("app.identity", any(x is y for y in g[l]), short(x))
    for t, o in zip(g, old):
        ctx.check("app.identity", {id(y) for y in o} <= {id(y) for y in t}, "entries left the tier")
    grouped(ctx, g, levels)
    ctx.sig("tier_append_grouped", nlev, l, with_kids, how, gap, [len(t) for t in g])


def interval_append(ctx, rng, st, nlev, cls):
    if nlev < 2:
        cls, nlev = gen.family(rng, 2), 2
    s = spec(rng, nlev, st)
    g, atg = live(rng, s, cls, rng.random() < 0.5)
    l = nlev - 2
    u = rng.choice(list(g[l]))
    v = u.last                                  # gives up its second half
    mid = v.start + (v.end - v.start) / 2
    e = v.end
    v.end = mid
    x = (cls[l + 1] if rng.random() < 0.5 else g[l + 1].entry_class)((mid, e, "new"))
    n = len(g[l + 1])
    ctx.log("interval.append", short(u), short(x))
    u.append(x)
    ctx.check("int.subset", u.last is x and x.super_instance is u, short(u))
    ctx.check("int.lower", any(x is y for y in g[l + 1]) and len(g[l + 1]) == n + 1 and x.intier is g[l + 1], short(x))
    inv.links(ctx, inv.closure(u))
    inv.tier_views(ctx, g[l + 1])
    ctx.sig("interval_append", nlev, l, [len(t) for t in g])


def tier_add(ctx, rng, st, nlev, cls):
    s = spec(rng, 1, st, n=rng.randint(2, 8))
    c = rng.choice(cls)
    rows = s.levels[0]
    pick = [rng.random() < 0.5 for _ in rows]
    a = [r for r, p in zip(rows, pick) if p]
    b = [r for r, p in zip(rows, pick) if not p]
    if not a or not b:
        a, b = rows[:1], rows[1:]
    ta, tb = build.tier(rng, a, c), build.tier(rng, b, c)
    oa, ob = list(ta), list(tb)
    t = ta + tb
    ctx.check("add.type", type(t) is SequenceTier and t.entry_class is c)
    rows_close(ctx, "add.rows", inv.rows(t), rows)
    ctx.check("app.identity", {id(x) for x in t} == {id(x) for x in oa + ob})
    ctx.check("add.operands", [id(x) for x in ta] == [id(x) for x in oa] and [id(x) for x in tb] == [id(x) for x in ob])
    inv.tier_views(ctx, t)
    ctx.sig("tier_add", pick, st.kind)


def tier_concat(ctx, rng, st, nlev, cls):
    c = cls[0]
    a, sb = spec(rng, nlev, st), later(rng, st)
    b = spec(rng, nlev, sb, t0=rng.choice([0, 0, 3]))
    ta = build.tier(rng, a.levels[0], c)

    def make(node, d):
        x = cls[d]((sb(node.a), sb(node.b), node.label))
        if node.kids:
            x.set_subset_list([make(k, d + 1) for k in node.kids])
        return x
    new = [make(r, 0) for r in b.roots]
    tb = SequenceTier(new)
    below = [(y, y.start, y.end) for y in inv.closure(*new)]
    inc = ta.xmax
    ta.concat(tb)
    rows_close(ctx, "cat.rows", inv.rows(ta), a.levels[0] + [(s + inc, e + inc, l) for s, e, l in b.levels[0]])
    for y, s, e in below:
        ctx.close("cat.shift", y.start, s + inc, tol=1e-6)
        ctx.close("cat.shift", y.end, e + inc, tol=1e-6)
    ctx.check("app.identity", {id(x) for x in new} <= {id(x) for x in ta})
    inv.links(ctx, inv.closure(ta))
    inv.tier_views(ctx, ta)
    inv.chain(ctx, "cat.chain", ta, "tier")
    ctx.sig("tier_concat", [len(l) for l in a.levels], [len(l) for l in b.levels])


def group_add(ctx, rng, st, nlev, cls):
    a = spec(rng, nlev, st)
    b = spec(rng, nlev, st, t0=a.span[1] + rng.choice([0, 2]))
    ga, gb = build.group(rng, a, cls), build.group(rng, b, cls)
    ga.name = "left"
    pool = {id(x) for t in ga for x in t} | {id(x) for t in gb for x in t}
    gb.name = "right"
    first = rng.choice(["left", "right"])
    g = ga + gb if first == "left" else gb + ga
    grouped(ctx, g, [x + y for x, y in zip(a.levels, b.levels)])
    ctx.eq("add.name", g.name, first)
    ctx.check("app.identity", pool <= {id(x) for t in g for x in t})
    ctx.sig("group_add", [len(l) for l in a.levels], [len(l) for l in b.levels])


def group_concat(ctx, rng, st, nlev, cls):
    a, b = spec(rng, nlev, st), spec(rng, nlev, later(rng, st), t0=rng.choice([0, 0, 3]))
    if st.kind != "neg" and rng.random() < 0.2:
        b = a                                   # the same recording twice
    if nlev > 1 and rng.random() < 0.3:         # a lower tier that stops before the top one
        last = a.roots[-1]
        last.kids = []
        if len(a.roots) > 1:
            a.refresh()
    ga, atg = live(rng, a, cls, rng.random() < 0.5)
    gb = build.group(rng, b, cls)
    shape = [[None if x.super_instance is None else x.super_instance.tier_index for x in t] for t in gb]
    objs = [list(t) for t in gb]
    inc = ga.xmax
    ga.concat(gb)
    grouped(ctx, ga, [x + [(s + inc, e + inc, l) for s, e, l in y] for x, y in zip(a.levels, b.levels)])
    for l, (os_, up) in enumerate(zip(objs, shape)):
        for x, p in zip(os_, up):
            ctx.check("cat.kids", x.super_instance is (None if p is None else objs[l - 1][p]), short(x))
    ctx.sig("group_concat", [len(l) for l in a.levels], [len(l) for l in b.levels])


def group_append(ctx, rng, st, nlev, cls):
    if nlev < 2:
        cls, nlev = gen.family(rng, 2), 2
    s = spec(rng, nlev, st)
    tiers = [build.tier(rng, l, c) for l, c in zip(s.levels, cls)]
    lo = rng.randrange(nlev)
    g = TierGroup([tiers[lo]])
    have = {lo}
    if rng.random() < 0.4 and lo == 0:
        g.name = "first"
        atg = AlignedTextGrid([g])
        g = atg[0]
    objs = {id(x) for t in tiers for x in t}
    up, down = lo - 1, lo + 1
    while up >= 0 or down < nlev:
        k = up if (up >= 0 and (down >= nlev or rng.random() < 0.5)) else down
        if g.within is not None and k != down:
            break
        ctx.log("group.append tier", k)
        try:
            g.append(tiers[k])
        except ValueError:
            if g.within is not None:            # a textgrid only takes tiers it can clone from the top
                break
            raise
        up, down = (up - 1, down) if k == up else (up, down + 1)
        have.add(k)
    ks = sorted(have)
    grouped(ctx, g, [s.levels[k] for k in ks])
    ctx.check("grp.levels", [c.__name__ for c in g.entry_classes] == [cls[k].__name__ for k in ks])
    ctx.sig("group_append", nlev, lo, ks, [len(t) for t in g])


def atg_append(ctx, rng, st, nlev, cls):
    atg = AlignedTextGrid()
    specs = []
    pc = gen.point_class(rng)
    for i in range(rng.randint(1, 4)):
        if rng.random() < 0.25:
            pr = gen.points(rng, st)
            g = PointsGroup([build.ptier(rng, pr, pc)])
            specs.append(("p", pr, list(g[0]), pc))
        else:
            s = spec(rng, nlev, st)
            lo = hi = 0
            if rng.random() < 0.4:              # some levels of the hierarchy only
                lo = rng.randrange(nlev)
                hi = rng.randint(lo + 1, nlev)
                g = TierGroup([build.tier(rng, l, c) for l, c in zip(s.levels[lo:hi], cls[lo:hi])])
            else:
                hi = nlev
                g = build.group(rng, s, cls)
            specs.append(("i", s.levels[lo:hi], [list(t) for t in g], cls[lo:hi]))
        g.name = f"n{i}"
        prev = inv.snap(atg), inv.identity(atg)
        ctx.log("atg.append", specs[-1][0])
        atg.append(g)
        ctx.eq("atg.others", (inv.snap(atg)[:-1], inv.identity(atg)[:-1]), prev)
        ctx.check("atg.group", len(atg) == i + 1 and atg[-1] is g and g.within is atg and getattr(atg, f"n{i}") is g)
    for g, (k, s, objs, c) in zip(atg, specs):
        if k == "p":
            ctx.eq("pt.rows", inv.rows(g[0]), s)
            ctx.check("app.identity", [id(x) for x in g[0]] == [id(x) for x in objs])
            ctx.check("atg.class", issubclass(g[0].entry_class, c))
        else:
            grouped(ctx, g, s)
            ctx.check("app.identity", [[id(x) for x in t] for t in g] == [[id(x) for x in o] for o in objs])
            ctx.check("atg.class", all(issubclass(a, b) for a, b in zip(g.entry_classes, c)))
    ctx.sig("atg_append", nlev, [k for k, *_ in specs], [[len(t) for t in g] for g in atg])


def point_ops(ctx, rng, st, nlev, cls):
    c = gen.point_class(rng)
    rows = gen.points(rng, st, n=rng.randint(2, 9), lo=1)
    cut = rng.randint(1, len(rows) - 1)
    how = rng.choice(["append", "add", "concat", "gconcat", "gadd", "gappend"])
    ctx.log("points", how)
    a, b = rows[:cut], rows[cut:]
    sb = later(rng, st)
    if "concat" in how and sb is not st:
        b = gen.points(rng, sb, lo=1)
    ta, tb = build.ptier(rng, a, c), build.ptier(rng, b, c)
    if how == "append":
        t, want = ta, rows
        for r in build.shuffled(rng, b):
            t.append(c(r))
    elif how == "add":
        t, want = ta + tb, rows
    elif how == "gadd":
        t, want = (PointsGroup([ta]) + PointsGroup([tb]))[0], rows
    elif how == "gappend":
        c2 = type("Other", (SequencePoint,), {})
        if c is SequencePoint:                  # its subclasses count as the same class
            return
        g = PointsGroup([ta])
        g.append(build.ptier(rng, b, c2))
        ctx.eq("pt.rows", [inv.rows(t) for t in g], [a, b])
        t, want = ta, a
    else:
        inc = ta.xmax
        want = a + [(s + inc, l) for s, l in b]
        if how == "concat":
            t = ta
            t.concat(tb)
        else:
            c2 = custom_classes("Other", points=[0])
            if c is SequencePoint:
                g, h = PointsGroup([ta]), PointsGroup([tb])
            else:                               # a second tier, ending before or after the first
                a2, b2 = gen.points(rng, st, lo=1, hi=60), gen.points(rng, sb, lo=1, hi=60)
                g = PointsGroup([ta, build.ptier(rng, a2, c2)])
                h = PointsGroup([tb, build.ptier(rng, b2, c2)])
                inc = max(a[-1][0], a2[-1][0])
                want = a + [(s + inc, l) for s, l in b]
            g.concat(h)
            t = g[0]
            if len(g) > 1:
                rows_close(ctx, "pt.rows", inv.rows(g[1]), a2 + [(s + inc, l) for s, l in b2])
                inv.tier_views(ctx, g[1])
                inv.chain(ctx, "pt.chain", g[1], "points")
    rows_close(ctx, "pt.rows", inv.rows(t), want)
    inv.tier_views(ctx, t)
    inv.chain(ctx, "pt.chain", t, "points")
    ctx.sig("points", how, len(a), len(b), c.__name__)


OPS = [tier_append, tier_append_grouped, tier_append_grouped, interval_append, tier_add, tier_concat, group_add,
       group_concat, group_append, atg_append, point_ops, atg_append]
