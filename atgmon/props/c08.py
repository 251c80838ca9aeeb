"""C08: cleanup fills gaps with blanks and nothing else."""
from aligned_textgrid import (AlignedTextGrid, TierGroup, PointsGroup, SequenceTier, SequencePointTier, Bottom)
from .. import build, gen, inv, model
from ..inv import short, ent
from .c05 import prune

CASES = {"quick": 6000, "thorough": 70000}
RULE = ("an interval, tier, group or textgrid with random holes (missing subtrees, missing supersets, empty lower "
        "tiers, groups of different span, point tiers) or with intervals popped from it is cleaned up at that level; the result is compared with the "
        "source intervals and must tile. Non-trivial: there was a gap to fill; distinct by level, sizes before and after")
REQUIRED = ["clean.kept", "clean.identity", "clean.blank", "clean.free", "clean.tile.snug", "clean.kids-tile.snug",
            "clean.kids-tile.lo", "clean.super", "clean.has-kids", "clean.span", "clean.idempotent", "clean.points",
            "clean.interval", "clean.tier", "clean.popped", "clean.rounding"]
ASSUME = ["intervals of one tier do not overlap, lower intervals lie inside one superset interval or outside all",
          "gaps are at least 0.1 ms (the library takes less than 10 microseconds for rounding)"]


def extras(ctx, tier, objs, src):
    """Source objects are all there unchanged; what is new is blank and only where nothing was."""
    here = {id(x) for x in tier}
    for o, r in zip(objs, src):
        ctx.check("clean.identity", id(o) in here, r, "left the tier")
        ctx.eq("clean.kept", ent(o), r)
    known = {id(o) for o in objs}
    for x in tier:
        if id(x) in known:
            continue
        ctx.check("clean.blank", x.label == "", short(x), "was added")
        ctx.check("clean.length", x.end - x.start > 1e-6, short(x), "was added")
        ctx.check("clean.free", all(model.overlap(ent(x), r) < 1e-6 for r in src), short(x), "covers", src)


def whole_group(ctx, g):
    lo, hi = g.xmin, g.xmax
    for i, t in enumerate(g):
        inv.tiling(ctx, "clean.tile", t, lo, hi)
        for x in t:
            if i > 0:
                ctx.check("clean.super", x.super_instance is not None, short(x), "is in no superset interval")
            if i + 1 < len(g):
                ctx.check("clean.has-kids", len(x) > 0, short(x), "has no subset intervals")
                inv.tiling(ctx, "clean.kids-tile", x.subset_list, x.start, x.end, where=short(x))


def make_levels(rng, g, holes):
    if holes == "none":
        return [list(l) for l in g.levels]
    if holes == "empty_lower":
        lv = [list(l) for l in g.levels]
        k = rng.randrange(1, g.nlev) if g.nlev > 1 else 1
        return lv[:k] + [[] for _ in lv[k:]]
    lv = prune(rng, g, holes)
    return lv if lv[0] and any(lv) else [list(l) for l in g.levels]


def pop_some(ctx, rng, tg, lower_only=False):
    """Take intervals out of the tiers of a related group, neighbours among them; returns what is left."""
    for t in list(tg)[1 if lower_only and len(tg) > 1 else 0:]:
        if rng.random() < 0.6 and len(t) > 1:
            k = rng.randint(1, min(4, len(t) - 1))
            at = rng.randrange(len(t) - k + 1)
            gone = [t[at + j] for j in range(k)] if rng.random() < 0.7 else rng.sample(list(t), k)
            for x in gone:
                ctx.op("tier.pop", short(x))
                t.pop(x)
    return [list(t) for t in tg], [inv.rows(t) for t in tg]


def case(ctx, rng, idx):
    what = rng.choice(["interval", "tier", "group", "group", "atg", "atg", "atg", "read", "tier_in_group", "interval_in_group", "near"])
    st = gen.Style(rng)
    if what == "interval":
        return interval(ctx, rng, st)
    if what == "interval_in_group":
        return interval_in_group(ctx, rng, st)
    if what == "tier":
        return lone_tier(ctx, rng, st)
    if what == "near":
        return near(ctx, rng, st)
    if what == "read":
        return read(ctx, rng, st)
    nlev = gen.depth(rng, [1, 2, 2, 3, 3, 4])
    if what == "tier_in_group":
        return tier_in_group(ctx, rng, st, nlev)
    classes = gen.family(rng, nlev)
    n = 1 if what == "group" else rng.choice([1, 2, 3]) if rng.random() < 0.9 else rng.randint(4, 6)
    gs, srcs, objs = [], [], []
    for i in range(n):
        g = gen.Group(rng, nlev, st, t0=rng.choice([0, 0, 4, 9]))
        lv = make_levels(rng, g, rng.choice(["none", "subtree", "subtree", "upper", "upper", "empty_lower"]))
        tiers = [build.tier(rng, l, c) for l, c in zip(lv, classes)]
        objs.append([list(t) for t in tiers])
        srcs.append(lv)
        gs.append(TierGroup(build.shuffled(rng, tiers)))
        gs[-1].name = f"g{i}"
        if rng.random() < 0.35:
            objs[-1], srcs[-1] = pop_some(ctx, rng, gs[-1])
            ctx.seen("clean.popped")
    ctx.op("cleanup", what, st.kind, [c.__name__ for c in classes], srcs)
    sizes = [[len(l) for l in lv] for lv in srcs]
    if what == "group":
        top = gs[0]
        holder = [top]
    else:
        pts = [gen.points(rng, st) for _ in range(rng.choice([0, 0, 1]))]
        pc = gen.point_class(rng)
        for j, p in enumerate(pts):
            gs.append(PointsGroup([build.ptier(rng, p, pc)]))
            gs[-1].name = f"p{j}"
        rng.shuffle(gs)
        top = AlignedTextGrid(gs)
        holder = list(top)
    top.cleanup()
    igroups = sorted([g for g in holder if isinstance(g, TierGroup)], key=lambda g: g.name)
    for g, lv, ob in zip(igroups, srcs, objs):
        ctx.eq("clean.tiers", len(g), nlev)
        for t, l, o in zip(g, lv, ob):
            extras(ctx, t, o, l)
        whole_group(ctx, g)
    if what == "atg":
        lo = min(g.xmin for g in igroups)
        hi = max(g.xmax for g in igroups)
        src = [r for lv in srcs for l in lv for r in l]
        ctx.close("clean.extent", lo, min(r[0] for r in src))
        ctx.close("clean.extent", hi, max(r[1] for r in src))
        for g in igroups:
            ctx.close("clean.span", g.xmin, lo, tol=1e-6)
            ctx.close("clean.span", g.xmax, hi, tol=1e-6)
        for j, p in enumerate(pts):
            ctx.eq("clean.points", inv.rows(next(g for g in top if g.name == f"p{j}")[0]), p)
    inv.links(ctx, inv.closure(*igroups))
    before, ids = inv.snap(holder), inv.identity(holder)
    top.cleanup()
    ctx.check("clean.idempotent", inv.snap(holder) == before and inv.identity(holder) == ids, "a second cleanup changed",
              before, "to", inv.snap(holder))
    after = [[len(t) for t in g] for g in igroups]
    if after != sizes:
        ctx.sig(what, sizes, after)


def read(ctx, rng, st):
    """Reading leaves a cleaned-up textgrid."""
    nlev = rng.choice([1, 2, 2, 3])
    classes = gen.family(rng, nlev)
    srcs, tiers = [], []
    for i in range(rng.choice([1, 2, 3]) if rng.random() < 0.9 else rng.randint(4, 6)):
        g = gen.Group(rng, nlev, st, t0=rng.choice([0, 0, 4, 9]))
        lv = make_levels(rng, g, rng.choice(["none", "subtree", "upper"]))
        if not all(lv):
            lv = [list(l) for l in g.levels]
        srcs.append(lv)
        tiers += [gen.itier(f"g{i}x{j}", l) for j, l in enumerate(lv)]
    ctx.op("read", st.kind, srcs)
    atg = AlignedTextGrid(gen.textgrid(tiers), entry_classes=[classes] * len(srcs))
    src = [r for lv in srcs for l in lv for r in l]
    for g in atg:
        whole_group(ctx, g)
        ctx.close("clean.span", g.xmin, min(r[0] for r in src), tol=1e-6)
        ctx.close("clean.span", g.xmax, max(r[1] for r in src), tol=1e-6)
    ctx.sig("read", [[len(l) for l in lv] for lv in srcs], [[len(t) for t in g] for g in atg])


def tier_in_group(ctx, rng, st, nlev):
    classes = gen.family(rng, nlev)
    g = gen.Group(rng, nlev, st)
    lv = make_levels(rng, g, rng.choice(["subtree", "upper"]))
    if not all(lv):
        lv = [list(l) for l in g.levels]
    tiers = [build.tier(rng, l, c) for l, c in zip(lv, classes)]
    objs = [list(t) for t in tiers]
    tg = TierGroup(tiers)
    i = rng.randrange(nlev)
    if rng.random() < 0.4:
        objs, lv = pop_some(ctx, rng, tg, lower_only=True)
    ctx.op("group tier.cleanup", i, st.kind, lv)
    tg[i].cleanup()
    for t, o, l in zip(tg, objs, lv):
        extras(ctx, t, o, l)
    inv.tiling(ctx, "clean.tile", tg[i], lv[i][0][0] if i == 0 else tg[i].xmin, lv[i][-1][1] if i == 0 else tg[i].xmax)
    inv.links(ctx, inv.closure(tg))
    if i > 0:
        for x in tg[i]:
            over = [u for u in tg[i - 1] if model.overlap(ent(x), ent(u)) > 0.9 * (x.end - x.start)]
            if over:
                ctx.check("clean.tier-nested", x.super_instance is over[0], short(x), "is not in", short(over[0]))
    before, ids = inv.snap([tg]), inv.identity([tg])
    tg[i].cleanup()
    ctx.check("clean.idempotent", inv.snap([tg]) == before and inv.identity([tg]) == ids, "a second cleanup changed the group")
    ctx.sig("tier_in_group", i, [len(l) for l in lv], [len(t) for t in tg])


def near(ctx, rng, st):
    """Times that differ by rounding only leave no gap to fill."""
    nlev = gen.depth(rng, [1, 2, 2, 3])
    classes = gen.family(rng, nlev)
    size = rng.choice([3e-8, 1e-6, 4e-6])

    def off():
        return rng.choice([0, 0, 1, 1]) * size * rng.uniform(0.5, 1)
    gs, even, t0 = [], rng.random() < 0.5, rng.choice([0, 0, 2])
    for i in range(rng.choice([1, 1, 2, 3])):
        g = gen.Group(rng, nlev, st, t0=t0 if even else rng.choice([0, t0, t0, 3]), n_top=rng.randint(1, 3))
        if gs and even and g.span[1] < hi:
            build.stretch_to(g, hi)
        hi = g.span[1]
        lv = []
        for l in g.levels:
            cuts = sorted({t for r in l for t in r[:2]})
            at = {t: (t - off(), t + off()) for t in cuts}  # the end of one interval and the start of the next
            lv.append([(at[a][1], at[b][0], lab) for a, b, lab in l])
        gs.append((g.span[1], lv))
    gs = [lv for h, lv in gs if h == gs[-1][0] or not even]
    ctx.op("near", st.kind, size, gs)
    tgs = [TierGroup([build.tier(rng, l, c) for l, c in zip(lv, classes)]) for lv in gs]
    how = rng.choice(["atg", "atg", "group", "tier", "interval"])
    atg = None
    if how == "atg":
        for i, g in enumerate(tgs):
            g.name = f"g{i}"
        atg = AlignedTextGrid(tgs)
        atg.cleanup()
    elif how == "group":
        for g in tgs:
            g.cleanup()
    elif how == "tier":
        for g in tgs:
            for t in g:
                t.cleanup()
    else:
        for g in tgs:
            for t in g:
                for x in list(t):
                    x.cleanup()
    for g, lv in zip(tgs, gs):
        for t, l in zip(g, lv):
            rows = inv.rows(t)
            kept = [r for r in rows if any(a[2] == r[2] and abs(a[0] - r[0]) < 2e-5 and abs(a[1] - r[1]) < 2e-5 for a in l)]
            ctx.check("clean.rounding", len(kept) == len(l) and all(
                r in kept or (r[2] == "" and r[1] - r[0] > 5e-5 and how == "atg" and not even) for r in rows),
                how, "filled a difference below 10 microseconds: \n has", rows, "\n had", l)
    ctx.sig("near", how, size, [[len(l) for l in lv] for lv in gs])


def interval_in_group(ctx, rng, st):
    """An interval of a tier whose subset intervals (and theirs) were all taken out of their tiers."""
    nlev = gen.depth(rng, [2, 3, 3, 4])
    classes = gen.family(rng, nlev)
    g = gen.Group(rng, nlev, st)
    tg = build.group(rng, g, classes)
    tg.name = "g"
    if rng.random() < 0.5:
        tg = AlignedTextGrid([tg])[0]
    l = rng.randrange(nlev - 1)
    x = rng.choice(list(tg[l]))
    if len(tg[l]) == 1:
        return
    below = []
    todo = [x]
    while todo:
        todo = [k for y in todo for k in y.subset_list]
        below.append(todo)
    for kids in reversed(below[:-1]):
        for k in kids:
            k.intier.pop(k)
    objs, src = [list(t) for t in tg], [inv.rows(t) for t in tg]
    ctx.op("interval.cleanup in a group", l, short(x), [len(k) for k in below[:-1]])
    x.cleanup()
    for t, o, r in zip(tg, objs, src):
        extras(ctx, t, o, r)
    y, n = x, l
    while len(y):
        ctx.eq("clean.empty", (len(y), y.first.label), (1, ""))
        inv.tiling(ctx, "clean.kids-tile", y.subset_list, y.start, y.end)
        y, n = y.first, n + 1
        ctx.check("clean.in-tier", y.intier is tg[n] and any(y is z for z in tg[n]), short(y), "is not in its tier")
    ctx.eq("clean.has-kids", n, nlev - 1, "levels filled below an empty interval")
    inv.links(ctx, inv.closure(tg))
    for t in tg:
        inv.tier_views(ctx, t)
    ctx.sig("interval_in_group", l, [len(r) for r in src])


def interval(ctx, rng, st):
    nlev = gen.depth(rng, [2, 2, 3, 4])
    classes = gen.family(rng, nlev)
    g = gen.Group(rng, nlev, st, n_top=1, max_kids=4 if nlev > 2 else rng.choice([4, 12]))
    root = g.roots[0]
    top = classes[0](g.levels[0][0])
    rows = [(st(k.a), st(k.b), k.label) for k in root.kids]
    keep = [r for r in rows if rng.random() < 0.6]
    kids = [classes[1](r) for r in keep]
    ctx.op("interval.cleanup", st.kind, ent(top), keep)
    if kids:
        top.set_subset_list(build.shuffled(rng, kids))
    if rng.random() < 0.3:
        top.cleanup(internal=False)
        if kids:
            ctx.eq("clean.internal-off", [id(x) for x in top.subset_list], [id(k) for k in kids])
    top.cleanup()
    ctx.seen("clean.interval")
    extras(ctx, top.subset_list, kids, keep)
    inv.tiling(ctx, "clean.kids-tile", top.subset_list, top.start, top.end)
    ctx.eq("clean.kept", ent(top), g.levels[0][0])
    if not kids:
        x, n = top, 0
        while len(x):
            inv.tiling(ctx, "clean.kids-tile", x.subset_list, x.start, x.end)
            ctx.eq("clean.empty", (len(x), x.first.label), (1, ""))
            x, n = x.first, n + 1
        ctx.eq("clean.has-kids", n, nlev - 1, "levels filled below an empty interval")
    inv.links(ctx, inv.closure(top))
    before = [id(x) for x in inv.closure(top)]
    top.cleanup()
    ctx.eq("clean.idempotent", [id(x) for x in inv.closure(top)], before)
    if len(top) != len(keep):
        ctx.sig("interval", nlev, len(keep), len(top))


def lone_tier(ctx, rng, st):
    cls = gen.family(rng, rng.choice([1, 2, 3]))
    c = rng.choice(cls)
    g = gen.Group(rng, 1, st, n_top=rng.randint(1, 9))
    src = [r for r in g.levels[0] if rng.random() < 0.7] or g.levels[0]
    t = build.tier(rng, src, c)
    objs = list(t)
    ctx.op("tier.cleanup", st.kind, src)
    t.cleanup()
    ctx.seen("clean.tier")
    extras(ctx, t, objs, src)
    inv.tiling(ctx, "clean.tile", t, src[0][0], src[-1][1])
    inv.tier_views(ctx, t)
    before = [id(x) for x in t]
    t.cleanup()
    ctx.eq("clean.idempotent", [id(x) for x in t], before)
    if len(t) != len(src):
        ctx.sig("tier", len(src), len(t), st.kind)
