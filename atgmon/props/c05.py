"""C05: grouping tiers relates each interval to the right superset interval and changes nothing else."""
from aligned_textgrid import TierGroup
from .. import build, gen, inv, model
from ..inv import short, ent

CASES = {"quick": 8000, "thorough": 100000}
RULE = ("tiers of a random hierarchy (1-4 levels, full or partial), built by random routes and given in random order; "
        "variants: tidy, subtrees missing, superset intervals missing, boundaries jittered or cut independently (2 levels). Oracle: a "
        "reference relation computed from the input times. Non-trivial: at least two tiers; distinct by variant, level "
        "sizes and parent vector")
REQUIRED = ["rel.order", "rel.rows", "rel.parent", "rel.identity", "rel.max-overlap", "rel.orphan", "rel.kids", "rel.stable",
            "rel.again", "rel.clip-tile", "rel.clip-shrink", "rel.clip-inner", "rel.cross-kids", "rel.cross-blank", "rel.cross-sorted", "rel.cross-clip"]
ASSUME = ["intervals of one tier do not overlap", "gaps and intervals are at least 0.1 ms long"]


def prune(rng, g, how):
    """Remove some nodes; returns levels of rows."""
    drop = set()
    nodes = [n for lv in g.nodes for n in lv]

    def whole(n):
        drop.add(id(n))
        for k in n.kids:
            whole(k)
    if how == "subtree":
        for n in rng.sample(nodes, min(len(nodes), rng.randint(1, 3))):
            if n.level > 0:
                whole(n)
    else:
        for n in rng.sample(nodes, min(len(nodes), rng.randint(1, 3))):
            if n.level < g.nlev - 1:
                drop.add(id(n))
    return [[r for r, n in zip(lv, ns) if id(n) not in drop] for lv, ns in zip(g.levels, g.nodes)]


def crossing(ctx, rng):
    """Two tiers cut independently: intervals across several superset intervals."""
    st = gen.Style(rng)
    classes = gen.family(rng, rng.choice([2, 3]))[-2:]
    hi = rng.randint(8, 40)

    def cut(n, a=0, b=hi):
        at = [a] + sorted(rng.sample(range(a + 1, b), n)) + [b]
        return [(st(a), st(b), gen.label(rng)) for a, b in zip(at, at[1:])]
    again = rng.random() < 0.4                  # an existing group whose times were changed, related again
    if again:
        up = cut(rng.randint(1, 5))
        low = cut(rng.randint(len(up) - 1, 7), *rng.choice([(0, hi), (hi // 3, hi + 9), (0, hi + 9), (hi - 1, hi + 30)]))
    else:
        up, low = cut(rng.randint(1, 6)), cut(rng.randint(0, 7))
    cont = [model.container(r, up) for r in low]
    if any(tie for _, tie in cont):
        return
    ctx.op("cross", "again" if again else "", st.kind, [c.__name__ for c in classes], up, low)
    if again:
        k, m = len(up), len(low)
        old = [(i * 7, i * 7 + 7, r[2]) for i, r in enumerate(up)]
        last = m - k + 1                        # the last superset interval holds the rest
        olow = [(i * 7, i * 7 + 7, low[i][2]) for i in range(k - 1)]
        olow += [((k - 1) * 7 + 7 * j / last, (k - 1) * 7 + 7 * (j + 1) / last, low[k - 1 + j][2]) for j in range(last)]
        olow[-1] = (olow[-1][0], k * 7, olow[-1][2])
        tg = TierGroup([build.tier(rng, old, classes[0]), build.tier(rng, olow, classes[1])])
        ups, lows = list(tg[0]), list(tg[1])
        if (len(ups), len(lows)) != (k, m):
            raise AssertionError("the group to start from is not as planned")
        for t, rows in ((tg[0], up), (tg[1], low)):
            if rng.random() < 0.5:
                t.starts, t.ends = [r[0] for r in rows], [r[1] for r in rows]
            else:
                for x, r in zip(t, rows):
                    x.start, x.end = r[0], r[1]
        tg.re_relate()
        ctx.seen("rel.again")
    else:
        t_up, t_low = build.tier(rng, up, classes[0]), build.tier(rng, low, classes[1])
        ups, lows = list(t_up), list(t_low)
        tg = TierGroup(build.shuffled(rng, [t_up, t_low]))
    ctx.eq("rel.cross-up", [id(x) for x in tg[0]], [id(x) for x in ups])
    for x, r, (c, _) in zip(lows, low, cont):
        want = None if c is None else ups[c]
        ctx.check("rel.max-overlap", x.super_instance is want, short(x), "was", r, "under", short(x.super_instance), "want", short(want))
    for x, r in list(zip(ups, up)) + list(zip(lows, low)):
        ctx.check("rel.clip-shrink", x.start >= r[0] and x.end <= r[1] and x.start < x.end and x.label == r[2], short(x), "was", r)
    mism = any(c is not None and model.overlap(r, up[c]) < r[1] - r[0] - 1e-9 for r, (c, _) in zip(low, cont))
    if not mism:                                # boundaries match: nothing moves, blanks fill what is free
        want, parents = model.relate([up, low])
        for l in (0, 1):
            ctx.check("rel.rows", model.close_rows(inv.rows(tg[l]), want[l]), "level", l, "\n has ", inv.rows(tg[l]), "\n want", want[l])
        for x, p in zip(tg[1], parents[1]):
            ctx.check("rel.parent", x.super_instance is (None if p is None else ups[p]), short(x), "under", short(x.super_instance))
    for i, u in enumerate(ups if mism else []):
        mine = [x for x, (c, _) in zip(lows, cont) if c == i]
        subs = list(u.subset_list)
        ctx.check("rel.clip-tile", len(subs) > 0 and abs(subs[0].start - u.start) < 1e-9 and abs(subs[-1].end - u.end) < 1e-9, short(u), [short(k) for k in subs])
        if not mine:
            ctx.check("rel.cross-blank", len(subs) == 1 and ent(subs[0]) == (u.start, u.end, "") and ent(u) == up[i], short(u), [short(k) for k in subs])
        else:
            ctx.eq("rel.cross-kids", [id(k) for k in subs], [id(k) for k in mine], short(u))
            a = max(up[i][0], low[lows.index(mine[0])][0])
            b = min(up[i][1], low[lows.index(mine[-1])][1])
            ctx.eq("rel.cross-clip", (u.start, u.end), (a, b), "was", up[i])
            for k in mine[1:-1]:
                ctx.eq("rel.clip-inner", ent(k), low[lows.index(k)])
    st_ = [x.start for x in tg[1]]
    ctx.check("rel.cross-sorted", st_ == sorted(st_), [short(x) for x in tg[1]])
    known = {id(x) for x in lows}
    if mism:
        ctx.eq("rel.cross-count", len(tg[1]), len(low) + sum(1 for i in range(len(up)) if i not in [c for c, _ in cont]))
    inv.links(ctx, inv.closure(tg))
    for t in tg:
        inv.tier_views(ctx, t, navigation=True)
    ctx.sig("cross", len(up), [c for c, _ in cont], mism)


def case(ctx, rng, idx):
    if rng.random() < 0.2:
        return crossing(ctx, rng)
    nlev = gen.depth(rng, [1, 2, 2, 2, 3, 3, 4])
    st = gen.Style(rng)
    classes = gen.family(rng, nlev)
    g = gen.Group(rng, nlev, st, t0=rng.choice([0, 0, 5]))
    how = rng.choice(["tidy", "tidy", "partial", "subtree", "upper", "jitter"])
    levels = [list(l) for l in g.levels]
    if how == "partial" and nlev > 1:
        a = rng.randrange(nlev)
        b = rng.randint(a + 1, nlev)
        levels, classes = levels[a:b], classes[a:b]
    elif how in ("subtree", "upper"):
        levels = prune(rng, g, how)
        if not all(levels):
            how, levels = "tidy", [list(l) for l in g.levels]
    elif how == "jitter":
        if nlev != 2:
            levels, classes, nlev = levels[-1:], classes[-1:], 1
            how = "partial"
        else:
            low = []
            step = st(1) - st(0)
            for i, (s, e, lab) in enumerate(levels[1]):
                s2 = low[-1][1] if i else s + step * rng.uniform(-0.4, 0.4)
                e2 = e + step * rng.uniform(-0.45, 0.45)
                low.append((s2, e2, lab))
            levels = [levels[0], low]
    ctx.op("group", how, st.kind, [c.__name__ for c in classes], levels)
    tiers = [build.tier(rng, lv, c) for lv, c in zip(levels, classes)]
    objs = [list(t) for t in tiers]
    tg = TierGroup(build.shuffled(rng, tiers))
    ctx.check("rel.order", [t for t in tg] == tiers or [id(t) for t in tg] == [id(t) for t in tiers],
              [c.__name__ for c in tg.entry_classes], "want", [c.__name__ for c in classes])
    if how == "jitter":
        up, low = levels
        for i, x in enumerate(objs[1]):
            c, tie = model.container(low[i], up)
            if tie:
                continue
            want = None if c is None else objs[0][c]
            ctx.check("rel.max-overlap", x.super_instance is want, short(x), "was", low[i], "under",
                      short(x.super_instance), "want", short(want))
            ctx.eq("rel.labels", x.label, low[i][2])
        for o, r in zip(objs[0], up):
            ctx.eq("rel.labels", o.label, r[2])
            subs = list(o.subset_list)
            ctx.check("rel.clip-tile", len(subs) > 0 and abs(subs[0].start - o.start) < 2e-5 and abs(subs[-1].end - o.end) < 2e-5, short(o), [short(k) for k in subs])
        for level, rows in zip(objs, levels):
            for o, r in zip(level, rows):
                ctx.check("rel.clip-shrink", o.start >= r[0] and o.end <= r[1] and o.start < o.end, short(o), "was", r)
        edge = {id(k) for o in objs[0] for k in (o.first, o.last)}
        for o, r in zip(objs[1], low):
            if id(o) not in edge and o.super_instance is not None:
                ctx.eq("rel.clip-inner", ent(o), r)
    else:
        want, parents = model.relate(levels)
        for l, t in enumerate(tg):
            ctx.check("rel.rows", model.close_rows(inv.rows(t), want[l]), "level", l, "\n has ", inv.rows(t), "\n want", want[l])
            kept = {id(x) for x in t}
            for o, r in zip(objs[l], levels[l]):
                ctx.check("rel.identity", id(o) in kept and ent(o) == r, short(o), "was", r)
            for i, x in enumerate(t):
                p = parents[l][i]
                if p is None:
                    ctx.check("rel.orphan", x.super_instance is None, short(x), "under", short(x.super_instance))
                else:
                    ctx.check("rel.parent", x.super_instance is tg[l - 1][p], short(x), "under", short(x.super_instance),
                              "want", short(tg[l - 1][p]))
            for u, x in enumerate(t):
                if l + 1 < len(tg):
                    kids = [tg[l + 1][j] for j, p in enumerate(parents[l + 1]) if p == u]
                    ctx.check("rel.kids", [id(k) for k in x.subset_list] == [id(k) for k in kids], short(x))
        before = [inv.rows(t) for t in tg], inv.identity([tg])
        tg.re_relate()
        ctx.check("rel.stable", before == ([inv.rows(t) for t in tg], inv.identity([tg])), "re-relating changed the group")
    if len(levels) > 1:
        ctx.sig(how, [len(l) for l in levels], [[x.super_instance.tier_index if x.super_instance else None for x in t] for t in tg][1:])
