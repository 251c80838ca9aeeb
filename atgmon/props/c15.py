"""C15: looking things up by time."""
from aligned_textgrid import (AlignedTextGrid, TierGroup, PointsGroup, SequenceTier, SequencePoint)
from .. import build, gen, inv, model
from ..inv import short
from ..world import GridWorld

CASES = {"quick": 1500, "thorough": 40000}
RULE = ("random tiers (with and without gaps), groups and textgrids, also after a history of edits, are queried at every "
        "boundary, just before and after it, inside intervals, in gaps and outside; answers are compared with a brute-force "
        "scan of half-open intervals (points: smallest distance). Distinct by shape, time style and history; non-trivial: "
        "queries hit intervals, boundaries and nothing")
REQUIRED = ["time.tier", "time.boundary", "time.none", "time.group", "time.grid", "time.index-group", "time.index-grid",
            "time.points", "time.point-interval", "time.point-index", "time.type"]
ASSUME = ["intervals of one tier do not overlap"]


def brute(tier, t):
    hits = [i for i, x in enumerate(tier) if x.start <= t < x.end]
    return hits[0] if hits else None


def nearest_ok(tier, t, i):
    if len(tier) == 0:
        return i is None
    d = [abs(p.time - t) for p in tier]
    return d[i] <= min(d) + 1e-9


def queries(rng, tiers):
    out = []
    bs = sorted({float(b) for t in tiers for x in t for b in ((x.start, x.end) if isinstance(t, SequenceTier) else (x.time,))})
    if not bs:
        return [0, 1.5]
    pick = bs if len(bs) < 12 else rng.sample(bs, 12)
    for b in pick:
        out += [b, b - 1e-4, b + 1e-4]
    for a, b in zip(bs, bs[1:]):
        if rng.random() < 0.5:
            out.append((a + b) / 2)
    out += [bs[0] - 1, bs[-1], bs[-1] + 1, int(bs[0]), int(bs[-1])]
    return out


def check_tier(ctx, tier, t):
    got = tier.get_interval_at_time(t)
    want = brute(tier, t)
    ctx.eq("time.tier", got, want, "at", t, inv.rows(tier)[:8])
    if want is None:
        ctx.seen("time.none")
    else:
        ctx.check("time.type", isinstance(got, int), type(got))
        if tier[want].start == t:
            ctx.seen("time.boundary")
        ctx.check("time.index", tier[got] is list(tier)[want])
    return got


def check_group(ctx, g, t):
    got = g.get_intervals_at_time(t)
    if isinstance(g, PointsGroup):
        ctx.eq("time.group", len(got), len(g))
        for i, p in zip(got, g):
            ctx.check("time.points", nearest_ok(p, t, i), t, i, inv.rows(p))
        return got
    want = [brute(x, t) for x in g]
    ctx.eq("time.group", list(got), want, "at", t)
    if None not in want:
        objs = g[list(got)]
        ctx.check("time.index-group", len(objs) == len(g) and all(o is tier[i] for o, tier, i in zip(objs, g, want)))
        # a hierarchy: each one is inside the one above
        for u, d in zip(objs, objs[1:]):
            if d.super_instance is not None:
                ctx.check("time.nested", d.super_instance is u, short(u), short(d), "at", t)
    return got


def check_grid(ctx, a, t):
    got = a.get_intervals_at_time(t)
    ctx.eq("time.grid", len(got), len(a))
    ok = True
    for g, r in zip(a, got):
        want = g.get_intervals_at_time(t)
        ctx.eq("time.grid", list(r), list(want))
        ok = ok and None not in list(want)
    if ok and len(a):
        objs = a[[list(r) for r in got]]
        ctx.eq("time.index-grid", len(objs), len(a))
        for g, r, o in zip(a, got, objs):
            ctx.check("time.index-grid", all(x is tier[int(i)] for x, tier, i in zip(o, g, r)))


def check_points(ctx, rng, p, tiers):
    for t in tiers:
        i = brute(t, p.time)
        ctx.eq("time.point-index", p.get_interval_index_at_time(t), i, short(p))
        got = p.get_interval_at_point(t)
        ctx.check("time.point-interval", got is (None if i is None else t[i]), short(p), short(got))


def case(ctx, rng, idx):
    kind = rng.choice(["tier", "grid", "grid", "history"])
    if kind == "tier":
        st = gen.Style(rng)
        s = gen.Group(rng, 1, st, n_top=rng.randint(1, 12), t0=rng.choice([0, 5]))
        rows = [r for r in s.levels[0] if rng.random() < 0.75]
        cls = gen.family(rng, 1)[0]
        t = build.tier(rng, rows, cls)
        ctx.op("tier", st.kind, len(rows))
        for q in queries(rng, [t]):
            check_tier(ctx, t, q)
            p = SequencePoint((q, "p"))
            check_points(ctx, rng, p, [t])
        ctx.sig("tier", st.kind, rows)
        return
    if kind == "grid":
        p = build.Plan(rng, n_top=rng.randint(1, 4), max_kids=3)
        a = p.read(rng)
        ctx.op("grid", [[len(t) for t in g] for g in a])
        did = ""
    else:
        w = GridWorld(ctx, rng)
        w.run(rng.randint(1, 6), lambda w: None)
        a, did = w.atg, w.ctx.trace[:8]
    if not len(a):
        return
    tiers = [t for g in a for t in g]
    qs = queries(rng, tiers)
    its = [t for t in tiers if isinstance(t, SequenceTier)]
    overl = [t for t in its if any(x.end > y.start + 1e-12 for x, y in zip(t, list(t)[1:]))]
    if overl:                                       # a history that made tiers overlap is outside the assumption
        return
    for q in qs:
        for t in its:
            check_tier(ctx, t, q)
        for g in a:
            check_group(ctx, g, q)
        check_grid(ctx, a, q)
        check_points(ctx, rng, SequencePoint((q, "x")), its[:2])
    for g in a:
        if isinstance(g, PointsGroup):
            for t in g:
                for p in t:
                    check_points(ctx, rng, p, its)
    ctx.sig(kind, [[inv.rows(t) for t in g] for g in a], did)
