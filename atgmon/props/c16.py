"""C16: points keep their order, and distances and nearest-point answers are exact."""
import numpy as np
from aligned_textgrid import SequencePoint, SequencePointTier, SequenceInterval, PointsGroup, AlignedTextGrid
from .. import build, gen, inv
from ..inv import short

CASES = {"quick": 5000, "thorough": 80000}
RULE = ("random point tiers from every documented input (any order, ints, floats, negative times), alone, in points groups "
        "and in textgrids, go through random append / time assignment / tier shift / re-casting; after each step order, "
        "prev and fol, distances to neighbours, points and intervals, and nearest points (at, between and midway between "
        "points, and outside) are compared with the plain list of times. Distinct by rows and steps; non-trivial: >= 2 points")
REQUIRED = ["pt.rows", "pt.chain.prev", "pt.fol-distance", "pt.prev-distance", "pt.edge", "pt.distance-point", "pt.distance-interval",
            "pt.nearest", "pt.nearest-index", "pt.group-nearest", "pt.group-len", "pt.times", "pt.identity"]
ASSUME = ["no two points of one tier have the same time and label"]


def look(ctx, rng, tier, model):
    """model: list of (time, label) sorted."""
    got = sorted(inv.rows(tier))                # points may share a time, in either order
    model = sorted(model)
    ctx.eq("pt.sorted", [p.time for p in tier], sorted(p.time for p in tier))
    ctx.check("pt.rows", len(got) == len(model) and all(abs(a[0] - b[0]) < 1e-6 and a[1] == b[1] for a, b in zip(got, model)),
              "\n has ", got, "\n want", model)
    inv.tier_views(ctx, tier)
    inv.chain(ctx, "pt.chain", tier, "points")
    ts = [p.time for p in tier]
    ctx.eq("pt.times", [float(t) for t in tier.times], [float(t) for t in ts])
    for i, p in enumerate(tier):
        if i + 1 < len(ts):
            ctx.close("pt.fol-distance", p.fol_distance, ts[i + 1] - ts[i], tol=1e-9)
        else:
            ctx.check("pt.edge", p.fol_distance is None, p.fol_distance)
        if i:
            ctx.close("pt.prev-distance", p.prev_distance, ts[i - 1] - ts[i], tol=1e-9)
        else:
            ctx.check("pt.edge", p.prev_distance is None, p.prev_distance)
    if not ts:
        return
    p = rng.choice(list(tier))
    q = rng.choice(list(tier))
    ctx.close("pt.distance-point", float(p.distance_from(q)), p.time - q.time, tol=1e-9)
    if rng.random() < 0.3:                      # a point of another tier, or of none
        q = type(p)((p.time + rng.choice([-2.25, 0, 1.5]), "q"))
        if rng.random() < 0.5:
            SequencePointTier([q, type(p)((q.time + 1, "r"))])
        ctx.close("pt.distance-point", float(p.distance_from(q)), p.time - q.time, tol=1e-9)
        ctx.close("pt.distance-point", float(q.distance_from(p)), q.time - p.time, tol=1e-9)
    x = SequenceInterval((p.time - 1, p.time + 2.5, "x"))
    d = p.distance_from(x)
    ctx.close("pt.distance-interval", d[0], p.time - x.start, tol=1e-9)
    ctx.close("pt.distance-interval", d[1], p.time - x.end, tol=1e-9)
    qs = [ts[0] - 1.5, ts[-1] + 1.5] + rng.sample(ts, min(3, len(ts)))
    for a, b in zip(ts, ts[1:]):
        qs += [a + (b - a) * rng.random(), a + (b - a) * 0.49, a + (b - a) * 0.51]
    for t in qs:
        i = tier.get_nearest_point_index(t)
        best = min(abs(x - t) for x in ts)
        ctx.check("pt.nearest-index", 0 <= i < len(ts) and abs(abs(ts[int(i)] - t) - best) < 1e-9, t, i, ts)
        ctx.check("pt.nearest", tier.get_nearest_point(t) is tier[int(i)], t)
    return qs


def case(ctx, rng, idx):
    st = gen.Style(rng)
    cls = gen.point_class(rng)
    n = rng.choice([0, 1, 2, 3, 5, 8]) if rng.random() < 0.96 else rng.randint(33, 90)
    rows = gen.points_at_zero(rng, gen.points(rng, st, n=n, hi=max(60, n * 2)))
    if n and rng.random() < 0.15:               # two points at one time
        r = rng.choice(rows)
        rows = rows + [(r[0], r[1] + "'")]
        t = SequencePointTier(build.shuffled(rng, [cls(r) for r in rows]), entry_class=cls)
    else:
        t = build.ptier(rng, rows, cls)
    ctx.op("points", st.kind, len(rows), cls.__name__)
    objs = list(t)
    model = sorted(rows)
    look(ctx, rng, t, model)
    where = rng.choice(["alone", "group", "grid"])
    other = None
    if where != "alone" and n:
        other = build.ptier(rng, gen.points(rng, st), type("Other", (SequencePoint,), {}))
        g = PointsGroup([t, other] if cls is not SequencePoint or True else [t])
        g.name = "pts"
        if where == "grid":
            a = AlignedTextGrid([g])
            g = a[0]
        t = g[0]
        ctx.check("pt.identity", sorted(id(x) for x in t) == sorted(id(x) for x in objs), "points were replaced")
    did = []
    for _ in range(rng.randint(0, 5)):
        op = rng.choice(["append", "append", "move", "shift", "times", "recast"])
        if op == "append":
            tm = st(rng.randrange(0, 60))
            same = [r[1] for r in model if abs(r[0] - tm) < 1e-6]
            if same and rng.random() < 0.3:
                continue
            p = rng.choice([t.entry_class, cls])((tm, gen.label(rng)))
            if p.label in same:
                continue
            ctx.op("append", short(p))
            t.append(p)
            model = sorted(model + [(p.time, p.label)])
            ctx.check("pt.identity", any(p is x for x in t))
        elif op == "move" and model:
            model = inv.rows(t)
            i = rng.randrange(len(model))
            lo = model[i - 1][0] if i else model[i][0] - 1
            hi = model[i + 1][0] if i + 1 < len(model) else model[i][0] + 1
            tm = lo + (hi - lo) * rng.uniform(0.2, 0.8)
            ctx.op("time=", tm)
            t[i].time = tm
            model[i] = (tm, model[i][1])
        elif op == "shift":
            inc = rng.choice([1, 0.5, -2, 3.25])
            ctx.op("shift", inc)
            (t.within or t).shift(inc) if t.within is not None else PointsGroup([t]).shift(inc)
            model = [(a + inc, b) for a, b in model]
        elif op == "times" and model:
            model = inv.rows(t)
            new = [a * 2 + 1 for a, _ in model]
            ctx.op("times=")
            t.times = np.array(new)
            model = [(a, b) for a, (_, b) in zip(new, model)]
        elif op == "recast" and model:
            ctx.op("recast")
            t2 = SequencePointTier(t) if t.within is None else t
            t = t2
        else:
            continue
        did.append(op)
        look(ctx, rng, t, model)
    g = t.within
    if isinstance(g, PointsGroup) and model:
        if rng.random() < 0.3:                  # a tier without points has no nearest one
            empty = SequencePointTier([], entry_class=type("Empty", (SequencePoint,), {}))
            g = PointsGroup(build.shuffled(rng, list(g) + [empty]))
        for q in [model[0][0], model[-1][0] + 0.3]:
            near = [min([abs(p.time - q) for p in x], default=None) for x in g]
            got = g.get_nearest_points_index(q)
            ctx.eq("pt.group-len", len(got), len(g))
            for i, x, d in zip(got, g, near):
                ctx.check("pt.group-nearest", (i is None) if d is None else abs(abs(x[int(i)].time - q) - d) < 1e-9, q, got)
    ctx.sig(st.kind, rows, did, where)
