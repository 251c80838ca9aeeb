"""C25: altered or doubtful data is warned about, tidy data is not."""
import re
import warnings

from aligned_textgrid import (AlignedTextGrid, TierGroup, PointsGroup, SequenceTier, SequencePointTier, SequenceInterval,
                              SequencePoint, SequenceList, custom_classes)
from .. import build, gen, inv, model
from ..world import GridWorld

CASES = {"quick": 3000, "thorough": 60000}
RULE = ("every call is run with all warnings recorded. Tiers whose boundaries match or do not (cut independently or moved by at least "
        "a twentieth of the time step), lists with and without overlaps, tidy textgrids through reading and editing, duplicate and "
        "unknown names, the ends of point tiers. Distinct by kind and sizes")
REQUIRED = ["warn.mismatch", "warn.match", "warn.text", "warn.tidy", "warn.overlap", "warn.no-overlap", "warn.empty", "warn.dup-group",
            "warn.dup-class", "warn.unknown-class", "warn.sole-tier", "warn.distance-edge", "warn.distance-inner", "warn.edit"]
ASSUME = ["intervals of one tier do not overlap in the grouping cases", "names are not those of attributes of the library's classes"]


def heard(fn):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        out = fn()
    return out, [str(x.message) for x in w]


def numbers(text):
    return [float(x) for x in re.findall(r"\d+\.?\d*(?:e-?\d+)?", text)]


def boundaries(ctx, rng):
    st = gen.Style(rng)
    classes = custom_classes(["Upperone", "Lowerone"])
    hi = rng.randint(8, 40)

    def cut(n):
        at = [0] + sorted(rng.sample(range(1, hi), n)) + [hi]
        return [(st(a), st(b), gen.label(rng)) for a, b in zip(at, at[1:])]
    how = rng.choice(["tidy", "cross", "nudge", "nudge", "outside", "holes"])
    if how == "cross":
        up, low = cut(rng.randint(1, 6)), cut(rng.randint(0, 7))
    else:
        g = gen.Group(rng, 2, st, n_top=rng.randint(1, 4), max_kids=4)
        up, low = [list(l) for l in g.levels]
        step = st(1) - st(0)
        if how == "nudge":                      # one boundary of one interval moved over its superset's
            i = rng.randrange(len(up))
            d = step * rng.choice([-0.05, 0.05, 0.1, -0.3])
            s, e, lab = up[i]
            s, e = (s, e + d) if rng.random() < 0.5 and d < 0 else (s - d, e) if d < 0 else (s, e - d)
            up[i] = (s, e, lab)
        if how == "holes" and len(low) > 1:
            del low[rng.randrange(len(low))]
        if how == "outside":
            e = max(up[-1][1], low[-1][1])
            low.append((e + step, e + 2 * step, "out"))
    gaps = []
    for r in low:
        c, tie = model.container(r, up)
        if tie:
            return
        if c is not None:
            gaps.append((r[1] - r[0]) - (min(r[1], up[c][1]) - max(r[0], up[c][0])))
    bad = [x for x in gaps if x > 0]
    if bad and min(bad) < 1e-9:
        return
    ctx.op("boundaries", how, st.kind, up, low)
    tiers = [build.tier(rng, up, classes[0]), build.tier(rng, low, classes[1])]
    tg, said = heard(lambda: TierGroup(build.shuffled(rng, tiers)))
    about = [s for s in said if "Upperone" in s and "Lowerone" in s]
    if bad:
        ctx.check("warn.mismatch", len(about) > 0, how, "boundaries were moved without a warning", said, up, low)
        n = numbers(about[0])
        ctx.check("warn.text", len(bad) in n and any(abs(x - max(bad)) <= 0.00051 + 1e-9 for x in n), about[0], "want", len(bad), max(bad))
    else:
        ctx.check("warn.match", not said, how, "warned about matching boundaries:", said, up, low)
    ctx.sig("boundaries", how, len(up), len(low), len(bad))


def overlaps(ctx, rng):
    st = gen.Style(rng)
    c = custom_classes(["Only"])[0]
    n = rng.randint(2, 7)
    cuts = sorted(rng.sample(range(0, 40), n + 1))
    rows = [(st(a), st(b), gen.label(rng)) for a, b in zip(cuts, cuts[1:])]
    step = st(1) - st(0)
    bad = rng.random() < 0.5
    if bad:
        i = rng.randrange(n)
        s, e, l = rows[i]
        d = step * rng.choice([0.05, 0.5, 2])
        if i == 0 or i < n - 1 and rng.random() < 0.5:
            rows[i] = (s, e + d, l)
        else:
            rows[i] = (s - d, e, l)
    elif rng.random() < 0.5:
        del rows[rng.randrange(n)]
    rng.shuffle(rows)
    k = rng.randint(1, max(1, len(rows) - 1))
    a, b = [c(r) for r in rows[:k]], [c(r) for r in rows[k:]]
    if not b:
        return
    what = rng.choice(["list", "list+plain", "tier"])
    ctx.op("overlaps", what, bad, rows)
    if what == "list":
        _, said = heard(lambda: SequenceList(*a) + SequenceList(*b))
    elif what == "list+plain":
        _, said = heard(lambda: SequenceList(*a) + b)
    else:
        _, said = heard(lambda: SequenceTier(a) + SequenceTier(b))
    if bad:
        ctx.check("warn.overlap", len(said) > 0, what, "no warning about overlapping intervals", rows)
    else:
        ctx.check("warn.no-overlap", not said, what, said, rows)
    ctx.sig("overlaps", what, bad, n, k)


def tidy(ctx, rng):
    """Reading and editing a tidy textgrid is quiet."""
    p = build.Plan(rng, nlev=rng.choice([1, 2, 3]), perm=rng.random() < 0.5)
    if p.n == 0:
        return
    flat = [n for g in p.names for n in g]
    odd = set(gen.TAKEN)
    if any(c.__name__ in odd for c in p.classes) or any(n.split(" ")[0] in odd for n in flat) or any(n.startswith("t") for n in flat):
        return
    if any(len(set(c)) < len(c) for c in p.point_entry_classes()):
        return
    route = rng.choice(["object", "str", "path", "kw", "groups"])
    a, said = heard(lambda: p.read(rng, route))
    ctx.op("read", route, [[len(t) for t in g] for g in a])
    names = [g.name for g in a]
    if len(set(names)) < len(names):
        return
    ctx.check("warn.tidy", not said, "reading", route, said)
    did = []
    for _ in range(rng.randint(1, 6)):
        what = rng.choice(["shift", "cleanup", "relate", "fuse", "save", "df", "append", "relabel", "ids", "lookup"])
        gs = [g for g in a if isinstance(g, TierGroup)]
        g = rng.choice(gs)
        if what == "fuse":
            xs = [x for t in g for x in t if x.fol is not None and x.fol.label != "#"]
            if not xs:
                continue
            fn = rng.choice(xs).fuse_rightwards
        else:
            from aligned_textgrid.outputs.to_dataframe import to_df
            s = g.xmax
            fn = {"shift": lambda: a.shift(1.5), "cleanup": a.cleanup, "relate": g.re_relate, "save": a.return_textgrid,
                  "df": lambda: to_df(a), "append": lambda: g[-1].append(g[-1].entry_class((s, s + 1, "new"))),
                  "relabel": lambda: setattr(g[0].first, "label", "x"), "ids": lambda: [x.id for t in g for x in t],
                  "lookup": lambda: (a.get_intervals_at_time(s - 0.01), g[0].get_interval_at_time(s))}[what]
        ctx.op(what)
        _, said = heard(fn)
        ctx.check("warn.edit", not said, what, said)
        did.append(what)
    ctx.sig("tidy", [[len(t) for t in g] for g in a], did)


def names(ctx, rng):
    _, said = heard(AlignedTextGrid)
    ctx.check("warn.empty", len(said) > 0, "no warning about an empty textgrid")
    nlev = rng.choice([1, 2, 3])
    c = custom_classes(["Na", "Nb", "Nc"][:nlev])
    n = rng.randint(2, 4)
    gs = [build.group(rng, gen.Group(rng, nlev, gen.Style(rng), n_top=2, max_kids=2), c) for _ in range(n)]
    dup = rng.random() < 0.5
    nm = [f"sp{i}" for i in range(n)]
    if dup:
        i, j = rng.sample(range(n), 2)
        nm[i] = nm[j]
    for g, x in zip(gs, nm):
        g.name = x
    a, said = heard(lambda: AlignedTextGrid(gs))
    ctx.op("names", nm)
    if dup:
        ctx.check("warn.dup-group", len(said) > 0, "no warning about groups of one name", nm)
    else:
        ctx.check("warn.tidy", not said, said, nm)
    got, said = heard(lambda: a.get_class_by_name("Nothere"))
    ctx.check("warn.unknown-class", got is None and len(said) > 0, got, said)
    got, said = heard(lambda: a.get_class_by_name("Na"))
    ctx.check("warn.tidy", got is not None and got.__name__ == "Na" and not said, got, said)
    pcl = custom_classes(["Pa", "Pb", "Pc"], points=[0, 1, 2])
    k = rng.randint(2, 3)
    use = list(pcl[:k])
    if dup:
        use[rng.randrange(1, k)] = use[0]
    pts = [SequencePointTier([q((i + j, "p")) for j in range(1, 3)]) for i, q in enumerate(use)]
    _, said = heard(lambda: PointsGroup(pts))
    ctx.check("warn.dup-class" if dup else "warn.tidy", (len(said) > 0) == dup, [x.__name__ for x in use], said)
    if nlev == 1:
        before = len(a)
        _, said = heard(lambda: a.pop_class("Na"))
        ctx.check("warn.sole-tier", len(said) > 0 and len(a) == 0, said, before, len(a))
    elif not dup:
        _, said = heard(lambda: a.pop_class(rng.choice(["Na", "Nb"])))
        ctx.check("warn.edit", not said, "pop_class", said)
    ctx.sig("names", nm, nlev, k)


def distances(ctx, rng):
    ps = gen.points_at_zero(rng, gen.points(rng, gen.Style(rng)))
    if not ps:
        return
    t = build.ptier(rng, ps, gen.point_class(rng))
    for i, p in enumerate(t):
        for side, edge in (("prev_distance", i == 0), ("fol_distance", i == len(t) - 1)):
            got, said = heard(lambda: getattr(p, side))
            if edge:
                ctx.check("warn.distance-edge", got is None and len(said) > 0, side, got, said)
            else:
                ctx.check("warn.distance-inner", got is not None and not said, side, got, said)
    ctx.op("distances", len(t))
    ctx.sig("distances", ps)


def case(ctx, rng, idx):
    (boundaries, overlaps, tidy, boundaries, names, distances, overlaps)[idx % 7](ctx, rng)
