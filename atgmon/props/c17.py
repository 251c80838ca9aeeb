"""C17: to_df has one row per lowest-level entry (or per entry), with the values of the objects."""
import polars as pl
from aligned_textgrid import (AlignedTextGrid, TierGroup, PointsGroup, SequenceTier, SequencePointTier, SequenceInterval,
                              SequencePoint)
from aligned_textgrid.outputs.to_dataframe import to_df
from .. import build, gen, inv
from ..inv import short
from ..world import GridWorld

CASES = {"quick": 1400, "thorough": 16000}
RULE = ("random textgrids (1-3 groups, 1-4 levels, point groups), fresh or after edits that leave intervals without subsets, "
        "and every kind of part of them, are exported with and without subsets; the table is compared row by row with a "
        "plain walk over the objects. Distinct by shape, object kind and option; non-trivial: more than one row")
REQUIRED = ["df.columns", "df.rows", "df.values", "df.unchanged", "df.kind.interval", "df.kind.point", "df.kind.tier", "df.kind.ptier",
            "df.kind.group", "df.kind.pgroup", "df.kind.grid", "df.kind.free", "df.reject", "df.leaf-count"]
ASSUME = ["the hierarchy is the tiers' (re_relate() after tier.pop of an interval that has subsets)", "class names within one group are distinct"]
ATTS = ["id", "tier_index", "label", "start", "end"]


def own(x, prefix):
    atts = ATTS[:-1] if isinstance(x, SequencePoint) else ATTS
    return {(f"{type(x).__name__}_{a}" if prefix else a): getattr(x, a) for a in atts}


def seq_rows(x, sub):
    if isinstance(x, SequencePoint):
        return [{**own(x, False), "entry_class": type(x).__name__}]
    if not sub:
        return [{**own(x, False), "entry_class": type(x).__name__}]
    me = own(x, True)
    kids = [r for k in x.subset_list for r in seq_rows(k, True)]
    return [{**me, **k} for k in kids] if kids else [me]


def expect(obj, sub):
    if isinstance(obj, (SequenceInterval, SequencePoint)):
        return seq_rows(obj, sub)
    if isinstance(obj, (SequenceTier, SequencePointTier)):
        return [r for x in obj for r in seq_rows(x, sub)]
    if isinstance(obj, TierGroup) and sub:
        return [{**r, "name": obj.name} for r in expect(obj[0], True)]
    if isinstance(obj, (TierGroup, PointsGroup)):
        return [{**r, "name": obj.name} for t in obj for r in expect(t, sub)]
    return [r for g in obj for r in expect(g, sub)]


def same(a, b):
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b
    return abs(float(a) - float(b)) < 1e-9


def leaves(x):
    return sum(leaves(k) for k in x.subset_list) if len(x.subset_list) else 1


def compare(ctx, obj, sub, kind):
    want = expect(obj, sub)
    df = to_df(obj, with_subset=sub) if not sub or ctx.ops["to_df"] % 2 else to_df(obj)
    ctx.op("to_df", kind, sub, len(want))
    ctx.check("df.kind." + kind, isinstance(df, pl.DataFrame))
    got = df.to_dicts()
    cols = []
    for r in want:
        cols += [k for k in r if k not in cols]
    ctx.eq("df.columns", sorted(df.columns), sorted(cols), kind, sub)
    ctx.eq("df.rows", len(got), len(want), kind, sub)
    for i, (g, w) in enumerate(zip(got, want)):
        for c in cols:
            ctx.check("df.values", same(g[c], w.get(c)), kind, sub, "row", i, c, "is", repr(g[c]), "want", repr(w.get(c)))
    if sub and isinstance(obj, TierGroup):
        ctx.eq("df.leaf-count", len(got), sum(leaves(x) for x in obj[0]))


def free(ctx, rng):
    """Entries that are in no tier, and tiers that are in no group."""
    classes = gen.family(rng, rng.randint(1, 4))
    st = gen.Style(rng)
    spec = gen.Group(rng, len(classes), st, n_top=rng.randint(1, 2), max_kids=3)

    def make(node):
        x = classes[node.level]((st(node.a), st(node.b), node.label))
        kids = [] if rng.random() < 0.15 else node.kids
        for k in kids:
            x.append(make(k))
        return x
    tops = [make(n) for n in spec.roots]
    points = [gen.point_class(rng)(r) for r in gen.points(rng, st, n=2)]
    sub = rng.random() < 0.7
    for x in tops + points:
        before = inv.ent(x), [inv.ent(k) for k in getattr(x, "subset_list", [])]
        compare(ctx, x, sub, "free")
        ctx.eq("df.unchanged", (inv.ent(x), [inv.ent(k) for k in getattr(x, "subset_list", [])]), before)
    compare(ctx, build.tier(rng, spec.levels[-1], classes[-1]), sub, "free")
    compare(ctx, SequenceTier(tops, entry_class=classes[0]), sub, "free")
    compare(ctx, SequencePointTier(points), sub, "free")
    ctx.sig("free", [leaves(x) for x in tops], sub)


def case(ctx, rng, idx):
    if idx % 10 == 4:
        return free(ctx, rng)
    if rng.random() < 0.6:
        p = build.Plan(rng, n_top=rng.randint(1, 3), max_kids=2)
        a = p.read(rng)
        did = "fresh"
        ctx.op("read", [[len(t) for t in g] for g in a])
    else:
        w = GridWorld(ctx, rng, n_top=rng.randint(1, 3))
        w.run(rng.randint(1, 4), lambda w: None)
        a, did = w.atg, "edited"
        for g in w.tgroups():                           # intervals popped from a tier leave the hierarchy
            g.re_relate()
    if rng.random() < 0.4:                              # intervals without subsets
        for g in a:
            if isinstance(g, TierGroup) and len(g) > 1:
                x = rng.choice(list(g[rng.randrange(len(g) - 1)]) or [None])
                if x is not None:
                    x.subset_list = []
                    did += " emptied"
    if rng.random() < 0.4:                              # spans that are not the parts' spans
        for g in a:
            if isinstance(g, TierGroup):
                for t in g:
                    if len(t) and rng.random() < 0.5:
                        x = rng.choice(list(t))
                        x.end, x.start = x.end + rng.choice([0.25, 1e-3, 0]), x.start + rng.choice([1e-3, 0])
                        did += " untiled"
    if not len(a):
        return
    if rng.random() < 0.4:                              # a group of its own
        nl = rng.randint(1, 3)
        g = build.group(rng, gen.Group(rng, nl, gen.Style(rng), n_top=rng.randint(1, 3), max_kids=2), gen.family(rng, nl))
        g.name = rng.choice(["free", "KY25"])
        for s in (True, False):
            compare(ctx, g, s, "group")
        pg = PointsGroup([build.ptier(rng, gen.points(rng, gen.Style(rng)), gen.point_class(rng)) for _ in range(rng.randint(1, 2))])
        pg.name = "freepoints"
        compare(ctx, pg, rng.random() < 0.5, "pgroup")
    before = inv.snap(a)
    sub = rng.random() < 0.5
    if all(g.name for g in a):
        compare(ctx, a, sub, "grid")
        compare(ctx, a, not sub, "grid")
    for g in a:
        k = "group" if isinstance(g, TierGroup) else "pgroup"
        if not g.name:
            continue
        compare(ctx, g, rng.random() < 0.5, k)
        t = rng.choice(list(g))
        if len(t):
            compare(ctx, t, rng.random() < 0.5, "tier" if k == "group" else "ptier")
            compare(ctx, rng.choice(list(t)), rng.random() < 0.5, "interval" if k == "group" else "point")
    ctx.eq("df.unchanged", inv.snap(a), before)
    ctx.raises("df.reject", lambda: to_df(rng.choice([[], 3, "x", None])), "to_df of something else", types=ValueError)
    ctx.sig([[len(t) for t in g] for g in a], did, sub, [[c.__name__ for c in g.entry_classes] for g in a])
