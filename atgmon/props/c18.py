"""C18: a cloudpickle copy is the same textgrid, complete and independent."""
import json
import os
import subprocess
import sys

import cloudpickle
from aligned_textgrid import (AlignedTextGrid, TierGroup, PointsGroup, SequenceTier, SequencePointTier, SequenceInterval)
from .. import build, gen, inv
from ..inv import short
from ..world import GridWorld

CASES = {"quick": 900, "thorough": 20000}
RULE = ("a textgrid driven through 0-6 public operations (or a free group, tier or single interval, or a textgrid with "
        "hundreds of intervals) is dumped and loaded, in memory, through a file, and in another process; the copy is compared "
        "with the original (values, links, precedence, views, paths, accessors), shares no interval with it, and answers the "
        "same further operations in the same way. Distinct by history and shape; non-trivial: more than one interval")
REQUIRED = ["pkl.snap", "pkl.fresh", "pkl.links", "pkl.original", "pkl.same-next", "pkl.independent", "pkl.process", "pkl.classes",
            "pkl.part", "pkl.features", "pkl.large", "pkl.one-class"]
ASSUME = ["cloudpickle, as documented (plain pickle cannot dump dynamic classes)"]

CHILD = """
import sys, json, cloudpickle, warnings
warnings.simplefilter("ignore")
from atgmon import inv, core
a = cloudpickle.load(open(sys.argv[1], "rb"))
ctx = core.Ctx("C18", "quick", 0)
inv.links(ctx, inv.closure(a)); inv.precedence(ctx, a); inv.grid_views(ctx, a); inv.paths(ctx, a); inv.accessors(ctx, a)
first = inv.snap(a)
a.shift(2)
print("\\n@@" + json.dumps([json.loads(json.dumps(first, default=float)), json.loads(json.dumps(inv.snap(a), default=float))]))
"""


def plain(x):
    return json.loads(json.dumps(x, default=float))


def structural(atg, op):
    """Deterministic further operations; returns the state after."""
    kind, gi, ti, k = op
    g = atg[gi % len(atg)]
    t = g[ti % len(g)]
    if kind == "shift":
        atg.shift(1.25)
    elif kind == "label" and len(t):
        t[k % len(t)].label = "changed"
    elif kind == "fuse" and isinstance(g, TierGroup) and len(t):
        x = t[k % len(t)]
        i = k % len(t)
        if x.fol is not None and x.fol.label != "#" and i + 1 < len(t) and t[i + 1] is x.fol:
            x.fuse_rightwards()
    elif kind == "append" and isinstance(g, TierGroup) and g.xmax is not None:
        t.append(t.entry_class((g.xmax, g.xmax + 1, "late")))
    elif kind == "cleanup":
        atg.cleanup()
    elif kind == "group":
        if isinstance(g, TierGroup):
            new = TierGroup([SequenceTier([c((1, 2, "n"))]) for c in g.entry_classes])
        else:
            new = PointsGroup([SequencePointTier([c((1, "n"))]) for c in g.entry_classes])
        new.name = "brand_new"
        atg.append(new)
    return inv.snap(atg)


def sharing(atg):
    cs = [c for g in atg for c in g.entry_classes]
    return [next(i for i, d in enumerate(cs) if d is c) for c in cs]


def case(ctx, rng, idx):
    kind = rng.choice(["grid"] * 6 + ["part", "large"])
    if kind == "part":
        return part(ctx, rng)
    if kind == "large":
        if rng.random() < 0.8:
            return part(ctx, rng)
        st = gen.Style(rng, ["int0", "dec0", "float"])
        cls = gen.family(rng, 2)
        g = build.group(rng, gen.Group(rng, 2, st, n_top=rng.randint(150, 400), max_kids=3), cls, route="intervals")
        g.name = "long"
        a = AlignedTextGrid([g])
        ctx.op("large", [len(t) for t in g])
        ctx.seen("pkl.large")
    else:
        ops = [o for o in GridWorld.OPS if o != "pickle"]
        w = GridWorld(ctx, rng, ops=ops)
        w.run(rng.randint(0, 6), lambda w: None)
        a = w.atg
    if not len(a):
        return
    for g in a:                                         # intervals popped from a tier leave the hierarchy
        g.re_relate()
    a.tier_groups = a.tier_groups
    x = next((x for g in a for t in g for x in t), None)
    if x is not None:
        x.set_feature("mark", {"k": [1, 2]}) if isinstance(x, SequenceInterval) else setattr(x, "mark", {"k": [1, 2]})
    before, ids = inv.snap(a), inv.identity(a)
    how = rng.choice(["memory", "file"])
    ctx.op("cloudpickle", how)
    if how == "memory":
        b = cloudpickle.loads(cloudpickle.dumps(a))
    else:
        with build.scratch() as d:
            p = os.path.join(d, "x.pickle")
            with open(p, "wb") as f:
                cloudpickle.dump(a, f)
            with open(p, "rb") as f:
                b = cloudpickle.load(f)
    ctx.check("pkl.original", inv.snap(a) == before and inv.identity(a) == ids, "dumping changed the textgrid")
    ctx.check("pkl.classes", type(b) is type(a))
    ctx.eq("pkl.snap", inv.snap(b), before)
    ctx.eq("pkl.classes", [[c.__name__ for c in g.entry_classes] for g in b], [[c.__name__ for c in g.entry_classes] for g in a])
    mine = {id(y) for y in inv.closure(a)}
    copies = inv.closure(b)
    ctx.check("pkl.fresh", not any(id(y) in mine for y in copies), "the copy shares intervals with the original")
    if x is not None:
        y = next(y for g in b for t in g for y in t)
        ctx.check("pkl.features", y.mark == {"k": [1, 2]} and y.mark is not x.mark)
    inv.links(ctx, copies)
    ctx.seen("pkl.links")
    if kind != "large":
        inv.precedence(ctx, b)
        inv.grid_views(ctx, b)
        inv.paths(ctx, b)
        inv.accessors(ctx, b)
    if idx % 60 == 0:
        in_process(ctx, a, before)
    op = (rng.choice(["shift", "label", "fuse", "append", "cleanup", "group"]), rng.randrange(9), rng.randrange(9), rng.randrange(50))
    ctx.op("next", op)
    after = structural(b, op)
    ctx.check("pkl.independent", inv.snap(a) == before and inv.identity(a) == ids, "changing the copy changed the original")
    ctx.eq("pkl.same-next", structural(a, op), after, op)
    ctx.eq("pkl.one-class", sharing(b), sharing(a), "which tiers share a class, after", op)
    ctx.sig(kind, [t.split(" ")[0] for t in ctx.trace], [[len(t) for t in g] for g in a])


def in_process(ctx, a, before):
    with build.scratch() as d:
        p = os.path.join(d, "x.pickle")
        with open(p, "wb") as f:
            cloudpickle.dump(a, f)
        r = subprocess.run([sys.executable, "-c", CHILD, p], capture_output=True, text=True, timeout=300,
                           cwd=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
        ctx.check("pkl.process", r.returncode == 0 and "@@" in r.stdout, "loading in another process failed:", r.stderr[-1500:])
        first, then = json.loads(r.stdout.split("@@", 1)[1])
        ctx.eq("pkl.process", first, plain(before))
        a2 = cloudpickle.loads(cloudpickle.dumps(a))
        a2.shift(2)
        ctx.eq("pkl.process", then, plain(inv.snap(a2)))


def part(ctx, rng):
    """A group, a tier or an interval on its own."""
    st = gen.Style(rng)
    nlev = rng.choice([1, 2, 3])
    g = build.group(rng, gen.Group(rng, nlev, st, n_top=rng.randint(1, 4), max_kids=3), gen.family(rng, nlev))
    g.name = "free"
    what = rng.choice(["group", "tier", "interval", "ptier", "pgroup"])
    ctx.op("part", what, [len(t) for t in g])
    if what == "group":
        h = cloudpickle.loads(cloudpickle.dumps(g))
        ctx.eq("pkl.part", inv.snap([h]), inv.snap([g]))
        inv.links(ctx, inv.closure(h))
        inv.precedence(ctx, h)
        for t in h:
            inv.tier_views(ctx, t)
    elif what == "tier":
        t = rng.choice(list(g))
        u = cloudpickle.loads(cloudpickle.dumps(t))
        ctx.eq("pkl.part", inv.rows(u), inv.rows(t))
        inv.tier_views(ctx, u)
    elif what == "interval":
        x = rng.choice([x for t in g for x in t])
        y = cloudpickle.loads(cloudpickle.dumps(x))
        ctx.eq("pkl.part", (inv.ent(y), y.id, y.tier_index), (inv.ent(x), x.id, x.tier_index))
        ctx.eq("pkl.part", [inv.ent(s) for s in y.subset_list], [inv.ent(s) for s in x.subset_list])
        inv.links(ctx, inv.closure(y))
    else:
        t = build.ptier(rng, gen.points(rng, st), gen.point_class(rng))
        if what == "pgroup":
            t = PointsGroup([t])
            u = cloudpickle.loads(cloudpickle.dumps(t))
            ctx.eq("pkl.part", inv.snap([u]), inv.snap([t]))
        else:
            u = cloudpickle.loads(cloudpickle.dumps(t))
            ctx.eq("pkl.part", inv.rows(u), inv.rows(t))
            inv.tier_views(ctx, u)
            inv.chain(ctx, "pkl.chain", u, "points")
    ctx.sig("part", what, [len(t) for t in g])


def long_tier():
    from aligned_textgrid import Word, Phone
    n = 5000
    g = TierGroup([SequenceTier([Word((i, i + 1, "w")) for i in range(n)]), SequenceTier([Phone((i, i + 1, "p")) for i in range(n)])])
    g.name = "g"
    try:
        cloudpickle.dumps(AlignedTextGrid([g]))
    except Exception:
        return True
    return False


PROBES = {"pickle-5000": long_tier}
