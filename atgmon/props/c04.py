"""C04: positions and summary views of tiers, groups, textgrids and intervals agree with their entries."""
import numpy as np
from aligned_textgrid import SequenceInterval, SequencePointTier
from .. import inv
from ..world import GridWorld

CASES = {"quick": 1600, "thorough": 40000}
RULE = ("a textgrid (random classes, times, input route) driven through up to 12 public operations; every tier, "
        "group, textgrid and interval view compared with the entries themselves after every operation. Distinct by "
        "operation sequence and tier sizes; all cases have at least one non-empty tier")
REQUIRED = ["tier.sorted", "tier.intier", "tier.index", "tier.tierwise", "tier.labels", "tier.starts", "tier.ends",
            "tier.times", "tier.xmin", "tier.xmax", "tier.first-last", "group.xmin", "group.xmax", "grid.xmin",
            "grid.xmax", "group.order", "sub.starts", "sub.ends", "sub.labels", "sub.item", "sub.first-last",
            "sub.duration", "sub.word", "sub.phone", "tier.praatio", "tier.assigned", "tier.assigned-same", "tier.tiername", "sub.next"]
ASSUME = ["entries of one tier do not overlap and are not equal in start, end and label"]


def case(ctx, rng, idx):
    w = GridWorld(ctx, rng, points=rng.choice([0, 0, 1, 2])).run(rng.randint(2, 12), mon)
    for g in w.atg:                             # times assigned to a whole tier
        for t in g:
            if not len(t) or rng.random() < 0.5:
                continue
            k = rng.choice([1, 0.5, -2.25, 0])
            objs = [id(x) for x in t]
            if isinstance(t, SequencePointTier):
                want = [x.time + k for x in t]
                t.times = np.array(want) if rng.random() < 0.5 else want
                got = [x.time for x in t]
            else:
                want = [(x.start + k, x.end + 2 * k if len(t) == 1 else x.end + k) for x in t]
                s, e = [a for a, _ in want], [b for _, b in want]
                if rng.random() < 0.5:
                    s, e = np.array(s), np.array(e)
                t.starts = s
                t.ends = e
                got = [(x.start, x.end) for x in t]
            ctx.op("times of a tier", k)
            ctx.eq("tier.assigned", got, want)
            ctx.eq("tier.assigned-same", [id(x) for x in t], objs)
            inv.tier_views(ctx, t)
    ctx.sig([t.split(" ")[0] for t in ctx.trace], [[len(t) for t in g] for g in w.atg])


def mon(w):
    inv.grid_views(w.ctx, w.atg)
    for x in inv.closure(w.atg):
        if isinstance(x, SequenceInterval):
            inv.sub_views(w.ctx, x)
