"""C10: shift moves every time by the increment, once, and nothing else."""
from aligned_textgrid import AlignedTextGrid, TierGroup, PointsGroup, SequencePointTier
from .. import build, gen, inv
from ..inv import ent, short
from ..world import GridWorld

CASES = {"quick": 4800, "thorough": 60000}
RULE = ("a textgrid with interval and point groups after 0-6 public operations; textgrid.shift or one group's shift "
        "by int, float, numpy, zero and negative increments, then back; every time, label, link and order compared. "
        "Distinct by operations, increment kind and sizes; non-trivial: increment not zero")
REQUIRED = ["shift.interval", "shift.point", "shift.label", "shift.links", "shift.others", "shift.back", "shift.identity", "shift.span"]
ASSUME = []


def picture(g):
    return [[(id(x), x.label, ent(x)[:-1], id(getattr(x, "super_instance", None)), id(x.fol), id(x.prev)) for x in t] for t in g]


def case(ctx, rng, idx):
    import numpy as np
    w = GridWorld(ctx, rng, ops=["fuse", "tier_append", "point_append", "unlink", "cleanup", "relabel", "group_append", "re_relate",
                                 "tier_pop", "pop_class"], points=rng.choice([0, 1, 2]))
    w.run(rng.randint(0, 6), lambda w: None)
    atg = w.atg
    if len(atg) == 0:
        return
    inc = rng.choice([0, 1, 7, -1, 0.5, -0.25, 1e-3, 1234.5, np.float64(0.75), np.int64(3), rng.uniform(-5, 5)])
    if rng.random() < 0.1:                                  # to begin or end at 0
        edge = rng.choice([atg.xmin, atg.xmax])
        inc = inc if edge is None else -edge
    which = rng.choice([None] + list(range(len(atg))))
    before = [picture(g) for g in atg]
    spans = [(g.xmin, g.xmax) for g in atg]
    ctx.op("shift", "textgrid" if which is None else f"group {which}", repr(inc))
    target = atg if which is None else atg[which]
    target.shift(inc)
    after = [picture(g) for g in atg]
    for gi, (b, a) in enumerate(zip(before, after)):
        hit = which is None or gi == which
        if not hit:
            ctx.check("shift.others", a == b, "another group moved")
            continue
        for tb, ta in zip(b, a):
            ctx.eq("shift.identity", [x[0] for x in ta], [x[0] for x in tb])
            for xb, xa in zip(tb, ta):
                ctx.eq("shift.label", xa[1], xb[1])
                ctx.eq("shift.links", xa[3:], xb[3:])
                for p, q in zip(xb[2], xa[2]):
                    ctx.close("shift.point" if len(xb[2]) == 1 else "shift.interval", q, p + inc, "by", inc, tol=1e-9 * max(1, abs(p), abs(inc)))
        if spans[gi][0] is not None:
            ctx.close("shift.span", atg[gi].xmin, spans[gi][0] + inc, tol=1e-6)
            ctx.close("shift.span", atg[gi].xmax, spans[gi][1] + inc, tol=1e-6)
    target.shift(-inc)
    for b, g in zip(before, atg):
        for tb, t in zip(b, g):
            for xb, x in zip(tb, t):
                for p, q in zip(xb[2], ent(x)[:-1]):
                    ctx.close("shift.back", q, p, tol=1e-6)
    if inc:
        ctx.sig([t.split(" ")[0] for t in ctx.trace], [[len(t) for t in g] for g in atg])
