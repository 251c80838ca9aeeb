"""C21: validate() tells exactly whether the subset intervals tile their superset."""
import warnings
from aligned_textgrid import SequenceInterval, TierGroup, SequenceTier, AlignedTextGrid
from .. import build, gen, inv
from ..inv import short
from ..world import GridWorld

CASES = {"quick": 6000, "thorough": 100000}
RULE = ("an interval with 0-6 subset intervals that tile it, or with one or more faults (late or early first start, early or "
        "late last end, gaps, overlaps; single ones far from the edges too), free or inside a group or a textgrid with a history, "
        "is validated; the verdict is compared with a direct computation. Distinct by times and fault; faults are at least 50 microseconds")
REQUIRED = ["val.true", "val.false", "val.unchanged", "val.warns", "val.quiet", "val.empty", "val.read"]
ASSUME = ["faults are at least 50 microseconds"]


def tiles(x):
    subs = list(x.subset_list)
    if not subs:
        return True
    near = lambda a, b: abs(a - b) < 2e-5
    return near(subs[0].start, x.start) and near(subs[-1].end, x.end) and all(near(a.end, b.start) for a, b in zip(subs, subs[1:]))


def look(ctx, x):
    want = bool(tiles(x))
    before = inv.ent(x), [inv.ent(s) for s in x.subset_list], [id(s) for s in x.subset_list]
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        got = x.validate()
    ctx.check("val.true" if want else "val.false", got == want, short(x), "validates", got, [inv.ent(s) for s in x.subset_list])
    if not want:
        ctx.check("val.warns", len(w) > 0, "no warning for", short(x))
    else:
        ctx.check("val.quiet", len(w) == 0, [str(y.message) for y in w])
    if len(x.subset_list) == 0:
        ctx.seen("val.empty")
    ctx.eq("val.unchanged", (inv.ent(x), [inv.ent(s) for s in x.subset_list], [id(s) for s in x.subset_list]), before)


def case(ctx, rng, idx):
    kind = rng.choice(["free", "free", "free", "grid"])
    if kind == "grid":
        w = GridWorld(ctx, rng, ops=["fuse", "tier_append", "shift", "relabel", "re_relate", "interleave", "pop_class"])
        for g in w.tgroups():                               # a textgrid as read is valid throughout
            for t in g:
                for x in t:
                    ctx.check("val.read", x.validate() is True, short(x), [inv.ent(s) for s in x.subset_list])
        w.run(rng.randint(0, 5), lambda w: None)
        xs = [x for g in w.tgroups() for t in g for x in t]
        for x in xs:
            look(ctx, x)
        if xs:
            x = rng.choice(xs)
            y = rng.choice(xs)
            x.start, y.end = x.start - 0.03, y.end + 0.05
            ctx.op("move boundaries", short(x), short(y))
            for z in xs:
                look(ctx, z)
        ctx.sig("grid", [[len(t) for t in g] for g in w.atg], [t.split(" ")[0] for t in ctx.trace])
        return
    st = gen.Style(rng, )
    cls = gen.family(rng, rng.choice([2, 3]))
    s = gen.Group(rng, 1, st, n_top=rng.choice([0, 1, 2, 2, 3, 4, 6]), t0=rng.choice([0, 4]), min_dur=2) if rng.random() < 0.95 else None
    rows = [list(r) for r in s.levels[0]] if s else []
    if rows:
        u = cls[0]((rows[0][0], rows[-1][1], gen.label(rng)))
    else:
        u = cls[0]((st(0), st(5), "empty"))
    faults = []
    d = rng.choice([0.00005, 0.0002, 0.001, 0.004, 0.02, 0.03])
    if rows:
        for f in rng.sample(["none", "none", "late", "early", "short", "over", "gap", "overlap"], rng.randint(1, 3)):
            i = rng.randrange(len(rows))
            if f == "late":
                rows[0][0] += d
            elif f == "early":
                rows[0][0] -= d
            elif f == "short":
                rows[-1][1] -= d
            elif f == "over":
                rows[-1][1] += d
            elif f == "gap" and i + 1 < len(rows):
                rows[i][1] -= d
            elif f == "overlap" and i + 1 < len(rows):
                rows[i][1] += d
            faults.append(f)
        subs = [cls[1](tuple(r)) for r in rows]
        build_it = rng.choice(["set", "setter", "append", "super"])
        if build_it == "set":
            u.set_subset_list(build.shuffled(rng, subs))
        elif build_it == "setter":
            u.subset_list = subs
        elif build_it == "append":
            for x in subs:
                u.append(x)
        else:
            for x in build.shuffled(rng, subs):
                x.set_super_instance(u)
        ctx.op("free", faults, build_it, len(subs))
    look(ctx, u)
    ctx.sig(st.kind, rows, faults)
