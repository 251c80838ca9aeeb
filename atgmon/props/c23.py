"""C23: named access."""
import os
import re

from aligned_textgrid import AlignedTextGrid, PointsGroup, TierGroup, custom_classes
from .. import build, gen, inv
from ..world import GridWorld

CASES = {"quick": 3200, "thorough": 40000}
RULE = ("a textgrid driven through up to 12 public operations (incl. class insertion/removal, appended groups, "
        "pickling), and groups grown tier by tier; names, named accessors and class lookup checked after every operation. Distinct by operation sequence and names")
REQUIRED = ["acc.group", "acc.tier", "acc.tier-names", "acc.grid-names", "acc.class", "acc.speaker", "acc.name-kept", "acc.default-name", "acc.own", "acc.grown", "acc.tier-names-given", "acc.gone", "acc.many",
            "grid.appended-name"]
ASSUME = ["group names are compared with the common start of the tier names where that is the longest common part"]


def spoken(names):
    """The speaker part of tier names such as 'spk0 - Word'."""
    pre = os.path.commonprefix(names)
    return re.sub(r"\W", "_", re.sub(r"^[\s_-]+|[\s_-]+$", "", pre))


SUFFIX = ["_tier", " words", ".IntervalTier", "-forced-aligned"]


def suffixed(ctx, rng):
    """Tier names that have more in common at their end than at their start."""
    plan = build.Plan(rng, nlev=rng.choice([2, 3]), points=0, perm=False)
    plan.names = [[f"s{i}x - {n}{rng.choice(SUFFIX)}" for n in ("KL", "MNO", "PR")[:plan.nlev]] for i in range(plan.n)]
    a = plan.read(rng, rng.choice(["object", "str"]))
    ctx.op("read", plan.names)
    for i, g in enumerate(a):
        ctx.eq("acc.speaker", g.name, f"s{i}x", [t.name for t in g])
    inv.accessors(ctx, a)
    ctx.sig("suffix", plan.names)


def many(ctx, rng):
    """More than ten groups, named by their places."""
    n = rng.randint(11, 14)
    st = gen.Style(rng, ["int0", "dec0", "float"])
    names = rng.sample("ABCDEFGHIJKLMNOPQRSTUVWXYZ", n)
    c = gen.family(rng, 1)
    pc = gen.point_class(rng)
    tiers, ecs = [], []
    for k in names:
        if rng.random() < 0.3:
            tiers.append(gen.ptier(k, gen.points(rng, st, hi=9)))
            ecs.append([pc])
        else:
            tiers.append(gen.itier(k, gen.Group(rng, 1, st, n_top=rng.randint(1, 2)).levels[0]))
            ecs.append(list(c))
    ctx.op("many", names)
    a = AlignedTextGrid(gen.textgrid(tiers), entry_classes=ecs)
    ctx.eq("acc.many", [g.name for g in a], [f"group_{i}" for i in range(n)])
    ctx.eq("acc.many", [g.tier_names for g in a], [[k] for k in names])
    for i, g in enumerate(a):
        ctx.check("acc.many", getattr(a, f"group_{i}") is g, i)
    inv.accessors(ctx, a)
    ctx.sig("many", names)


def grow(ctx, rng):
    """Tiers appended to a group, alone or in a textgrid, are reached by their class names too."""
    nlev = rng.choice([2, 3, 4])
    classes = gen.family(rng, nlev)
    st = gen.Style(rng)
    spec = gen.Group(rng, nlev, st, n_top=rng.randint(1, 3), max_kids=2)
    a = b = rng.randrange(nlev)
    inside = rng.random() < 0.5
    g = TierGroup([build.tier(rng, spec.levels[a], classes[a])])
    pcls = custom_classes(rng.sample(["Tone", "Mark", "Spot", "Beat", "within_path"], 3), points=[0, 1, 2])
    pg = PointsGroup([build.ptier(rng, gen.points(rng, st), pcls[0])])
    g.name, pg.name = "spoken", "marked"
    if inside and a == 0:
        gs = build.shuffled(rng, [g, pg])
        grid = AlignedTextGrid(gs)
        g, pg = (grid[gs.index(x)] for x in (g, pg))
    else:
        grid, inside = [g, pg], False
    ctx.op("grow", [c.__name__ for c in classes], a, inside)
    while b - a + 1 < nlev:
        if b + 1 < nlev and (a == 0 or inside or rng.random() < 0.5):
            b += 1
            new = b
        else:
            a -= 1
            new = a
        ctx.op("append", classes[new].__name__)
        g.append(build.tier(rng, spec.levels[new], classes[new]))
        ctx.eq("acc.grown", [c.__name__ for c in g.entry_classes], [c.__name__ for c in classes[a:b + 1]])
        access(ctx, g)
    for k, c in enumerate(pcls[1:]):
        ctx.op("append", c.__name__)
        pg.append(build.ptier(rng, gen.points(rng, st), c))
        ctx.eq("acc.grown", [x.__name__ for x in pg.entry_classes], [x.__name__ for x in pcls[:k + 2]])
        access(ctx, pg)
    if inside:
        inv.accessors(ctx, grid)
    ctx.eq("acc.given-name", (g.name, pg.name), ("spoken", "marked"))
    ctx.sig("grow", [c.__name__ for c in classes], [len(l) for l in spec.levels], inside)


def access(ctx, g):
    for t in g:
        n = t.entry_class.__name__
        if hasattr(type(g), n):
            ctx.check("acc.own", getattr(g, n) is not t, n)
        else:
            ctx.check("acc.tier", getattr(g, n, None) is t, "accessor", n, "of", [c.__name__ for c in g.entry_classes])
    ctx.eq("acc.tier-names", list(g.tier_names), [t.name for t in g])


def case(ctx, rng, idx):
    if idx % 10 == 7:
        return grow(ctx, rng)
    if idx % 40 == 11:
        return many(ctx, rng)
    if idx % 25 == 3:
        return suffixed(ctx, rng)
    was, ever = [], set()

    def mon(w):
        inv.accessors(w.ctx, w.atg)
        now = [g.name for g in w.atg]
        if len(now) >= len(was):                # groups keep their names; new ones come last
            ctx.eq("acc.name-kept", now[:len(was)], was)
        was[:] = now
        for n in ever - set(now):               # the names of groups that are gone lead nowhere
            ctx.check("acc.gone", not isinstance(getattr(w.atg, n, None), (TierGroup, PointsGroup)), n, "still leads to a group; now", now)
        for n in set(now):
            if now.count(n) > 1:
                ctx.check("acc.gone", not isinstance(getattr(w.atg, n, None), (TierGroup, PointsGroup)), n, "leads to one of", now)
        ever.update(now)
    w = GridWorld(ctx, rng)
    if w.route in ("object", "str", "path"):
        for i, g in enumerate(w.atg):
            names = [t.name for t in g]
            if (all(" - " in n for n in names) and len(spoken(names)) > 1) or (len(names) == 1 and len(spoken(names)) > 1) or names[0].startswith("pts"):
                ctx.eq("acc.speaker", g.name, spoken(names), names)
            elif len(spoken(names)) == 0 and not set(names[0]) & set("".join(names[1:])):
                ctx.eq("acc.default-name", g.name, f"group_{i}", names)
            else:
                ctx.seen("acc.other-name")
    else:
        ctx.eq("acc.given-name", [g.name for g in w.atg],
               [f"grp{i}" for i in range(len(w.plan.specs))] + [f"pts{j}" for j in range(len(w.plan.pgroups()))])
        ctx.eq("acc.tier-names-given", [list(g.tier_names) for g in w.atg], w.plan.given)
    w.same_names = rng.random() < 0.2
    w.run(rng.randint(2, 12), mon)
    ctx.sig([t.split(" ")[0] for t in ctx.trace], [g.name for g in w.atg])
