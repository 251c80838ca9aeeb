"""C24: what a user attaches to an entry stays with that entry."""
import numpy as np
import cloudpickle
from aligned_textgrid import (AlignedTextGrid, TierGroup, PointsGroup, SequenceTier, SequencePointTier, SequenceInterval,
                              SequencePoint, SequenceList, custom_classes)
from .. import build, gen, inv
from ..inv import short
from ..world import GridWorld

CASES = {"quick": 1500, "thorough": 30000}
RULE = ("every interval and point of a textgrid gets features (set_feature or a plain attribute: numbers, strings, lists, None); "
        "then up to 14 public operations; after each, every entry that the operation did not remove must still be there with "
        "its features. Or: free entries with features are put into tiers, groups and textgrids by every route. Distinct by "
        "operation sequence and tier sizes; non-trivial: more than one entry")
REQUIRED = ["feat.kept", "feat.value", "feat.lost", "feat.free", "feat.recast", "feat.op.fuse", "feat.op.pop_class", "feat.op.pickle",
            "feat.op.interleave_class", "feat.op.tier.pop", "feat.op.cleanup", "feat.op.atg.append"]
ASSUME = ["features have names of their own (not those of the library's attributes)"]


def value(rng, n):
    return rng.choice([n, f"v{n}", [n, "x"], None, {"a": n}, (n,), np.float64(n), True, n + 0.5])


def equal(a, b):
    return type(a) is type(b) and a == b


class Marks:
    def __init__(self, ctx, rng):
        self.ctx, self.rng, self.n = ctx, rng, 0
        self.val = {}                           # mark -> features

    def put(self, x):
        self.n += 1
        f = {"mark": self.n, "feat": value(self.rng, self.n)}
        if self.rng.random() < 0.3:
            f["own_" + self.rng.choice("abc")] = value(self.rng, self.n)
        for k, v in f.items():
            if hasattr(x, "set_feature") and self.rng.random() < 0.7:
                x.set_feature(k, v)
            else:
                setattr(x, k, v)
        self.val[self.n] = f

    def scan(self, grid):
        """mark -> entry of what is in the textgrid; new entries get marks."""
        out = {}
        for g in grid:
            for t in g:
                for x in t:
                    m = getattr(x, "mark", None)
                    if m is None:
                        continue
                    self.ctx.check("feat.twice", m not in out, short(x), "and", short(out.get(m)), "have the same features")
                    out[m] = x
                    for k, v in self.val[m].items():
                        self.ctx.check("feat.value", hasattr(x, k) and equal(getattr(x, k), v), short(x), k, "is",
                                       repr(getattr(x, k, "missing")), "was", repr(v))
        return out

    def fresh(self, grid):
        for g in grid:
            for t in g:
                for x in t:
                    if getattr(x, "mark", None) is None:
                        self.put(x)


def free(ctx, rng):
    """Entries with features, put into tiers, groups and textgrids."""
    m = Marks(ctx, rng)
    nlev = gen.depth(rng, [1, 2, 2, 3])
    spec = gen.Group(rng, nlev, gen.Style(rng), n_top=rng.randint(1, 4), max_kids=3)
    classes = gen.family(rng, nlev)
    loose = rng.random() < 0.3                  # entries of the plain class, cast by the tier
    tiers, objs, routes = [], [], []
    for lv, c in zip(spec.levels, classes):
        es = [(SequenceInterval if loose else c)(e) for e in lv]
        for x in es:
            m.put(x)
        objs += es
        route = rng.choice(["list", "seqlist", "append", "tier", "plus"])
        routes.append(route)
        if route == "append" and es and not loose:
            t = SequenceTier([], entry_class=c)
            for x in build.shuffled(rng, es):
                t.append(x)
        elif route == "seqlist" and es:
            t = SequenceTier(SequenceList(*es), entry_class=c)
        elif route == "tier":
            t = SequenceTier(SequenceTier(es, entry_class=c), entry_class=c)
        elif route == "plus" and len(es) > 1:
            k = rng.randrange(1, len(es))
            t = SequenceTier(es[:k], entry_class=c) + SequenceTier(es[k:], entry_class=c)
        else:
            t = SequenceTier(build.shuffled(rng, es), entry_class=c)
        tiers.append(t)
    pc = gen.point_class(rng)
    ps = [(SequencePoint if loose else pc)(e) for e in gen.points(rng, gen.Style(rng))]
    for x in ps:
        m.put(x)
    pt = SequencePointTier(build.shuffled(rng, ps), entry_class=pc)
    if rng.random() < 0.3:
        pt = SequencePointTier(pt, entry_class=pc)
    ctx.op("free", routes, loose)
    steps = [lambda: [TierGroup(build.shuffled(rng, tiers)), PointsGroup([pt])]]
    held = steps[0]()
    held[0].name, held[1].name = "one", "two"

    def all_there(grid, what):
        got = m.scan(grid)
        ctx.eq("feat.free", sorted(got), sorted(m.val), "entries with features after", what)
    all_there(held, "grouping")
    a = AlignedTextGrid(build.shuffled(rng, held))
    all_there(a, "AlignedTextGrid(groups)")
    ctx.seen("feat.recast")
    b = AlignedTextGrid()
    for g in list(a):
        b.append(g)
    all_there(b, "append to another textgrid")
    b.cleanup()
    all_there(b, "cleanup")
    c = cloudpickle.loads(cloudpickle.dumps(b))
    all_there(c, "pickling")
    ctx.sig("free", [len(l) for l in spec.levels], routes, loose, len(ps))


def case(ctx, rng, idx):
    if idx % 4 == 3:
        return free(ctx, rng)
    w = GridWorld(ctx, rng, n_top=rng.randint(1, 4))
    w.monitor = lambda: None
    m = Marks(ctx, rng)
    m.fresh(w.atg)
    have = m.scan(w.atg)
    done = []
    for _ in range(rng.randint(2, 14)):
        if not len(w.atg):
            break
        cls = {k: type(x).__name__ for k, x in have.items()}
        at = len(ctx.trace)
        op = rng.choice(w.OPS)
        gone = len(w.keep)
        if getattr(w, "op_" + op)() is False:
            continue
        said = [t.split(" ") for t in ctx.trace[at:]]
        now = m.scan(w.atg)
        lost = sorted(set(have) - set(now))
        ctx.check("feat.kept", not set(now) - set(have), "features appeared from nowhere", set(now) - set(have))
        if op == "pop_class":
            name = said[0][1]
            ctx.eq("feat.lost", lost, sorted(k for k, c in cls.items() if c == name), "pop_class", name)
        elif op in ("fuse", "tier_pop", "swap"):
            ctx.check("feat.lost", len(lost) == 1 and w.keep[-1].mark == lost[0], op, "lost the features", lost,
                      [cls[k] for k in lost], "but removed", short(w.keep[-1]))
        else:
            ctx.eq("feat.lost", lost, [], op, "lost the features of", [short(have[k]) for k in lost])
        for s in said:
            ctx.seen("feat.op." + (s[0].split("_right")[0].split("_left")[0]))
            if "cleanup" in s[0]:
                ctx.seen("feat.op.cleanup")
        done.append(op)
        m.fresh(w.atg)
        have = m.scan(w.atg)
    ctx.sig(done, [[len(t) for t in g] for g in w.atg])
