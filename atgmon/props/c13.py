"""C13: a textgrid's class hierarchy is its own."""
from aligned_textgrid import (AlignedTextGrid, SequenceInterval, SequencePoint, SequenceTier, TierGroup, PointsGroup,
                              Word, Phone, Top, Bottom)
from aligned_textgrid.custom_classes import get_class_hierarchy
from .. import build, gen, inv
from ..inv import short

CASES = {"quick": 1500, "thorough": 40000}
RULE = ("2-4 textgrids are made from the same classes (read by every route, assembled from groups, appended to); "
        "then 2-8 random calls (interleave_class, pop_class, append, shift, fusion, cleanup, relabelling) hit one of them; "
        "after each call the other textgrids, the free-standing groups and the classes the user passed in are compared with "
        "their state before. Distinct by routes, hierarchy and call sequence; non-trivial: at least one structural call")
REQUIRED = ["iso.user-classes", "iso.others", "iso.other-ids", "iso.class-links", "iso.distinct", "iso.subclass", "iso.attr",
            "iso.same-name-same-class", "iso.alive"]
ASSUME = ["an interval or tier belongs to one textgrid at a time",
          "a cloudpickle copy loaded in the process that made it shares its classes (cloudpickle tracks dynamic classes) and is left out"]


def hierarchy(classes):
    """Value picture of user classes: what stands above and below each."""
    return [(c.__name__, c.superset_class, c.subset_class) for c in classes if issubclass(c, SequenceInterval)]


def class_state(atg):
    return [(c.__name__, id(c), id(c.superset_class), id(c.subset_class), c.superset_class.__name__, c.subset_class.__name__)
            for g in atg if isinstance(g, TierGroup) for c in g.entry_classes]


def state(atg):
    return inv.snap(atg), inv.identity(atg), class_state(atg)


class World:
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.nlev = gen.depth(rng, [2, 2, 3, 3, 4])
        self.classes = gen.family(rng, self.nlev)
        self.hand = hasattr(self.classes[0], "shout")
        self.before = hierarchy(self.classes)
        self.pclass = gen.point_class(rng)
        self.grids, self.routes = [], []
        for _ in range(rng.randint(2, 4)):
            p = build.Plan(rng, nlev=self.nlev, n_top=rng.randint(1, 3), max_kids=2, points=0, groups=rng.choice([1, 2]))
            p.classes = self.classes
            p.names = [[f"spk{i} - {c.__name__}" for c in self.classes] for i in range(p.n)]
            if rng.random() < 0.3:
                p.pclass = self.pclass
                p.pts = [gen.points(rng, p.style)]
            route = rng.choice(["object", "str", "path", "kw", "groups", "append"])
            self.grids.append(p.read(rng, route))
            self.routes.append(route)
        # a group that never joins a textgrid
        self.style = gen.Style(rng)
        self.free = build.group(rng, gen.Group(rng, self.nlev, self.style, n_top=2, max_kids=2), self.classes)
        self.free.name = "free"
        ctx.op("make", self.routes, [c.__name__ for c in self.classes])

    def static(self):
        """What holds at any time."""
        ctx = self.ctx
        ctx.eq("iso.user-classes", hierarchy(self.classes), self.before)
        ctx.check("iso.user-classes", Word.subset_class is Phone and Phone.superset_class is Word
                  and issubclass(Word.superset_class, Top) and issubclass(Phone.subset_class, Bottom))
        ctx.check("iso.user-classes", all(a is b for a, b in zip(get_class_hierarchy(self.classes[-1], []), self.classes)))
        seen = {}
        for i, a in enumerate(self.grids):
            by_name = {}
            for g in a:
                for c in g.entry_classes:
                    ctx.check("iso.distinct", seen.setdefault(id(c), i) == i, c.__name__, "is shared by two textgrids")
                    ctx.check("iso.distinct", not any(c is u for u in self.classes), c.__name__, "is the user's own class")
                    ctx.check("iso.same-name-same-class", by_name.setdefault(c.__name__, c) is c, c.__name__)
                    user = [u for u in self.classes if u.__name__ == c.__name__]
                    if user and isinstance(g, TierGroup):
                        ctx.check("iso.subclass", issubclass(c, user[0]), c)
                    if user and self.hand and isinstance(g, TierGroup) and len(g):
                        t = g[list(g.entry_classes).index(c)]
                        if len(t):
                            x = t[0]
                            ctx.check("iso.attr", x.colour == user[0].colour and x.shout() == (x.label or "").upper(), short(x))

    def act(self, a):
        rng, ctx = self.rng, self.ctx
        tg = [g for g in a if isinstance(g, TierGroup)]
        if not tg:
            return None
        names = [c.__name__ for c in tg[0].entry_classes]
        op = rng.choice(["interleave", "interleave", "interleave", "pop", "pop", "append", "shift", "fuse", "cleanup", "label"])
        if op == "interleave":
            new = rng.choice([n for n in ["NewA", "NewB", "NewC", "NewD", "NewE", "NewF", "NewG", "NewH", "NewI"] + ([names[0] + "s", names[-1].lower()] * 4)
                              if n not in names and n not in [c.__name__ for c in self.classes]])
            i = rng.randrange(len(names))
            side = rng.choice(["above", "below"])
            at = i + (side == "below")
            tf = rng.choice([t for t, k in (("above", at - 1), ("below", at)) if 0 <= k < len(names)])
            ctx.op("interleave_class", new, side, names[i], tf)
            a.interleave_class(new, **{side: names[i]}, timing_from=tf)
        elif op == "pop":
            if len(names) < 2:
                return None
            n = rng.choice(names)
            ctx.op("pop_class", n)
            a.pop_class(n)
        elif op == "append":
            if names != [c.__name__ for c in self.classes]:
                return None
            g = build.group(rng, gen.Group(rng, self.nlev, self.style, n_top=2, max_kids=2), self.classes)
            g.name = f"more{len(a)}"
            ctx.op("append")
            a.append(g)
        elif op == "shift":
            ctx.op("shift")
            a.shift(1.5)
        elif op == "fuse":
            x = rng.choice([x for t in tg[0] for x in t])
            if x.fol is None or x.fol.label == "#" or x.label == "#":
                return None
            i = x.tier_index
            if i + 1 >= len(x.intier) or x.intier[i + 1] is not x.fol:
                return None
            ctx.op("fuse", short(x))
            x.fuse_rightwards()
        elif op == "cleanup":
            ctx.op("cleanup")
            a.cleanup()
        else:
            rng.choice(list(tg[0][0])).label = "relabelled"
            ctx.op("label")
        return op

    def alive(self):
        """The user's classes still make textgrids of the original hierarchy."""
        ctx, rng = self.ctx, self.rng
        s = gen.Group(rng, self.nlev, self.style, n_top=2, max_kids=2)
        g = build.group(rng, s, self.classes)
        ctx.check("iso.alive", [c for c in g.entry_classes] == list(self.classes), g.entry_classes)
        ctx.eq("iso.alive", [inv.rows(t) for t in g], s.levels)
        for l in range(1, self.nlev):
            for x, p in zip(g[l], s.parents[l]):
                ctx.check("iso.alive", x.super_instance is g[l - 1][p])
        g.name = "alive"
        a = AlignedTextGrid([g])
        ctx.eq("iso.alive", [c.__name__ for c in a[0].entry_classes], [c.__name__ for c in self.classes])


def case(ctx, rng, idx):
    w = World(ctx, rng)
    w.static()
    did = []
    for _ in range(rng.randint(2, 8)):
        i = rng.randrange(len(w.grids))
        others = [j for j in range(len(w.grids)) if j != i]
        before = [state(w.grids[j]) for j in others]
        free = inv.snap([w.free]), inv.identity([w.free]), [id(c) for c in w.free.entry_classes]
        op = w.act(w.grids[i])
        if op is None:
            continue
        did.append((w.routes[i], op))
        for j, b in zip(others, before):
            now = state(w.grids[j])
            ctx.eq("iso.others", now[0], b[0], op, "on grid", i, "changed grid", j)
            ctx.check("iso.other-ids", now[1] == b[1], op, "replaced entries of another textgrid")
            ctx.eq("iso.class-links", now[2], b[2], op, "on grid", i, "changed the classes of grid", j)
        ctx.eq("iso.others", (inv.snap([w.free]), inv.identity([w.free]), [id(c) for c in w.free.entry_classes]), free, "free group")
        w.static()
    w.alive()
    for a in w.grids + [[w.free]]:
        inv.links(ctx, inv.closure(*list(a)))
    ctx.sig(w.nlev, w.routes, did)
