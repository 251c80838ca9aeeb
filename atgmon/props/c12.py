"""C12: interleave_class and pop_class change one tier and nothing else."""
from aligned_textgrid import AlignedTextGrid, PointsGroup, SequenceInterval, Top, Bottom
from .. import build, gen, inv, model
from ..inv import ent, short

CASES = {"quick": 2500, "thorough": 60000}
RULE = ("a textgrid with 1-4 groups over one hierarchy (complete, or any part of its levels), sometimes with gaps, empty tiers and "
        "point groups, goes through 1-6 random interleave_class / pop_class calls (by name or class, above or below, "
        "timing from either side, labels copied or not); after each call every tier is compared with a model that inserts "
        "or deletes one level. Distinct by operation sequence, shape and gaps; non-trivial: at least one call changed a tier")
REQUIRED = ["il.append", "il.rows", "il.classes", "il.parents", "il.keep-identity", "il.new-objects", "il.names", "il.hierarchy", "il.within",
            "il.unaffected", "pop.removed-group", "il.restore", "il.accessor"]
ASSUME = ["the tier that gives the timing exists in every group that has the named class",
          "class names are unique within a textgrid; tiers nest (no boundary mismatches)"]


def holes(rng, levels):
    """Delete some intervals (with everything below them) so that upper tiers have gaps."""
    out = [list(l) for l in levels]
    l = rng.randrange(len(out))
    if len(out[l]) > 1:
        x = rng.choice(out[l])
        for k in range(l, len(out)):
            out[k] = [y for y in out[k] if model.overlap(x, y) <= 1e-9]
    return out if all(out) else [list(l) for l in levels]


class World:
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        st = gen.Style(rng, ["int0", "int", "dec0", "float", "np", "offset", "big", "fine"])
        nlev = gen.depth(rng, [1, 2, 2, 3, 3])
        self.classes = gen.family(rng, nlev, ["custom", "hand", "wp"] if nlev != 1 else ["custom", "hand"])
        self.hier = [c.__name__ for c in self.classes]
        self.model, live, self.gaps = [], [], rng.random() < 0.3
        for i in range(rng.choice([1, 2, 2, 3]) if rng.random() < 0.93 else rng.randint(4, 6)):
            k = nlev if (i == 0 and rng.random() < 0.8) or rng.random() < 0.5 else rng.randint(1, nlev)
            lo = 0 if rng.random() < 0.5 else rng.randint(0, nlev - k)      # any part of the hierarchy
            s = gen.Group(rng, k, st, n_top=rng.randint(1, 4), max_kids=3)
            if self.gaps:
                s.levels = holes(rng, s.levels)
            if rng.random() < 0.08:             # tiers without intervals, from some level down
                e = rng.randrange(k)
                s.levels = [l if j < e else [] for j, l in enumerate(s.levels)]
            g = build.group(rng, s, self.classes[lo:lo + k])
            g.name = f"g{i}"
            live.append(g)
            self.model.append({"name": g.name, "levels": list(zip(self.hier[lo:lo + k], [list(l) for l in s.levels]))})
        if rng.random() < 0.4:
            pc = gen.point_class(rng)
            rows = gen.points(rng, st)
            g = PointsGroup([build.ptier(rng, rows, pc)])
            g.name = "pts"
            pos = rng.randint(0, len(live))
            live.insert(pos, g)
            self.model.insert(pos, {"name": "pts", "points": rows, "class": pc.__name__})
        if rng.random() < 0.5:
            self.atg = AlignedTextGrid(live)
        else:
            self.atg = AlignedTextGrid()
            for g in live:
                self.atg.append(g)
        ctx.op("textgrid", self.hier, [[len(t) for t in g] for g in self.atg], "gaps" if self.gaps else "")

    def igroups(self):
        return [m for m in self.model if "levels" in m]

    # ---- model of the two operations
    def interleave(self):
        rng = self.rng
        names = [n for n in ["New", "Syl_x", "Mora", "Foot", "IP", "TopicUnit"] if n not in self.hier]
        if rng.random() < 0.4:                  # names much like those in use
            like = rng.choice(self.hier)
            names = [n for n in (like + "Group", "Sub" + like, like[:-1], like.lower(), like.upper()) if n and n not in self.hier]
        have = sorted({n for m in self.igroups() for n, _ in m["levels"]})
        if not have or not names:
            return
        n, ref = rng.choice(names), rng.choice(have)
        side, tf, cp = rng.choice(["above", "below"]), rng.choice(["above", "below"]), rng.random() < 0.5
        at = self.hier.index(ref) + (1 if side == "below" else 0)
        src = at - 1 if tf == "above" else at
        if not 0 <= src < len(self.hier):
            return
        src = self.hier[src]
        hit = [m for m in self.igroups() if any(k == ref for k, _ in m["levels"])]
        if not all(any(k == src for k, _ in m["levels"]) for m in hit):
            return
        arg = ref if rng.random() < 0.5 else self.atg.get_class_by_name(ref)
        before = self.state()
        self.ctx.op("interleave_class", n, side, ref, "timing", tf, "labels", cp)
        kw = {side: arg}
        if not (tf == "below" and rng.random() < 0.5):
            kw["timing_from"] = tf
        if not (cp and rng.random() < 0.5):
            kw["copy_labels"] = cp
        self.atg.interleave_class(n, **kw)
        self.hier.insert(at, n)
        for m in hit:
            rows = dict(m["levels"])[src]
            rows = [r if cp else (r[0], r[1], "") for r in rows]
            i = [k for k, _ in m["levels"]].index(ref) + (1 if side == "below" else 0)
            m["levels"].insert(i, (n, rows))
        self.compare(before, n)
        for g in self.atg:
            for t in g:
                if t.entry_class.__name__ == n:
                    for x in t:
                        self.ctx.check("il.new-objects", id(x) not in before["ids"], short(x))
        if rng.random() < 0.3:
            self.ctx.op("pop_class again", n)
            self.atg.pop_class(n)
            self.hier.remove(n)
            for m in hit:
                m["levels"] = [l for l in m["levels"] if l[0] != n]
            self.compare(before, None)
            self.ctx.eq("il.restore", self.state()["snap"], before["snap"])

    def pop(self):
        rng = self.rng
        have = sorted({n for m in self.igroups() for n, _ in m["levels"]})
        if not have:
            return
        n = rng.choice(have) if rng.random() < 0.9 else "Nosuch"
        before = self.state()
        self.ctx.op("pop_class", n)
        arg = n
        if n != "Nosuch" and rng.random() < 0.5:
            arg = self.atg.get_class_by_name(n)
        gone = [m for m in self.igroups() if [k for k, _ in m["levels"]] == [n]]
        self.atg.pop_class(arg)
        if gone:
            self.ctx.check("pop.removed-group", len(self.atg) == len(self.model) - len(gone), len(self.atg))
        self.model = [m for m in self.model if not any(m is x for x in gone)]
        for m in self.igroups():
            m["levels"] = [l for l in m["levels"] if l[0] != n]
        if n in self.hier:
            self.hier.remove(n)
        self.compare(before, n)

    # ---- monitors
    def state(self):
        return {"ids": {id(x) for g in self.atg for t in g for x in t},
                "rows": {(g.name, t.entry_class.__name__): list(t) for g in self.atg for t in g},
                "groups": {g.name: g for g in self.atg},
                "snap": inv.snap(self.atg), "keep": [x for g in self.atg for t in g for x in t]}

    def compare(self, before=None, changed=None):
        ctx, atg = self.ctx, self.atg
        ctx.eq("il.names", [g.name for g in atg], [m["name"] for m in self.model])
        for gi, (g, m) in enumerate(zip(atg, self.model)):
            ctx.check("il.within", g.within is atg and g.within_index == gi)
            ctx.check("il.accessor", getattr(atg, m["name"]) is g, m["name"])
            if "points" in m:
                ctx.eq("il.rows", inv.rows(g[0]), m["points"])
                ctx.eq("il.classes", [c.__name__ for c in g.entry_classes], [m["class"]])
                continue
            rows, parents = model.relate([r for _, r in m["levels"]])
            names = [n for n, _ in m["levels"]]
            ctx.eq("il.classes", [c.__name__ for c in g.entry_classes], names)
            for l, t in enumerate(g):
                ctx.check("il.rows", model.close_rows(inv.rows(t), rows[l]), m["name"], names[l], "\n has ", inv.rows(t), "\n want", rows[l])
                m["levels"][l] = (names[l], rows[l])
                ctx.check("il.accessor", hasattr(type(g), names[l]) or getattr(g, names[l]) is t)
                for x, p in zip(t, parents[l]):
                    want = None if p is None else g[l - 1][p]
                    ctx.check("il.parents", x.super_instance is want, short(x), "is under", short(x.super_instance), "want", short(want))
                if l + 1 == len(g):
                    ctx.check("il.parents", all(len(x) == 0 for x in t), "lowest tier has subset intervals")
                if before is not None and names[l] != changed and (m["name"], names[l]) in before["rows"]:
                    old = before["rows"][m["name"], names[l]]
                    ctx.check("il.keep-identity", {id(x) for x in old} <= {id(x) for x in t}, names[l], "lost its objects")
                # classes
                c = t.entry_class
                i = self.hier.index(names[l])
                ctx.eq("il.hierarchy", (t.superset_class, t.subset_class), (c.superset_class, c.subset_class))
                if i == 0:
                    ctx.check("il.hierarchy", issubclass(c.superset_class, Top), c, c.superset_class)
                else:
                    ctx.eq("il.hierarchy", c.superset_class.__name__, self.hier[i - 1], c)
                if i == len(self.hier) - 1:
                    ctx.check("il.hierarchy", issubclass(c.subset_class, Bottom), c, c.subset_class)
                else:
                    ctx.eq("il.hierarchy", c.subset_class.__name__, self.hier[i + 1], c)
                ctx.check("il.hierarchy", c.superset_class.subset_class is c and c.subset_class.superset_class is c, c)
            if before is not None and changed is not None and changed not in names and \
                    not any(k == (m["name"], changed) for k in before["rows"]):
                for t in g:
                    ctx.check("il.unaffected", [id(x) for x in t] == [id(x) for x in before["rows"][m["name"], t.entry_class.__name__]],
                              m["name"], "has no", changed, "tier but changed")
        for g in atg:
            for t in g:
                inv.tier_views(ctx, t)
        inv.links(ctx, inv.closure(atg))
        inv.precedence(ctx, atg)


def case(ctx, rng, idx):
    w = World(ctx, rng)
    shape = [[len(t) for t in g] for g in w.atg]
    w.compare()
    did = []
    for _ in range(rng.randint(1, 6)):
        if not w.igroups():
            break
        op = rng.choice([w.interleave, w.interleave, w.pop])
        op()
        did.append(op.__name__)
    if w.igroups() and rng.random() < 0.25:     # the textgrid goes on working with its new hierarchy
        g0 = rng.choice([g for g in w.atg if not isinstance(g, PointsGroup)])
        classes = list(g0.entry_classes)
        spec = gen.Group(rng, len(classes), gen.Style(rng, ["int0", "dec0", "float"]), n_top=rng.randint(1, 2), max_kids=2)
        new = build.group(rng, spec, classes)
        new.name = "later"
        ctx.op("append a group of", [c.__name__ for c in classes])
        before, n = inv.snap(list(w.atg)), len(w.atg)
        w.atg.append(new)
        got = w.atg[n]
        ctx.check("il.append", inv.snap(list(w.atg)[:n]) == before, "appending changed the other groups")
        ctx.eq("il.append", [c.__name__ for c in got.entry_classes], [c.__name__ for c in classes])
        ctx.check("il.append", all(a is b for a, b in zip(got.entry_classes, g0.entry_classes)), "one name, two classes",
                  [c.__name__ for c in got.entry_classes])
        ctx.eq("il.append", [inv.rows(t) for t in got], [[tuple(r) for r in l] for l in spec.levels])
        inv.links(ctx, inv.closure(w.atg))
    ctx.sig(shape, did, w.gaps, w.hier)
