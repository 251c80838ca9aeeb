"""Histories.

GridWorld drives a live AlignedTextGrid through random public operations and calls a monitor after each.
FreeWorld drives intervals outside any tier against a parent/children model.
"""
import cloudpickle

from aligned_textgrid import (SequenceInterval, SequenceTier, SequencePointTier, SequencePoint, TierGroup,
                              PointsGroup, AlignedTextGrid, Top, Bottom)
from . import build, gen, inv
from .inv import short, top_tier

FUSE_FUNS = [None, lambda x, y: x + y, lambda x, y: f"{x}|{y}", lambda x, y: y or x]


def real(x):
    return x is not None and x.label != "#"


class GridWorld:
    def __init__(self, ctx, rng, ops=None, **plan):
        self.ctx, self.rng = ctx, rng
        self.plan = build.Plan(rng, hostile=True, n_top=plan.pop("n_top", None) or rng.randint(1, 4),
                               max_kids=3, **plan)
        self.route = rng.choice(["object", "str", "path", "groups", "append"])
        self.atg = self.plan.read(rng, self.route)
        self.names = set()
        self.keep = []                          # objects taken out, still watched
        self.ctx.op("read", self.route, self.plan.style.kind, [c.__name__ for c in self.plan.classes],
                    [[len(t) for t in g] for g in self.atg])
        self.only = ops
        self.restructured = False
        self.same_names = False                 # whether appended groups may be called like one there

    # -------------------------------------------------------------- choosing
    def tgroups(self):
        return [g for g in self.atg if isinstance(g, TierGroup)]

    def pgroups(self):
        return [g for g in self.atg if isinstance(g, PointsGroup)]

    def any_tier(self):
        ts = [t for g in self.tgroups() for t in g if len(t)]
        return self.rng.choice(ts) if ts else None

    def any_interval(self, pred=lambda x: True):
        c = [x for g in self.tgroups() for t in g for x in t if pred(x)]
        return self.rng.choice(c) if c else None

    def attached(self, x):
        return x.super_instance is not None or (top_tier(x.intier))

    def adjacent(self, x, right):
        """The neighbour to fuse with is real and next to x in its tier too."""
        y = x.fol if right else x.prev
        i = x.tier_index + (1 if right else -1)
        return real(y) and 0 <= i < len(x.intier) and x.intier[i] is y

    def dur(self):
        return self.rng.randint(1, 4) * (self.plan.style.step if self.plan.style.kind != "mixed" else 0.5)

    # -------------------------------------------------------------- operations
    def op_fuse(self):
        right = self.rng.random() < 0.5
        x = self.any_interval(lambda x: self.attached(x) and self.adjacent(x, right))
        if x is None:
            return False
        f = self.rng.choice(FUSE_FUNS)
        self.ctx.op("fuse_rightwards" if right else "fuse_leftwards", short(x), f and "fun")
        gone = x.fol if right else x.prev
        m = x.fuse_rightwards if right else x.fuse_leftwards
        m(f) if f else m()
        self.keep.append(gone)

    def op_tier_append(self):
        if not self.tgroups():
            return False
        g = self.rng.choice(self.tgroups())
        t = self.rng.choice(list(g))
        if g.xmax is None:
            return False
        s = g.xmax if self.rng.random() < 0.7 else g.xmax + self.dur()
        e = s + self.dur()
        # base classes as users have them at hand: the tier's own class
        new = t.entry_class((s, e, gen.label(self.rng)))
        li = list(g).index(t)
        if len(t) and self.rng.random() < 0.1:  # one like it is there already
            x = self.rng.choice(list(t))
            new = t.entry_class((x.start, x.end, x.label))
            self.ctx.op("tier.append equal", short(new))
            t.append(new)
            self.ctx.eq("grid.no-twice", inv.rows(t).count(inv.ent(new)), 1)
            return
        if li + 1 < len(g) and self.rng.random() < 0.5:
            sub = g[li + 1].entry_class
            mid = s + (e - s) / 2
            new.set_subset_list([sub((s, mid, "k1")), sub((mid, e, "k2"))])
        self.ctx.op("tier.append", short(new), "kids", len(new))
        t.append(new)

    def op_point_append(self):
        if not self.pgroups():
            return False
        t = self.rng.choice([t for g in self.pgroups() for t in g])
        lo = t.xmax if len(t) else 0
        p = t.entry_class((lo + self.dur(), gen.label(self.rng)))
        if self.rng.random() < 0.3 and len(t):
            p.time = t.xmin - self.dur()
        self.ctx.op("point.append", short(p))
        t.append(p)

    def op_tier_pop(self):
        x = self.any_interval(self.attached)
        if x is None or len(x.intier) < 2:
            return False
        if self.rng.random() < 0.15:            # by an interval with the same times and label
            self.ctx.op("tier.pop equal", short(x))
            x.intier.pop(type(x)((x.start, x.end, x.label)))
        else:
            self.ctx.op("tier.pop", short(x))
            x.intier.pop(x)
        self.keep.append(x)
        if self.rng.random() < 0.7:
            self.monitor()
            g = x.intier.within
            self.ctx.op("group.cleanup")
            g.cleanup()

    def op_unlink(self):
        x = self.any_interval(lambda x: x.super_instance is not None)
        if x is None:
            return False
        p, how = x.super_instance, self.rng.choice(["pop", "remove", "superset", "setter"])
        self.ctx.op("unlink", how, short(x))
        if how == "pop":
            p.pop(x)
        elif how == "remove":
            p.remove_from_subset_list(x)
        elif how == "superset":
            x.remove_superset()
        else:
            p.subset_list = [s for s in p.subset_list if s is not x]
        self.monitor()
        back = self.rng.choice(["append", "super", "append_subset_list", "re_relate", "setter"])
        self.ctx.op("relink", back)
        if back == "append":
            p.append(x)
        elif back == "super":
            x.set_super_instance(p)
        elif back == "append_subset_list":
            p.append_subset_list(x)
        elif back == "setter":
            p.subset_list = list(p.subset_list) + [x]
        else:
            x.intier.within.re_relate()

    def op_shift(self):
        g = self.rng.choice([self.atg] + list(self.atg)) if len(self.atg) else self.atg
        inc = self.rng.choice([1, 2.5, -1, 0.25])
        if len(self.atg) and self.rng.random() < 0.2:       # an edge at 0
            at = self.rng.choice([g.xmin, g.xmax])
            inc = inc if at is None else -at
        self.ctx.op("shift", inc)
        g.shift(inc)

    def op_cleanup(self):
        what = self.rng.choice(["atg", "group", "tier", "interval"])
        if what == "atg":
            self.ctx.op("atg.cleanup")
            self.atg.cleanup()
        elif what == "group" and self.tgroups():
            self.ctx.op("group.cleanup")
            self.rng.choice(self.tgroups()).cleanup()
        elif what == "tier" and self.any_tier() is not None:
            self.ctx.op("tier.cleanup")
            self.any_tier().cleanup()
        else:
            x = self.any_interval()
            if x is None:
                return False
            self.ctx.op("interval.cleanup", short(x))
            x.cleanup()

    def op_re_relate(self):
        if not self.tgroups():
            return False
        self.ctx.op("re_relate")
        self.rng.choice(list(self.atg)).re_relate()

    def op_interleave(self):
        cl = [c for g in self.tgroups() for c in g.entry_classes]
        names = {c.__name__ for c in cl}
        free = [n for n in gen.ODD_NAMES if n not in names]
        pairs = sorted({(g.entry_classes[i].__name__, g.entry_classes[i + 1].__name__)
                        for g in self.tgroups() for i in range(len(g) - 1)})
        fams = {tuple(c.__name__ for c in g.entry_classes) for g in self.tgroups()}
        if not free or len(fams) != 1 or len(names) > 4:
            return False
        up, down = self.rng.choice(pairs) if pairs else (None, None)
        n = self.rng.choice(free)
        tf = self.rng.choice(["above", "below"])
        cp = self.rng.random() < 0.5
        side = self.rng.choice(["above", "below"])
        arg = down if side == "above" else up
        if not pairs or self.rng.random() < 0.3:             # outside the present hierarchy: timing can come from one side only
            side = self.rng.choice(["above", "below"])
            arg = self.tgroups()[0].entry_classes[0 if side == "above" else -1].__name__
            tf = "below" if side == "above" else "above"
        if self.rng.random() < 0.5:
            arg = self.atg.get_class_by_name(arg)
        self.ctx.op("interleave_class", n, side, arg, "timing_from", tf, "copy_labels", cp)
        self.restructured = True
        self.keep = []                          # what left the textgrid does not follow its classes
        self.atg.interleave_class(n, **{side: arg}, timing_from=tf, copy_labels=cp)

    def op_pop_class(self):
        names = sorted({c.__name__ for g in self.tgroups() for c in g.entry_classes})
        if len(names) < 2 and self.rng.random() < 0.8:
            return False
        if not names:
            return False
        n = self.rng.choice(names)
        self.ctx.op("pop_class", n)
        self.keep, self.restructured = [], True
        self.atg.pop_class(n if self.rng.random() < 0.5 else self.atg.get_class_by_name(n))

    def op_group_append(self):
        if len(self.atg) > 3:
            return False
        classes = self.plan.classes
        if not self.same_as_plan():             # after a change of the hierarchy: the textgrid's own classes
            if not self.tgroups():
                return False
            classes = self.rng.choice(self.tgroups()).entry_classes
        g = build.group(self.rng, gen.Group(self.rng, len(classes), self.plan.style, n_top=2, max_kids=2), classes)
        g.name = f"new{len(self.names)}"
        self.names.add(g.name)
        if self.same_names and self.rng.random() < 0.5:
            g.name = self.rng.choice(list(self.atg)).name
        name = g.name
        self.ctx.op("atg.append", name, [len(t) for t in g])
        self.atg.append(g)
        self.ctx.eq("grid.appended-name", self.atg[len(self.atg) - 1].name, name)

    def same_as_plan(self):
        want = [c.__name__ for c in self.plan.classes]
        return not self.restructured and all([c.__name__ for c in g.entry_classes] == want for g in self.tgroups())

    def op_group_concat(self):
        if not self.tgroups() or not self.same_as_plan():
            return False
        t = self.rng.choice(self.tgroups())
        if t.xmax is None:
            return False
        g = build.group(self.rng, gen.Group(self.rng, self.plan.nlev, self.plan.style, n_top=2, max_kids=2), self.plan.classes)
        self.ctx.op("group.concat", [len(x) for x in g])
        t.concat(g)

    def op_pickle(self):
        self.ctx.op("pickle")
        self.atg = cloudpickle.loads(cloudpickle.dumps(self.atg))
        self.keep = []

    def op_relabel(self):
        x = self.any_interval()
        if x is None:
            return False
        x.label = gen.label(self.rng)
        self.ctx.op("relabel", short(x))

    def op_rename(self):
        if not len(self.atg):
            return False
        g = self.rng.choice(list(self.atg))
        g.re_relate()
        self.ctx.op("re_relate one")

    def op_swap(self):
        """One interval out, another one in: the tier is as long as before."""
        x = self.any_interval(lambda x: self.attached(x) and len(x.intier) > 1)
        if x is None:
            return False
        t = x.intier
        g = t.within
        s = g.xmax
        new = t.entry_class((s, s + self.dur(), gen.label(self.rng)))
        self.ctx.op("swap", short(x), "for", short(new))
        t.pop(x)
        self.keep.append(x)
        t.append(new)

    OPS = ["fuse", "fuse", "swap", "tier_append", "tier_append", "point_append", "tier_pop", "unlink", "unlink", "shift", "cleanup",
           "cleanup", "re_relate", "interleave", "pop_class", "group_append", "group_concat", "pickle", "relabel"]

    def run(self, steps, monitor):
        # sparse: long unobserved stretches, for what a look in between would refresh
        sparse = self.rng.random() < 0.3
        self.monitor = lambda: None if sparse and self.rng.random() < 0.8 else monitor(self)
        monitor(self)
        for _ in range(steps):
            if len(self.atg) == 0:
                break
            op = self.rng.choice(self.only or self.OPS)
            if getattr(self, "op_" + op)() is False:
                continue
            self.monitor()
        monitor(self)
        return self


class FreeWorld:
    """Intervals of a class family, no tiers; model: parent of each interval."""

    def __init__(self, ctx, rng, nlev=None):
        self.ctx, self.rng = ctx, rng
        nlev = nlev or rng.choice([2, 2, 3, 4])
        self.classes = gen.family(rng, nlev)
        st = gen.Style(rng, gen.ALL_KINDS)
        self.pool = []
        for c in self.classes:
            n = rng.randint(2, 6)
            cuts = sorted(rng.sample(range(0, 40), n + 1))
            items = [c((st(a), st(b), gen.label(rng))) for a, b in zip(cuts, cuts[1:])]
            self.pool.append(items)
        self.parent = {}
        self.gone = set()
        self.out = []                           # replaced by copies: watched, no longer used
        ctx.op("pool", st.kind, [len(p) for p in self.pool], [c.__name__ for c in self.classes])

    def everything(self):
        return [x for p in self.pool for x in p] + self.out

    def kids(self, p):
        return sorted([x for x in self.everything() if self.parent.get(id(x)) is p], key=lambda x: x.start)

    def pick(self, upper=True):
        l = self.rng.randrange(len(self.pool) - 1)
        ps, cs = self.pool[l], self.pool[l + 1]
        return self.rng.choice(ps), self.rng.choice(cs), l

    def assign(self, p, cs):
        for k in self.kids(p):
            if not any(k is c for c in cs):
                self.parent.pop(id(k), None)
        for c in cs:
            self.parent[id(c)] = p

    def step(self):
        rng, ctx = self.rng, self.ctx
        p, c, l = self.pick()
        op = rng.choice(["set", "set", "setter", "append", "append_subset_list", "set_super", "set_super", "remove_superset",
                         "remove_from", "pop", "takeover", "fuse", "fuse", "clear", "add_list", "copies", "equal"])
        cs = rng.sample(self.pool[l + 1], rng.randint(1, len(self.pool[l + 1])))
        if op == "set" and hasattr(p, "set_phones") and rng.random() < 0.5:
            ctx.op("set_phones", short(p), [short(x) for x in cs])
            p.set_phones(cs)
            self.assign(p, cs)
        elif op == "set":
            ctx.op("set_subset_list", short(p), [short(x) for x in cs])
            p.set_subset_list(cs)
            self.assign(p, cs)
        elif op == "setter":
            ctx.op("subset_list=", short(p), [short(x) for x in cs])
            p.subset_list = cs
            self.assign(p, cs)
        elif op == "copies":
            old = self.kids(p)
            if not old:
                return
            new = [type(k)(k) if rng.random() < 0.5 else type(k)((k.start, k.end, k.label)) for k in old]
            ctx.op("copies", short(p), [short(x) for x in old])
            if rng.random() < 0.5:
                p.set_subset_list(new)
            else:
                p.subset_list = new
            self.out += old
            self.pool[l + 1] = [x for x in self.pool[l + 1] if not any(x is o for o in old)] + new
            self.assign(p, new)
        elif op == "equal":                     # an interval with the times and label of one in the list
            old = self.kids(p)
            if not old:
                return
            k = rng.choice(old)
            c2 = type(k)((k.start, k.end, k.label))
            how = rng.choice(["pop", "remove_from_subset_list", "append", "append_subset_list", "set_super_instance"])
            q = rng.choice(self.pool[l])
            lent = q is not p and how != "set_super_instance" and rng.random() < 0.5
            ctx.op("equal", how, short(p), short(k), "lent" if lent else "")
            self.out.append(c2)
            if lent:
                q.append(c2)
                self.parent[id(c2)] = q
            if how == "set_super_instance":
                c2.set_super_instance(p)
            else:
                getattr(p, how)(c2)
            if how in ("pop", "remove_from_subset_list"):
                self.parent.pop(id(k), None)
            self.agree()
            if lent:
                q.pop(c2)
                self.parent.pop(id(c2))
        elif op == "clear":
            ctx.op("subset_list=[]", short(p))
            p.subset_list = []
            self.assign(p, [])
        elif op == "add_list":
            ctx.op("subset_list+=", short(p), short(c))
            p.subset_list += [c]
            self.parent[id(c)] = p
        elif op == "append":
            ctx.op("append", short(p), short(c))
            p.append(c)
            self.parent[id(c)] = p
        elif op == "append_subset_list":
            ctx.op("append_subset_list", short(p), short(c))
            p.append_subset_list(c)
            self.parent[id(c)] = p
        elif op == "set_super":
            if self.parent.get(id(c)) is p:
                return
            ctx.op("set_super_instance", short(c), short(p))
            c.set_word(p) if hasattr(c, "set_word") and rng.random() < 0.5 else c.set_super_instance(p)
            self.parent[id(c)] = p
        elif op == "remove_superset":
            ctx.op("remove_superset", short(c))
            c.remove_superset()
            self.parent.pop(id(c), None)
        elif op == "remove_from":
            ctx.op("remove_from_subset_list", short(p), short(c))
            p.remove_from_subset_list(c)
            if self.parent.get(id(c)) is p:
                self.parent.pop(id(c))
        elif op == "pop":
            ctx.op("pop", short(p), short(c))
            p.pop(c)
            if self.parent.get(id(c)) is p:
                self.parent.pop(id(c))
        elif op == "takeover":
            q = rng.choice(self.pool[l])
            if q is p:
                return
            ctx.op("takeover", short(p), "from", short(q))
            got = self.kids(q)
            if rng.random() < 0.5:
                p.subset_list = q.subset_list
            else:
                p.set_subset_list(q.subset_list)
            self.assign(p, got)
        elif op == "fuse":
            ks = self.kids(p)
            if len(ks) < 2:
                return
            i = rng.randrange(len(ks) - 1)
            a, b = ks[i], ks[i + 1]
            right = rng.random() < 0.5
            win, lose = (a, b) if right else (b, a)
            ctx.op("fuse", short(win), "takes", short(lose))
            f = rng.choice(FUSE_FUNS)
            m = win.fuse_rightwards if right else win.fuse_leftwards
            m(f) if f else m()
            for x in self.everything():
                if self.parent.get(id(x)) is lose:
                    self.parent[id(x)] = win
            self.parent.pop(id(lose), None)
            self.pool[l + 1] = [x for x in self.pool[l + 1] if x is not lose]
            if len(self.pool[l + 1]) < 1:
                self.pool[l + 1].append(win)
            self.gone.add(id(lose))

    def agree(self):
        """The live links are the model's."""
        for x in self.everything():
            want = self.kids(x)
            got = list(x.subset_list)
            self.ctx.check("model.subset_list", [id(a) for a in got] == [id(a) for a in want], short(x),
                           "lists", [short(a) for a in got], "model", [short(a) for a in want])
            p = self.parent.get(id(x))
            self.ctx.check("model.super_instance", x.super_instance is p, short(x), "under",
                           short(x.super_instance), "model", short(p))
