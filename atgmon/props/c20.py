"""C20: an operation that does not fit is refused with an exception and changes nothing."""
import numpy as np
from praatio.utilities.constants import Interval
from aligned_textgrid import (AlignedTextGrid, TierGroup, PointsGroup, SequenceTier, SequencePointTier, SequenceInterval,
                              SequencePoint, SequenceList, Word, Phone, Top, Bottom, custom_classes)
from aligned_textgrid.custom_classes import clone_class
from .. import build, gen, inv
from ..inv import short
from ..world import GridWorld

CASES = {"quick": 3000, "thorough": 40000}
RULE = ("a textgrid after a random history gets 4-10 random calls that do not fit it (wrong class, wrong kind, wrong length, "
        "edge of the tier, contradicting or missing arguments; about 50 kinds); each has to raise, and the textgrid"
        " with its links, precedence, classes and paths has to be as before. Distinct by history and calls")
ASSUME = ["the hierarchy is the tiers' (re_relate() after tier.pop of an interval that has subsets)"]


def state(atg):
    prec = [[[(id(x.prev) if x.prev is not None and x.prev.label != "#" else None,
               id(x.fol) if x.fol is not None and x.fol.label != "#" else None) for x in t] for t in g] for g in atg]
    sup = [[[(id(x.super_instance), [id(s) for s in x.subset_list]) if isinstance(x, SequenceInterval) else None for x in t]
            for t in g] for g in atg]
    where = [[[(id(x.intier), id(x.within)) for x in t] for t in g] for g in atg]
    cl = [[(id(c), id(getattr(c, "superset_class", None)), id(getattr(c, "subset_class", None))) for c in g.entry_classes] for g in atg]
    return inv.snap(atg), inv.identity(atg), prec, sup, where, cl, [id(g) for g in atg], [id(t) for g in atg for t in g]


class Bad:
    """Every method returns (callable, description) or None."""

    def __init__(self, ctx, rng, atg):
        self.ctx, self.rng, self.atg = ctx, rng, atg
        self.tgs = [g for g in atg if isinstance(g, TierGroup)]
        self.pgs = [g for g in atg if isinstance(g, PointsGroup)]

    def interval(self, pred=lambda x: True):
        c = [x for g in self.tgs for t in g for x in t if pred(x)]
        return self.rng.choice(c) if c else None

    def tier(self):
        c = [t for g in self.tgs for t in g]
        return self.rng.choice(c) if c else None

    def ptier(self):
        c = [t for g in self.pgs for t in g]
        return self.rng.choice(c) if c else None

    def group(self):
        return self.rng.choice(self.tgs) if self.tgs else None

    def stranger(self):
        """An interval of a class that fits nowhere."""
        return custom_classes(["Alien"])[0]((0, 1, "alien"))

    # ---- intervals
    def super_wrong_class(self):
        x = self.interval()
        return x is not None and self._keeps(self.stranger(), x.set_super_instance)

    def super_own_class(self):
        x = self.interval()
        return x is not None and self._keeps(type(x)((0, 1, "peer")), x.set_super_instance)

    def subset_wrong_class(self):
        x = self.interval()
        return x is not None and self._keeps([self.stranger()], x.set_subset_list)

    def subset_setter_wrong_class(self):
        x = self.interval()

        def go():
            x.subset_list = [self.stranger()]
        return x is not None and go

    def subset_partly_wrong(self):
        x = self.interval(lambda x: len(x))
        if x is None:
            return None
        kids = list(x.subset_list)
        kids.insert(self.rng.randint(0, len(kids)), self.stranger())
        return self._keeps(kids, x.set_subset_list)

    def subset_points(self):
        x = self.interval()
        return x is not None and (lambda: x.set_subset_list([SequencePoint((1, "p"))]))

    def append_subset_wrong(self):
        x = self.interval()
        return x is not None and self._keeps(self.rng.choice([self.stranger(), type(x)((0, 1, "peer"))]), x.append_subset_list)

    def interval_append_wrong(self):
        x = self.interval()
        return x is not None and self._keeps(self.rng.choice([self.stranger(), type(x)((0, 1, "peer"))]), x.append)

    def interval_add_wrong(self):
        x = self.interval()
        return x is not None and self._keeps(self.stranger(), lambda y: x + y)

    def fuse_right_edge(self):
        x = self.interval(lambda x: x.fol is not None and x.fol.label == "#")
        return x is not None and (lambda: self.rng.choice([x.fuse_rightwards, x.fuse_rightward])())

    def fuse_left_edge(self):
        x = self.interval(lambda x: x.prev is not None and x.prev.label == "#")
        return x is not None and (lambda: self.rng.choice([x.fuse_leftwards, x.fuse_leftward])())

    def fol_self(self):
        x = self.interval()
        return x is not None and (lambda: x.set_fol(x))

    def prev_self(self):
        x = self.interval()
        return x is not None and (lambda: x.set_prev(x))

    def fol_wrong_class(self):
        x = self.interval()
        return x is not None and self._keeps(self.stranger(), x.set_fol)

    def prev_wrong_class(self):
        x = self.interval()
        return x is not None and self._keeps(self.stranger(), x.set_prev)

    def first_of_empty(self):
        x = self.interval(lambda x: len(x) == 0)
        return x is not None and (lambda: self.rng.choice([lambda: x.first, lambda: x.last, lambda: x[0]])())

    def long_tuple(self):
        x = self.interval()
        return x is not None and (lambda: type(x)((0, 1, "a", "b")))

    def long_point(self):
        return lambda: SequencePoint((0, "a", "b"))

    # ---- tiers
    def tier_append_wrong(self):
        t = self.tier()
        return t is not None and self._keeps(self.rng.choice([self.stranger(), SequencePoint((0, "p"))]), t.append)

    def tier_append_kind(self):
        t = self.tier()
        return t is not None and (lambda: t.append(self.rng.choice([SequenceTier([]), (0, 1, "a"), Interval(0, 1, "a"), "a", None])))

    def tier_add_wrong(self):
        t = self.tier()
        return t is not None and self._keeps(self.rng.choice([SequenceTier([self.stranger()]), self.stranger(), SequencePointTier([])]), lambda o: t + o)

    def tier_concat_wrong(self):
        t = self.tier()
        return t is not None and self._keeps(SequenceTier([self.stranger()]), t.concat)

    def tier_pop_wrong(self):
        t = self.tier()
        return t is not None and (lambda: t.pop(t.entry_class((0, 1, "not here"))))

    def tier_starts_length(self):
        t = self.tier()

        def go():
            k = max(0, len(t) + self.rng.choice([1, 2, -1, -2]))
            v = self.rng.choice([np.arange(k), list(range(k))])
            if k == len(t):
                raise ValueError
            if self.rng.random() < 0.5:
                t.starts = v
            else:
                t.ends = v
        return t is not None and go

    def tier_index(self):
        t = self.tier()
        return t is not None and (lambda: t[len(t) + self.rng.randint(0, 3)])

    def times_length(self):
        t = self.ptier()

        def go():
            k = self.rng.choice([len(t) + 1, len(t) + 3] + [len(t) - 1] * (len(t) > 0))
            t.times = np.arange(k)
        return t is not None and go

    def ptier_append_wrong(self):
        t = self.ptier()
        if t is None or t.entry_class.__mro__[1] is SequencePoint and t.entry_class.__name__ == "SequencePoint":
            return None
        alien = custom_classes("AlienPoint", points=[0])
        return self._keeps(self.rng.choice([alien((0, "x")), SequenceInterval((0, 1, "x")), (0, "x"), None]), t.append)

    # ---- groups
    def group_index_length(self):
        g = self.rng.choice(self.tgs + self.pgs) if self.tgs or self.pgs else None
        if g is None:
            return None
        ok = [n for n in (0, len(g) - 1, len(g) + 1, len(g) + 2) if n != len(g)]
        return lambda: g[[0] * self.rng.choice(ok)]

    def group_append_duplicate(self):
        g = self.group()
        if g is None:
            return None
        t = self.rng.choice(list(g))
        user = [c for c in type(self).plan.classes if c.__name__ == t.entry_class.__name__]
        c = self.rng.choice(user + [t.entry_class])
        return self._keeps(SequenceTier([c((0, 1, "dup"))]), g.append)

    def _keeps(self, obj, call):
        """The refused object (or a tuple of them) stays as it was, too."""
        def tier(t):
            return (t.entry_class, t.name, inv.rows(t), id(t.within), [one(x) for x in t])

        def one(x):
            sup, sub = getattr(x, "super_instance", None), getattr(x, "subset_list", ())
            return (id(x), type(x), inv.ent(x), id(x.intier), id(sup), [one(y) for y in sub])

        def pic():
            out = []
            for o in obj if type(obj) is tuple else (obj,):
                if isinstance(o, (TierGroup, PointsGroup)):
                    out.append((o.name, id(o.within), [tier(t) for t in o]))
                elif isinstance(o, (SequenceTier, SequencePointTier)):
                    out.append(tier(o))
                elif isinstance(o, (SequenceInterval, SequencePoint)):
                    out.append(one(o))
                elif isinstance(o, (list, SequenceList)):
                    out.append([one(x) for x in o])
            return out

        def go():
            before = pic()
            try:
                call(obj)
            except Exception:
                self.ctx.eq("rej.tier-unchanged", pic(), before, "refused but changed what was given")
                raise
        return go

    def group_append_unfit(self):
        """A class of the textgrid, or a new one, that is not next to those of the group."""
        g = self.group()
        if g is None:
            return None
        cl = [c for h in self.tgs for c in h.entry_classes if c.__name__ not in
              {x.__name__ for k in g.entry_classes for x in (k, k.superset_class, k.subset_class)}]
        c = self.rng.choice(cl + [custom_classes(["Alien"])[0]])
        return self._keeps(SequenceTier([c((0, 1, "unfit"))], entry_class=c), g.append)

    def group_unfit(self):
        """Tiers of classes that do not make one hierarchy."""
        A, B, C, D = custom_classes(["UnA", "UnB", "UnC", "UnD"])
        cs = self.rng.choice([[A, C], [A, D], [A, A], [A, B, D], [A, B, B], [B, D], [A, type(self.stranger())], [A, B, type(self.stranger())]])
        tiers = [SequenceTier([c((0, 2, "x")), c((2, 3, "y"))]) for c in build.shuffled(self.rng, cs)]
        t = self.rng.choice(tiers)
        return self._keeps(t, lambda _: TierGroup(tiers))

    def group_append_kind(self):
        g = self.group()
        return g is not None and self._keeps(SequencePointTier([SequencePoint((0, "p"))]), g.append)

    def pgroup_append_kind(self):
        if not self.pgs:
            return None
        g = self.rng.choice(self.pgs)
        return self._keeps(SequenceTier([SequenceInterval((0, 1, "x"))]), g.append)

    def group_add_wrong(self):
        g = self.group()
        return g is not None and self._keeps(TierGroup([SequenceTier([self.stranger()])]), lambda h: g + h)

    def group_concat_wrong(self):
        g = self.group()
        return g is not None and self._keeps(TierGroup([SequenceTier([self.stranger()])]), g.concat)

    def group_concat_size(self):
        g = self.group()
        if g is None:
            return None
        cl = custom_classes(["A", "B", "C", "D", "E", "F", "G", "H", "I"][:len(g) + 1])
        return self._keeps(TierGroup([SequenceTier([c((0, 1, "x"))]) for c in cl]), g.concat)

    def group_add_short(self):
        g = self.group()
        if g is None or len(g) < 2:
            return None
        k = self.rng.randint(1, len(g) - 1)
        h = TierGroup([SequenceTier([c((0, 1, "x"))]) for c in g.entry_classes[:k]])
        return self._keeps((g, h), self.rng.choice([lambda _: g + h, lambda _: g.concat(h), lambda _: h + g, lambda _: h.concat(g)]))

    def _two_points(self):
        """A points group of some tiers, and groups that differ from it in one class or in length."""
        n = self.rng.randint(2, 4)
        cl = custom_classes(["PtA", "PtB", "PtC", "PtD", "PtX"], points=list(range(5)))
        mk = lambda cs: PointsGroup([SequencePointTier([k((i + 1, "x"))]) for i, k in enumerate(cs)])
        i = self.rng.randrange(n)
        return mk(cl[:n]), [mk(cl[:i] + [cl[4]] + cl[i + 1:n]), mk(cl[:n - 1]), mk(cl[:n] + [cl[4]])]

    def pgroup_combine_partly(self):
        g, others = self._two_points()
        h = self.rng.choice(others)

        def go():
            before = [inv.rows(t) for t in g], [inv.rows(t) for t in h]
            try:
                self.rng.choice([lambda: g + h, lambda: g.concat(h)])()
            except Exception:
                self.ctx.eq("rej.unchanged", ([inv.rows(t) for t in g], [inv.rows(t) for t in h]), before, "refused but changed")
                raise
        return go

    # ---- the textgrid
    def grid_index_length(self):
        return lambda: self.atg[[[0]] * (len(self.atg) + 1)]

    def grid_index(self):
        return lambda: self.atg[len(self.atg) + 1]

    def grid_groups_wrong(self):
        def go():
            good = list(self.atg.tier_groups)
            good.insert(self.rng.randint(0, len(good)), self.rng.choice([1, "a", None, self.stranger(), good[0][0]]))
            self.atg.tier_groups = self.rng.choice([[1], ["a"], [None], 3, good, good])
        return go

    def interleave_both(self):
        g = self.group()
        c = g is not None and g.entry_classes[0].__name__
        return c and (lambda: self.atg.interleave_class("New", above=c, below=c))

    def interleave_neither(self):
        return lambda: self.atg.interleave_class("New")

    def interleave_no_name(self):
        g = self.group()
        c = g is not None and g.entry_classes[0].__name__
        return c and (lambda: self.atg.interleave_class(self.rng.choice(["", None]), above=c))

    def interleave_timing(self):
        g = self.group()
        c = g is not None and g.entry_classes[0].__name__
        return c and (lambda: self.atg.interleave_class("New", above=c, timing_from=self.rng.choice(["left", "", None, "Above"])))

    def interleave_beyond(self):
        """Timing from a tier that is not there."""
        g = self.group()
        if g is None:
            return None
        up = self.rng.random() < 0.5
        c = g.entry_classes[0 if up else -1].__name__
        kw = {"above": c, "timing_from": "above"} if up else {"below": c, "timing_from": "below"}
        return lambda: self.atg.interleave_class("New", **kw)

    def interleave_unknown(self):
        return lambda: self.atg.interleave_class("New", **{self.rng.choice(["above", "below"]): "Nosuch"})

    # ---- classes
    def class_own_superset(self):
        x = self.interval()
        c = x is not None and self.rng.choice([type(x), Word, Phone])
        return c and (lambda: self.rng.choice([c.set_superset_class, c.set_subset_class])(c))

    def class_not_part(self):
        x = self.interval()
        c = x is not None and self.rng.choice([type(x), Word, Phone])
        return c and (lambda: self.rng.choice([c.set_superset_class, c.set_subset_class])(self.rng.choice([int, SequencePoint, SequenceTier])))

    def clone_not_top(self):
        x = self.interval(lambda x: not issubclass(type(x).superset_class, Top))
        return x is not None and (lambda: clone_class(type(x)))

    def list_mixed(self):
        x = self.interval()

        def go():
            s = SequenceList(type(x)((0, 1, "a")))
            if self.rng.random() < 0.5:
                SequenceList(type(x)((0, 1, "a")), self.stranger())
            else:
                s.append(self.rng.choice([self.stranger(), 1, "a", (0, 1, "a")]))
        return x is not None and go

    def list_combine_wrong(self):
        x = self.interval()
        if x is None:
            return None
        s, o = SequenceList(type(x)((2, 3, "a"))), [type(y)((i, i + 1, "z")) for y in [self.stranger()] for i in range(1, self.rng.randint(2, 4))]
        o = self.rng.choice([o, SequenceList(*o)])
        return self._keeps((s, o), self.rng.choice([lambda _: s.concat(o), lambda _: s + o]))


KINDS = [k for k in vars(Bad) if not k.startswith("_") and k not in ("interval", "tier", "ptier", "group", "stranger")]
REQUIRED = ["rej.raised", "rej.unchanged", "rej.tier-unchanged"] + ["rej." + k for k in KINDS]


def case(ctx, rng, idx):
    w = GridWorld(ctx, rng, n_top=rng.randint(1, 3))
    w.run(rng.randint(0, 4), lambda w: None)
    a = w.atg
    if not len(a):
        return
    for g in a:
        g.re_relate()
    Bad.plan = w.plan
    bad = Bad(ctx, rng, a)
    did = []
    kinds = [KINDS[(idx * 7 + j * 11) % len(KINDS)] for j in range(rng.randint(4, 10))]
    for k in kinds:
        fn = getattr(bad, k)()
        if not fn:
            continue
        before = state(a)
        ctx.op("bad", k)
        ctx.raises("rej.raised", fn, k)
        ctx.seen("rej." + k)
        after = state(a)
        for b, f, what in zip(before, after, ["values", "entries", "precedence", "links", "containers", "classes", "groups", "tiers"]):
            ctx.check("rej.unchanged", b == f, k, "was refused but changed the textgrid's", what, "\n before", str(b)[:700], "\n after ", str(f)[:700])
        did.append(k)
    ctx.check("rej.word-phone", Word.subset_class is Phone and Phone.superset_class is Word)
    inv.links(ctx, inv.closure(a))
    inv.paths(ctx, a)
    ctx.sig([[len(t) for t in g] for g in a], did)
