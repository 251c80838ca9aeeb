"""Ways to get from a generated group to live objects."""
import os
import shutil
import tempfile
from contextlib import contextmanager
from pathlib import Path

from praatio.utilities.constants import Interval, Point

from aligned_textgrid import (SequenceInterval, SequenceTier, SequencePointTier, SequenceList, TierGroup,
                              PointsGroup, AlignedTextGrid, SequencePoint)
from . import gen

FORMATS = ["short_textgrid", "long_textgrid", "json", "textgrid_json"]


@contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="atgmon-")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def shuffled(rng, seq):
    out = list(seq)
    rng.shuffle(out)
    return out


def tier(rng, entries, cls, name=None, route=None):
    """A SequenceTier over entries, by one of the documented input types."""
    route = route or rng.choice(["tuples", "intervals", "list", "praatio", "tier", "append", "mixed_order"])
    if not entries:
        return SequenceTier([], entry_class=cls)
    if route == "tuples":
        return SequenceTier([Interval(*e) for e in entries], entry_class=cls)
    if route == "praatio":
        return SequenceTier(gen.itier(name or cls.__name__, entries), entry_class=cls)
    if route == "intervals":
        return SequenceTier([cls(e) for e in entries])
    if route == "mixed_order":
        return SequenceTier(shuffled(rng, [cls(Interval(*e)) for e in entries]))
    if route == "list":
        return SequenceTier(SequenceList(*[cls(e) for e in entries]))
    if route == "tier":
        return SequenceTier(SequenceTier([cls(e) for e in entries]), entry_class=cls)
    t = SequenceTier([], entry_class=cls)
    for e in shuffled(rng, entries):
        t.append(cls(e))
    return t


def group(rng, spec, classes, route=None, shuffle=True):
    """A TierGroup over a gen.Group (levels top to bottom)."""
    own = rng.random() < 0.4                    # tiers with names of their own
    tiers = [tier(rng, lv, c, f"{rng.choice('xyz')} - {c.__name__} {i}" if own else None, "praatio" if own and not route else route)
             for i, (lv, c) in enumerate(zip(spec.levels, classes))]
    return TierGroup(shuffled(rng, tiers) if shuffle else tiers)


def ptier(rng, entries, cls, name=None):
    route = rng.choice(["points", "tuples", "praatio", "append", "shuffled"])
    if route == "points":
        return SequencePointTier([cls(Point(*e)) for e in entries])
    if route == "shuffled":
        return SequencePointTier(shuffled(rng, [cls(e) for e in entries]), entry_class=cls)
    if route == "tuples":
        return SequencePointTier([Point(*e) for e in entries], entry_class=cls)
    if route == "praatio":
        return SequencePointTier(gen.ptier(name or cls.__name__, entries), entry_class=cls)
    t = SequencePointTier([], entry_class=cls)
    for e in shuffled(rng, entries):
        t.append(cls(e))
    return t


class Plan:
    """A textgrid to read: groups (interval specs or point lists), classes, tier names, file order."""

    def __init__(self, rng, groups=None, points=None, kinds=None, nlev=None, same_span=True, hostile=True,
                 n_top=None, perm=True, max_kids=4, empties=True):
        self.style = gen.Style(rng, kinds or gen.FILE_KINDS)
        self.nlev = nlev or gen.depth(rng, [1, 2, 2, 2, 3, 3, 4])
        self.classes = gen.family(rng, self.nlev)
        self.n = groups if groups is not None else rng.choice([1, 1, 2, 2, 3]) if rng.random() < 0.95 else rng.randint(4, 6)
        self.specs = []
        t0 = rng.choice([0, 0, 0, 3])
        if self.n > 3:
            n_top, max_kids = min(n_top or rng.randint(1, 2), 2), min(max_kids, 2)
        for i in range(self.n):
            g = gen.Group(rng, self.nlev, self.style, t0=t0, hostile=hostile, n_top=n_top, max_kids=max_kids)
            self.specs.append(g)
        if same_span and self.n > 1:
            hi = max(g.span[1] for g in self.specs)
            for g in self.specs:
                stretch_to(g, hi)
        self.pts = []
        self.pclass, self.pclasses, self.joint = None, [], False
        npts = points if points is not None else rng.choice([0, 0, 0, 1, 2, 3])
        if npts:
            self.pclass = gen.point_class(rng)
            hi = max([g.span[1] for g in self.specs] or [40])
            self.pts = [gen.points(rng, self.style, lo=t0, hi=max(hi, t0 + 2)) for _ in range(npts)]
            if empties and self.specs and rng.random() < 0.15:
                self.pts[-1] = []
            other = gen.custom_classes("Spot", points=[0])
            self.pclasses = [self.pclass] + [rng.choice([self.pclass, other]) for _ in self.pts[1:]]
            self.joint = npts > 1 and rng.random() < 0.6      # several point tiers in one group
        self.span = (min([self.style(g.span[0]) for g in self.specs] or [0]), max([self.style(g.span[1]) for g in self.specs] or [1]))
        # order of the classes as the file has them
        self.order = list(range(self.nlev))
        if perm and rng.random() < 0.4:
            rng.shuffle(self.order)
        spk = [f"spk{i}" for i in range(self.n)] if self.n > len(gen.TAKEN) or rng.random() < 0.95 else rng.sample(gen.TAKEN, self.n)
        self.names = [[f"{spk[i]} - {self.classes[l].__name__}" if rng.random() < 0.9 else f"t{i}{l}" for l in range(self.nlev)]
                      for i in range(self.n)]
        if self.n <= 3 and rng.random() < 0.1:  # nothing in common: the group gets a default name
            self.names = [["abcdefghijklmnopqrst"[i * 6 + l] * 3 for l in range(self.nlev)] for i in range(self.n)]

    # file layout: for each group its tiers in self.order, then each point tier
    def praatio_tiers(self):
        out = []
        for i, g in enumerate(self.specs):
            for l in self.order:
                out.append(gen.itier(self.names[i][l], g.levels[l]))
        for j, p in enumerate(self.pts):
            out.append(gen.ptier(f"pts{j}", p, *self.span))
        return out

    def pgroups(self):
        """Point tiers by group: lists of positions in self.pts."""
        if self.joint and len(self.pts) > 1:
            k = len(self.pts) if len(self.pts) == 2 else len(self.pts) - 1
            return [list(range(k))] + [[j] for j in range(k, len(self.pts))]
        return [[j] for j in range(len(self.pts))]

    def pcls(self, j):
        return self.pclasses[j] if j < len(self.pclasses) else self.pclass

    def point_entry_classes(self):
        return [[self.pcls(j) for j in js] for js in self.pgroups()]

    def entry_classes(self, rng):
        """Nested lists / tuples, or the flat spelling where it means the same."""
        one = [self.classes[l] for l in self.order]
        nested = [list(one) for _ in self.specs] + self.point_entry_classes()
        if not self.pts and rng.random() < 0.5:
            return list(one)
        r = rng.random()
        if r < 0.2:
            return tuple(tuple(x) for x in nested)
        if r < 0.4:
            return [tuple(x) for x in nested]
        return nested

    def textgrid(self):
        return gen.textgrid(self.praatio_tiers())

    def read(self, rng, route=None):
        """AlignedTextGrid by a random input route."""
        route = route or rng.choice(["object", "str", "path", "kw", "groups", "append"])
        ec = self.entry_classes(rng)
        if route == "object":
            return AlignedTextGrid(textgrid=self.textgrid(), entry_classes=ec)
        if route in ("groups", "append"):
            gs = [group(rng, g, self.classes) for g in self.specs]
            for i, g in enumerate(gs):
                g.name = f"grp{i}"
            gs += [PointsGroup([ptier(rng, self.pts[j], self.pcls(j), rng.choice([None, f"my points {j}"])) for j in js]) for js in self.pgroups()]
            for j, g in enumerate(gs[len(self.specs):]):
                g.name = f"pts{j}"
            self.given = [list(g.tier_names) for g in gs]
            if route == "groups":
                return AlignedTextGrid(gs)
            a = AlignedTextGrid()
            for g in gs:
                a.append(g)
            return a
        with scratch() as d:
            p = os.path.join(d, "x.TextGrid")
            self.textgrid().save(p, rng.choice(FORMATS), includeBlankSpaces=True)
            if route == "str":
                return AlignedTextGrid(p, ec)
            if route == "kw":
                return AlignedTextGrid(textgrid_path=p, entry_classes=ec)
            return AlignedTextGrid(Path(p), entry_classes=ec)


def stretch_to(g, hi):
    """Extend the last interval of every level to tick hi."""
    n = g.roots[-1]
    while True:
        n.b = hi
        if not n.kids:
            break
        n = n.kids[-1]
    g.refresh()
