"""Random inputs: time styles, nested partitions, labels, class families, praatio textgrids."""
import numpy as np
from praatio.data_classes.interval_tier import IntervalTier
from praatio.data_classes.point_tier import PointTier
from praatio.data_classes.textgrid import Textgrid
from praatio.utilities.constants import Interval, Point

from aligned_textgrid import (SequenceInterval, SequencePoint, SequenceTier, SequencePointTier,
                              Word, Phone, Top, Bottom, custom_classes)

LABELS = ["", "", "a", "b", "c", "DH", "AH0", "the", "dog", "a b", "'s", 'say "hi"', "ɪŋ", "çà", "日本",
          "a#", "##", "#a", "sp", "0", "1-2", "x_y", "{NS}", "<unk>", "a,b", "it's", "\\ae", "%", "None", "nan", "NA", "null", "True", "1.5", "-", "_",
          "a  b", "A", "the end of it, they said, was near"]
CHARS = "abzABZ019 _-.,;:!?'/|*+=~^&@$%()[]{}<>#\\éßøɑθ韓가ñ"
PLAIN = ["a", "b", "c", "d", "e", "f", "g", "h"]
LEVEL_NAMES = ["Utt", "Phrase", "Word", "Syl", "Phone", "Sub"]
ODD_NAMES = LEVEL_NAMES + ["WordGroup", "Wor", "Syllable", "phone", "Phon", "word", "Topic", "SubTop", "SubPhone", "ToneUnit"]
TAKEN = ["id", "xmin", "shift", "index", "within", "append", "contains", "count", "cleanup", "tier_names"]   # attributes of containers


# ---------------------------------------------------------------- times
class Style:
    """Maps integer ticks to times; equal ticks give the very same time, one tick is at least 0.1 ms."""

    def __init__(self, rng, kinds=None):
        self.kind = rng.choice(kinds or ALL_KINDS)
        k = self.kind
        self.step = {"int": 1, "int0": 1, "dec": 0.05, "dec0": 0.02, "mixed": 0.5}.get(k) or rng.choice([0.0325, 0.05, 0.13, 1 / 3])
        self.base = 0
        if k == "int":
            self.base = rng.randint(1, 9)
        elif k == "dec":
            self.base = rng.choice([0.5, 1.25, 10.1])
        elif k == "float":
            self.base = rng.uniform(0, 5)
        elif k == "offset":
            self.base = rng.uniform(20, 90)
        elif k == "big":
            self.base, self.step = 3600.0 + rng.random(), rng.choice([0.001, 0.02, 0.25, 0.37, 1.0])
        elif k == "fine":
            self.base, self.step = rng.choice([0, 0.37, 12.5]), rng.choice([0.001, 0.0025])
        elif k == "tiny":            # below a millisecond
            self.base, self.step = rng.choice([0, 0.37, 120.5]), rng.choice([0.0001, 0.00025])
        elif k == "uneven":
            self.base, self.step, self.wide = rng.choice([0, 1.5]), 0.001, rng.choice([130.0, 240.5])
        elif k == "neg":
            self.base = -rng.uniform(0.1, 3) if rng.random() < 0.5 else -(rng.randint(1, 8) * self.step)   # the latter: 0 is a boundary

    def __call__(self, tick):
        k = self.kind
        if k in ("int", "int0"):
            return self.base + int(tick)
        if k in ("dec", "dec0"):
            return round(self.base + tick * self.step, 4)
        if k == "mixed":            # ints and floats side by side, as users type them
            v = tick * self.step
            return int(v) if v == int(v) else v
        if k == "uneven":           # minutes and milliseconds in turn
            return round(self.base + (int(tick) // 2) * self.wide + (int(tick) % 2) * self.step, 4)
        v = self.base + tick * self.step
        return np.float64(v) if k == "np" else float(v)


ALL_KINDS = ["int", "int0", "dec", "dec0", "dec0", "float", "np", "offset", "big", "neg", "mixed", "fine", "uneven", "tiny"]
FILE_KINDS = ["int", "int0", "dec", "dec0", "float", "np", "offset", "big", "fine", "uneven", "tiny"]


def label(rng, hostile=True):
    if hostile and rng.random() < 0.12:         # any short string without outer white space
        s = "".join(rng.choice(CHARS) for _ in range(rng.randint(1, 9))).strip()
        if s and s != "#":
            return s
    return rng.choice(LABELS) if hostile and rng.random() < 0.7 else rng.choice(PLAIN)


# ---------------------------------------------------------------- nested partitions
class Node:
    __slots__ = ("a", "b", "label", "kids", "level")

    def __init__(self, a, b, lab, kids, level):
        self.a, self.b, self.label, self.kids, self.level = a, b, lab, kids, level


def forest(rng, nlev, n_top=None, max_kids=4, t0=0, hostile=True, min_dur=1, max_dur=6):
    """A tiling forest: every level partitions the same stretch of ticks."""
    pos = [t0]
    wide = [rng.randrange(nlev - 1)] if nlev > 1 and max_kids > 1 and rng.random() < 0.05 else []    # one interval with many subsets

    def node(level):
        a = pos[0]
        if level == nlev - 1:
            pos[0] += rng.randint(min_dur, max_dur)
            kids = []
        else:
            k = rng.randint(1, max_kids)
            if wide and wide[0] == level and rng.random() < 0.4:
                wide.clear()
                k = rng.randint(9, 14)
            kids = [node(level + 1) for _ in range(k)]
        return Node(a, pos[0], label(rng, hostile), kids, level)

    n = n_top if n_top is not None else rng.choice([1, 2, 2, 3, 3, 4, 6])
    if nlev > 4:
        n, max_kids = min(n, 3), min(max_kids, 2)
    elif n > 2 and nlev < 3 and rng.random() < 0.04:
        n, max_kids = rng.randint(12, 34), min(max_kids, 2)
    return [node(0) for _ in range(n)]


def levels_of(roots, nlev):
    out = [[] for _ in range(nlev)]

    def walk(n):
        out[n.level].append(n)
        for k in n.kids:
            walk(k)
    for r in roots:
        walk(r)
    return out


def depth(rng, usual):
    """How many levels: as usual, now and then more."""
    return rng.choice([5, 5, 6]) if rng.random() < 0.05 else rng.choice(usual)


class Group:
    """One interval group: tiers top to bottom of (start, end, label), plus parent indices."""

    def __init__(self, rng, nlev, style, name="", **kw):
        self.style, self.nlev, self.name = style, nlev, name
        self.roots = forest(rng, nlev, **kw)
        self.refresh()

    def refresh(self):
        lv = levels_of(self.roots, self.nlev)
        self.nodes = lv
        self.levels = [[(self.style(n.a), self.style(n.b), n.label) for n in nodes] for nodes in lv]
        self.parents = [[None] * len(lv[0])] if lv else []
        for up, down in zip(lv, lv[1:]):
            where = {id(k): i for i, u in enumerate(up) for k in u.kids}
            self.parents.append([where.get(id(d)) for d in down])

    @property
    def span(self):
        ends = [n.b for nodes in self.nodes for n in nodes]
        starts = [n.a for nodes in self.nodes for n in nodes]
        return min(starts), max(ends)


def points(rng, style, n=None, lo=0, hi=40, hostile=True, labels=None):
    if n is None:
        n = rng.randint(1, 8) if rng.random() < 0.96 else rng.randint(31, 70)
    n = min(n, hi - lo)
    ticks = sorted(rng.sample(range(lo, hi), n))
    return [(style(t), (rng.choice(labels) if labels else (label(rng, hostile).replace('"', "~")))) for t in ticks]


# ---------------------------------------------------------------- classes
def family(rng, nlev, kinds=None):
    """Entry classes from the top of a hierarchy to its bottom."""
    opts = ["custom", "custom", "hand"]
    if nlev == 2:
        opts += ["wp", "wp", "wp"]
    if nlev == 1:
        opts += ["si", "si"]
    kind = rng.choice([o for o in opts if not kinds or o in kinds])
    names = rng.sample(rng.choice([LEVEL_NAMES, ODD_NAMES]), nlev) if rng.random() < 0.5 else LEVEL_NAMES[:nlev] if nlev != 2 else ["Word", "Phone"]
    if rng.random() < 0.03:
        names = list(names)
        names[rng.randrange(nlev)] = rng.choice(TAKEN)
    if kind == "wp":
        return [Word, Phone]
    if kind == "si":
        return [SequenceInterval]
    if kind == "custom":
        return custom_classes(list(names))
    out = []
    for i, n in enumerate(names):
        def init(self, interval=(None, None, None), *, Interval=None):
            SequenceInterval.__init__(self, interval, Interval=Interval)
        ns = {"__init__": init, "colour": f"c{i}", "shout": lambda self: (self.label or "").upper()}
        out.append(type(n, (SequenceInterval,), ns))
    top = type("Top_hand", (Top,), {})
    bottom = type("Bottom_hand", (Bottom,), {})
    out[0].set_superset_class(top)
    for u, d in zip(out, out[1:]):
        u.set_subset_class(d)
    out[-1].set_subset_class(bottom)
    return out


def point_class(rng):
    return rng.choice([SequencePoint, custom_classes(["Tone"], points=[0])[0], custom_classes("Mark", points=[0])])


def points_at_zero(rng, ps):
    """The same points, moved so that one of them is at 0 exactly (sometimes)."""
    if not ps or rng.random() < 0.8:
        return ps
    z = rng.choice(ps)[0]
    return [(t - z, lab) for t, lab in ps]


# ---------------------------------------------------------------- praatio
def itier(name, entries, lo=None, hi=None):
    if entries:
        return IntervalTier(name, [Interval(*e) for e in entries])
    return IntervalTier(name, [], lo if lo is not None else 0, hi if hi is not None else 1)


def ptier(name, entries, lo=None, hi=None):
    if entries:
        return PointTier(name, [Point(*e) for e in entries])
    return PointTier(name, [], lo if lo is not None else 0, hi if hi is not None else 1)


def textgrid(tiers):
    """tiers: list of praatio tiers -> praatio Textgrid (tier spans are extended to the grid's)."""
    import warnings
    tg = Textgrid()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for t in tiers:
            tg.addTier(t, reportingMode="silence")
    return tg
