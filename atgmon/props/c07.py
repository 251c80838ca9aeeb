"""C07: saving and reading back gives the same textgrid; saving changes nothing."""
import json
import os
import warnings
from pathlib import Path

from praatio.textgrid import openTextgrid
from aligned_textgrid import AlignedTextGrid, SequenceTier, SequencePointTier, TierGroup, custom_classes
from .. import build, gen, inv, model
from ..world import GridWorld

CASES = {"quick": 1600, "thorough": 40000}
RULE = ("a textgrid driven through 0-8 public operations (fusions, appends, cleanups, shifts, class insertion), "
        "cleaned up, then saved in each of the four formats and as a praatio object and read back with the same "
        "class layout; single tiers saved on their own. Non-trivial: more than one interval; distinct by operation "
        "sequence and tier sizes")
REQUIRED = ["save.format", "save.rows", "save.count", "save.unique-names", "save.unchanged", "save.reload", "save.reload-links",
            "save.points", "save.empty-tier", "save.tier", "save.names-kept", "save.clash", "save.empty-intervals", "save.gaps",
            "save.gaps-tiled"]
ASSUME = ["a textgrid that is to come back the same has been cleaned up (praatio fills gaps with blanks when saving)",
          "white space around labels is not kept (praatio strips it)", "point labels hold no double quotes (praatio's own reader doubles them)",
          "times are not negative, points lie within the span of the interval tiers"]


def rows(t):
    """praatio strips the white space around labels."""
    return [r[:-1] + (r[-1].strip(),) for r in inv.rows(t)]


OPS = ["fuse", "tier_append", "cleanup", "shift_up", "relabel", "interleave", "group_append", "re_relate", "pop_class", "pop_relate"]


class W(GridWorld):
    def op_pop_relate(self):
        x = self.any_interval(self.attached)
        if x is None or len(x.intier) < 2:
            return False
        self.ctx.op("tier.pop, re_relate", inv.short(x))
        x.intier.pop(x)
        x.intier.within.re_relate()

    def op_shift_up(self):
        self.ctx.op("shift")
        self.atg.shift(self.rng.choice([1, 0.5]))


def close(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x[-1] != y[-1] or any(abs(p - q) > 1e-5 for p, q in zip(x[:-1], y[:-1])):
            return False
    return True


def shape(grid, void=()):
    """Parent index of every interval."""
    return [[[None if x.super_instance is None else x.super_instance.tier_index for x in t if not any(t is v for v in void)]
             if isinstance(t, SequenceTier) else None for t in g] for g in grid]


def case(ctx, rng, idx):
    w = W(ctx, rng, ops=OPS, kinds=["int", "int0", "dec", "dec0", "float", "np", "offset", "big"])
    w.run(rng.randint(0, 8), lambda w: None)
    atg = w.atg
    if len(atg) == 0 or atg.xmin is None:
        return
    if rng.random() < 0.15:                     # a speaker whose tiers are all empty
        ctx.op("empty group")
        atg.append(TierGroup([SequenceTier([], entry_class=c) for c in custom_classes(["Ea", "Eb", "Ec", "Ed"][:rng.randint(1, 4)])]))
    if rng.random() < 0.2:
        gappy(ctx, rng, w)
    atg.cleanup()
    spans = [(g.xmin, g.xmax) for g in atg if isinstance(g, TierGroup) and any(len(t) for t in g)]
    if spans and any(not spans[0][0] <= x.time <= spans[0][1] for g in w.pgroups() for t in g for x in t):
        return                                  # popping an edge interval left a point outside
    if rng.random() < 0.3:                      # names that clash, also with what a clash is renamed to
        for g in atg:
            for t in g:
                if rng.random() < 0.7:
                    t.name = rng.choice(["w", "w", "w_0", "w_1", "w_2", "w_0_0", "W"])
        ctx.op("tier names", atg.tier_names)
        ctx.seen("save.clash")
    before, ids = inv.snap(atg), inv.identity(atg)
    tg = atg.return_textgrid()
    flat = [t for g in atg for t in g]
    ctx.eq("save.count", len(tg.tiers), len(flat))
    ctx.eq("save.unique-names", len(set(tg.tierNames)), len(flat), tg.tierNames)
    own, out = [t.name for t in flat], []
    for t, p in zip(flat, tg.tiers):
        ctx.check("save.rows", [tuple(e) for e in p.entries] == rows(t), t.name, [tuple(e) for e in p.entries], rows(t))
        if own.count(t.name) == 1 and t.name not in out:
            ctx.eq("save.names-kept", p.name, t.name)
        out.append(p.name)
    layout = [list(g.entry_classes) for g in atg]
    if rng.random() < 0.2:
        layout = [tuple(x) for x in layout]
    fmt = build.FORMATS[idx % 4]
    ctx.op("save", fmt)
    with build.scratch() as d:
        p = os.path.join(d, rng.choice(["out.TextGrid", "ö ut.TextGrid"]))
        if fmt == "long_textgrid" and rng.random() < 0.5:
            atg.save_textgrid(p)
        else:
            atg.save_textgrid(p, format=fmt) if rng.random() < 0.5 else atg.save_textgrid(save_path=p, format=fmt)
        ctx.eq("save.format", format_of(p), fmt)
        ctx.check("save.unchanged", inv.snap(atg) == before and inv.identity(atg) == ids, "saving changed the textgrid")
        again = AlignedTextGrid(p if rng.random() < 0.5 else Path(p), entry_classes=layout)
        ctx.eq("save.reload", [len(g) for g in again], [len(g) for g in atg])
        void = []                               # in the file an empty interval tier is one blank
        for a, b in zip([t for g in again for t in g], flat):
            if len(b) == 0 and isinstance(b, SequenceTier):
                ctx.check("save.empty-intervals", all(x.label == "" for x in a), b.name, rows(a))
                void.append(a)
                continue
            ctx.eq("save.reload", len(a), len(b), b.name)
            ctx.check("save.reload", close(rows(a), rows(b)), fmt, "\n saved ", rows(b), "\n reread", rows(a))
            ctx.eq("save.reload", a.entry_class.__name__, b.entry_class.__name__)
            if isinstance(a, SequencePointTier):
                ctx.seen("save.points" if len(a) else "save.empty-tier")
        ctx.eq("save.reload-links", shape(again, void), shape(atg))
        t = rng.choice([t for t in flat if len(t)])       # an empty tier on its own has no time range
        q = os.path.join(d, "tier.TextGrid")
        t.save_as_tg(q)
        one = openTextgrid(q, includeEmptyIntervals=True).tiers[0]
        ctx.check("save.tier", close([tuple(e) for e in one.entries], rows(t)) and one.name == t.name, t.name)
        ctx.check("save.unchanged", inv.snap(atg) == before and inv.identity(atg) == ids, "saving changed the textgrid")
    if rng.random() < 0.3:
        ctx.op("praatio round trip")
        b = AlignedTextGrid(tg, entry_classes=layout)
        ctx.check("save.object", [[rows(t) for t in g] for g in b] == [[rows(t) for t in g] for g in atg])
    ctx.sig([t.split(" ")[0] for t in ctx.trace], [[len(t) for t in g] for g in atg])


def format_of(path):
    """Which of praatio's formats a file is in."""
    text = Path(path).read_text(encoding="utf-8")
    if text.lstrip().startswith("{"):
        return "json" if isinstance(json.loads(text)["tiers"], dict) else "textgrid_json"
    return "long_textgrid" if "item [" in text else "short_textgrid"


def gappy(ctx, rng, w):
    """A textgrid with gaps is saved as Praat wants it: every interval tier tiles the file's span, with blanks in the gaps."""
    atg = w.atg
    for t in [t for g in w.tgroups() for t in g]:
        if len(t) > 2 and rng.random() < 0.5:
            t.pop(t[rng.randrange(len(t))])
    its = [t for g in w.tgroups() for t in g]
    lo, hi = min((t.xmin for t in its if len(t)), default=None), max((t.xmax for t in its if len(t)), default=None)
    if lo is None or any(not lo <= x.time <= hi for g in w.pgroups() for t in g for x in t):
        return
    fmt = build.FORMATS[rng.randrange(4)]
    ctx.op("save with gaps", fmt, [[len(t) for t in g] for g in atg])
    before, ids = inv.snap(atg), inv.identity(atg)
    with build.scratch() as d:
        p = os.path.join(d, "gaps.TextGrid")
        atg.save_textgrid(p, format=fmt)
        back = openTextgrid(p, includeEmptyIntervals=True, duplicateNamesMode="rename")
        alone = [t for t in its if len(t)]
        if alone:
            t = rng.choice(alone)
            q = os.path.join(d, "one.TextGrid")
            t.save_as_tg(q)
            one = openTextgrid(q, includeEmptyIntervals=True).tiers[0]
            tiles(ctx, [tuple(e) for e in one.entries], rows(t), t.xmin, t.xmax)
    for t, b in zip([t for g in atg for t in g], back.tiers):
        if isinstance(t, SequenceTier):
            tiles(ctx, [tuple(e) for e in b.entries], rows(t), lo, hi)
        else:
            ctx.check("save.gaps", close([tuple(e) for e in b.entries], rows(t)), t.name)
    ctx.check("save.unchanged", inv.snap(atg) == before and inv.identity(atg) == ids, "saving changed the textgrid")


def tiles(ctx, got, want, lo, hi):
    has = [any(abs(a - r[0]) < 1e-5 and abs(b - r[1]) < 1e-5 and l == r[2] for a, b, l in got) for r in want]
    ctx.check("save.gaps", all(has), "lost", [r for r, h in zip(want, has) if not h], "\n has", got)
    extra = len(got) - len(want)
    ctx.check("save.gaps", extra == sum(1 for g in got if g[2] == "") - sum(1 for r in want if r[2] == ""), "added more than blanks", got, want)
    ctx.check("save.gaps-tiled", got and abs(got[0][0] - lo) < 1e-5 and abs(got[-1][1] - hi) < 1e-5 and all(
        abs(a[1] - b[0]) < 1e-5 for a, b in zip(got, got[1:])), "the file's tier has gaps:", got, "span", (lo, hi))
