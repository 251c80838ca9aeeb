"""C19: PoLaR annotation: labels are parsed, levels, turning points and ranges refer to each other."""
import contextlib
import io
import os

import numpy as np
from aligned_textgrid import Word, Phone, TierGroup, PointsGroup
from aligned_textgrid.polar.polar_classes import PrStr, ToBI, TurningPoints, Ranges, Levels, Misc
from aligned_textgrid.polar.polar_grid import PolarGrid
from .. import build, gen, inv
from ..inv import short

CASES = {"quick": 3000, "thorough": 40000}
RULE = ("random PoLaR textgrids (word/phone tiers, ranges with and without gaps and unreadable labels, levels and turning "
        "points that coincide or not, prominences, tones; groups in any order, one tier group or several for the points; as "
        "object or file) are read; every label-derived value and every reference is compared with a direct computation. "
        "Distinct by rows; non-trivial: a level with a turning point and a range")
REQUIRED = ["pol.accessor", "pol.range", "pol.bands", "pol.level", "pol.band", "pol.range-interval", "pol.turning-point",
            "pol.mutual", "pol.certainty", "pol.status", "pol.override", "pol.rows", "pol.group-names", "pol.nan", "pol.no-partner"]
ASSUME = ["points that do not coincide are at least 1 ms apart; range labels are two numbers, or not numbers at all",
          "the textgrid has Levels, Ranges and TurningPoints tiers"]


def case(ctx, rng, idx):
    st = gen.Style(rng, ["int0", "int", "dec0", "dec", "float", "np", "offset", "big", "fine"])
    hi = rng.choice([12, 30, 60])
    words = gen.Group(rng, 2, st, n_top=rng.randint(1, 4), max_kids=3)
    build.stretch_to(words, max(words.span[1], hi))
    hi = words.span[1]
    cuts = sorted({0, hi} | set(rng.sample(range(1, hi), min(hi - 1, rng.randint(0, 3)))))
    ranges = []
    for a, b in zip(cuts, cuts[1:]):
        lo = rng.choice([75, 80.5, 100, 0])
        top = lo + rng.choice([50, 120.25, 200])
        if rng.random() < 0.1:                  # written the other way round
            lo, top = top, lo
        lab = rng.choice([f"{lo}-{top}", f"{lo}-{top}", f"{lo}-{top}", f"{lo} - {top}", "", "x", "a-b", f"{lo}-"])
        ranges.append((st(a), st(b), lab))
    ticks = sorted(rng.sample(range(0, hi), rng.randint(1, min(hi, 8))))
    tp_ticks = [t for t in ticks if rng.random() < 0.75] + [t for t in rng.sample(range(0, hi), min(hi, 3)) if t not in ticks]
    tp_ticks = sorted(set(tp_ticks))
    if rng.random() < 0.05:
        tp_ticks = []
    levels = [(st(t), rng.choice(["", "", "", "?"]) + rng.choice(["1", "2", "3", "4", "5"]) + rng.choice(["", "", "?"])) for t in ticks]
    tps = [(st(t), rng.choice(["0", "0", "0,75", "0,120.5", "0,75?", "0?", "?0", "0?,80"])) for t in tp_ticks]
    pr = gen.points(rng, st, lo=0, hi=hi, labels=["*", "*?", "]", "]?", "?*", "?]"])
    tobi = gen.points(rng, st, lo=0, hi=hi, labels=["H*", "L-", "L+H*", "H%"])
    misc = gen.points(rng, st, lo=0, hi=hi, labels=["m", "n"])
    pts = [(TurningPoints, tps), (Levels, levels), (PrStr, pr), (ToBI, tobi)]
    if rng.random() < 0.3:
        pts.append((Misc, misc))
    rng.shuffle(pts)
    blocks = [("wp", [Word, Phone]), ("rg", [Ranges])]
    if rng.random() < 0.3:
        k = rng.randint(1, len(pts) - 1)
        blocks += [("p", pts[:k]), ("p", pts[k:])]
    else:
        blocks.append(("p", pts))
    rng.shuffle(blocks)
    tiers, ec, names = [], [], []
    span = (st(0), st(hi))
    for kind, what in blocks:
        if kind == "wp":
            order = rng.choice([[0, 1], [1, 0]])
            tiers += [gen.itier(what[i].__name__, words.levels[i]) for i in order]
            ec.append([what[i] for i in order])
            names.append("Word_Phone")
        elif kind == "rg":
            tiers.append(gen.itier("Ranges", ranges))
            ec.append([Ranges])
            names.append("RangesTier")
        else:
            tiers += [gen.ptier(c.__name__, r, *span) for c, r in what]
            ec.append([c for c, _ in what])
            names.append("Points")
    tg = gen.textgrid(tiers)
    route = rng.choice(["object", "path"])
    ctx.op("polar", route, st.kind, [k for k, _ in blocks], len(levels), len(tps), len(ranges))
    with contextlib.redirect_stdout(io.StringIO()):
        if route == "object":
            a = PolarGrid(textgrid=tg, entry_classes=ec)
        else:
            with build.scratch() as d:
                p = os.path.join(d, "x.TextGrid")
                tg.save(p, rng.choice(build.FORMATS), includeBlankSpaces=True)
                a = PolarGrid(textgrid_path=p, entry_classes=ec)

    # ---- contents and names
    src = {"Word": words.levels[0], "Phone": words.levels[1], "Ranges": ranges, **{c.__name__: r for c, r in pts}}
    for g in a:
        for t in g:
            n = t.entry_class.__name__
            ctx.check("pol.accessor", getattr(a, n) is t, n)
            got, want = inv.rows(t), src[n]
            ctx.check("pol.rows", len(got) == len(want) and all(x[-1] == y[-1] and all(abs(p - q) < 1e-5 for p, q in zip(x[:-1], y[:-1]))
                                                               for x, y in zip(got, want)), n, got, want)
    ctx.eq("pol.group-names", [g.name for g in a], names)
    for g in a:
        if names.count(g.name) == 1 and len(set(names)) == len(names):
            ctx.check("pol.accessor", getattr(a, g.name) is g, g.name)

    # ---- labels
    for x, (s, e, lab) in zip(a.Ranges, ranges):
        try:
            nums = [float(v) for v in lab.split("-")]
        except ValueError:
            nums = None
        if nums is None:
            ctx.check("pol.nan", np.isnan(x.low) and np.isnan(x.high) and np.all(np.isnan(x.bands)) and len(x.bands) == 6, lab)
            continue
        ctx.eq("pol.range", (list(x.range), x.low, x.high), (nums, nums[0], nums[1]), lab)
        step = (nums[1] - nums[0]) / 5
        ctx.check("pol.bands", len(x.bands) == 6 and all(abs(b - (nums[0] + k * step)) < 1e-9 for k, b in enumerate(x.bands)), x.bands)
    for x in a.PrStr:
        ctx.eq("pol.status", x.status, "prominence" if "*" in x.label else "edge")
    for x in list(a.PrStr) + list(a.Levels) + list(a.TurningPoints):
        ctx.eq("pol.certainty", x.certainty, "uncertain" if "?" in x.label else "certain", short(x))
    for x in a.TurningPoints:
        part = x.label.replace("?", "").split(",")
        ctx.eq("pol.override", x.override, part[1] if len(part) > 1 else None, short(x))

    # ---- references
    for l, t in zip(a.Levels, ticks):
        ctx.eq("pol.level", l.level, int(l.label.strip("?")))
        want = [r for r in a.Ranges if r.start <= l.time < r.end]
        ctx.check("pol.range-interval", l.range_interval is (want[0] if want else None), short(l), short(l.range_interval))
        ctx.check("pol.range-interval", l.ranges_tier is a.Ranges)
        if want:
            b = want[0].bands
            got = l.band
            ok = len(got) == 2 and (np.array_equal(got, [b[l.level - 1], b[l.level]], equal_nan=True))
            ctx.check("pol.band", ok, short(l), got, b)
        if t in tp_ticks:
            tp = a.TurningPoints[tp_ticks.index(t)]
            ctx.check("pol.turning-point", l.turning_point is tp, short(l), short(l.turning_point))
            ctx.check("pol.mutual", tp.level is l, short(tp), short(tp.level))
        else:
            ctx.check("pol.no-partner", l.turning_point is None, short(l), short(l.turning_point))
    for tp, t in zip(a.TurningPoints, tp_ticks):
        if t not in ticks:
            ctx.check("pol.no-partner", tp.level is None, short(tp), short(tp.level))
    inv.precedence(ctx, a)
    inv.grid_views(ctx, a)
    ctx.sig(ranges, levels, tps, [k for k, _ in blocks])
