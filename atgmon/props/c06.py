"""C06: reading a textgrid keeps its tiers, intervals and points."""
import json
import os
from pathlib import Path

from praatio.textgrid import openTextgrid
from aligned_textgrid import AlignedTextGrid, TierGroup, PointsGroup
from .. import build, gen, inv, model
from .c05 import prune

CASES = {"quick": 4800, "thorough": 60000}
RULE = ("a textgrid of 1-7 interval groups (1-4 levels, tier order permuted) and 0-2 point tiers, tidy or with "
        "missing subtrees / missing supersets / groups of different span, given as praatio object, str, Path or "
        "keyword, in all four file formats, with nested, tuple, flat or mixed entry_classes, some with duplicate tier "
        "names; compared with the source tiers tier by tier. Non-trivial: more than one tier; distinct by layout, route and sizes")
REQUIRED = ["read.groups", "read.classes", "read.kept", "read.added-blank", "read.added-free", "read.tidy-exact",
            "read.points", "read.name", "read.kind", "read.dup-names",
            "read.partial"]
ASSUME = ["lower boundaries coincide with superset boundaries where they meet (mismatching boundaries are clipped by "
          "design, C05)", "labels have no leading/trailing whitespace (praatio strips it)"]


def long_format(tiers, lo, hi):
    """A TextGrid file written by hand, so that tiers may share a name."""
    out = ['File type = "ooTextFile"', 'Object class = "TextGrid"', "", f"xmin = {lo} ", f"xmax = {hi} ", "tiers? <exists> ",
           f"size = {len(tiers)} ", "item []: "]
    for i, (name, rows) in enumerate(tiers, 1):
        out += [f"    item [{i}]:", '        class = "IntervalTier" ', f'        name = "{name}" ', f"        xmin = {lo} ",
                f"        xmax = {hi} ", f"        intervals: size = {len(rows)} "]
        for j, (s, e, l) in enumerate(rows, 1):
            lab = l.replace('"', '""')
            out += [f"        intervals [{j}]:", f"            xmin = {s} ", f"            xmax = {e} ", f'            text = "{lab}" ']
    return "\n".join(out) + "\n"


def compare(ctx, got, src, tidy):
    """got: tier, src: rows."""
    rows = inv.rows(got)
    kept, extra, i = [], [], 0
    for r in rows:
        if i < len(src) and abs(r[0] - src[i][0]) < 1e-6 and abs(r[1] - src[i][1]) < 1e-6 and r[2] == src[i][2]:
            kept.append(r)
            i += 1
        else:
            extra.append(r)
    ctx.check("read.kept", i == len(src), "source", src, "\n read  ", rows)
    for e in extra:
        ctx.check("read.added-blank", e[2] == "", e, "was added to", src)
        ctx.check("read.added-free", all(model.overlap(e, s) < 1e-6 for s in src), e, "was added over", src)
    if tidy:
        ctx.check("read.tidy-exact", not extra, "added", extra, "to", src)


def nested(levels):
    """Every lower interval lies inside one superset interval or outside all of them."""
    for up, low in zip(levels, levels[1:]):
        for x in low:
            for u in up:
                if model.overlap(x, u) > 1e-9 and not (u[0] - 1e-9 <= x[0] and x[1] <= u[1] + 1e-9):
                    return False
    return True


def file_nested(plan, ref, n):
    for i in range(n):
        lv = [None] * plan.nlev
        for pos, l in enumerate(plan.order):
            lv[l] = [tuple(e) for e in ref.tiers[i * plan.nlev + pos].entries]
        if not nested(lv):
            return False
    return True


def case(ctx, rng, idx):
    if idx % 12 == 5:
        return dup_names(ctx, rng)
    if idx % 12 == 8:
        return partial(ctx, rng)
    tidy = rng.random() < 0.5
    many = rng.choice([4, 5, 7, 12]) if rng.random() < 0.06 else None
    plan = build.Plan(rng, groups=many, n_top=many and rng.randint(1, 2), max_kids=2 if many else 4, same_span=tidy or rng.random() < 0.5, points=rng.choice([0, 0, 1, 2, 3]))
    srcs = []
    for g in plan.specs:
        lv = [list(l) for l in g.levels]
        if not tidy:
            cut = prune(rng, g, rng.choice(["subtree", "upper"]))
            if all(cut):
                lv = cut
        srcs.append(lv)
    tiers = []
    for i, lv in enumerate(srcs):
        for l in plan.order:
            tiers.append(gen.itier(plan.names[i][l], lv[l]))
    for j, p in enumerate(plan.pts):
        tiers.append(gen.ptier(f"pts{j}", p, *plan.span))
    tg = gen.textgrid(tiers)
    one = [plan.classes[l] for l in plan.order]
    nested = [list(one) for _ in srcs] + plan.point_entry_classes()
    shape = rng.choice(["nested", "tuple", "listtuple", "flat", "mixed", "flatrep"])
    if shape == "tuple":
        ec = tuple(tuple(x) for x in nested)
    elif shape == "listtuple":
        ec = [tuple(x) for x in nested]
    elif shape == "flat" and not plan.pts:
        ec = rng.choice([list, tuple])(one)
    elif shape == "flatrep" and not plan.pts and len(srcs) > 1 and plan.nlev > 1:
        ec = one * len(srcs)
    elif shape == "mixed" and len(plan.pts) == 1:
        ec = [list(one) for _ in srcs[:-1]] + [list(one) + [plan.pclass]]
    else:
        ec, shape = nested, "nested"
    route = rng.choice(["object", "object", "str", "path", "kw"])
    blank = rng.random() < 0.7
    ctx.op("read", route, shape, "tidy" if tidy else "untidy", plan.style.kind, [[len(l) for l in lv] for lv in srcs], len(plan.pts))
    if route != "object" and not tidy:
        # a file also holds praatio's blank fill; one that crosses superset boundaries is a mismatch
        with build.scratch() as d:
            p = os.path.join(d, "x.TextGrid")
            tg.save(p, "long_textgrid", includeBlankSpaces=blank)
            if not file_nested(plan, openTextgrid(p, includeEmptyIntervals=True), len(srcs)):
                route = "object"
    if route == "object":
        atg = AlignedTextGrid(textgrid=tg, entry_classes=ec)
        ref = tg
    else:
        with build.scratch() as d:
            p = os.path.join(d, rng.choice(["x.TextGrid", "été.TextGrid", "a b.json"]))
            fmt = rng.choice(build.FORMATS)
            ctx.log("format", fmt, "blank", blank)
            tg.save(p, fmt, includeBlankSpaces=blank)
            ref = openTextgrid(p, includeEmptyIntervals=True, duplicateNamesMode="rename")
            atg = (AlignedTextGrid(p, ec) if route == "str" else AlignedTextGrid(textgrid_path=p, entry_classes=ec)
                   if route == "kw" else AlignedTextGrid(Path(p), entry_classes=ec))
    ctx.eq("read.groups", len(atg), len(srcs) + len(plan.pgroups()))
    k = 0
    for i in range(len(srcs)):
        g = atg[i]
        ctx.check("read.kind", isinstance(g, TierGroup), i)
        ctx.eq("read.classes", [c.__name__ for c in g.entry_classes], [c.__name__ for c in plan.classes])
        ctx.check("read.classes", all(issubclass(c, b) for c, b in zip(g.entry_classes, plan.classes)))
        for pos, l in enumerate(plan.order):
            t = g[l]
            r = ref.tiers[k + pos]
            ctx.eq("read.name", t.name, r.name)
            compare(ctx, t, [tuple(e) for e in r.entries], tidy)
        k += plan.nlev
    for gi, js in enumerate(plan.pgroups()):
        g = atg[len(srcs) + gi]
        ctx.check("read.kind", isinstance(g, PointsGroup), gi)
        ctx.eq("read.classes", [c.__name__ for c in g.entry_classes], [plan.pcls(j).__name__ for j in js])
        for t, j in zip(g, js):
            ctx.eq("read.points", inv.rows(t), [tuple(e) for e in ref.tiers[k + j].entries])
            ctx.eq("read.name", t.name, ref.tiers[k + j].name)
    if k + len(plan.pts) > 1:
        ctx.sig(route, shape, tidy, plan.order, [[len(l) for l in lv] for lv in srcs], [len(p) for p in plan.pts])


def dup_names(ctx, rng):
    """Files whose tiers share names are read tier by tier all the same."""
    plan = build.Plan(rng, groups=rng.choice([2, 3]), points=0, nlev=rng.choice([1, 2, 3]), perm=False)
    name = rng.choice(["words", "spk - words", ""])
    tiers = [(name if rng.random() < 0.8 else f"t{i}{l}", plan.specs[i].levels[l]) for i in range(plan.n) for l in range(plan.nlev)]
    tiers[0] = (name, tiers[0][1])
    tiers[1] = (name, tiers[1][1])
    lo = min(r[0] for _, rows in tiers for r in rows)
    hi = max(r[1] for _, rows in tiers for r in rows)
    ctx.op("read duplicate names", [n for n, _ in tiers])
    with build.scratch() as d:
        p = os.path.join(d, "x.TextGrid")
        Path(p).write_text(long_format(tiers, lo, hi), encoding="utf-8")
        atg = AlignedTextGrid(p, plan.entry_classes(rng))
    ctx.eq("read.dup-names", [[len(t) for t in g] for g in atg], [[len(l) for l in s.levels] for s in plan.specs])
    for g, s in zip(atg, plan.specs):
        for t, l in zip(g, s.levels):
            compare(ctx, t, l, True)
    ctx.sig("dup", [[len(l) for l in s.levels] for s in plan.specs])


def partial(ctx, rng):
    """Groups that hold some levels of a hierarchy only, such as a lone phone tier."""
    nlev = rng.choice([2, 2, 3, 4])
    plan = build.Plan(rng, groups=rng.choice([1, 2, 3]), points=0, nlev=nlev, perm=False, same_span=True)
    cuts = []
    for _ in range(plan.n):
        a = rng.randrange(nlev)
        cuts.append((a, rng.randint(a + 1, nlev)))
    tiers = [gen.itier(plan.names[i][l], plan.specs[i].levels[l]) for i, (a, b) in enumerate(cuts) for l in range(a, b)]
    ec = [plan.classes[a:b] for a, b in cuts]
    ctx.op("read part of a hierarchy", cuts)
    tg = gen.textgrid(tiers)
    if rng.random() < 0.5:
        atg = AlignedTextGrid(textgrid=tg, entry_classes=ec)
    else:
        with build.scratch() as d:
            p = os.path.join(d, "x.TextGrid")
            tg.save(p, rng.choice(build.FORMATS), includeBlankSpaces=True)
            atg = AlignedTextGrid(p, ec)
    ctx.eq("read.partial", [[c.__name__ for c in g.entry_classes] for g in atg], [[c.__name__ for c in e] for e in ec])
    byname = {}
    for g, s, (a, b) in zip(atg, plan.specs, cuts):
        for t, l, c in zip(g, s.levels[a:b], plan.classes[a:b]):
            compare(ctx, t, l, True)
            ctx.check("read.partial", issubclass(t.entry_class, c) and byname.setdefault(c.__name__, t.entry_class) is t.entry_class,
                      "one class of a name in a textgrid:", t.entry_class)
        inv.links(ctx, inv.closure(g))
    ctx.sig("partial", cuts, [[len(t) for t in g] for g in atg])
