"""Invariant monitors.  They look at public attributes only."""
from aligned_textgrid import (SequenceInterval, SequencePoint, SequenceTier, SequencePointTier,
                              TierGroup, PointsGroup, AlignedTextGrid, Top, Bottom, Word, Phone)


def short(x):
    if x is None:
        return "None"
    if isinstance(x, SequencePoint):
        return f"{type(x).__name__}({x.time},{x.label!r})"
    if isinstance(x, SequenceInterval):
        return f"{type(x).__name__}({x.start},{x.end},{x.label!r})"
    return type(x).__name__


def ent(x):
    return (x.time, x.label) if isinstance(x, SequencePoint) else (x.start, x.end, x.label)


def rows(tier):
    return [ent(x) for x in tier]


def closure(*roots):
    """Every interval reachable through tiers, subset lists and super instances."""
    seen, todo, out = set(), [], []
    for r in roots:
        if isinstance(r, AlignedTextGrid):
            todo += [x for g in r for t in g for x in t]
        elif isinstance(r, (TierGroup, PointsGroup)):
            todo += [x for t in r for x in t]
        elif isinstance(r, (SequenceTier, SequencePointTier)):
            todo += list(r)
        else:
            todo.append(r)
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        out.append(x)
        if isinstance(x, SequenceInterval):
            todo += list(x.subset_list)
            if x.super_instance is not None:
                todo.append(x.super_instance)
    return out


def links(ctx, intervals):
    """C01: subset_list / super_instance / contains / within are one relation, and class-correct."""
    owner = {}
    for x in intervals:
        if not isinstance(x, SequenceInterval):
            continue
        subs = list(x.subset_list)
        for s in subs:
            ctx.check("link.down-up", s.super_instance is x, short(x), "lists", short(s),
                      "whose super_instance is", short(s.super_instance))
            ctx.check("link.exclusive", id(s) not in owner, short(s), "is listed by", short(owner.get(id(s))),
                      "and by", short(x))
            owner[id(s)] = x
            ctx.check("link.class", isinstance(s, x.subset_class) and isinstance(x, s.superset_class),
                      short(s), "in", short(x))
            ctx.check("link.within", s.within is x, short(s), "is within", short(s.within), "not", short(x))
        ctx.check("link.contains", [id(c) for c in x.contains] == [id(s) for s in subs],
                  short(x), "contains", [short(c) for c in x.contains], "subset_list", [short(s) for s in subs])
    for x in intervals:
        if not isinstance(x, SequenceInterval):
            continue
        p = x.super_instance
        if p is not None:
            n = sum(1 for s in p.subset_list if s is x)
            ctx.check("link.up-down", n == 1, short(p), "is super_instance of", short(x), "and lists it", n, "times")
        else:
            ctx.check("link.orphan", not isinstance(x.within, SequenceInterval), short(x),
                      "has no super_instance but is within", short(x.within))


def chain(ctx, mon, seq, where):
    """prev/fol along seq are mutual, in order, and end in '#' boundary entries."""
    seq = list(seq)
    for i, x in enumerate(seq):
        if i == 0:
            ok = x.prev is not None and x.prev.label == "#" and not any(x.prev is y for y in seq)
            ctx.check(mon + ".first", ok, where, short(x), "prev", short(x.prev))
        else:
            ctx.check(mon + ".prev", x.prev is seq[i - 1], where, short(x), "prev", short(x.prev), "not", short(seq[i - 1]))
        if i == len(seq) - 1:
            ok = x.fol is not None and x.fol.label == "#" and not any(x.fol is y for y in seq)
            ctx.check(mon + ".last", ok, where, short(x), "fol", short(x.fol))
        else:
            ctx.check(mon + ".fol", x.fol is seq[i + 1], where, short(x), "fol", short(x.fol), "not", short(seq[i + 1]))


def subset_order(ctx, intervals):
    for x in intervals:
        if isinstance(x, SequenceInterval) and len(x.subset_list) > 0:
            st = [s.start for s in x.subset_list]
            ctx.check("prec.subset-sorted", all(a <= b for a, b in zip(st, st[1:])), short(x), st)
            chain(ctx, "prec.subset", x.subset_list, short(x))


def top_tier(tier):
    return isinstance(tier, SequenceTier) and issubclass(tier.entry_class.superset_class, Top)


def precedence(ctx, *roots):
    subset_order(ctx, closure(*roots))
    for r in roots:
        for g in (r if isinstance(r, AlignedTextGrid) else [r]):
            for t in g:
                if isinstance(t, SequencePointTier):
                    chain(ctx, "prec.point", t, "point tier")
                elif top_tier(t):
                    chain(ctx, "prec.top", t, "top tier")


def tier_views(ctx, tier, navigation=True):
    """C04: a tier's order, indices and summary views agree with its entries."""
    seq = list(tier)
    pt = isinstance(tier, SequencePointTier)
    start = [x.time if pt else x.start for x in seq]
    end = [x.time if pt else x.end for x in seq]
    ctx.check("tier.sorted", all(a <= b for a, b in zip(start, start[1:])), start)
    ctx.eq("tier.len", (len(tier), len(tier.sequence_list)), (len(seq), len(seq)))
    ctx.check("tier.unique", len({id(x) for x in seq}) == len(seq), "an entry occurs twice", rows(tier))
    ctx.eq("tier.labels", list(tier.labels), [x.label for x in seq])
    if pt:
        ctx.eq("tier.times", list(tier.times), start)
    else:
        ctx.eq("tier.starts", list(tier.starts), start)
        ctx.eq("tier.ends", list(tier.ends), end)
    if seq:
        ctx.eq("tier.xmin", tier.xmin, min(start))
        ctx.eq("tier.xmax", tier.xmax, max(end))
        ctx.check("tier.first-last", tier.first is seq[0] and tier.last is seq[-1], short(tier.first), short(tier.last))
    else:
        ctx.eq("tier.xmin", tier.xmin, None)
        ctx.eq("tier.xmax", tier.xmax, None)
        ctx.raises("tier.first-last", lambda: tier.first, "first of an empty tier")
    for i, x in enumerate(seq):
        ctx.check("tier.entry-class", isinstance(x, tier.entry_class), short(x), tier.entry_class)
        ctx.eq("tier.praatio", tuple(x.return_praatio()), ent(x))
        ctx.check("tier.intier", x.intier is tier, short(x), "is not in its tier")
        ctx.eq("tier.tiername", x.tiername, tier.name, short(x))
        if navigation:
            ctx.eq("tier.index", x.tier_index, i, short(x))
            for k in (-2, -1, 0, 1, 2):
                if 0 <= i + k < len(seq):
                    ctx.check("tier.tierwise", x.get_tierwise(k) is seq[i + k], short(x), k)
                elif abs(k) == 1:
                    ctx.raises("tier.beyond", lambda: x.get_tierwise(k), f"get_tierwise({k}) at the edge of a tier", types=IndexError)


def sub_views(ctx, x):
    """An interval's own sequence views agree with its subset_list."""
    subs = list(x.subset_list)
    ctx.eq("sub.len", (len(x), [id(s) for s in x]), (len(subs), [id(s) for s in subs]), short(x))
    iter(x)
    ctx.check("sub.next", [id(next(x)) for _ in subs] == [id(s) for s in subs], short(x))
    ctx.eq("sub.starts", list(x.sub_starts), [s.start for s in subs], short(x))
    ctx.eq("sub.ends", list(x.sub_ends), [s.end for s in subs], short(x))
    ctx.eq("sub.labels", list(x.sub_labels), [s.label for s in subs], short(x))
    for i, s in enumerate(subs):
        ctx.check("sub.item", x[i] is s and x.index(s) == i and s in x, short(x), i)
    if x.start is not None:
        ctx.close("sub.duration", x.duration, x.end - x.start)
    if isinstance(x, Word):
        ctx.check("sub.word", [id(s) for s in x.phone_list] == [id(s) for s in subs] and list(x.phones) == [s.label for s in subs], short(x))
    if isinstance(x, Phone):
        ctx.check("sub.phone", x.inword is x.super_instance, short(x))
    if subs:
        ctx.check("sub.first-last", x.first is subs[0] and x.last is subs[-1], short(x))


def grid_views(ctx, grid):
    gs = list(grid)
    ctx.eq("grid.len", len(grid), len(gs))
    lo, hi = [], []
    for g in gs:
        ts = list(g)
        ctx.eq("group.len", (len(g), len(g.entry_classes)), (len(ts), len(ts)))
        ctx.check("group.classes", all(a is t.entry_class for a, t in zip(g.entry_classes, ts)), g.entry_classes)
        lows = [t.xmin for t in ts if len(t)]
        highs = [t.xmax for t in ts if len(t)]
        ctx.eq("group.xmin", g.xmin, min(lows) if lows else None)
        ctx.eq("group.xmax", g.xmax, max(highs) if highs else None)
        lo += lows
        hi += highs
        if isinstance(g, TierGroup):
            for u, d in zip(ts, ts[1:]):
                ctx.check("group.order", issubclass(d.entry_class, u.entry_class.subset_class)
                          or issubclass(u.entry_class.subset_class, d.entry_class), g.entry_classes)
        for t in ts:
            tier_views(ctx, t)
    if gs:
        ctx.eq("grid.xmin", grid.xmin, min(lo) if lo else None)
        ctx.eq("grid.xmax", grid.xmax, max(hi) if hi else None)


def paths(ctx, grid):
    """C14: ids are unique and lead back to the object by following the containers' contents."""
    ids = {}

    def visit(obj, path):
        ctx.eq("path.index", obj.within_index, path[-1], "path", path)
        ctx.eq("path.path", list(obj.within_path), path)
        ctx.eq("path.id", obj.id, "-".join(str(p) for p in path))
        ctx.check("path.unique", obj.id not in ids, obj.id, "names two objects")
        ids[obj.id] = obj
        ctx.check("path.back", follow(grid, obj.id) is obj, obj.id)

    def down(x, path):
        for i, s in enumerate(x.subset_list):
            visit(s, path + [i])
            down(s, path + [i])

    for gi, g in enumerate(grid):
        visit(g, [gi])
        ctx.check("path.within", g.within is grid, "a group is not within its textgrid")
        for ti, t in enumerate(g):
            visit(t, [gi, ti])
            ctx.check("path.within", t.within is g, "a tier is not within its group")
            if isinstance(t, SequencePointTier) or top_tier(t):
                for i, x in enumerate(t):
                    visit(x, [gi, ti, i])
                    ctx.check("path.within", x.within is t, short(x), "is not within its tier")
                    if isinstance(x, SequenceInterval):
                        down(x, [gi, ti, i])
    return ids


def follow(grid, ident):
    obj = grid
    for p in ident.split("-"):
        obj = list(obj.contains)[int(p)]
    return obj


def accessors(ctx, grid):
    """C23: attribute access by group name and by class name gives the group / tier itself."""
    names = [g.name for g in grid]
    for g in grid:
        if names.count(g.name) == 1 and len(set(names)) == len(names) and g.name:
            if hasattr(type(grid), g.name):     # the textgrid's own attributes stay what they are
                ctx.check("acc.own", getattr(grid, g.name) is not g, "accessor", g.name, "hides an attribute of the textgrid")
            else:
                ctx.check("acc.group", getattr(grid, g.name) is g, "accessor", g.name, "is not the group")
        cn = [c.__name__ for c in g.entry_classes]
        if len(set(cn)) == len(cn):
            for t in g:
                if hasattr(type(g), t.entry_class.__name__):
                    ctx.check("acc.own", getattr(g, t.entry_class.__name__) is not t, "accessor", t.entry_class.__name__, "hides an attribute")
                    continue
                ctx.check("acc.tier", getattr(g, t.entry_class.__name__) is t, t.entry_class.__name__)
        ctx.eq("acc.tier-names", list(g.tier_names), [t.name for t in g])
    if names:
        ctx.eq("acc.grid-names", [list(n) for n in grid.tier_names], [[t.name for t in g] for g in grid])
    flat = {c for g in grid for c in g.entry_classes}
    for c in flat:
        if sum(1 for d in flat if d.__name__ == c.__name__) == 1:
            ctx.check("acc.class", grid.get_class_by_name(c.__name__) is c, c)


def tiling(ctx, mon, seq, lo=None, hi=None, tol=1e-6, where=""):
    seq = list(seq)
    if lo is not None and seq:
        ctx.close(mon + ".lo", seq[0].start, lo, where, tol=tol)
        ctx.close(mon + ".hi", seq[-1].end, hi, where, tol=tol)
    for a, b in zip(seq, seq[1:]):
        ctx.close(mon + ".snug", b.start, a.end, where, short(a), short(b), tol=tol)


def snap(grid):
    """Value picture of a textgrid: names, classes, entries, links."""
    out = []
    for g in grid:
        tiers = []
        for t in g:
            sup = None
            if isinstance(t, SequenceTier):
                sup = [None if x.super_instance is None else ent(x.super_instance) for x in t]
            tiers.append((t.name, t.entry_class.__name__, rows(t), sup))
        out.append((g.name, type(g).__name__, tiers))
    return out


def identity(grid):
    return [[[id(x) for x in t] for t in g] for g in grid]
