"""C26: containers are Python sequences of their parts, and describe what is in them now."""
import contextlib
import io

from aligned_textgrid import (AlignedTextGrid, TierGroup, PointsGroup, SequenceTier, SequencePointTier, SequenceInterval,
                              SequencePoint, SequenceList)
from .. import inv
from ..inv import short
from ..world import GridWorld

CASES = {"quick": 1200, "thorough": 25000}
RULE = ("a textgrid driven through up to 8 public operations; after each one the textgrid, its groups, tiers, intervals and lists are "
        "used as sequences (len, iteration, indices from both ends, slices, reversed, index, count, in, out of range), converted to praatio "
        "and printed. Distinct by operation sequence and sizes")
REQUIRED = ["seq.len", "seq.item", "seq.negative", "seq.reversed", "seq.index", "seq.in", "seq.not-in", "seq.count", "seq.slice", "seq.range",
            "seq.nested", "seq.interval", "seq.twice", "conv.entry", "conv.tier", "repr.interval", "repr.point", "repr.tier", "repr.group",
            "repr.grid", "repr.structure"]
ASSUME = ["labels are plain text; descriptions are compared by what they name, not by their wording"]


def same(a, b):
    a, b = list(a), list(b)
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def sequence(ctx, rng, obj, parts, what, slices):
    n = len(parts)
    ctx.eq("seq.len", len(obj), n, what)
    ctx.check("seq.twice", same(obj, parts) and same(obj, parts), what, "iterates over other objects than it holds")
    for i, p in enumerate(parts):
        ctx.check("seq.item", obj[i] is p, what, i)
        ctx.check("seq.negative", obj[i - n] is p, what, i - n)
    ctx.check("seq.reversed", same(reversed(obj), parts[::-1]), what)
    for i in (n, n + 3, -n - 1):
        ctx.raises("seq.range", lambda: obj[i], what, "of", n, "has item", i, types=IndexError)
    for p in rng.sample(parts, min(3, n)):
        ctx.check("seq.index", parts[obj.index(p)] is p, what)
        ctx.check("seq.in", p in obj, what)
        if hasattr(obj, "count"):
            ctx.eq("seq.count", obj.count(p), 1, what)
    if slices and n:
        a, b = sorted((rng.randint(0, n), rng.randint(0, n)))
        ctx.check("seq.slice", same(obj[a:b], parts[a:b]) and same(obj[:a], parts[:a]) and same(obj[-b:], parts[-b:])
                  and same(obj[::2], parts[::2]), what, a, b)


def words(text, *need):
    """Every needed piece occurs, in this order."""
    at = 0
    for p in need:
        at = text.find(str(p), at)
        if at < 0:
            return False
        at += len(str(p))
    return True


def lab(x):
    """The label as a list of labels shows it."""
    return repr(x.label)[1:-1]


def describe(ctx, rng, a):
    r = repr(a)
    ctx.check("repr.grid", words(r, len(a), *[repr(g.name) for g in a], *[len(g) for g in a],
                                 *[repr(c.__name__) for g in a for c in g.entry_classes]), r)
    for g in a:
        r = repr(g)
        ctx.check("repr.group", words(r, len(g), *[repr(c.__name__) for c in g.entry_classes]), r)
        if isinstance(g, TierGroup):
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                g.show_structure()
            names = [g[0].superset_class.__name__] + [c.__name__ for c in g.entry_classes] + [g[-1].subset_class.__name__]
            ctx.check("repr.structure", words(out.getvalue(), *names), out.getvalue(), names)
        for t in g:
            r = repr(t)
            if isinstance(t, SequenceTier):
                ctx.check("repr.tier", words(r, t.entry_class.__name__, t.entry_class.superset_class.__name__,
                                             t.entry_class.subset_class.__name__), r)
                xs = list(t)
                for x in rng.sample(xs, min(3, len(xs))):
                    r = repr(x)
                    need = [type(x).__name__, x.label, type(x).superset_class.__name__]
                    need += [x.super_instance.label] if x.super_instance is not None else ["None"]
                    need += [type(x).subset_class.__name__] + [lab(k) for k in x.subset_list]
                    ctx.check("repr.interval", words(r, *need), r, "want", need)
            else:
                ctx.check("repr.tier", t.entry_class.__name__ in r, r)
                xs = list(t)
                for x in rng.sample(xs, min(3, len(xs))):
                    ctx.check("repr.point", words(repr(x), type(x).__name__, x.label, x.tier_index), repr(x))


def look(ctx, rng, a, w):
    gs = list(a.tier_groups)
    sequence(ctx, rng, a, gs, "textgrid", False)
    for g in gs:
        ts = list(g.tier_list)
        sequence(ctx, rng, g, ts, type(g).__name__, False)
        for h in gs:
            if h is not g:
                ctx.check("seq.not-in", ts[0] not in h, "a tier is in another group")
        for t in ts:
            xs = list(t.sequence_list)
            sequence(ctx, rng, t, xs, type(t).__name__, True)
            sequence(ctx, rng, t.sequence_list, xs, "SequenceList", True)
            if len(t):                          # an empty tier on its own has no time range
                p = t.return_tier()
                ctx.eq("conv.tier", ([tuple(e) for e in p.entries], p.name), ([e[:-1] + (e[-1].strip(),) for e in inv.rows(t)], t.name))
            for x in xs:
                if isinstance(x, SequenceInterval):
                    ctx.eq("conv.entry", tuple(x.return_interval()), (x.start, x.end, x.label))
                else:
                    ctx.eq("conv.entry", tuple(x.return_point()), (x.time, x.label))
            for x in rng.sample(xs, min(3, len(xs))):
                if isinstance(x, SequenceInterval):
                    sequence(ctx, rng, x, list(x.subset_list), short(x), True)
                    ctx.seen("seq.interval")
                for u in ts:
                    if u is not t:
                        ctx.check("seq.not-in", x not in u, short(x), "is in two tiers")
        if all(len(t) for t in ts):
            idx = [rng.randrange(len(t)) for t in ts]
            ctx.check("seq.nested", same(g[idx], [t[i] for t, i in zip(ts, idx)]), idx)
    describe(ctx, rng, a)


def case(ctx, rng, idx):
    def mon(w):
        if len(w.atg):
            look(ctx, rng, w.atg, w)
    GridWorld(ctx, rng).run(rng.randint(0, 8), mon)
    ctx.sig([t.split(" ")[0] for t in ctx.trace])
