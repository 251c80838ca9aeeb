"""C02: prev/fol chains follow the order of the sequence an entry belongs to."""
from aligned_textgrid import SequenceList, SequencePointTier, SequenceTier
from .. import build, gen, inv
from ..inv import short
from ..world import FreeWorld, GridWorld

CASES = {"quick": 3000, "thorough": 75000}
RULE = ("even cases: free intervals driven through link operations and fusions; odd cases: a textgrid with interval "
        "and point tiers driven through public operations; a fifth of the cases remake a tier from some of its entries; after every operation each subset list, top tier and point "
        "tier is walked in both directions. Non-trivial: some chain had two or more members; distinct by operation "
        "sequence and chain lengths")
REQUIRED = ["prec.subset.first", "prec.subset.prev", "prec.subset.fol", "prec.subset.last", "prec.top.prev",
            "prec.top.fol", "prec.top.first", "prec.top.last", "prec.point.prev", "prec.point.fol", "prec.subset-sorted"]
ASSUME = ["start times within one sequence are distinct", "no entry is labelled '#'"]


def parts(ctx, rng):
    """A tier remade again and again from some of its entries, new ones among them."""
    st = gen.Style(rng)
    pt = rng.random() < 0.5
    c = gen.point_class(rng) if pt else gen.family(rng, rng.choice([1, 2, 3]))[0]
    make = SequencePointTier if pt else SequenceTier
    n = rng.randint(2, 9)
    rows = [(st(2 * i), gen.label(rng)) if pt else (st(2 * i), st(2 * i + rng.choice([1, 2])), gen.label(rng)) for i in range(n)]
    pool = [c(r) for r in rows]
    t = make(build.shuffled(rng, pool))
    sizes = [n]
    for _ in range(rng.randint(1, 6)):
        k = rng.randint(1, n)
        at = rng.randrange(n - k + 1)
        some = pool[at:at + k] if rng.random() < 0.6 else rng.sample(pool, k)
        how = rng.choice(["tier", "list", "setter", "append", "fresh"])
        ctx.op("parts", how, [short(x) for x in some])
        if how == "tier":
            t = make(some, entry_class=c)
        elif how == "list":
            t = make(SequenceList(*some))
        elif how == "setter":
            t.sequence_list = some
        elif how == "append":
            t = make([], entry_class=c)
            for x in some:
                t.append(x)
        else:
            t = make(make(some))
        inv.chain(ctx, "prec.point" if pt else "prec.top", t, "remade tier")
        inv.tier_views(ctx, t)
        sizes.append(len(t))
    ctx.sig("parts", pt, sizes)


def case(ctx, rng, idx):
    if idx % 5 == 4:
        return parts(ctx, rng)
    if idx % 2 == 0:
        w = FreeWorld(ctx, rng)
        for _ in range(rng.randint(3, 25)):
            w.step()
            inv.subset_order(ctx, inv.closure(*w.everything()))
        shape = [[len(x.subset_list) for x in p] for p in w.pool]
        if any(n > 1 for s in shape for n in s):
            ctx.sig("free", [t.split(" ")[0] for t in ctx.trace], shape)
    else:
        w = GridWorld(ctx, rng, points=rng.choice([0, 1, 2])).run(rng.randint(3, 14), mon)
        ctx.sig("grid", [t.split(" ")[0] for t in ctx.trace], [[len(t) for t in g] for g in w.atg])


def mon(w):
    inv.precedence(w.ctx, w.atg)
