"""C14: ids and within paths identify objects."""
from .. import inv
from ..world import GridWorld

CASES = {"quick": 1600, "thorough": 40000}
RULE = ("a textgrid driven through up to 12 public operations; after every operation each group, tier, attached "
        "interval and point reports its path and id, and the id is followed back from the textgrid. Distinct by "
        "operation sequence and number of ids")
REQUIRED = ["path.index", "path.path", "path.id", "path.unique", "path.back", "path.within", "path.long"]
ASSUME = ["intervals outside every superset interval have no path through one and are not claimed"]


def long_tier(ctx, rng):
    """Ids beyond one and two digits."""
    many = rng.random() < 0.3
    w = GridWorld(ctx, rng, n_top=2 if many else rng.choice([12, 40, 105]), nlev=rng.choice([1, 2]), groups=11 if many else 1,
                  points=rng.choice([0, 1]))
    n = [len(inv.paths(ctx, w.atg))]
    w.monitor = lambda: None
    for _ in range(3):
        getattr(w, "op_" + rng.choice(["fuse", "tier_append", "tier_pop", "swap", "unlink"]))()
    n.append(len(inv.paths(ctx, w.atg)))
    ctx.seen("path.long")
    ctx.sig("long", n)


def case(ctx, rng, idx):
    if idx % 40 == 7:
        return long_tier(ctx, rng)
    n = []

    def mon(w):
        n.append(len(inv.paths(w.ctx, w.atg)))
    GridWorld(ctx, rng).run(rng.randint(2, 12), mon)
    ctx.sig([t.split(" ")[0] for t in ctx.trace], n)
