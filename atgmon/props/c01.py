"""C01: superset/subset links are one mutual, exclusive, class-correct relation."""
from .. import inv
from ..world import FreeWorld, GridWorld

CASES = {"quick": 2400, "thorough": 60000}
RULE = ("even cases: a pool of free intervals (2-4 levels) driven through up to 25 random link operations against a "
        "parent/children model; odd cases: a textgrid (random classes, times, input route) driven through up to 14 "
        "public operations; links checked after every operation. Non-trivial: at least one link existed; distinct by "
        "the operation sequence and final link shape")
REQUIRED = ["link.down-up", "link.up-down", "link.exclusive", "link.class", "link.within", "link.contains",
            "link.orphan", "model.subset_list", "model.super_instance"]
ASSUME = ["entries of one tier or subset list do not overlap and are not equal in start, end and label",
          "no entry is labelled '#', which the library reserves for boundaries",
          "`interval + interval` is left out: it returns a second object sharing the first one's state by design"]


def case(ctx, rng, idx):
    if idx % 2 == 0:
        w = FreeWorld(ctx, rng)
        n = rng.randint(3, 25)
        start = len(ctx.trace)
        sparse = rng.random() < 0.3
        for _ in range(n):
            w.step()
            if sparse and rng.random() < 0.8:
                continue
            w.agree()
            inv.links(ctx, inv.closure(*w.everything()))
        w.agree()
        inv.links(ctx, inv.closure(*w.everything()))
        shape = [[len(x.subset_list) for x in p] for p in w.pool]
        if any(any(s) for s in shape):
            ctx.sig("free", [t.split(" ")[0] for t in ctx.trace[start:]], shape)
    else:
        w = GridWorld(ctx, rng).run(rng.randint(3, 14), mon)
        ctx.sig("grid", [t.split(" ")[0] for t in ctx.trace], [[len(t) for t in g] for g in w.atg])


def mon(w):
    inv.links(w.ctx, inv.closure(w.atg, *w.keep))
