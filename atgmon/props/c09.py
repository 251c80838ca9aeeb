"""C09: fusing two neighbours conserves everything but the boundary between them."""
from aligned_textgrid import TierGroup, AlignedTextGrid, SequenceTier
from .. import build, gen, inv
from ..inv import short, ent
from ..world import real

CASES = {"quick": 4800, "thorough": 60000}
RULE = ("a textgrid, a lone group, an ungrouped tier or free siblings; up to 8 random fusions at any level in either "
        "direction with default, custom or failing label functions, and attempts at the edges; each compared with the state "
        "before. Distinct by setting, level/direction sequence and sizes; non-trivial: at least one fusion happened")
REQUIRED = ["fuse.span", "fuse.label", "fuse.kids", "fuse.kids-link", "fuse.tier", "fuse.siblings", "fuse.rest",
            "fuse.super", "fuse.chain.prev", "fuse.edge", "fuse.edge-unchanged", "fuse.fun-args", "fuse.fun-fails"]
ASSUME = ["the two intervals are neighbours in time"]


def everything(tiers):
    return [(id(x), ent(x), id(x.super_instance), [id(s) for s in x.subset_list]) for t in tiers for x in t]


def setting(ctx, rng):
    kind = rng.choice(["atg", "atg", "group", "tier", "free"])
    st = gen.Style(rng)
    nlev = {"tier": 1, "free": rng.choice([2, 3])}.get(kind) or gen.depth(rng, [1, 2, 2, 3, 4])
    if kind == "tier":
        cls = gen.family(rng, rng.choice([1, 2]))[:1]
    else:
        cls = gen.family(rng, nlev)
    g = gen.Group(rng, nlev, st, n_top=rng.randint(1, 5))
    if nlev > 1 and rng.random() < 0.4:             # some intervals have no subset intervals
        for n in [n for nodes in g.nodes[:-1] for n in nodes]:
            if rng.random() < 0.35 and not (kind == "free" and n.level == 0):
                n.kids = []
        g.refresh()
        if not all(g.levels):
            g = gen.Group(rng, nlev, st, n_top=rng.randint(1, 5))
    ctx.op("setting", kind, st.kind, [c.__name__ for c in cls], [len(l) for l in g.levels])
    if kind == "tier":
        t = build.tier(rng, g.levels[0], cls[0])
        return kind, [t], g
    if kind == "free":
        out = []
        ups = [cls[0](r) for r in g.levels[0]]
        for u, n in zip(ups, g.roots):
            u.set_subset_list([cls[1]((st(k.a), st(k.b), k.label)) for k in n.kids])
            for y, k in zip(u, n.kids):
                if k.kids:
                    y.set_subset_list([cls[2]((st(j.a), st(j.b), j.label)) for j in k.kids])
        mid = [s for u in ups for s in u.subset_list]
        return kind, [ups, mid, [s for u in mid for s in u.subset_list]][:nlev], g
    grp = build.group(rng, g, cls)
    if kind == "atg":
        grp.name = "one"
        other = build.group(rng, gen.Group(rng, nlev, st, n_top=2), cls)
        other.name = "two"
        atg = AlignedTextGrid([grp, other])
        return kind, list(atg[0]) + list(atg[1]), atg
    return kind, list(grp), grp


def case(ctx, rng, idx):
    kind, tiers, hold = setting(ctx, rng)          # hold keeps the containers alive
    done = []
    for _ in range(rng.randint(1, 8)):
        li = rng.randrange(len(tiers))
        if kind == "free" and li == 0:
            li = 1
        if not len(tiers[li]):
            continue
        seq = list(tiers[li])
        x = rng.choice(seq)
        right = rng.random() < 0.5
        y = x.fol if right else x.prev
        name = ("fuse_rightward" if right else "fuse_leftward") + rng.choice(["", "s"])
        ctx.op(name, short(x), "and", short(y))
        before = everything(tiers)
        if not real(y):
            ctx.raises("fuse.edge", lambda: getattr(x, name)(), name, "at the edge of", [short(s) for s in seq])
            ctx.check("fuse.edge-unchanged", everything(tiers) == before, "a rejected fusion changed something")
            continue
        if rng.random() < 0.15:                     # a label function that fails: nothing is fused
            def boom(p, q):
                raise KeyError(p)
            ctx.raises("fuse.fun-fails", lambda: getattr(x, name)(boom), name, "hid the failure of the label function", types=KeyError)
            ctx.check("fuse.edge-unchanged", everything(tiers) == before and (x.fol if right else x.prev) is y, "a failed fusion changed something")
            ctx.op("label function fails")
        a, b = (x, y) if right else (y, x)
        s, e, la, lb = a.start, b.end, a.label, b.label
        ka, kb = list(a.subset_list), list(b.subset_list)
        sup = x.super_instance
        sibs = list(sup.subset_list) if sup is not None else None
        args = []
        fun = rng.choice([None, None, lambda p, q: p + "+" + q, lambda p, q: q, lambda p, q: "same"])
        if fun is None:
            getattr(x, name)()
            want = " ".join([la, lb])
        else:
            def rec(p, q):
                args.append((p, q))
                return fun(p, q)
            getattr(x, name)(rec) if rng.random() < 0.5 else getattr(x, name)(label_fun=rec)
            ctx.eq("fuse.fun-args", args, [(la, lb)])
            want = fun(la, lb)
        ctx.eq("fuse.span", (x.start, x.end), (s, e))
        ctx.eq("fuse.label", x.label, want)
        ctx.check("fuse.kids", [id(k) for k in x.subset_list] == [id(k) for k in ka + kb], short(x), "has",
                  [short(k) for k in x.subset_list], "want", [short(k) for k in ka + kb])
        for k in ka + kb:
            ctx.check("fuse.kids-link", k.super_instance is x, short(k), "under", short(k.super_instance))
        ctx.check("fuse.super", x.super_instance is sup and y.super_instance is None, short(x.super_instance), short(y.super_instance))
        if sup is not None:
            ctx.check("fuse.siblings", [id(k) for k in sup.subset_list] == [id(k) for k in sibs if k is not y], short(sup))
            inv.chain(ctx, "fuse.chain", sup.subset_list, "siblings")
        if kind == "free":
            tiers[li] = [z for z in tiers[li] if z is not y]
        else:
            ctx.check("fuse.tier", [id(z) for z in tiers[li]] == [id(z) for z in seq if z is not y], "tier after fusion",
                      inv.rows(tiers[li]))
            if sup is None:
                inv.chain(ctx, "fuse.chain", tiers[li], "tier")
        if ka + kb:
            inv.chain(ctx, "fuse.chain", x.subset_list, "fused subset list")
        moved = {id(k) for k in ka + kb} | {id(x), id(y)} | {id(sup)}
        old = {r[0]: r for r in before}
        for r in everything(tiers):
            if r[0] not in moved:
                ctx.eq("fuse.rest", r, old[r[0]])
        for k in ka + kb:
            ctx.eq("fuse.rest", ent(k), old[id(k)][1] if id(k) in old else ent(k))
        if sup is not None:
            ctx.eq("fuse.rest", ent(sup), old[id(sup)][1] if id(sup) in old else ent(sup))
        done.append((li, right))
    if done:
        ctx.sig(kind, done, [len(t) for t in tiers])
