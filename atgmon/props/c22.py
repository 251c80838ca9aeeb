"""C22: class hierarchies built by custom_classes, clone_class and the class setters are consistent."""
from aligned_textgrid import (SequenceInterval, SequencePoint, SequenceTier, TierGroup, Word, Phone, Top, Bottom, custom_classes,
                              AlignedTextGrid)
from aligned_textgrid.custom_classes import clone_class, get_class_hierarchy
from .. import build, gen, inv
from ..inv import short

CASES = {"quick": 5000, "thorough": 60000}
RULE = ("custom_classes with 1-7 random names, points among them, return orders (names, indices, subsets, a single string); then "
        "random cloning, hierarchy queries from every member, and re-linking of classes; names, order, mutual superset/subset "
        "links, ends of the hierarchy, separation between calls and usability of instances are checked after each step. "
        "Distinct by names, points, order and steps; non-trivial: at least two classes")
REQUIRED = ["cls.names", "cls.order", "cls.links", "cls.ends", "cls.points", "cls.separate", "cls.base", "cls.clone", "cls.clone-original",
            "cls.hierarchy", "cls.relink", "cls.replace", "cls.usable", "cls.string"]
ASSUME = []
NAMES = ["Utt", "Phrase", "IP", "Word", "Syl", "Syllable", "Phone", "Mora", "Sub", "Ä", "wörd", "Gesture", "x1", "_a", "Topic", "BottomLine", "SubTop", "WordGroup", "word"]


def chain(ctx, cls):
    """cls: interval classes top to bottom."""
    ctx.check("cls.ends", issubclass(cls[0].superset_class, Top) and issubclass(cls[-1].subset_class, Bottom), cls)
    for u, d in zip(cls, cls[1:]):
        ctx.check("cls.links", u.subset_class is d and d.superset_class is u, u, d)
    for c in cls:
        got = get_class_hierarchy(c) if ctx.mon["cls.hierarchy"] % 2 else get_class_hierarchy(c, [])
        ctx.check("cls.hierarchy", len(got) == len(cls) and all(a is b for a, b in zip(got, cls)), c, "gives", got)


def base(ctx):
    ctx.check("cls.base", Word.subset_class is Phone and Phone.superset_class is Word and issubclass(Word.superset_class, Top)
              and issubclass(Phone.subset_class, Bottom) and issubclass(SequenceInterval.superset_class, Top)
              and issubclass(SequenceInterval.subset_class, Bottom))


def use(ctx, rng, cls):
    """A group over the classes nests as the hierarchy says."""
    st = gen.Style(rng)
    s = gen.Group(rng, len(cls), st, n_top=rng.randint(1, 3), max_kids=2)
    g = build.group(rng, s, cls)
    ctx.check("cls.usable", list(g.entry_classes) == list(cls), g.entry_classes)
    for l in range(1, len(cls)):
        for x, p in zip(g[l], s.parents[l]):
            ctx.check("cls.usable", x.super_instance is g[l - 1][p] and isinstance(x, cls[l]), short(x))


def case(ctx, rng, idx):
    n = rng.randint(1, 7)
    names = rng.sample(NAMES, n)
    pts = sorted(rng.sample(range(n), rng.randint(1, n))) if rng.random() < 0.3 else []
    if rng.random() < 0.15:
        one = custom_classes(names[0]) if not pts else custom_classes(names[0], points=[0])
        ctx.op("custom_classes str", names[0], bool(pts))
        ctx.check("cls.string", isinstance(one, type) and one.__name__ == names[0] and issubclass(one, SequencePoint if pts else SequenceInterval))
        if not pts:
            chain(ctx, [one])
            two = custom_classes(rng.choice([names[0], [names[0]]]))
            two = two if isinstance(two, type) else two[0]
            ctx.check("cls.separate", len({one, two, Word, Phone}) == 4 and len({c.superset_class for c in (one, two, Word)}) == 3
                      and len({c.subset_class for c in (one, two, Phone)}) == 3, "two calls share an end of their hierarchies")
            chain(ctx, [two])
            chain(ctx, [one])
            use(ctx, rng, [one])
        base(ctx)
        ctx.sig("string", names[0], pts)
        return
    how = rng.choice(["none", "index", "name", "index-some", "name-some"])
    order = list(range(n))
    if how != "none":
        rng.shuffle(order)
    if how.endswith("some"):
        order = order[:rng.randint(1, n)]
    kw = {}
    if pts:
        kw["points"] = pts
    if how.startswith("index"):
        kw["return_order"] = list(order)
    elif how.startswith("name"):
        kw["return_order"] = [names[i] for i in order]
    given = list(names)
    ctx.op("custom_classes", names, kw)
    got = custom_classes(given, **kw)
    ctx.eq("cls.names", given, names, "the caller's list was changed")
    ctx.eq("cls.order", [c.__name__ for c in got], [names[i] for i in order])
    ctx.check("cls.points", all(issubclass(c, SequencePoint if i in pts else SequenceInterval) for c, i in zip(got, order)))
    ctx.check("cls.points", all(not issubclass(c, SequenceInterval if i in pts else SequencePoint) for c, i in zip(got, order)))
    other = custom_classes(given, **kw)
    ctx.check("cls.separate", not any(a is b for a in got for b in other), "two calls share classes")
    ints = [i for i in order if i not in pts]
    base(ctx)
    if not ints:
        ctx.sig(names, pts, order)
        return
    by = {names[i]: c for c, i in zip(got, order) if i not in pts}
    full = get_class_hierarchy(by[names[ints[0]]])
    ctx.eq("cls.hierarchy", [c.__name__ for c in full], [x for i, x in enumerate(names) if i not in pts])
    ctx.check("cls.hierarchy", all(by[c.__name__] is c for c in full if c.__name__ in by))
    chain(ctx, full)
    tops = {full[0].superset_class}
    bottoms = {full[-1].subset_class}
    theirs = [c for c in other if issubclass(c, SequenceInterval)]
    oth = get_class_hierarchy(theirs[0], [])
    ctx.check("cls.separate", oth[0].superset_class not in tops and oth[-1].subset_class not in bottoms, "hierarchies share an end")
    ctx.check("cls.separate", not any(a is b for a in full for b in oth))
    use(ctx, rng, full)

    # cloning
    full[0].colour = "red"
    cl = clone_class(full[0])
    ch = get_class_hierarchy(cl, [])
    ctx.op("clone_class")
    ctx.eq("cls.clone", [c.__name__ for c in ch], [c.__name__ for c in full])
    ctx.check("cls.clone", all(issubclass(a, b) and a is not b for a, b in zip(ch, full)) and ch[0].colour == "red")
    ctx.check("cls.clone", ch[0].superset_class is not full[0].superset_class and ch[-1].subset_class is not full[-1].subset_class)
    chain(ctx, ch)
    chain(ctx, full)
    ctx.seen("cls.clone-original")
    use(ctx, rng, ch)
    x = full[-1]((0, 1, "a"))
    ctx.check("cls.clone", not isinstance(x, ch[-1]) and isinstance(ch[-1]((0, 1, "a")), full[-1]))

    # re-linking: a subclass takes the place of a class
    if rng.random() < 0.4:
        k = rng.randrange(len(ch))
        new = type(ch[k].__name__ + "Sub", (ch[k],), {})
        up, down = ch[k].superset_class, ch[k].subset_class
        ctx.op("replace", k)
        if rng.random() < 0.5:
            new.set_superset_class(up)
            new.set_subset_class(down)
        else:
            down.set_superset_class(new)
            up.set_subset_class(new)
        ch[k] = new
        chain(ctx, ch)
        ctx.seen("cls.replace")
        chain(ctx, full)
        use(ctx, rng, ch)

    # re-linking: put a class in between, by either setter
    if rng.random() < 0.6:
        new = custom_classes(["Between"])[0]
        k = rng.randrange(len(ch) + 1)
        up = ch[k - 1] if k else ch[0].superset_class
        down = ch[k] if k < len(ch) else ch[-1].subset_class
        ctx.op("relink", k)
        if rng.random() < 0.5:
            new.set_superset_class(up)
            new.set_subset_class(down)
        else:
            down.set_superset_class(new)
            up.set_subset_class(new)
        ch.insert(k, new)
        chain(ctx, ch)
        ctx.seen("cls.relink")
        chain(ctx, full)
        chain(ctx, oth)
        use(ctx, rng, ch)
    base(ctx)
    ctx.sig(names, pts, order, how)
