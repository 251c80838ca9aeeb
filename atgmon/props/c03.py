"""C03: SequenceList behaves as a time-ordered list of one class, against a list model."""
from aligned_textgrid import SequenceInterval, SequencePoint, SequenceList, Word, Phone, custom_classes
from aligned_textgrid.custom_classes import clone_class
from .. import gen
from ..inv import short, ent

CASES = {"quick": 12000, "thorough": 150000}
RULE = ("a SequenceList of intervals or points (random class, times incl. 0 and ints) driven through up to 18 "
        "operations (construction from any order, append, append with shift, +, concat, remove, pop, rejected values, entries that differ in label only) "
        "next to a Python list model; membership, order, entries and views compared after each. Non-trivial: the list "
        "held two or more entries; distinct by operation sequence and final size")
REQUIRED = ["list.model", "list.sorted", "list.starts", "list.ends", "list.labels", "list.index", "list.in",
            "list.not-in", "list.class-reject", "list.add-pure", "list.concat-shift", "list.shift-append", "list.one-class"]
ASSUME = ["intervals do not overlap, and no two entries are equal in time and label"]


def start(x):
    return x.time if isinstance(x, SequencePoint) else x.start


def end(x):
    return x.time if isinstance(x, SequencePoint) else x.end


def look(ctx, sl, model):
    at = {id(x): i for i, x in enumerate(sl)}
    want = sorted(model, key=lambda x: (start(x), at.get(id(x), 0)))        # entries of one time stand in either order
    ctx.check("list.model", [id(x) for x in sl] == [id(x) for x in want], "has", [short(x) for x in sl],
              "model", [short(x) for x in want])
    st = [start(x) for x in sl]
    ctx.check("list.sorted", all(a <= b for a, b in zip(st, st[1:])), st)
    ctx.eq("list.len", len(sl), len(want))
    ctx.eq("list.starts", list(sl.starts), st)
    ctx.eq("list.ends", list(sl.ends), [end(x) for x in want])
    ctx.eq("list.labels", list(sl.labels), [x.label for x in want])
    for i, x in enumerate(want):
        ctx.check("list.index", sl[i] is x and sl.index(x) == i and sl[i - len(want)] is x, i)
        ctx.check("list.in", x in sl, short(x))
    ctx.check("list.slice", [id(x) for x in sl[1:]] == [id(x) for x in want[1:]])


def case(ctx, rng, idx):
    pts = rng.random() < 0.3
    st = gen.Style(rng, gen.ALL_KINDS)
    if pts:
        cls = gen.point_class(rng)
        if cls is SequencePoint:
            cls = custom_classes(["Spot"], points=[0])[0]
        other = custom_classes(["Elsewhere"], points=[0])[0]
    else:
        cls = gen.family(rng, rng.choice([1, 2, 3]))[0]
        other = custom_classes(["Elsewhere"])[0]
        if cls is SequenceInterval:
            cls = Word
    kin = clone_class(cls)                      # as in a textgrid: the same class by name, made from the user's
    if rng.random() < 0.5:
        cls, kin = kin, cls
    mixed = rng.random() < 0.3
    free = list(range(0, 60))
    rng.shuffle(free)

    def refill():
        """After a shift, only times beyond every entry are surely unused."""
        hi = max(end(y) for y in model)
        t = max(0, int((hi - st(0)) / (st(2) - st(0)) * 2) - 2)
        while st(t) <= hi:
            t += 1
        free[:] = rng.sample(range(t + 1, t + 61), 60)

    batch = [cls]

    def own():
        return batch[0]

    def lab():
        s = gen.label(rng)
        return s if rng.random() < 0.8 else rng.choice([" " + s, s + " ", s + "\n"])

    def make(c=None, lo=None):
        t = free.pop() if lo is None else lo
        if pts:
            return (c or own())((st(t), lab()))
        a = st(t)
        return (c or own())((a, a + (st(1) - st(0)) * rng.choice([1, 1, 0.5]), lab()))

    model = [make() for _ in range(rng.randint(0, 6))]
    rng.shuffle(model)
    ctx.op("new", cls.__name__, st.kind, len(model))
    sl = SequenceList(*model)
    look(ctx, sl, model)
    grew = len(model)
    for _ in range(rng.randint(2, 18)):
        if len(free) < 10:
            break
        op = rng.choice(["append", "append", "append", "again", "shift", "add", "add", "iadd", "concat", "remove", "pop",
                         "absent", "reject", "tuple", "empty", "twin"])
        grew = max(grew, len(model))
        batch[0] = kin if mixed and model and op in ("append", "add", "iadd", "tuple") and rng.random() < 0.5 else cls
        if batch[0] is kin:
            ctx.log("of the related class")
        if op == "append":
            x = make()
            ctx.op("append", short(x))
            sl.append(x)
            model.append(x)
        elif op == "again" and model:
            x = rng.choice(model)
            ctx.op("append again", short(x))
            sl.append(x)
        elif op == "shift":
            x = make()
            base = [end(y) for y in sl][-1] if model else 0
            a, b = start(x), end(x)
            if a < 0 or (pts and a == 0):
                continue
            ctx.op("append shift", short(x))
            sl.append(x, shift=True)
            model.append(x)
            ctx.close("list.shift-append", start(x), a + base)
            ctx.close("list.shift-append", end(x), b + base)
            refill()
        elif op in ("add", "iadd", "tuple"):
            new = [make() for _ in range(rng.choice([0, 1, 1, 2, 3]))]
            known = rng.sample(model, 0 if batch[0] is kin else min(len(model), rng.choice([0, 0, 0, 1, 2])))      # entries the list has already
            given = rng.sample(new + known, len(new + known))
            arg = {"add": SequenceList(*given), "iadd": given, "tuple": tuple(given)}[op]
            ctx.op(op, [short(x) for x in given], "known", len(known))
            before = [id(x) for x in sl]
            kind = sl.entry_class
            if op == "iadd":
                sl += arg
                model = model + new
            else:
                res = sl + arg
                ctx.check("list.add-pure", [id(x) for x in sl] == before and sl.entry_class is kind, "+ changed its left operand")
                look(ctx, res, model + new)
                if rng.random() < 0.3:          # the sum is a list of its own
                    x = make()
                    res.append(x)
                    look(ctx, res, model + new + [x])
                    ctx.check("list.add-pure", [id(x) for x in sl] == before, "an entry appended to the sum reached its left operand")
                    new = new + [x]
                if rng.random() < 0.5:
                    sl, model = res, model + new
        elif op == "concat":
            new = [make() for _ in range(rng.randint(1, 3))]
            if any(start(x) < 0 or (pts and start(x) == 0) for x in new):
                continue
            inc = max([end(y) for y in model]) if model else 0
            times = [(start(x) + inc, end(x) + inc) for x in new]
            ctx.op("concat", [short(x) for x in new])
            sl.concat(rng.choice([list, tuple, lambda v: SequenceList(*v)])(new))
            model += new
            for x, (a, b) in zip(new, times):
                ctx.close("list.concat-shift", start(x), a, short(x))
                ctx.close("list.concat-shift", end(x), b, short(x))
            refill()
        elif op == "empty":
            ctx.op("concat nothing")
            sl.concat([])
        elif op in ("remove", "pop") and model:
            x = rng.choice(model)
            ctx.op(op, short(x))
            getattr(sl, op)(x)
            model = [y for y in model if y is not x]
            ctx.check("list.not-in", x not in sl, short(x))
        elif op == "absent":
            x = make()
            ctx.check("list.not-in", x not in sl, short(x))
            sl.pop(x)
            if model:
                ctx.raises("list.absent", lambda: sl.remove(x), "remove of an absent entry", types=ValueError)
        elif op == "twin" and model:
            y = rng.choice(model)
            l = y.label.strip() if y.label != y.label.strip() and rng.random() < 0.8 else y.label + rng.choice(["2", "2", " ", "\n"])
            x = cls((start(y), l) if pts else (start(y), end(y), l))
            if any(ent(x) == ent(z) for z in model):
                continue
            ctx.op("twin", short(x))
            ctx.check("list.not-in", x not in sl, short(x), "differs from", short(y))
            sl.pop(x)
            look(ctx, sl, model)
            if pts:
                sl.append(x)
                model.append(x)
        elif op == "reject" and model:
            x = make(other)
            ctx.op("reject", short(x))
            ctx.raises("list.class-reject", lambda: sl.append(x), "append of", short(x), types=ValueError)
            ctx.raises("list.class-reject", lambda: sl + [x], "+ of", short(x), types=ValueError)
            ctx.raises("list.class-reject", lambda: SequenceList(model[0], x), "list of two classes", types=ValueError)
        look(ctx, sl, model)
        if model:
            ctx.check("list.one-class", all(type(x) is sl.entry_class for x in sl), sl.entry_class, [type(x) for x in sl])
            ctx.check("list.one-class", sl.entry_class is cls, "the list's class changed to", sl.entry_class)
    if grew > 1:
        ctx.sig(cls.__name__, [t.split(" ")[0] for t in ctx.trace], len(model))
