"""Reference models over plain tuples (start, end, label)."""


def overlap(a, b):
    return min(a[1], b[1]) - max(a[0], b[0])


def container(x, uppers):
    """Index of the upper interval x overlaps most (None: overlaps none); second value: tie."""
    ov = [overlap(x, u) for u in uppers]
    if not ov or max(ov) <= 1e-12:
        return None, False
    m = max(ov)
    return ov.index(m), sum(1 for o in ov if abs(o - m) < 1e-9) > 1


def fill(kids, lo, hi):
    """Blank intervals for what kids leave of [lo, hi]."""
    out, pos = [], lo
    for k in sorted(kids):
        if k[0] - pos > 1e-6:
            out.append((pos, k[0], ""))
        pos = k[1]
    if hi - pos > 1e-6:
        out.append((pos, hi, ""))
    return out


def by_time(rows):
    return sorted(rows, key=lambda r: (r[0], r[1]))


def relate(levels):
    """Grouping of nested levels: blank fill inside supersets, no other change.
    Returns (levels, parents): parents[l][i] index in level l-1 or None."""
    levels = [list(l) for l in levels]
    for l in range(len(levels) - 1):
        up, low = levels[l], levels[l + 1]
        if not up or not low:
            continue
        for u in up:
            kids = [x for x in low if container(x, up)[0] is not None and up[container(x, up)[0]] is u]
            low = low + fill(kids, u[0], u[1])
        levels[l + 1] = by_time(low)
    parents = [[None] * len(levels[0])]
    for l in range(len(levels) - 1):
        parents.append([container(x, levels[l])[0] for x in levels[l + 1]])
    return levels, parents


def tidy(levels, lo=None, hi=None):
    """What cleanup of a group has to end with: every level tiles the span, source intervals kept,
    fillers only where a level had nothing; gap boundaries follow the levels' own gaps."""
    levels = [list(l) for l in levels]
    # project intervals without a superset upwards, bottom level first
    for l in range(len(levels) - 1, 0, -1):
        for x in levels[l]:
            if container(x, levels[l - 1])[0] is None:
                levels[l - 1] = by_time(levels[l - 1] + [(x[0], x[1], "")])
    every = [x for l in levels for x in l]
    if not every:
        return levels
    lo = min(x[0] for x in every) if lo is None else lo
    hi = max(x[1] for x in every) if hi is None else hi
    return levels, lo, hi


def close_rows(a, b, tol=1e-6):
    return len(a) == len(b) and all(abs(x[0] - y[0]) <= tol and abs(x[1] - y[1]) <= tol and x[2] == y[2] for x, y in zip(a, b))
