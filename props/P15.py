"""Holes are exactly the uncovered parts of the requested range."""

from rebulk.match import Match, Matches

from vh import lists

RULE = (
    "random match lists over random input, holes asked for random ranges (also outside the input), with random ignore "
    "functions, separators, formatters, predicates and indices; oracle: set of uncovered characters computed naively; "
    "non-trivial: at least one match and one hole, distinct (list, range, separators)"
)
QUICK = 60000
THOROUGH = 800000
BACKENDS = ["re"]


def case(rng, rec, i):
    big = i % 61 == 7
    length = rng.choice([1, 4, 10, 16]) if not big else 120
    s = "".join(rng.choice("ab-_ c") for _ in range(length))
    use_string = rng.random() < 0.9
    items = lists.matches(rng, rng.choice([0, 1, 2, 3, 5]) if not big else rng.choice([2, 25]), length, s if use_string else None)
    full = s
    if use_string and rng.random() < 0.2:  # a list may know less text than its matches cover
        s = s[: rng.randint(1, length)]
    ms = Matches(list(items), input_string=s if use_string else None)
    sep = lambda p: p < len(s) and s[p] in seps
    start = rng.choice([0, 0, rng.randint(0, length + 3)])
    end = rng.choice([None, None, rng.randint(0, length + 5)])
    seps = rng.choice([None, None, "-", "-_", " -_", " -_.c", "._- "]) if use_string else None
    ignore = rng.choice([None, None, lambda m: m.name == "x", lambda m: m.start % 2, lambda m: True, lambda m: "t1" in m.tags])
    formatter = rng.choice([None, None, lambda v: "<" + v + ">"]) if use_string else None
    rec.note(repr(s), repr(full), items, start, end, seps, ignore)
    kw = {}
    if ignore:
        kw["ignore"] = ignore
    if seps:
        kw["seps"] = seps
    if formatter:
        kw["formatter"] = formatter
    holes = ms.holes(start, end, **kw)

    top = max([m.end for m in items] + [len(s) if use_string else 0])
    bound = top if end is None else min(end, top)
    kept = [m for m in items if not (ignore and ignore(m))]
    free = [p for p in range(start, bound) if not any(m.start <= p < m.end for m in kept)]
    runs = []
    for p in free:
        if runs and runs[-1][1] == p:
            runs[-1][1] = p + 1
        else:
            runs.append([p, p + 1])
    got = [h.span for h in holes]
    rec.require(all(isinstance(h, Match) for h in holes), "holes are matches", holes)
    rec.require(all(a < b for a, b in got), "no empty hole", got)
    if not seps:
        rec.expect(got, [tuple(r) for r in runs], "holes")
    else:
        covered = [p for a, b in got for p in range(a, b)]
        rec.expect(covered, sorted(set(covered)), "holes are disjoint and sorted")
        rec.require(set(covered) <= set(free), "holes cover only what no match covers", got, free)
        rec.require({p for p in free if not sep(p)} <= set(covered), "holes cover every uncovered character but separators", got, free)
        where = {p: k for k, (a, b) in enumerate(got) for p in range(a, b)}
        for p in free:
            if p + 1 in where and p in where and not sep(p) and not sep(p + 1):
                rec.require(where[p] == where[p + 1], "holes are split at separators only", got)
        for a, b in got:
            rec.require(not any(c in seps for c in s[a + 1 : b]), "a hole stops at a separator", s[a:b])
    if use_string:
        for h in holes:
            raw = s[h.start : h.end]
            rec.expect(h.raw, raw, "raw value of a hole")
            rec.expect(h.value, formatter(raw) if formatter else raw, "value of a hole")
    pred = rng.choice([lambda m: len(m) > 1, lambda m: m.start % 2 == 0])
    idx = rng.choice([0, 1, -1, 5])
    want = [h.span for h in holes if pred(h)]
    rec.expect([h.span for h in ms.holes(start, end, predicate=pred, **kw)], want, "holes with predicate")
    one = ms.holes(start, end, predicate=pred, index=idx, **kw)
    rec.expect(one and one.span, want[idx] if -len(want) <= idx < len(want) else None, "holes with index")
    if start == 0:
        rec.expect([h.span for h in ms.holes(end=end, **kw)], got, "holes from the beginning")
    rec.expect(lists.ids(ms), lists.ids(items), "list after holes")
    if items and holes:
        rec.state([m.span for m in items], start, end, seps, s)
        rec.sample((s, items, start, end, seps, holes))
