"""Position queries answer what a scan of the list answers, with predicate and index applied uniformly."""

from rebulk.match import Markers, Match, Matches

from vh import lists

RULE = (
    "random match and marker lists (overlapping, nested, equal duplicates, touching both ends of the input, with and "
    "without input string, optionally edited after their lookups were used) queried at every position and for every "
    "match, inside and outside the list; oracle: brute-force scan; each query again with a random predicate and index, "
    "which must select from the plain answer; non-trivial: at least two matches, distinct list"
)
QUICK = 15000
THOROUGH = 200000
BACKENDS = ["re"]


def same(a, b):
    return a is b or (a.span == b.span and a.value == b.value and a.name == b.name)


def unique(seq):
    out = []
    for m in seq:
        if not any(same(m, o) for o in out):
            out.append(m)
    return out


def variants(rng, rec, ask, full, what):
    """A predicate filters the plain answer, then an index picks one of it (or None)."""
    pred = rng.choice([lambda m: m.start % 2 == 0, lambda m: m.name == "x", lambda m: "t1" in m.tags, lambda m: len(m) > 1, lambda m: []])
    idx = rng.choice([0, 0, 1, 2, -1, -2, 7, -9])
    kept = [m for m in full if pred(m)]
    rec.expect(lists.ids(ask(predicate=pred)), lists.ids(kept), what + " with predicate", kind="predicate")

    def pick(seq):
        return seq[idx] if -len(seq) <= idx < len(seq) else None

    rec.require(ask(index=idx) is pick(full), what + " with index", idx, full, kind="index")
    rec.require(ask(predicate=pred, index=idx) is pick(kept), what + " with predicate and index", idx, kept, kind="index")
    rec.require(ask(predicate=idx) is pick(full), what + " with index given as predicate", idx, full, kind="index")
    # given by position
    rec.expect(lists.ids(ask(pred)), lists.ids(kept), what + " with predicate given by position", kind="predicate")
    rec.require(ask(pred, idx) is pick(kept), what + " with predicate and index given by position", idx, kept, kind="index")
    rec.require(ask(None, idx) is pick(full), what + " with no predicate and index given by position", idx, full, kind="index")
    rec.require(ask(idx) is pick(full), what + " with index given by position", idx, full, kind="index")


def case(rng, rec, i):
    big = i % 61 == 7
    length = rng.choice([2, 5, 9, 14]) if not big else rng.choice([42, 42, 210])
    s = rng.choice([None, ("abcdefghijklmn" * 15)[:length]])
    marker = rng.random() < 0.2
    items = lists.matches(rng, None if not big else rng.choice([40, 40, 2, 4]), length, s, dup=0.2)
    cls = Matches
    if marker:
        cls = Markers
        for m in items:
            m.marker = True
    # a list may know less text than its matches cover (matches added by hand)
    held = s if s is None or rng.random() < 0.7 else s[: rng.randint(0, length)]
    ms = cls(list(items), input_string=held)
    if items and rng.random() < 0.5:
        # use the lookups, then edit the list
        ms.at_index(0), ms.starting(1), ms.ending(1), ms.named("x"), ms.tagged("t1")
        for _ in range(rng.randint(1, 3)):
            if rng.random() < 0.5 and items:
                m = rng.choice(items)
                ms.remove(m)
                items = [o for o in items if o is not m]
            else:
                m = lists.match(rng, length, s, marker=marker)
                ms.append(m)
                items.append(m)
    rec.note("list", items, s, held)
    top = max([m.end for m in items] + [len(held) if held else 0])
    rec.expect(ms.max_end, top, "maximum end")
    span_of = lambda: (lambda a: (a, a + rng.randint(1, 4)))(rng.randint(0, length))
    probes = list(items) + [Match(*span_of(), name="probe", input_string=s) if rng.random() < 0.6 else lists.match(rng, max(length, 1), s) for _ in range(2)]
    for m in probes:
        if not m:
            continue
        # nearest previous: the matches ending at the closest position not after its start
        ends = [o.end for o in items if o.end <= m.start]
        want = [o for o in items if ends and o.end == max(ends)]
        rec.expect(lists.ids(ms.previous(m)), lists.ids(want), "previous")
        starts = [o.start for o in items if o.start > m.start]
        want2 = [o for o in items if starts and o.start == min(starts)]
        rec.expect(lists.ids(ms.next(m)), lists.ids(want2), "next")
        # every distinct match sharing a character, but itself
        got = ms.conflicting(m)
        want3 = unique(o for o in items if max(o.start, m.start) < min(o.end, m.end) and not same(o, m))
        rec.require(all(any(o is g for o in items) for g in got), "conflicting matches are matches of the list", got)
        rec.expect(sorted((g.span, str(g.name), repr(g.value)) for g in got), sorted((g.span, str(g.name), repr(g.value)) for g in want3), "conflicting")
        rec.expect(ms.at_match(m), ms.at_span(m.span), "at_match")
        if rng.random() < 0.3:
            variants(rng, rec, lambda *a, **k: ms.previous(m, *a, **k), want, "previous")
            variants(rng, rec, lambda *a, **k: ms.next(m, *a, **k), want2, "next")
            variants(rng, rec, lambda *a, **k: ms.conflicting(m, *a, **k), list(got), "conflicting")
            variants(rng, rec, lambda *a, **k: ms.at_match(m, *a, **k), list(ms.at_match(m)), "at_match")
    for p in range(-1, top + 2):
        at = [o for o in items if o.start <= p < o.end]
        st = [o for o in items if o.start == p]
        en = [o for o in items if o.end == p]
        rec.expect(lists.ids(ms.at_index(p)), lists.ids(at), "at_index")
        rec.expect(lists.ids(ms.starting(p)), lists.ids(st), "starting")
        rec.expect(lists.ids(ms.ending(p)), lists.ids(en), "ending")
        if rng.random() < 0.3:
            variants(rng, rec, lambda *a, **k: ms.at_index(p, *a, **k), at, "at_index")
            variants(rng, rec, lambda *a, **k: ms.starting(p, *a, **k), st, "starting")
            variants(rng, rec, lambda *a, **k: ms.ending(p, *a, **k), en, "ending")
    for _ in range(4):
        a, b = span_of()
        want = unique([o for o in items if o.start <= a < o.end] + [o for o in items if o.start <= b - 1 < o.end])
        got = ms.at_span((a, b))
        rec.require(all(any(o is g for o in items) for g in got), "at_span matches are matches of the list", got)
        # equal duplicates at the first position are both kept: compare without duplicates
        rec.expect([(g.span, g.name, repr(g.value)) for g in unique(got)], [(g.span, g.name, repr(g.value)) for g in want], "at_span")
        variants(rng, rec, lambda *x, **k: ms.at_span((a, b), *x, **k), list(got), "at_span")
        lo, hi = rng.randint(0, length + 1), rng.choice([None, rng.randint(0, length + 2)])
        bound = top if hi is None else min(hi, top)
        want = sorted([o for o in items if o.start < bound and o.end > lo], key=lambda o: o.span)
        got = ms.range(lo, hi)
        rec.expect(sorted(lists.ids(got)), sorted(lists.ids(want)), "range")
        rec.expect([g.span for g in got], [g.span for g in want], "range order")
        variants(rng, rec, lambda *x, **k: ms.range(lo, hi, *x, **k), list(got), "range")
        want = sorted([o for o in items if o.start < bound and o.end > 0], key=lambda o: o.span)
        rec.expect(sorted(lists.ids(ms.range(end=hi))), sorted(lists.ids(want)), "range from the beginning")
    for name in ("x", "y", "nope"):
        want = [o for o in items if o.name == name]
        rec.expect(lists.ids(ms.named(name)), lists.ids(want), "named")
        variants(rng, rec, lambda *x, **k: ms.named(name, *x, **k), want, "named")
    order = rng.sample(["x", "y", "z", "nope"], rng.randint(2, 4))
    want = [o for n in order for o in items if o.name == n]
    rec.expect(lists.ids(ms.named(*order)), lists.ids(want), "named with several names")
    variants(rng, rec, lambda *x, **k: ms.named(*order, *x, **k), want, "named with several names")
    twice = order + rng.sample(order, 1)
    rec.expect(lists.ids(ms.named(*twice)), lists.ids(want), "named with a repeated name")
    for tag in ("t1", "nope"):
        want = [o for o in items if tag in o.tags]
        rec.expect(lists.ids(ms.tagged(tag)), lists.ids(want), "tagged")
        variants(rng, rec, lambda *x, **k: ms.tagged(tag, *x, **k), want, "tagged")
    if len(items) >= 2:
        rec.state([(m.span, m.name) for m in items], s, marker)
        rec.sample(items)
