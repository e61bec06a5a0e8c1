"""chain_before / chain_after return the matches reachable through separators only."""

from rebulk.match import Match, Matches

from vh import lists

RULE = (
    "random match lists over strings mixing separators and other characters; chains asked before and after random "
    "positions and matches, with bounds, predicates and indices; oracle: character walk from the position; non-trivial: "
    "a non-empty chain, distinct (string, list, query)"
)
QUICK = 60000
THOROUGH = 800000
BACKENDS = ["re"]


def case(rng, rec, i):
    big = i % 61 == 7
    length = rng.choice([3, 8, 16]) if not big else 120
    s = "".join(rng.choice("ab-- _") for _ in range(length))
    items = lists.matches(rng, rng.choice([1, 2, 4, 7]) if not big else rng.choice([3, 40]), length, s)
    known = s if rng.random() < 0.8 else s[: rng.randint(1, length)]  # a list may know less text than its matches cover
    ms = Matches(list(items), input_string=known)
    top = max([m.end for m in items] + [len(known)])
    seps = rng.choice(["", "-", "- ", "-_ ", ".:-_ ", "ab-_ "])
    pred = rng.choice([None, None, lambda m: m.name == "x", lambda m: m.name in ("x", "y"), lambda m: m.start % 2 == 0, lambda m: "t1" in m.tags])
    before = rng.random() < 0.5
    position = rng.choice([rng.randint(0, length + 2), rng.choice(items), rng.choice(items)])
    if isinstance(position, Match) and rng.random() < 0.3:
        # a match that is not in the list, with a parent reaching further
        position = Match(position.start, position.end, parent=Match(0, length, input_string=s), input_string=s)
        if rng.random() < 0.5:
            position.raw_start, position.raw_end = sorted((rng.randint(0, length), rng.randint(0, length)))
    bound = rng.choice([None, None, rng.randint(0, length)])
    rec.note(repr(s), repr(known), items, "before" if before else "after", position, repr(seps), bound)
    kw = {"predicate": pred} if pred else {}
    if isinstance(position, Match):
        at = position.start if before else position.end
    else:
        at = position
    if before:
        walk = list(reversed(range(bound or 0, min(at, top))))
    else:
        walk = list(range(at, top if bound is None else min(bound, top)))
    want = []
    stopped = False
    for p in walk:
        here = [m for m in items if m.start <= p < m.end and (not pred or pred(m))]
        if here:
            for m in here:
                if not any(o.span == m.span and o.name == m.name and o.value == m.value for o in want):
                    want.append(m)
        elif p >= len(known) or known[p] not in seps:
            stopped = True
            break
    rec.count("walks_stopped_by_other_text", stopped)
    if before:
        args = (position, seps) + ((bound,) if bound is not None else ())
        ask = ms.chain_before
    else:
        args = (position, seps) + ((bound,) if bound is not None else ())
        ask = ms.chain_after
    got = ask(*args, **kw)
    rec.expect(lists.ids(got), lists.ids(want), "chain " + ("before" if before else "after"))
    idx = rng.choice([0, 0, 1, -1, 9])
    rec.require(ask(*args, index=idx, **kw) is (want[idx] if -len(want) <= idx < len(want) else None), "chain with index", idx, want)
    if want:
        rec.state(s, [m.span for m in items], before, at, bound, seps, [m.span for m in want])
        rec.sample((s, items, before, position, seps, got))
