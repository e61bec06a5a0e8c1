"""Reading a match list (or converting it) never changes it."""

import copy

from rebulk import Key, Rebulk
from rebulk.match import Match, Matches

from vh import gen, lists, util

RULE = (
    "match lists (built by hand and by random rebulks, with literal list values, markers, children) put through random "
    "sequences of every query, conversion and projection, the returned lists being damaged afterwards; a deep snapshot "
    "of the list, its lookups and its matches before and after must be identical, and each query must answer the same "
    "when repeated; non-trivial: non empty list, distinct (list, queries)"
)
QUICK = 24000
THOROUGH = 300000
BACKENDS = ["re"]


def snap(ms, length):
    return (
        lists.ids(ms),
        [util.dump(m) for m in ms],
        [copy.copy(m.value) if isinstance(m.value, list) else m.value for m in ms],
        [lists.ids(ms.named(n)) for n in ("x", "y", "z")],
        [lists.ids(ms.tagged(t)) for t in lists.TAGS],
        [(lists.ids(ms.starting(p)), lists.ids(ms.ending(p)), lists.ids(ms.at_index(p))) for p in range(length + 1)],
        sorted(n for n in ms.names),
        sorted(ms.tags),
        ms.max_end,
        ms.input_string,
        repr(ms),
        dict(ms.declared_keys),
    )


def norm(x):
    if isinstance(x, Match):
        return ("M", x.span, x.name, repr(x.value))
    if isinstance(x, dict):
        return ("D", [(k, norm(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple, set, Matches)):
        return [norm(v) for v in x]
    return repr(x)


def case(rng, rec, i):
    big = i % 61 == 7
    length = rng.choice([3, 8, 12]) if not big else 48
    s = ("abcdefghijkl" * 4)[:length]
    lit = [["v1"], ["v1", "v2"], "v", 3]
    if rng.random() < 0.6:
        items = lists.matches(rng, rng.choice([1, 3, 6]) if not big else 30, length, s)
        for m in items:
            if rng.random() < 0.4:
                m.value = rng.choice(lit)
            if rng.random() < 0.08:
                m.input_string = "0123456789ABCDEF"  # matches of several texts may be put together
        ms = Matches(items, input_string=s)
    else:
        r = Rebulk(default_rules=rng.random() < 0.5)
        r.regex(rng.choice([r"(?P<x>\w)(?P<y>\w)", "(?P<x>a.)c", r"\w\w"]), name=rng.choice(["x", "y", "z"]), value=rng.choice([None, ["v1"]]), children=rng.random() < 0.4, tags=["t1"])
        r.string(*"adgj", name="x", tags=["t2"], value=rng.choice([None, ["v1"], "w"]))
        r.string("b", marker=True, name="mk")
        if rng.random() < 0.5:
            r.declare_keys(Key("x", str))
        ms = r.matches(s)
    if not ms:
        return
    rec.note("list", list(ms))
    before = snap(ms, length)
    markers_before = [util.dump(m) for m in ms.markers]
    pick = rng.choice(list(ms))
    other = Match(rng.randint(0, length), length, name="q", input_string=s)
    p = rng.randint(-3, length + 40)
    key = Key("x", str)
    queries = {
        "named": lambda: ms.named("x", "nope"),
        "named1": lambda: ms.named("x"),
        "named_y": lambda: ms.named("y"),
        "named_all": lambda: ms.named("x", "y", "z"),
        "tagged2": lambda: ms.tagged("t2"),
        "starting0": lambda: ms.starting(pick.start),
        "ending0": lambda: ms.ending(pick.end),
        "nope": lambda: ms.named(rng.choice(["nope", "zz", "unknown"])),
        "tagged": lambda: ms.tagged("t1"),
        "tagged0": lambda: ms.tagged("nope"),
        "starting": lambda: ms.starting(p),
        "ending": lambda: ms.ending(p),
        "previous": lambda: ms.previous(pick),
        "next": lambda: ms.next(pick),
        "previous2": lambda: ms.previous(other),
        "next2": lambda: ms.next(other),
        "range": lambda: ms.range(0, p),
        "conflicting": lambda: ms.conflicting(pick),
        "conflicting2": lambda: ms.conflicting(other),
        "at_match": lambda: ms.at_match(pick),
        "at_span": lambda: ms.at_span((max(p, 0), max(p, 0) + 2)),
        "at_index": lambda: ms.at_index(p),
        "at_index0": lambda: ms.at_index(pick.start),
        "holes": lambda: ms.holes(0, max(p, 0)),
        "holes2": lambda: ms.holes(1, seps="c"),
        "chain_before": lambda: ms.chain_before(pick, "abc"),
        "chain_after": lambda: ms.chain_after(pick, "abc"),
        "to_dict": lambda: ms.to_dict(),
        "to_dict_f": lambda: ms.to_dict(first_value=True),
        "to_dict_l": lambda: ms.to_dict(enforce_list=True),
        "to_dict_d": lambda: ms.to_dict(details=True),
        "values_list": lambda: ms.to_dict().values_list,
        "key": lambda: ms[key],
        "all": lambda: ms.all(key),
        "to": lambda: ms.to(list[str]),
        "names": lambda: sorted(ms.names),
        "tags": lambda: sorted(ms.tags),
        "max_end": lambda: ms.max_end,
        "slice": lambda: ms[0:2],
        "crop": lambda: pick.crop([(0, 1)]),
        "split": lambda: pick.split("bc") if pick.raw else None,
        "crop2": lambda: damaged(pick.crop([(pick.start + 1, pick.start + 2)])),
        "split2": lambda: damaged(pick.split("bcfj")) if pick.raw else None,
        "reversed": lambda: list(reversed(ms)),
        "repr": lambda: repr(ms),
        "pred": lambda: ms.named("x", predicate=lambda m: m.start > 2),
        "index": lambda: ms.at_index(pick.start, 0),
        "count": lambda: (ms.count(pick), pick in ms, other in ms),
    }

    def damaged(pieces):
        """Pieces are copies: what is done to them does not reach the list."""
        got = norm(pieces)
        for piece in pieces:
            piece.tags.append("dirty")
            piece.name = "dirty"
            piece.children.clear()
            if isinstance(piece.value, list):
                piece.value.append("dirty")
        return got

    asked = []
    for _ in range(rng.randint(1, 12)):
        q = rng.choice(list(queries))
        if q == "nope":
            queries[q]()
            asked.append(q)
            continue
        a = queries[q]()
        first = norm(a)
        if type(a) is list or isinstance(a, Matches):
            if rng.random() < 0.7 and q != "key":  # (the value of a match itself)
                a.clear()  # what is returned belongs to the caller
                rec.count("returned_lists_damaged")
        b = queries[q]()
        rec.expect(norm(b), first, f"repeating {q}")
        asked.append(q)
    rec.note("queries", asked, p)
    after = snap(ms, length)
    for a, b, what in zip(after, before, ["content", "matches", "values", "named", "tagged", "positions", "names", "tags", "max_end", "input", "repr", "keys"]):
        rec.expect(a, b, f"{what} after queries")
    rec.expect([util.dump(m) for m in ms.markers], markers_before, "markers after queries")
    rec.state(asked, [(m.span, m.name) for m in ms])
    rec.sample((asked, list(ms)))
