"""Cropping or splitting a match partitions exactly the characters it must, on copies."""

import threading

from rebulk import Rebulk
from rebulk.match import Match

from vh import util

RULE = (
    "matches (built directly or found by patterns with children, formatters, tags, parents) cropped by 1-4 spans or "
    "matches and split by separators; oracle: set of characters left, maximal runs; the cropped match itself must not "
    "change, pieces carry its name, tags and privacy; non-trivial: at least one piece differs from the match"
)
QUICK = 24000
THOROUGH = 300000
BACKENDS = ["re"]


class Registry:
    """An object of the caller: what it holds may neither be copied nor replaced."""

    def __init__(self):
        self.lock = threading.Lock()
        self.seen = []

    def convert(self, text):
        self.seen.append(text)
        return text.title()

    def solve(self, match, other):
        return "__default__"


def make(rng, s):
    length = len(s)
    a = rng.randint(0, length - 1)
    b = rng.randint(a + 1, length)
    if rng.random() < 0.3:
        a, b = 0, length
    kw = dict(name=rng.choice([None, "n"]), tags=rng.sample(["t", "u"], rng.randint(0, 2)), private=rng.choice([None, True]), marker=rng.choice([None, None, True]))
    if rng.random() < 0.3:
        kw["value"] = rng.choice(["v", 3, ["v"], 0])
    elif rng.random() < 0.4:
        kw["formatter"] = rng.choice([str.upper, len, Registry().convert])
    if rng.random() < 0.1:
        kw["conflict_solver"] = Registry().solve
    if rng.random() < 0.3:
        kw["parent"] = Match(0, length, input_string=s, name="p")
    m = Match(a, b, input_string=s, **kw)
    if rng.random() < 0.3:
        m.children.append(Match(a, a + 1, parent=m, name="c", input_string=s))
    if rng.random() < 0.2:
        # a processor may set raw bounds apart from the span
        m.raw_start = rng.choice([None, rng.randint(0, b - 1)])
        m.raw_end = rng.choice([None, rng.randint(m.raw_start + 1, length)])
    return m


def runs(chars):
    out = []
    for p in sorted(chars):
        if out and out[-1][1] == p:
            out[-1][1] = p + 1
        else:
            out.append([p, p + 1])
    return [tuple(r) for r in out]


def case(rng, rec, i):
    length = rng.choice([2, 6, 14]) if i % 61 != 7 else 80
    s = "".join(rng.choice("abcd-_ ") for _ in range(length))
    if rng.random() < 0.75:
        m = make(rng, s)
    else:
        found = Rebulk(default_rules=False).regex(
            r"[a-d]+[-_ ](?P<x>[a-d])?", name="n", every=rng.random() < 0.5, tags=["t"], formatter=rng.choice([None, Registry().convert]), conflict_solver=rng.choice([None, Registry().solve])
        ).matches(s)
        if not found:
            return
        m = rng.choice(list(found))
    before = util.dump(m)
    whole = range(m.start, m.end)

    def pieces_ok(pieces, want, what):
        rec.expect(sorted(p.span for p in pieces), want, what)
        for p in pieces:
            rec.require(p is not m, f"pieces are copies ({what})", p)
            rec.expect((p.name, p.tags, bool(p.private), bool(p.marker), p.formatter), (m.name, m.tags, bool(m.private), bool(m.marker), m.formatter), "attributes of a piece")
            rec.require(p.pattern is m.pattern and p.conflict_solver == m.conflict_solver, "a piece comes from the pattern of the match, with its conflict solver", p)
            rec.require(p.tags is not m.tags, "a piece has its own tags")
            # (a match left whole keeps its explicit raw bounds)
            rec.expect(p.raw, s[p.start : p.end] if p.span != m.span else m.raw, "raw value of a piece")
            rec.expect(p.value, m.value if m.has_literal_value else (m.formatter(p.raw) if m.formatter else p.raw), "value of a piece")
        rec.expect(util.dump(m), before, f"the match itself after {what}")
        # pieces are independent of each other and of the match
        if pieces:
            mine = rng.choice(list(pieces))
            others = [p for p in pieces if p is not mine]
            dumps = [util.dump(p) for p in others]
            mine.tags.append("mine")
            mine.name = "mine"
            mine.children.append(Match(mine.start, mine.end, name="mine", input_string=s))
            if mine.has_literal_value and isinstance(mine.value, list):
                mine.value.append("mine")
            rec.expect([util.dump(p) for p in others], dumps, f"other pieces after changing one ({what})")
            rec.expect(util.dump(m), before, f"the match itself after changing a piece ({what})")

    # crop
    crops = []
    small = rng.random() < 0.3  # many pieces
    for _ in range(rng.randint(4, 7 if length < 20 else 30) if small else rng.randint(1, 4)):
        a = rng.randint(0, length - 1)
        b = a + 1 if small and rng.random() < 0.9 else rng.randint(a + 1, length)
        crops.append(rng.choice([(a, b), Match(a, b, input_string=s), Match(a, b, input_string=s, parent=Match(0, length, input_string=s), private=True, name="n")]))
    arg = crops[0] if len(crops) == 1 and rng.random() < 0.6 else crops
    rec.note(repr(s), m, "crops", arg)
    spans = [c.span if isinstance(c, Match) else c for c in crops]
    left = {p for p in whole if not any(a <= p < b for a, b in spans)}
    # touching crops may leave touching pieces: compare characters, then maximal runs
    # (a list, or any other iterable)
    given = arg if arg is not crops else rng.choice([list, list, tuple, iter, set, lambda c: (x for x in c), lambda c: dict.fromkeys(c).keys()])(arg)
    got = m.crop(given)
    chars = [p for g in got for p in range(g.start, g.end)]
    rec.expect(sorted(chars), sorted(left), "characters left by a crop")
    rec.require(all(g.start < g.end for g in got), "no empty piece", got)
    pieces_ok(got, runs(left), "crop")
    pred = lambda g: g.start % 2 == 0
    rec.expect(sorted(g.span for g in m.crop(arg, predicate=pred)), sorted(g.span for g in got if pred(g)), "crop with predicate")
    one = m.crop(arg, index=0)
    first = m.crop(arg)[:1]  # (the order of pieces may be the one of the crops)
    rec.expect(one and one.span, first[0].span if first else None, "crop with index")

    # split
    seps = rng.choice(["-", "-_", " -_", "a", "x", "abcd-_ "])
    rec.note("split", repr(seps))
    want = runs({p for p in whole if s[p] not in seps})
    got2 = m.split(seps)
    rec.expect([g.span for g in got2], want, "split in order")
    pieces_ok(got2, want, "split")
    rec.expect([g.span for g in m.split(seps, predicate=pred)], [x for x in want if x[0] % 2 == 0], "split with predicate")
    one = m.split(seps, index=-1)
    rec.expect(one and one.span, want[-1] if want else None, "split with index")
    if [g.span for g in got] != [m.span] or len(got2) > 1:
        rec.state(s, m.span, spans, seps)
        rec.sample((s, m, spans, got, seps, got2))
