"""Matching is local: texts kept apart by characters no pattern matches are searched as if alone."""

from rebulk import Rebulk, RemoveMatch, RenameMatch, Rule
from rebulk.rules import AppendTags

from vh import chains, gen, pipe

RULE = (
    "random rebulks (strings, regular expressions with lookarounds, functional patterns, chains with repeaters, nested "
    "chains, processors and breakers, options of every kind, conflict solvers, rules working match by match) searched over "
    "1-5 random texts joined by runs of characters no pattern matches, and over each text alone; the matches and markers "
    "within each text, in their order, must be those found in that text alone, moved, and there must be no others; "
    "non-trivial: at least two texts with matches, distinct (configuration, texts)"
)
QUICK = 24000
THOROUGH = 300000

NEUTRAL = "§¤¶"
REGEX = [
    "a+",
    "(?P<n1>a)b?",
    "[ab]+",
    r"\d",
    r"\d-?",
    "(?P<n2>[ab])(?P<n1>1)?",
    "b(?=a)",
    "(?<=a)b",
    r"\b[ab1]+\b",
    r"(a)(b)?",
    r"\w(?!\w)",
    r"(?P<n3>\d)(?P<n2>[ab])|-",
]


def digits(text):
    return [(k, k + 1) for k, c in enumerate(text) if c == "1"]


def pairs(text):
    return [(k, k + 2, {"name": "pair", "tags": ["pt"]}) for k in range(len(text) - 1) if text[k] == text[k + 1] and text[k] in "ab1-"]


def first(m, c):
    return c if (m.start, m.end, m.name or "") < (c.start, c.end, c.name or "") else m


def never(m, c):
    return None


def touching(m, others):
    return any(o is not m and (o.start == m.end or o.end == m.start) for o in others)


class Rename(Rule):
    priority = 10
    consequence = RenameMatch("renamed")

    def when(self, matches, context):
        return [m for m in matches if m.raw == "a"]


class Drop(Rule):
    priority = 5
    consequence = RemoveMatch

    def when(self, matches, context):
        return [m for m in matches if len(m) == 1 and matches.next(m, lambda o: o.start == m.end, 0) is not None]


class Tag(Rule):
    priority = -5
    consequence = AppendTags(["near"])

    def when(self, matches, context):
        return [m for m in matches if touching(m, matches)]


RULES = [Rename, Drop, Tag]


def seen(m, shift, depth=0):
    return (
        m.start - shift,
        m.end - shift,
        m.raw_start - shift,
        m.raw_end - shift,
        m.raw,
        m.name,
        repr(m.value),
        tuple(m.tags),
        bool(m.private),
        bool(m.marker),
        None if m.parent is None else (m.parent.start - shift, m.parent.end - shift, m.parent.name),
        tuple(seen(c, shift, depth + 1) for c in m.children) if depth < 4 else (),
    )


def build(rng):
    r = Rebulk(default_rules=rng.random() < 0.7)
    desc = []
    for _ in range(rng.randint(1, 4)):
        kind = rng.choice(["string", "regex", "regex", "functional", "chain", "chain"])
        opts = pipe.options(rng, gen.NAMES)
        if rng.random() < 0.3:
            opts["conflict_solver"] = rng.choice([first, never])
        if kind == "string":
            pats = [rng.choice(["a", "b", "ab", "1", "-", "ba", "aa"]) for _ in range(rng.randint(1, 2))]
            if rng.random() < 0.2:
                opts["ignore_case"] = True
            r.string(*pats, **opts)
        elif kind == "regex":
            pats = [rng.choice(REGEX) for _ in range(rng.randint(1, 2))]
            r.regex(*pats, **opts)
        elif kind == "functional":
            f = rng.choice([digits, pairs])
            pats = [f.__name__]
            r.functional(f, **{k: v for k, v in opts.items() if k not in ("children",)})
        else:
            opts.pop("conflict_solver", None)
            spec = chains.rand_chain(rng, opts)
            for part in spec["parts"]:
                if part["kind"] == "chain" and part["opts"].get("validator") is pipe.v_start:
                    part["opts"]["validator"] = pipe.v_even  # (parts are searched in what is left of the text)
            spec["breaker"] = rng.choice([None, None, None, few, dashed])
            pats = chains.shape(spec)
            chains.build(r, spec)
        desc.append((kind, pats, sorted(opts)))
    rules = [x for x in RULES if rng.random() < 0.25]
    r.rules(*rules)
    return r, (desc, [x.__name__ for x in rules])


def few(ms):
    return len(ms) > 3


def dashed(ms):
    return any(m.raw == "-" for m in ms)


def case(rng, rec, i):
    r, desc = build(rng)
    texts = [chains.text(rng) for _ in range(rng.choice([1, 2, 2, 3, 5]))]
    gap = lambda at, least: "".join(rng.choice(NEUTRAL) for _ in range(least + (-(at + least)) % 3 + rng.choice([0, 0, 3])))
    whole = gap(0, rng.choice([0, 0, 1]))
    places = []
    for k, t in enumerate(texts):
        places.append((len(whole), len(whole) + len(t)))
        # (validators may depend on the position modulo 3)
        whole += t
        if k + 1 < len(texts) or rng.random() < 0.5:
            whole += gap(len(whole), 1)
    rec.note("configuration", desc, "text", repr(whole))
    alone = [r.matches(t) for t in texts]
    together = r.matches(whole)
    busy = 0
    for what in ("matches", "markers"):
        get = (lambda ms: list(ms)) if what == "matches" else (lambda ms: list(ms.markers))
        everything = get(together)
        found = 0
        for (a, b), t, ms in zip(places, texts, alone):
            here = [seen(m, a) for m in everything if a <= m.start and m.end <= b]
            rec.expect(here, [seen(m, 0) for m in get(ms)], f"{what} of a text among others", kind="alone or among others")
            found += len(here)
            busy += bool(here)
        rec.expect(len(everything), found, f"{what} are all within the texts", kind="no match across texts")
    rec.count("matches", len(together))
    if busy >= 2:
        rec.state(desc, whole)
        rec.sample((desc, whole, [(m.span, m.name) for m in together]))
