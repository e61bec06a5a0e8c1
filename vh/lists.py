"""Random match lists and their brute-force lookups."""

from __future__ import annotations

from rebulk.match import Match, Matches

NAMES = ["x", "y", "z", None]
TAGS = ["t1", "t2", "t3", "t4", "t5", "t6"]


def match(rng, length, s=None, span=None, **kw):
    if span is None:
        a = rng.randint(0, max(0, length - 1))
        span = (a, min(length, a + rng.choice([1, 1, 2, 3, 5] if length < 20 else [1, 1, 2, 3, 5, 13, length // 2, length])))
        if span[1] <= span[0]:
            span = (a, a + 1)
    args = dict(name=rng.choice(NAMES), tags=rng.sample(TAGS[:3], rng.choice([0, 0, 1, 2])), input_string=s)
    if rng.random() < 0.3:
        args["value"] = rng.choice(["v", "w", 1, 0])
    if rng.random() < 0.15:
        args["private"] = True
    if args["tags"] and rng.random() < 0.1:
        args["tags"] = args["tags"] * 2  # tags of defaults and of the pattern are joined
    if rng.random() < 0.08:
        args["tags"] = rng.sample(TAGS, rng.randint(3, 6))
        if rng.random() < 0.2:
            args["tags"] = args["tags"] + [f"u{k}" for k in range(rng.randint(5, 40))]
    args.update(kw)
    m = Match(span[0], span[1], **args)
    if rng.random() < 0.12:  # the bounds of what is raw are not the bounds of the match
        m.raw_start, m.raw_end = sorted((rng.randint(0, length), rng.randint(0, length)))
    return m


def matches(rng, n=None, length=None, s=None, dup=0.15):
    length = rng.choice([3, 8, 14]) if length is None else length
    n = rng.choice([0, 1, 2, 3, 5, 8, 12]) if n is None else n
    out = []
    for _ in range(n):
        if out and rng.random() < dup:
            o = rng.choice(out)
            # an equal but distinct match (tags and privacy may differ)
            out.append(Match(o.start, o.end, value=o.value if o.has_literal_value else None, name=o.name, tags=rng.sample(TAGS[:3], rng.choice([0, 1])), private=rng.choice([None, True]), input_string=s))
        elif rng.random() < 0.06:  # rules and processors may make matches of no length
            k = rng.randint(0, length)
            out.append(match(rng, length, s, span=(k, k)))
        else:
            out.append(match(rng, length, s))
    return out


def ids(seq):
    return [id(x) for x in seq]


def verify(rec, ms, model, length, label="", markers=False):
    """Every lookup of ``ms`` against a brute-force scan of the list it is supposed to hold."""
    rec.expect(ids(ms), ids(model), label + "content")
    rec.expect(len(ms), len(model), label + "length")
    top = max((m.end for m in model), default=0)
    if not ms.input_string:
        rec.expect(ms.max_end, top, label + "maximum end")
    else:
        rec.expect(ms.max_end, max(top, len(ms.input_string)), label + "maximum end")
    for name in ["x", "y", "z", "zz", "nope"]:
        rec.expect(ids(ms.named(name)), ids([m for m in model if m.name == name]), label + "named")
    for order in (["z", "x", "y"], ["nope", "y", "zz", "x", "u1", "z", "x"]):
        rec.expect(ids(ms.named(*order)), ids([m for n in dict.fromkeys(order) for m in model if m.name == n]), label + "named, several names")
    for tag in {t: None for m in model for t in m.tags} | {t: None for t in TAGS + ["nope"]}:
        rec.expect(ids(ms.tagged(tag)), ids([m for m in model if tag in m.tags]), label + "tagged")
    for p in range(-1, max(length, top) + 2):
        rec.expect(ids(ms.starting(p)), ids([m for m in model if m.start == p]), label + "starting")
        rec.expect(ids(ms.ending(p)), ids([m for m in model if m.end == p]), label + "ending")
        rec.expect(ids(ms.at_index(p)), ids([m for m in model if m.start <= p < m.end]), label + "at index")
    rec.expect(set(ms.names), {m.name for m in model if m.name}, label + "names")
    rec.expect(set(ms.tags), {t for m in model for t in m.tags}, label + "tags")
