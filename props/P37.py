"""Every result of every search is well formed."""

from rebulk.match import Markers, Match, Matches

from vh import bulk, lists

RULE = (
    "random complete rebulks (patterns of every kind, chains, processors, rules, children) searched over random inputs "
    "and contexts; invariants evaluated on every match, marker and child of each result, every lookup of the result "
    "compared with a scan of it, holes and dict conversion checked against the content; non-trivial: at least two "
    "matches, distinct (configuration, input, context)"
)
QUICK = 24000
THOROUGH = 300000


def case(rng, rec, i):
    seed = rng.getrandbits(40)
    s, c = bulk.text(rng), rng.choice(bulk.CONTEXTS)
    rec.note("configuration", seed, repr(s), c)
    r = bulk.build(seed)
    patterns = {id(p) for p in r.effective_patterns(c)}
    ms = r.matches(s, dict(c) if c is not None else None)
    rec.require(isinstance(ms, Matches) and isinstance(ms.markers, Markers), "kinds of lists")
    rec.expect((ms.input_string, ms.markers.input_string), (s, s), "input of the result")

    def check(m, parent, depth):
        rec.require(isinstance(m, Match), "a result holds matches", m)
        rec.require(0 <= m.start < m.end <= len(s), "a match lies within the input and is not empty", m, kind="span")
        rec.expect((m.input_string, m.raw), (s, s[m.raw_start : m.raw_end]), "text of a match", kind="text")
        rec.expect(len(m), m.end - m.start, "length of a match", kind="text")
        if not m.has_literal_value:
            rec.expect(repr(m.value), repr(m.formatter(m.raw) if m.formatter else m.raw), "value of a match", kind="value")
        rec.require(isinstance(m.tags, list), "tags of a match", m.tags)
        if parent is not None:
            # a chain also holds the groups of its parts
            rec.require(m.parent is parent or any(m.parent is x for x in parent.children), "a child knows its parent", m, parent, kind="children")
            rec.require(parent.start <= m.start and m.end <= parent.end, "a child lies within its parent", m, parent, kind="children")
        if m.parent is not None:
            rec.require(m.parent.start <= m.start and m.end <= m.parent.end, "a match lies within its parent", m, m.parent, kind="children")
            top = m.parent
            while top.parent is not None:
                top = top.parent
            rec.require(m.initiator is top, "initiator is the top parent", m, m.initiator, kind="children")
        else:
            rec.require(m.initiator is m, "a match without parent is its own initiator", m, kind="children")
        if m.children:
            rec.expect(m.children.input_string, s, "input of the children", kind="text")
        for x in m.children:
            check(x, m, depth + 1)

    owners = {}
    for l in (ms, ms.markers):
        for m in l:
            check(m, None, 0)
            rec.require(id(m) not in owners, "a match is found once", m, kind="once")
            owners[id(m)] = m
            rec.expect(bool(m.marker), l is ms.markers, "markers are apart", kind="markers")
            p = m.initiator.pattern  # (a part of a chain has a pattern of its own)
            if p is not None:
                rec.require(id(p) in patterns, "a match comes from an enabled pattern", p, kind="pattern")
    for m in list(owners.values()):
        # siblings do not share what they own
        for o in owners.values():
            if o is not m:
                rec.require(o.tags is not m.tags, "two matches share no list of tags", m, o, kind="tags")
    if len(ms):
        lists.verify(rec, ms, list(ms), len(s), "lookup of a result: ")
    if len(ms.markers):
        lists.verify(rec, ms.markers, list(ms.markers), len(s), "lookup of markers: ")
    free = {p for p in range(len(s)) if not any(m.start <= p < m.end for m in ms)}
    rec.expect({p for h in ms.holes() for p in range(h.start, h.end)}, free, "matches and holes cover the input")
    d = ms.to_dict()
    rec.expect(sorted(id(m) for k in d.matches for m in d.matches[k]), sorted(id(m) for m in ms), "a dict holds every match")
    rec.expect(set(d), {m.name for m in ms}, "names of the dict")
    rec.count("matches", len(ms))
    rec.count("markers_seen", len(ms.markers))
    if len(ms) >= 2:
        rec.state(seed, s, c)
        rec.sample((seed, s, c, list(ms)))
