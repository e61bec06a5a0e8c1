"""Match equality, hashing, ordering and value/raw rules are consistent for every pool of matches."""

import operator

from rebulk.match import Match, Matches

RULE = (
    "pools of 2-8 matches sharing spans, names, values and parents; all pairs and triples checked for the laws of "
    "equality, hashing and ordering; values read back through literal / formatter / raw precedence after random edits "
    "(value, raw bounds, name, tags); non-trivial: pool with an equal pair of distinct objects or a tie of spans, "
    "distinct pool"
)
QUICK = 48000
THOROUGH = 600000
BACKENDS = ["re"]


def spec(rng, length):
    a = rng.randint(0, length)
    return {
        "span": (a, min(length, a + rng.randint(0, 3))),
        "name": rng.choice([None, "a", "b", "a", "b", ""]),
        "value": rng.choice([None, None, "v", 0, 1, "", ["l"]]),
        "formatter": rng.choice([None, None, "upper", "len"]),
        "parent": rng.choice([None, None, ((0, length), "p", None), ((0, 1), "p", None), ((0, 1), "q", None), ((0, 1), "p", "pv")]),
        "tags": rng.sample(["t", "u"], rng.randint(0, 2)) if rng.random() < 0.8 else rng.sample(["t", "u", "v", "w", "x", "y"], rng.randint(3, 6)),
        "extra": (rng.randint(0, 3), rng.choice([None, True, False]), rng.choice([None, True, False]), rng.choice([None, "p1", "p2"])),
        "raw": rng.choice([None, None, None, (rng.randint(0, length), length)]),
    }


FMT = {None: None, "upper": str.upper, "len": len}


def build(sp, s):
    parent = Match(*sp["parent"][0], input_string=s, name=sp["parent"][1], value=sp["parent"][2]) if sp["parent"] else None
    m = Match(*sp["span"], value=sp["value"], name=sp["name"], tags=sp["tags"], formatter=FMT[sp["formatter"]], parent=parent, input_string=s)
    if sp["raw"]:
        m.raw_start, m.raw_end = sp["raw"]
    # attributes which are not part of the identity of a match
    m.match_index, m.private, m.marker, m.pattern = sp["extra"]
    return m


def raw_of(sp, s):
    a, b = sp["raw"] or sp["span"]
    return s[a:b] if s else None


def value_of(sp, s):
    if sp["value"] is not None:
        return sp["value"]
    raw = raw_of(sp, s)
    return FMT[sp["formatter"]](raw) if sp["formatter"] else raw


def ident(sp, s):
    return (sp["span"], repr(value_of(sp, s)), sp["name"], sp["parent"])


def case(rng, rec, i):
    length = rng.choice([2, 4, 8])
    s = "".join(rng.choice("abAB") for _ in range(length))
    specs = [spec(rng, length) for _ in range(rng.randint(2, 6) if i % 61 != 7 else 25)]
    for _ in range(rng.randint(0, 2)):  # equal, or nearly equal, copies
        c = dict(rng.choice(specs))
        if rng.random() < 0.6:
            key = rng.choice(list(c))
            c[key] = spec(rng, length)[key]
        specs.append(c)
    pool = [build(sp, s) for sp in specs]
    rec.note(repr(s), specs)
    for m, sp in zip(pool, specs):
        rec.expect(m.span, sp["span"], "span")
        rec.expect(len(m), sp["span"][1] - sp["span"][0], "length")
        rec.expect(m.raw, raw_of(sp, s), "raw")
        rec.expect(m.value, value_of(sp, s), "value")
        rec.expect(m.has_literal_value, sp["value"] is not None, "literal value")
        rec.expect((m.raw_start, m.raw_end), sp["raw"] or sp["span"], "raw bounds")
        rec.expect(m.tagged("t"), "t" in sp["tags"], "tagged")
        rec.expect(m.tagged("nope", "u"), "u" in sp["tags"], "tagged with several tags")
        rec.expect(m.tagged("n1", "n2", "n3", "n4", "u", "n5"), "u" in sp["tags"], "tagged with many tags")
        rec.expect(m.named("n1", "n2", "n3", "n4", "b", "n5"), sp["name"] == "b", "named with many names")
        rec.expect((m.tagged(), m.named()), (False, False), "tagged and named without anything asked")
        rec.expect((m.named("a"), m.named("nope", "b")), (sp["name"] == "a", sp["name"] == "b"), "named")
        top = m.parent if m.parent and len(m.parent) else m
        rec.require(m.initiator is top, "initiator", m.initiator)
        str(m), repr(m)
    # children are no part of what a match is compared by
    for m in pool:
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            m.children.append(Match(*m.span, name=rng.choice(["kid", None]), parent=m, input_string=s))
    dup = False
    for a, sa in zip(pool, specs):
        for b, sb in zip(pool, specs):
            same = ident(sa, s) == ident(sb, s)
            dup |= same and a is not b
            rec.require((a == b) is same, "equality is span, value, name and parent", sa, sb, kind="equality")
            rec.require((a != b) is not same, "inequality is the negation of equality", sa, sb, kind="equality")
            rec.require((b == a) is same, "equality is symmetric", sa, sb, kind="equality")
            if same:
                rec.require(hash(a) == hash(b), "equal matches have the same hash", sa, sb, kind="hash")
            rec.expect((a < b, a <= b, a > b, a >= b), (sa["span"] < sb["span"], sa["span"] <= sb["span"], sa["span"] > sb["span"], sa["span"] >= sb["span"]), "ordering by span", kind="ordering")
    for other in (None, 3, s, (0, 1)):
        rec.require((pool[0] == other) is False and (pool[0] != other) is True, "a match differs from another type", other)
        for compare in (operator.lt, operator.le, operator.gt, operator.ge):
            try:
                compare(pool[0], other)
            except TypeError:
                rec.ok("a match is not ordered with another type")
            else:
                rec.require(False, "a match is not ordered with another type", other)
    got = sorted(pool)
    want = sorted(range(len(pool)), key=lambda k: specs[k]["span"])
    rec.expect([id(m) for m in got], [id(pool[k]) for k in want], "sorting is by span and stable")
    rec.expect(len({id(x) for x in set(pool)}), len({ident(sp, s) for sp in specs}), "set of matches")

    # a match stays findable while its value, name or tags change, then reads back consistently
    k = rng.randrange(len(pool))
    m, sp = pool[k], dict(specs[k])
    holder, keyed = {m}, {m: "here"}
    for _ in range(rng.randint(1, 4)):
        what = rng.choice(["value", "name", "tags", "formatter", "raw"])
        new = spec(rng, length)[what]
        sp[what] = new
        if what == "value":
            m.value = new
        elif what == "name":
            m.name = new
        elif what == "tags":
            m.tags[:] = new
        elif what == "formatter":
            m.formatter = FMT[new]
        else:
            m.raw_start, m.raw_end = new or (None, None)
        rec.require(m in holder and keyed.get(m) == "here", "an edited match stays findable in a set", what)
        rec.expect((m.raw, m.value, m.name, sorted(m.tags)), (raw_of(sp, s), value_of(sp, s), sp["name"], sorted(sp["tags"])), "edited match", kind="edited match")
        twin = build(sp, s)
        rec.require(m == twin and hash(m) == hash(twin), "an edited match equals a match built alike", sp)
    # names of a hierarchy
    root = Match(0, length, name="root", input_string=s)
    for k in range(rng.choice([0, 1, 2, 3, 6])):
        c = Match(0, 1, name=rng.choice(["a", "b", None, f"c{k}"]), parent=root, input_string=s)
        if rng.random() < 0.4:
            leaf = Match(0, 1, name="leaf", parent=c, input_string=s)
            if rng.random() < 0.5:
                c.children.append(leaf)
            else:
                c.children = Matches([leaf], s)
            rec.require(len(c.children) == 1 and c.children[0] is leaf, "children given to a match")
        root.children.append(c)
    leaves = {g.name for c in root.children for g in (c.children or [c])} if root.children else {"root"}
    rec.expect(root.names, leaves, "names of a hierarchy")
    rec.expect(root.named("leaf"), "leaf" in leaves, "named in a hierarchy")
    for c in root.children:
        for g in c.children:
            rec.require(g.initiator is root, "initiator of a grandchild")
    if dup or len({sp["span"] for sp in specs}) < len(specs):
        rec.state(specs)
        rec.sample(specs)
