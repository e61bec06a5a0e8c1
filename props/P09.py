"""Private matches and markers never reach results, and are available to rules."""

from rebulk import AppendMatch, Rebulk, Rule
from rebulk.match import Match

from vh import gen, pipe

RULE = (
    "random rebulks mixing private patterns (private, private_parent, private_children, private_names), markers and "
    "public patterns with equal spans and names; a monitor rule records what rules can see; non-trivial: private "
    "matches or markers were produced, distinct configuration and input"
)
QUICK = 60000
THOROUGH = 700000


class Watch(Rule):
    priority = -100

    def when(self, matches, context):
        context["seen"] = list(matches)
        context["markers"] = list(matches.markers)

    def then(self, matches, when_response, context):
        raise AssertionError


class Touch(Rule):
    """Privacy decided by a rule."""

    priority = 10

    def when(self, matches, context):
        return [m for m in matches if (m.start + m.end) % 4 == 3]

    def then(self, matches, when_response, context):
        for m in when_response:
            m.private = not m.private


class Add(Rule):
    """Matches made by a rule, private or not, with or without parent, initiator and pattern."""

    priority = 20
    consequence = AppendMatch

    def when(self, matches, context):
        ret = []
        for k, m in enumerate(list(matches)[:3]):
            new = Match(m.start, m.end, name=m.name, parent=m if k % 2 else m.parent, private=k != 1, input_string=m.input_string, tags=["added"])
            if k == 2:
                new.pattern = m.pattern
            ret.append(new)
        return ret


def case(rng, rec, i):
    big = i % 61 == 7
    s = gen.text(rng, 16 if not big else 60, "ab1-") + "a1"
    default_rules = rng.random() < 0.85
    r = Rebulk(default_rules=default_rules)
    desc = []
    for _ in range(rng.randint(1, 6) if not big else 20):
        kw = {"name": rng.choice(["x", "y", "n1", None])}
        for k, p in (("private", 0.35), ("marker", 0.25), ("private_parent", 0.15), ("private_children", 0.15), ("children", 0.3), ("every", 0.1)):
            if rng.random() < p:
                kw[k] = True
        if rng.random() < 0.2:
            kw["private_names"] = ["n1", "x"]
        if rng.random() < 0.2:
            kw["value"] = rng.choice(["lit", {"n1": "lit"}, {"__children__": "lit"}])
        kw = {k: v for k, v in kw.items() if v is not None}
        if rng.random() < 0.5:
            sub = rng.choice(["a", "a", "ab", "b", "1"])
            r.string(sub, **kw)
            desc.append((sub, kw))
        else:
            pat = rng.choice(["a", "(?P<n1>a)b?", r"(?P<n1>\w)(?P<n2>\w)", r"(\d)"])
            r.regex(pat, **kw)
            desc.append((pat, kw))
    r.rules(Watch)
    if rng.random() < 0.3:
        r.rules(type("Touch", (Touch,), {"priority": rng.choice([10, 0, -500, -1500, -2000, -2047])}))
        desc.append("touch")
    if rng.random() < 0.2:
        r.rules(type("Add", (Add,), {"priority": rng.choice([3000, 20, 0, -99])}))
        desc.append("touch")
    ctx = {}
    rec.note("input", s, "patterns", desc, "default_rules", default_rules)
    out = r.matches(s, ctx)
    seen, seen_markers = ctx["seen"], ctx["markers"]
    if default_rules:
        rec.require(not any(m.private for m in out), "no private match in results", out)
        rec.expect([id(m) for m in out], [id(m) for m in seen if not m.private], "public matches are kept")
    else:
        rec.expect([id(m) for m in out], [id(m) for m in seen], "without default rules nothing is removed")
    rec.require(not any(m.marker for m in out), "no marker in results")
    rec.require(all(m.marker for m in out.markers), "markers list only holds markers")
    rec.expect([id(m) for m in out.markers], [id(m) for m in seen_markers], "markers are kept")
    # markers and private patterns never compete with public matches: same results without them
    pub = Rebulk(default_rules=default_rules)
    for item in desc:
        if item == "touch":
            break
        pat, kw = item
        if not (kw.get("marker") or kw.get("private")):
            (pub.string if pat in ("ab", "b", "1") or (pat == "a" and False) else pub.regex)(pat, **kw)
    else:
        other = pub.matches(s)
        key = lambda m: (m.span, m.name, m.value, bool(m.private))
        rec.expect(sorted(map(repr, map(key, [m for m in out if default_rules or not m.pattern.private]))), sorted(map(repr, map(key, other))), "public results do not depend on private patterns and markers")
    privates = sum(bool(m.private) for m in seen)
    if privates or seen_markers:
        rec.state(s, desc)
        rec.sample((s, desc))
    rec.count("private_matches", privates)
    rec.count("markers", len(seen_markers))
