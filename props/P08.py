"""Conflict resolution between overlapping matches."""

from rebulk import Rebulk, Rule
from rebulk.match import Match

from vh import gen

RULE = (
    "2-8 functional/regex/string patterns producing overlapping matches (equal spans, nesting, crossing, adjacency, "
    "private ones, children of longer parents, group children), with default, symmetric and asymmetric custom solvers; "
    "a monitor rule records matches right before resolution and the survivors are checked pair by pair; non-trivial: "
    "at least one overlapping public pair, distinct (spans, solvers)"
)
QUICK = 60000
THOROUGH = 900000

LOG = []


class Before(Rule):
    priority = 4096

    def when(self, matches, context):
        context["before"] = list(matches)

    def then(self, matches, when_response, context):
        raise AssertionError


class After(Rule):
    priority = 2000

    def when(self, matches, context):
        context["after"] = list(matches)

    def then(self, matches, when_response, context):
        raise AssertionError


def s_first(m, c):
    return m


def s_second(m, c):
    return c


def s_none(m, c):
    return None


def s_default(m, c):
    return "__default__"


def s_short_keeps(m, c):
    return max([m, c], key=lambda x: (len(x), x.start, x.name or ""))


def s_leftmost(m, c):
    return max([m, c], key=lambda x: (x.start, x.end, x.name or ""))


def s_mixed(m, c):
    return "__default__" if len(m) != len(c) else max([m, c], key=lambda x: (x.name or "", x.start, x.end))


def s_asym(m, c):
    return "__default__" if (m.start, m.name or "") < (c.start, c.name or "") else c


SOLVERS = [s_asym, s_first, s_second, s_none, s_default, s_short_keeps, s_leftmost, s_mixed]


def giving(spans):
    return lambda string: list(spans)


def overlap(a, b):
    # equal matches do not conflict
    return a.start < b.end and b.start < a.end and not alike(a, b)


def alike(a, b):
    if a is None or b is None:
        return a is b
    return (a.span, a.name, a.value) == (b.span, b.name, b.value) and alike(a.parent, b.parent)


def default(m, c):
    lm, lc = len(m.initiator), len(c.initiator)
    return c if lc < lm else m if lm < lc else None


def resolve(m, c):
    """Which of both is removed when m meets c (c's solver first, then m's, then the default)."""
    for solver, a, b in ((c.conflict_solver, c, m), (m.conflict_solver, m, c), (default, m, c)):
        if solver:
            ret = solver(a, b)
            if isinstance(ret, str):
                continue
            return ret
    return None


def case(rng, rec, i):
    big = i % 61 == 7
    size = rng.choice([6, 10, 16]) if not big else rng.choice([60, 200])
    s = gen.text(rng, size, "ab1-") + "ab1"
    r = Rebulk()
    custom = rng.random() < 0.5
    desc = []
    crowd = not big and rng.random() < 0.2
    if crowd:
        s = "ab1-ab1-ab1"
        lengths = rng.sample(range(1, 9), 7)
    same = not custom and rng.random() < 0.2  # (of equal matches with solvers of their own, only one is shown to the solver)
    npat = rng.randint(2, 7) if not big else rng.randint(15, 30)
    for k in range(npat):
        kw = {"name": f"m{k}" if not same or rng.random() < 0.5 else "same"}
        if custom and rng.random() < 0.5:
            kw["conflict_solver"] = rng.choice(SOLVERS if rng.random() < 0.8 else SOLVERS[:1])
        if rng.random() < 0.15:
            kw["private"] = True
        mode = rng.random()
        if crowd:
            # few matches, of distinct lengths, most of them overlapping
            if custom and rng.random() < 0.4:
                kw["conflict_solver"] = rng.choice(SOLVERS)
            if len(lengths) > npat - k and rng.random() < 0.3:
                # a group in a group: both belong to the same match
                q, n = sorted((lengths.pop(), lengths.pop()))
                a = rng.randint(max(0, 4 - n), min(4, len(s) - n))
                p = rng.randint(0, n - q)
                pat = rf"\A.{{{a}}}(?P<g{k}>.{{{p}}}(?P<h{k}>.{{{q}}}).{{{n - q - p}}})"
                r.regex(pat, children=True, **kw)
                desc.append((pat, sorted(kw), kw.get("conflict_solver") and kw["conflict_solver"].__name__))
                continue
            n = lengths.pop()
            a = rng.randint(max(0, 4 - n), min(4, len(s) - n))
            sp = [(a, a + n)]
            r.functional(giving(sp), **kw)
            desc.append((sp, sorted(kw), kw.get("conflict_solver") and kw["conflict_solver"].__name__))
        elif mode < 0.65:
            sp = sorted(set(gen.spans(rng, len(s), rng.randint(1, 2))))
            if not custom and rng.random() < 0.15:
                sp += sp[-1:]  # equal matches are distinct matches
            r.functional(giving(sp), **kw)
            desc.append((sp, sorted(kw), kw.get("conflict_solver") and kw["conflict_solver"].__name__))
        elif mode < 0.8:
            sub = rng.choice(["a", "ab", "b", "1", "ba"])
            r.string(sub, **kw)
            desc.append((sub, sorted(kw), kw.get("conflict_solver") and kw["conflict_solver"].__name__))
        else:
            g, h = (f"g{k}", f"h{k}") if not same or rng.random() < 0.4 else rng.choice([("same", f"h{k}"), (f"g{k}", "same")])
            pat = rng.choice([rf"(?P<{g}>a+)b", rf"(?P<{g}>[ab])(?P<{h}>\w)", rf"(?P<{g}>\d).?", r"\w+", rf"(?P<{g}>[ab](?P<{h}>[ab1]))-?"])
            kids = rng.random() < 0.6
            if kids and rng.random() < 0.3:
                kw["private_parent"] = True
            elif kids and rng.random() < 0.2:
                kw["private_names"] = [kw["name"]]
            r.regex(pat, children=kids, **kw)
            desc.append((pat, kids, sorted(kw), kw.get("conflict_solver") and kw["conflict_solver"].__name__))
    r.rules(Before, After)
    ctx = {}
    rec.note("input", s, "patterns", desc)
    r.matches(s, ctx)
    before, after = ctx["before"], ctx["after"]
    alive = {id(m) for m in after}
    rec.require(alive <= {id(m) for m in before}, "conflict resolution only removes matches")
    rec.require([id(m) for m in before if id(m) in alive] == [id(m) for m in after], "conflict resolution keeps the order of survivors")
    public = [m for m in before if not m.private]
    rec.require(all(id(m) in alive for m in before if m.private), "private matches take no part in conflict resolution")
    pairs = 0
    blamed = {}
    for x, m in enumerate(public):
        for c in public[x + 1 :]:
            if not overlap(m, c):
                continue
            pairs += 1
            for a, b in ((m, c), (c, m)):
                gone = resolve(a, b)
                if gone is None:
                    continue
                blamed[id(gone)] = True
                rec.require(not (id(m) in alive and id(c) in alive), "no surviving pair that resolution would separate", m.span, m.name, c.span, c.name, kind="surviving pairs")
    for m in public:
        if id(m) not in alive:
            rec.require(id(m) in blamed, "a removed match had an overlapping match whose resolution removes it", m.span, m.name, kind="removed matches")
    if not custom:
        for m in public:
            loses = any(overlap(m, c) and len(c.initiator) > len(m.initiator) for c in public if c is not m)
            if all(c.parent is None for c in public):
                rec.expect(id(m) in alive, not loses, "default resolution keeps the longest", kind="default resolution")
    if len({len(m) for m in public}) == len(public):
        # no ties: from the shortest to the longest, and a removed match removes no other
        removed = set()
        ordered = sorted(public, key=len)
        for m in ordered:
            for c in ordered:
                if c is not m and overlap(m, c):
                    gone = resolve(m, c)
                    if gone is not None and id(c if gone is m else m) not in removed:
                        removed.add(id(gone))
        rec.expect([(m.name, m.span) for m in public if id(m) in alive], [(m.name, m.span) for m in public if id(m) not in removed], "resolution from the shortest to the longest", kind="order of resolution")
    rec.count("overlapping_pairs", pairs)
    rec.count("removed", len(before) - len(after))
    if pairs:
        rec.state(s, desc)
        rec.sample((s, desc, [m.span for m in before], [m.span for m in after]))
