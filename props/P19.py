"""to_dict reports every distinct value of every name, in position order, in each of its modes."""

from rebulk.match import Match, Matches

from vh import lists

RULE = (
    "random match lists (several values per name, repeated values, unnamed matches, unsorted lists, formatters), "
    "converted in the 8 combinations of modes; oracle: grouping of the position-sorted list; non-trivial: at least two "
    "matches, distinct (list, modes)"
)
QUICK = 60000
THOROUGH = 800000
BACKENDS = ["re"]


def uniq(seq):
    out = []
    for x in seq:
        if x not in out:
            out.append(x)
    return out


def case(rng, rec, i):
    big = i % 61 == 7
    length = rng.choice([2, 5, 12]) if not big else 60
    s = "".join(rng.choice("abAB1") for _ in range(length))
    items = []
    for _ in range(rng.choice([0, 1, 2, 4, 8]) if not big else 50):
        a = rng.randint(0, length - 1)
        kw = {}
        if rng.random() < 0.4:
            kw["value"] = rng.choice(["v", "w", 1, True, 2.5, ("t",), 0, ""])
        elif rng.random() < 0.4:
            kw["formatter"] = rng.choice([str.upper, len, lambda v: None])
        items.append(Match(a, min(length, a + rng.choice([0, 1, 1, 1, 2, 2, 2, 3, 3, 3])), name=rng.choice(["x", "y", None]), input_string=s, **kw))
    ms = Matches(list(items), input_string=s)
    rec.note(repr(s), items)
    ordered = sorted(items, key=lambda m: m.span)
    names = uniq([m.name for m in ordered])
    for details in (False, True):
        for first in (False, True):
            for enforce in (False, True):
                d = ms.to_dict(details=details, first_value=first, enforce_list=enforce)
                label = f"details={details} first_value={first} enforce_list={enforce}"
                rec.expect(list(d), names, "names, in order of appearance")
                for name in names:
                    group = [m for m in ordered if m.name == name]
                    values = uniq([m if details else m.value for m in group])
                    if enforce:
                        want = values[:1] if first else values
                    else:
                        want = values[0] if first or len(values) == 1 else values
                    got = d[name]
                    rec.require(type(got) is type(want) and got == want, f"value of {name!r} with {label}", got, want, kind="to_dict value")
                    rec.expect(lists.ids(d.matches[name]), lists.ids(group), "matches of a name")
                    if not enforce:
                        rec.expect(d.values_list[name], values, "values_list of a name")
                rec.expect(sorted(map(str, d.matches)), sorted(map(str, names)), "names of the matches")
    rec.expect(lists.ids(ms), lists.ids(items), "list after to_dict")
    # values which are lists belong to their matches
    if items and rng.random() < 0.2:
        chosen = rng.sample(items, rng.randint(1, len(items)))
        for m in chosen:
            m.value = rng.choice([["l1"], ["l1", "l2"]])
        before = [(m.value, repr(m.value)) for m in items]
        for details, first, enforce in ((0, 0, 0), (0, 0, 1), (0, 1, 0), (0, 1, 1), (1, 0, 0)):
            d = ms.to_dict(details=bool(details), first_value=bool(first), enforce_list=bool(enforce))
            if first and not enforce:
                for name in names:
                    rec.expect(d[name], next(m.value for m in ordered if m.name == name), "first value of a name")
        rec.expect([repr(m.value) for m in items], [r for _, r in before], "values after to_dict")
    if len(items) >= 2:
        rec.state([(m.span, m.name, repr(m.value)) for m in items])
        rec.sample((items, dict(ms.to_dict())))
