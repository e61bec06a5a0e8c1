"""String patterns report exactly the occurrences of their strings."""

from rebulk import Rebulk
from rebulk.utils import find_all

from vh import gen

RULE = (
    "random input strings (repetitive, wordy, unicode) and 1-3 needles cut from or unrelated to the input, through "
    "builder, defaults and find_all with start/end, with and without ignore_case; non-trivial: at least one "
    "occurrence, distinct (input, needles, options)"
)
QUICK = 60000
THOROUGH = 900000


def low(c):
    return c.lower() if len(c.lower()) == 1 else c


def scan(s, sub, ignore, lo=0, hi=None):
    """Leftmost non-overlapping occurrences, character by character."""
    hi = len(s) if hi is None else hi
    i = lo
    n = len(sub)
    while i + n <= hi:
        same = True
        for k in range(n):
            a, b = s[i + k], sub[k]
            if not (a == b or (ignore and low(a) == low(b))):
                same = False
                break
        if same:
            yield i
            i += n
        else:
            i += 1


def case(rng, rec, i):
    s = gen.text(rng, rng.choice([6, 12, 24, 60, 60, 300 if i % 16 == 0 else 12]))
    if rng.random() < 0.15:
        # characters with several or unusual lower case forms
        s = "".join(rng.choice("σςΣsſSµμΜǆǅǄßẞİiıIkK\u212a a") for _ in range(rng.randint(1, 16)))
    if rng.random() < 0.01:
        # the first unusual character comes late
        s = "".join(rng.choice("abİK ") if k > 60 else rng.choice("abk ") for k in range(rng.choice([70, 140, 300])))
    huge = i % 401 == 5
    if huge:
        # long inputs, periodic ones among them
        unit = rng.choice(["ab", "aab", gen.text(rng, 7) or "a", "ſé", "Σσς ", "İi"])
        s = rng.choice([gen.text(rng, rng.choice([700, 5000, 9000])), unit * rng.randint(8, 1200), s * rng.randint(1, 300)])[: rng.choice([600, 9000])]
    subs = []
    big = i % 61 == 7
    for _ in range(rng.randint(1, 3) if not big else 20):
        if s and rng.random() < 0.7:
            a = rng.randrange(len(s))
            sub = s[a : a + rng.randint(1, 3 if not big else 30)]
            if huge and rng.random() < 0.5:
                sub = s[a : a + rng.choice([8, 17, 18, 40, 130, 600])]
            if rng.random() < 0.3:
                sub = rng.choice([sub.swapcase(), sub.upper(), sub.lower()])
        else:
            sub = rng.choice(gen.WORDS)
        subs.append(sub)
    # uppercasing can lengthen ('ß'): still a plain needle
    ignore = rng.choice([None, False, True])
    opts = {}
    if ignore is not None:
        opts["ignore_case"] = ignore
    marker = rng.random() < 0.15
    kw = dict(opts, name=rng.choice([None, "n"]), tags=rng.choice([[], ["t"], ["t", "u"]]))
    if marker:
        kw["marker"] = True
    lo, hi = 0, None
    if rng.random() < 0.15:
        # options are passed to the search
        kw["start"] = lo = rng.randint(0, len(s))
        if rng.random() < 0.6:
            kw["end"] = hi = rng.randint(0, len(s))
    rec.note("input", s, "needles", subs, "kwargs", kw)
    via = rng.choice(["direct", "defaults", "string_defaults", "separate"])
    r = Rebulk(default_rules=False)
    if via == "direct":
        r.string(*subs, **kw)
    elif via == "defaults":
        r.defaults(**kw).string(*subs)
    elif via == "string_defaults":
        r.string_defaults(**kw).string(*subs)
    else:
        for sub in subs:
            r.string(sub, **kw)
    out = r.matches(s)
    got = list(out.markers if marker else out)
    rec.require(not (out if marker else out.markers), "string matches are not mixed with markers")
    want = [(a, a + len(sub)) for sub in subs for a in scan(s, sub, bool(ignore), lo, hi)]
    rec.expect([m.span for m in got], want, "string occurrences")
    for m in got:
        rec.expect(m.raw, s[m.start : m.end], "raw text of a string match")
        rec.expect(m.value, s[m.start : m.end], "value of a string match")
        rec.expect((m.name, list(m.tags), bool(m.marker), bool(m.private), m.parent), (kw["name"], kw["tags"], marker, False, None), "string match attributes")
        rec.expect(m.input_string, s, "input string of a match")
        rec.expect(len(m.children), 0, "string match children")
    # the search primitive, with bounds
    lo = rng.choice([None, 0, rng.randint(0, len(s) + 2), rng.randint(0, len(s) + 2), -rng.randint(1, len(s) + 2)])
    hi = rng.choice([None, len(s), rng.randint(0, len(s) + 2), rng.randint(0, len(s) + 2), -rng.randint(1, len(s) + 2)])
    sub = subs[0]
    rec.note("find_all", s, sub, lo, hi, ignore)
    got = list(find_all(s, sub, lo, hi, ignore_case=bool(ignore)))
    first, last, _ = slice(lo, hi).indices(len(s))  # as in a slice, negative bounds count from the end
    if lo is not None and lo > len(s):
        first = lo
    rec.expect(got, list(scan(s, sub, bool(ignore), first, last)), "bounded search")
    if not sub or rng.random() < 0.05:
        # an empty string is found at every position
        rec.expect(list(find_all(s, "", lo, hi, ignore_case=bool(ignore))), list(range(first, last + 1)), "search of an empty string")
    if want:
        rec.state(s, subs, ignore, via)
        rec.sample((s, subs, ignore, want))
