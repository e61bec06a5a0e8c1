"""Provided validators and formatters behave as predicates on the surrounding characters and as composition."""

from functools import partial

from rebulk import Rebulk
from rebulk.formatters import default_formatter, formatters
from rebulk.match import Match
from rebulk.validators import allways_true, chars_after, chars_before, chars_surround, validators

from vh import gen

RULE = (
    "random strings and spans (touching both ends), with random character sets, used directly, chained and as pattern "
    "options; oracle: direct reading of the characters around the span and function composition; laziness and order of "
    "chained calls recorded; non-trivial: span not covering the whole string, distinct (string, span, set)"
)
QUICK = 60000
THOROUGH = 800000
BACKENDS = ["re"]


def case(rng, rec, i):
    s = gen.text(rng, 10, "ab -_.") or "a"
    a = rng.randint(0, len(s) - 1)
    b = rng.randint(a + 1, len(s)) if rng.random() < 0.9 else a
    chars = rng.choice([" ", " -_.", "", "a", ["-", "_"], {"a", " "}])
    m = Match(a, b, input_string=s)
    if rng.random() < 0.2:  # the raw text of a match may differ from its span
        m.raw_start, m.raw_end = rng.randint(0, a), rng.randint(b, len(s))
    rec.note(repr(s), (a, b), chars)
    before = a == 0 or s[a - 1] in chars
    after = b == len(s) or s[b] in chars
    rec.expect(bool(chars_before(chars, m)), before, "character before")
    rec.expect(bool(chars_after(chars, m)), after, "character after")
    rec.expect(bool(chars_surround(chars, m)), before and after, "characters around")
    rec.expect(allways_true(m), True, "always true")
    # chains of validators
    calls = []

    def made(k, r):
        def v(match):
            calls.append(k)
            rec.require(match is m, "a chained validator receives the match")
            return r

        return v

    results = [rng.choice([True, True, False, 1, 0, "x"]) for _ in range(rng.randint(0, 4) if i % 61 != 7 else 12)]
    chain = validators(*(made(k, r) for k, r in enumerate(results)))
    if results and rng.random() < 0.3:
        # the same validator, several times
        vs = [made(k, r) for k, r in enumerate(results)]
        order = [rng.randrange(len(vs)) for _ in range(rng.randint(2, 5))]
        calls.clear()
        rec.expect(bool(validators(*(vs[k] for k in order))(m)), all(results[k] for k in order), "chained validators")
        stop = next((n for n, k in enumerate(order) if not results[k]), len(order) - 1)
        rec.expect(calls, order[: stop + 1], "calls of chained validators, given several times")
    for _ in range(2):
        calls.clear()
        rec.expect(bool(chain(m)), all(results), "chained validators")
        stop = next((k for k, r in enumerate(results) if not r), len(results) - 1)
        rec.expect(calls, list(range(stop + 1)), "calls of chained validators")
    # chains of formatters
    fs = [rng.choice([str.upper, str.title, lambda v: v + "!", lambda v: v[::-1], lambda v: v[1:], default_formatter, lambda v: f"<{v}>"]) for _ in range(rng.randint(0, 4))]
    if rng.random() < 0.2:  # what a formatter returns may be anything, and goes to the next one
        fs += [rng.choice([len, lambda v: None, lambda v: [], lambda v: 0]), lambda v: ("got", v)]
    want = s[a:b]
    for f in fs:
        want = f(want)
    chain = formatters(*fs)
    rec.expect(chain(s[a:b]), want, "chained formatters")
    rec.expect(chain(s[a:b]), want, "chained formatters, again")
    # as options
    word = s[a:b]
    kind = rng.choice([chars_before, chars_after, chars_surround])
    more = {k: v for k, v in (("private", True), ("name", "n"), ("tags", ["t"]), ("children", False)) if rng.random() < 0.2}
    got = Rebulk(default_rules=False).string(word, validator=partial(kind, chars), formatter=chain, **more).matches(s)
    found, k = [], s.find(word) if word else -1  # (empty occurrences are no matches)
    while k >= 0:
        e = k + len(word)
        l, r = k == 0 or s[k - 1] in chars, e == len(s) or s[e] in chars
        if {chars_before: l, chars_after: r, chars_surround: l and r}[kind]:
            found.append(((k, e), want))
        k = s.find(word, e)
    rec.expect([(x.span, x.value) for x in got], found, "pattern with provided validators and formatters", kind="as options")
    if (a, b) != (0, len(s)):
        rec.state(s, a, b, sorted(chars), [str(r) for r in results])
        rec.sample((s, (a, b), chars, before, after))
