"""Matching depends on the configuration, the input and the context only, whatever was matched before."""

import copy

from rebulk import AppendMatch, Rebulk, Rule
from rebulk.match import Match

from vh import bulk, util

RULE = (
    "random complete rebulks (patterns of every kind, callbacks, rules, children rebulks) searched 3-8 times over "
    "interleaved inputs and contexts, results being damaged between calls; each result compared with the result of a "
    "fresh rebulk built alike, contexts compared before and after; non-trivial: at least two calls with matches, "
    "distinct (configuration, inputs)"
)
QUICK = 8000
THOROUGH = 200000


def damage(rng, ms):
    for m in [*ms, *ms.markers]:
        for c in m.children:
            c.tags.append("damaged")
            c.name = "damaged"
        m.tags.append("damaged")
        if isinstance(m.value, list):
            m.value.append("damaged")
        m.value = "damaged"
        m.name = "damaged"
    ms.declared_keys.clear()
    if rng.random() < 0.5:
        ms.clear()
        ms.markers.clear()


class Remember(Rule):
    """Reads and writes the context of the search."""

    consequence = AppendMatch("added")

    def when(self, matches, context):
        context["rule"] = context.get("rule", 0) + 1
        if context["rule"] > 1 or context.get("calls", 0) > 1:
            return [Match(0, 1, input_string=matches.input_string)]
        return []


def no_context(rng, rec):
    """A search without context has a new empty context, which callbacks may use."""
    seen = []

    def count(text, context):
        seen.append(dict(context))
        context["calls"] = context.get("calls", 0) + 1
        return [(k, k + 1) for k in range(context["calls"])]

    def skip(context):
        return context is not None and "calls" in context and context["calls"] > 1

    r = Rebulk().functional(count, name="n").regex("a", disabled=skip, name="a").rules(Remember)
    if rng.random() < 0.3:
        r.rebulk(Rebulk(disabled=skip).string("b", name="b"))
    s = bulk.text(rng) + "ab"
    rec.note("no context", repr(s))
    first = None
    for k in range(rng.randint(2, 4)):
        seen.clear()
        got = util.dumps(rng.choice([lambda: r.matches(s), lambda: r.matches(s, None)])())
        rec.expect(seen, [{}], "context of a search without context", kind="repeated call")
        first = first or got
        rec.expect(got, first, "matches of a search without context", kind="repeated call")


def case(rng, rec, i):
    if rng.random() < 0.05:
        return no_context(rng, rec)
    seed = rng.getrandbits(40)
    r = bulk.build(seed)
    inputs = [bulk.text(rng) if i % 23 != 7 else bulk.text(rng, rng.choice([30, 60, 90])) for _ in range(rng.randint(1, 3))]
    contexts = [copy.deepcopy(rng.choice(bulk.CONTEXTS)) for _ in range(2)]
    if contexts[0] and rng.random() < 0.4:
        contexts[1] = {k: not v for k, v in contexts[0].items()}
    rec.note("configuration", seed, inputs, contexts)
    fresh = {}
    calls = []
    found = 0
    for _ in range(rng.randint(3, 8)):
        s, k = rng.choice(inputs), rng.randrange(2)
        if contexts[k] and rng.random() < 0.25:
            # the same object, with other values in it
            other = copy.deepcopy(rng.choice([c for c in bulk.CONTEXTS if c]))
            contexts[k].clear()
            contexts[k].update(other)
        before = copy.deepcopy(contexts[k])
        at = repr(before)
        ms = r.matches(s, contexts[k]) if contexts[k] is not None or rng.random() < 0.5 else r.matches(s)
        got = util.dumps(ms), sorted(ms.declared_keys), ms.input_string
        if (s, at) not in fresh:
            other = bulk.build(seed).matches(s, copy.deepcopy(before))
            fresh[s, at] = util.dumps(other), sorted(other.declared_keys), other.input_string
        rec.expect(got, fresh[s, at], "matches of a rebulk already used and of a fresh one", kind="repeated call")
        rec.expect(contexts[k], before, "context after the call")
        calls.append((s, k, at))
        found += bool(ms)
        if rng.random() < 0.6:
            damage(rng, ms)
            rec.count("results_damaged")
    if found >= 2:
        rec.state(seed, calls)
        rec.sample((seed, calls, contexts))
