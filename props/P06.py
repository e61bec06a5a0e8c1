"""Chains: occurrences are maximal ordered contiguous runs of parts honouring repeaters."""

from rebulk import Rebulk
from rebulk.remodule import re

from vh import chains, model

RULE = (
    "random chains of 1-4 string/regex parts (plus a nested chain) with every repeater form, hidden parts, part level "
    "names/formatters/values/privacy, on inputs rich in partial, repeated and adjacent occurrences; results compared "
    "with a reference search, and structural monitors (contiguity, repetition bounds, order) evaluated on each chain "
    "match; non-trivial: a chain matched, distinct (chain, input)"
)
QUICK = 60000
THOROUGH = 900000


def case(rng, rec, i):
    chain = chains.rand_chain(rng, {"name": rng.choice([None, "ch"])})
    long = rng.random() < 0.06
    many = (7, 16)
    if not long and rng.random() < 0.03:
        # chains of many parts
        chain["parts"] = [chains.rand_part(rng, k == 0) for k in range(rng.randint(7, 13))]
        for p in chain["parts"][1:]:
            if p["lo"] > 1 or p["lo"] == 1 and rng.random() < 0.5:
                p["rep"], p["lo"], p["hi"], p["overridden"] = rng.choice([("?", 0, 1), ("*", 0, None), ("{,2}", 0, 2)]) + ([],)
    if long:
        # more repetitions than one digit says
        part = chains.rand_part(rng, False)
        part.update(kind="string", patterns=[rng.choice(["a", "ab"])], overridden=[], hidden=False)
        part["opts"].pop("pre_match_processor", None)
        part["opts"].pop("children", None)
        part["rep"], part["lo"], part["hi"] = rng.choice([("{10,12}", 10, 12), ("{,11}", 0, 11), ("{11,}", 11, None), (13, 13, 13), ("12", 12, 12), ("{9,10}", 9, 10), ("{10}", 10, 10), ("*", 0, None), ("+", 1, None)])
        part = [part]
        if part[0]["lo"] == 0 or rng.random() < 0.5:
            part.insert(0, {"kind": "string", "patterns": ["-"], "opts": {}, "rep": None, "lo": 1, "hi": 1, "hidden": False})
        if rng.random() < 0.1:
            # far more
            part[-1]["rep"], part[-1]["lo"], part[-1]["hi"] = rng.choice([("*", 0, None), ("+", 1, None), ("{70,}", 70, None), ("{,70}", 0, 70), (66, 66, 66)]) if len(part) > 1 else ("+", 1, None)
            many = (60, 140)
        chain["parts"] = part + [{"kind": "regex", "patterns": [r"\d"], "opts": {}, "rep": "?", "lo": 0, "hi": 1, "hidden": False}]
    r = Rebulk(default_rules=False)
    if rng.random() < 0.3:
        chains.build(r, {"kind": "chain", "opts": {"disabled": True}, "parts": [chains.rand_part(rng, True)], "breaker": None})
    rec.note("parts", chains.shape(chain))
    back = chains.build(r, chain)
    rec.require(back is r, "closing a chain returns the owning builder")
    for _ in range(3):
        s = chains.text(rng) if not long else "".join(rng.choice(["", "-", "-"]) + rng.choice(["a", "ab"]) * rng.randint(*many) + rng.choice(["", "1"]) for _ in range(3))
        rec.note("input", s)
        want = chains.run(chain, s, re)
        got = r.matches(s)
        rec.expect([model.observed(m) for m in got], [m.key() for m in want], "chain matches")
        last = 0
        own = r.effective_patterns()
        for m in got:
            rec.require(any(m.initiator.pattern is p for p in own), "a match knows its pattern", m.initiator.pattern)
            rec.require(m.start >= last, "chain matches are ordered and do not overlap", m.span, last)
            last = m.end
            # (a nested chain refused by its own validator is consumed, but not part of the result)
            # (a processor may keep part of the text out of the span)
            if not any(p["hidden"] or p["opts"].get("pre_match_processor") in (chains.trimmed, chains.trimmed_copy) or p["opts"].get("validator") for p in chain["parts"]):
                pos = m.start
                for c in m.children:
                    if c.parent is m and not any(p["opts"].get("children") for p in chain["parts"]):
                        rec.require(c.start == pos, "chain parts are contiguous", c.span, pos)
                        pos = c.end
                if not any(p["opts"].get("children") for p in chain["parts"]):
                    rec.require(pos == m.end, "chain parts cover the chain", pos, m.span)
        rec.count("chain_matches", len(got))
        if want:
            rec.state(chains.shape(chain), s)
            rec.sample((chains.shape(chain), s, [(m.start, m.end) for m in want]))
        else:
            rec.count("no_match")
