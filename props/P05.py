"""Pre/post match processors and post processors."""

from rebulk import Rebulk
from rebulk.match import Match
from rebulk.remodule import re

from vh import chains, gen, model, pipe

RULE = (
    "regex, string patterns and chains with a pre_match_processor, post_match_processor and/or post_processor that keep, "
    "mutate, replace or reject matches depending on their position; results, and the points of the pipeline where "
    "processors are called, are compared with a reference; non-trivial: a processor did something, distinct plan"
)
QUICK = 48000
THOROUGH = 600000

ACTIONS = ["none", "same", "false", "rename", "shrink", "replace", "tag", "same span"]


def plan(table, m):
    return table[(m.start * 7 + m.end) % len(table)]


def case(rng, rec, i):
    kind = rng.choice(["regex", "regex", "string", "chain"])
    s = (chains.text(rng) if kind == "chain" else gen.text(rng, 18 if i % 61 != 7 else 90)) or "ab"
    pats = [gen.regex_source(rng, groups=0.7, maxparts=3) if kind == "regex" else rng.choice(["a", "ab", "b", "1", "o"]) for _ in range(rng.choice([1, 2]))]
    opts = {"name": "pat"}
    for k, p in (("children", 0.3), ("every", 0.2), ("private", 0.1), ("private_children", 0.1)):
        if rng.random() < p:
            opts[k] = True
    if rng.random() < 0.15:  # judged by the name a match ends with
        opts["ignore_names"] = rng.sample(["pat", "renpre", "renpost", "reppre", "reppost", "a", "b", "n1"], rng.randint(1, 3))
    if rng.random() < 0.4:
        opts["formatter"] = rng.choice(pipe.FORMATTERS)
    if rng.random() < 0.4:
        opts["validator"] = rng.choice([pipe.v_even, pipe.v_long, pipe.v_start])
    pre = [rng.choice(ACTIONS) for _ in range(3)] if rng.random() < 0.6 else None
    post = [rng.choice(ACTIONS) for _ in range(3)] if rng.random() < 0.6 else None
    final = rng.choice([None, None, "reverse", "drop", "add", "empty"])
    spec = {"kind": kind, "patterns": pats, "opts": opts}
    if kind == "chain":
        spec = chains.rand_chain(rng, opts)
        pats = chains.shape(spec)
    rec.note("input", s, kind, pats, opts, "pre", pre, "post", post, "post_processor", final)
    acted = 0
    seen = []

    def real(table, stage):
        def processor(m):
            nonlocal acted
            if m.end > m.start:  # whether a match emptied by its validator is still shown is not specified
                seen.append((stage, m.span, m.name, repr(m.value), bool(m.private), [c.span for c in m.children]))
            act = plan(table, m)
            acted += act not in ("none", "same")
            if act == "none":
                return None
            if act == "same":
                return m
            if act == "false":
                return False
            if act == "rename":
                m.name = "ren" + stage
                return None
            if act == "tag":
                m.tags.append("tag" + stage)
                return m
            if act == "shrink":
                m.end = max(m.start, m.end - 1)
                return m
            if act == "same span":
                return Match(m.start, m.end, name=m.name, tags=["rt" + stage], value="rv", input_string=m.input_string)
            return Match(m.start, m.end, name="rep" + stage, input_string=m.input_string)

        return processor

    def modelled(table, stage, m):
        act = plan(table, m)
        if act == "false":
            return None
        if act == "rename":
            m.name = "ren" + stage
        elif act == "tag":
            m.tags.append("tag" + stage)
        elif act == "shrink":
            m.end -= 1
        elif act == "same span":
            n = model.MM(m.start, m.end, m.name, s, tags=["rt" + stage])
            n.literal = "rv"
            return n
        elif act == "replace":
            return model.MM(m.start, m.end, "rep" + stage, s)
        return m if m.end > m.start else None

    calls = []

    def post_processor(matches, pattern):
        calls.append(([m.span for m in matches], pattern))
        if final == "reverse":
            return list(reversed(matches))
        if final == "drop":
            return matches[1:]
        if final == "empty":
            return []
        return [*matches, Match(0, 1, name="added", input_string=s)]

    kw = dict(opts)
    if pre:
        kw["pre_match_processor"] = real(pre, "pre")
    if post:
        kw["post_match_processor"] = real(post, "post")
    if final:
        kw["post_processor"] = post_processor
    r = Rebulk(default_rules=False)
    if kind == "chain":
        chains.build(r, {**spec, "opts": kw})
    else:
        getattr(r, kind)(*pats, **kw)
    want, want_seen = [], []
    for found in [chains.search(spec, s, re)] if kind == "chain" else model.raw_matches(spec, s, re):
        for index, m in enumerate(found):
            if pre:
                want_seen.append(("pre", (m.start, m.end), m.name, repr(m.value), m.private, [(c.start, c.end) for c in m.children]))
                m = modelled(pre, "pre", m)
                if m is None:
                    continue
            if not (chains if kind == "chain" else model).process(spec, m, index):
                continue
            if post:
                want_seen.append(("post", (m.start, m.end), m.name, repr(m.value), m.private, [(c.start, c.end) for c in m.children]))
                m = modelled(post, "post", m)
                if m is None:
                    continue
            want.extend(model.emit(spec, m))
    spans = [(m.start, m.end) for m in want]
    if final == "reverse":
        want.reverse()
    elif final == "drop":
        want = want[1:]
    elif final == "empty":
        want = []
    elif final == "add":
        want.append(model.MM(0, 1, "added", s))
    out = r.matches(s)
    rec.expect([model.observed(m) for m in out], [m.key() for m in want], "matches after processors")
    rec.expect(seen, want_seen, "matches seen by processors")
    if final:
        rec.expect([c[0] for c in calls], [spans], "post processor input")
        rec.require(calls[0][1] is r.effective_patterns()[0], "post processor gets its pattern")
    if acted or calls:
        rec.state(s, pats, sorted(opts), pre, post, final)
        rec.sample((s, pats, pre, post, final))
    rec.count("processor_calls", len(seen))
