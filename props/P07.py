"""Chains: chain level options, chain breaker, and trailing repetitions dropped to satisfy a validator."""

from rebulk import Rebulk
from rebulk.remodule import re

from vh import chains, gen, model, pipe

RULE = (
    "random chains with chain level children/every/private*/formatter/value/tags/marker/ignore_names, validators on the "
    "chain (forcing trailing repetitions to be dropped), and stateless chain breakers; results compared with a "
    "reference; non-trivial: a chain matched, distinct (chain, options, input)"
)
QUICK = 60000
THOROUGH = 800000


def c_len3(m):
    return m.end - m.start <= 3


def c_len9(m):
    return m.end - m.start <= 9


def c_one(m):
    return m.end - m.start <= 2


def c_even(m):
    return (m.end - m.start) % 2 == 0


def c_kids(m):
    return len(m.children) <= 3


def c_lastb(m):
    return str(m.raw).endswith("b")


def c_never(m):
    return False


def b_count(ms):
    return len(ms) > 3


def b_end(ms):
    return ms[-1].end - ms[0].start > 4 if len(ms) else False


def b_dash(ms):
    return any(m.raw == "-" for m in ms)


def b_many(ms):
    return len(ms) > 9


def b_span(ms):
    return ms[-1].end - ms[0].start > 11 if len(ms) else False


def case(rng, rec, i):
    opts = pipe.options(rng, gen.NAMES)
    opts.pop("validator", None)
    opts.pop("validate_all", None)
    kids = opts.get("children") or opts.get("every")
    v = rng.choice([None, c_len3, c_even, c_kids, c_lastb, c_never, c_len3])
    if v:
        opts["validator"] = v if not kids and rng.random() < 0.5 else {"__parent__": v}
        if opts.get("children") and not opts.get("every"):
            opts["validate_all"] = True
            opts["validator"] = {"__parent__": v}
        if kids and rng.random() < 0.2:
            opts["validator"]["n3"] = pipe.v_even
        elif kids and rng.random() < 0.3:
            opts["validator"] = v  # for parts as well
    if kids and rng.random() < 0.35:
        opts["validator"] = dict(opts.get("validator") or {}) if not callable(opts.get("validator")) else {None: v}
        for k in rng.sample(["p1", "p3", "n1", "__children__"], rng.randint(1, 2)):
            opts["validator"][k] = rng.choice(pipe.VALIDATORS)
    chain = chains.rand_chain(rng, opts)
    chain["breaker"] = rng.choice([None, None, b_count, b_end, b_dash, b_many, b_span])
    for p in chain["parts"]:
        if p["kind"] != "chain" and opts.get("marker") and rng.random() < 0.5:
            p["opts"]["marker"] = True
        if p["opts"].get("name") == "n2":
            p["opts"]["name"] = "p3"
    long = rng.random() < 0.05
    if long:
        # many repetitions to drop
        part = {"kind": "string", "patterns": [rng.choice(["a", "ab"])], "opts": {}, "rep": "*", "lo": 0, "hi": None, "hidden": False}
        part["opts"] = rng.choice([{}, {"name": "p1"}, {"private": True}])
        part["rep"], part["lo"], part["hi"] = rng.choice([("*", 0, None), ("+", 1, None), ("{,30}", 0, 30), ("{2,}", 2, None)])
        chain["parts"] = [{"kind": "string", "patterns": ["-"], "opts": {}, "rep": None, "lo": 1, "hi": 1, "hidden": False}, part]
        v = rng.choice([c_len9, c_one, c_even])
        for k in ("children", "every", "validate_all"):
            opts.pop(k, None)
        opts["validator"] = {"__parent__": v}
        kids = False
    rec.note("parts", chains.shape(chain), "opts", opts, "breaker", chain["breaker"])
    r = Rebulk(default_rules=False)
    chains.build(r, chain)
    for _ in range(3):
        s = chains.text(rng) if not long else "".join("-" + rng.choice(["a", "ab"]) * rng.randint(1, 30) for _ in range(2))
        rec.note("input", s)
        emitted = chains.run(chain, s, re)
        want = [m for m in emitted if not m.marker]
        want_markers = [m for m in emitted if m.marker]
        got = r.matches(s)
        rec.expect([model.observed(m) for m in got], [m.key() for m in want], "chain matches with options")
        rec.expect([model.observed(m) for m in got.markers], [m.key() for m in want_markers], "chain markers")
        for m in got:
            if v and m.parent is None and not kids:
                rec.require(v(m), "an emitted chain satisfies its validator", m.span)
        if emitted:
            rec.state(chains.shape(chain), sorted(opts), s, chain["breaker"] and chain["breaker"].__name__, v and v.__name__)
            rec.sample((chains.shape(chain), sorted(opts), s, [(m.start, m.end) for m in emitted]))
