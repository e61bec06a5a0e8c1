"""Pattern pipeline: naming, privacy, values, formatters, validators and parent/children emission."""

from rebulk import Rebulk
from rebulk.remodule import re

from vh import gen, model, pipe

RULE = (
    "random combinations of name, tags, value, formatter, validator (single or per name, __parent__, __children__, "
    "None), children, every, private*, format_all, validate_all, ignore_names, marker on string and regex patterns; "
    "every emitted match (and its children, parent, privacy, value, index) is compared with a reference pipeline, "
    "and the sequence of validator calls is compared too; non-trivial: something matched, distinct (pattern, options, input)"
)
QUICK = 48000
THOROUGH = 700000


def case(rng, rec, i):
    s = gen.text(rng, 20 if i % 61 != 7 else 90)
    r = Rebulk(default_rules=False)
    want, want_markers, specs = [], [], []
    traces = []
    for _ in range(rng.randint(1, 2)):
        kind = "regex" if rng.random() < 0.85 else "string"
        if kind == "regex":
            pats = [gen.regex_source(rng, groups=0.8) for _ in range(rng.choice([1, 1, 2]))]
        else:
            pats = [rng.choice(gen.WORDS) for _ in range(rng.choice([1, 2]))]
        opts = pipe.options(rng, gen.NAMES)
        spec = {"kind": kind, "patterns": pats, "opts": opts}
        specs.append(spec)
        rec.note(kind, pats, opts)
    rec.note("input", s)
    for spec in specs:
        real_trace, model_trace = [], []

        def traced(fn, log):
            def v(m):
                seen = (fn.__name__, m.start, m.end, m.name, str(m.value), bool(m.private))
                ok = fn(m)
                log.append((*seen, ok))
                return ok

            return v

        def wrap(opts, log):
            opts = dict(opts)
            v = opts.get("validator")
            if callable(v):
                opts["validator"] = traced(v, log)
            elif v:
                opts["validator"] = {k: f and traced(f, log) for k, f in v.items()}
            return opts

        method = r.regex if spec["kind"] == "regex" else r.string
        method(*spec["patterns"], **wrap(spec["opts"], real_trace))
        traces.append((real_trace, model_trace))
        emitted = model.run(dict(spec, opts=wrap(spec["opts"], model_trace)), s, re)
        (want_markers if spec["opts"].get("marker") else want).extend(emitted)
    out = r.matches(s)
    rec.expect([model.observed(m) for m in out], [m.key() for m in want], "matches out of the pattern pipeline")
    rec.expect([model.observed(m) for m in out.markers], [m.key() for m in want_markers], "markers out of the pattern pipeline")
    for real_trace, model_trace in traces:
        if all(x[-1] for x in model_trace):
            # nothing rejected, so what is validated does not depend on an order
            rec.expect(sorted(real_trace, key=repr), sorted(model_trace, key=repr), "matches seen by validators")
        rec.count("validator_calls", len(real_trace))
    if want or want_markers:
        rec.state(s, repr([(x["patterns"], sorted(x["opts"].items(), key=lambda kv: kv[0])) for x in specs]).split(" at 0x")[0])
        rec.sample([(x["patterns"], sorted(x["opts"])) for x in specs] + [s, [(m.start, m.end, m.name) for m in want]])
    for m in out:
        for prop in ("private", "marker"):
            rec.count(prop, int(bool(getattr(m, prop))))
