"""Ways of saying the same thing are equivalent."""

import functools
import re as std

from rebulk import Key, Rebulk, RemoveMatch, Rule
from rebulk.pattern import FunctionalPattern, RePattern, StringPattern
from rebulk.remodule import re
from rebulk.rules import AppendTags

from vh import chains, gen, pipe

RULE = (
    "random configurations written twice, in different but equivalent ways: methods of the builder, build_* methods or "
    "pattern objects, one or several patterns per call, options given, defaulted or spelled with their default value, "
    "single values or dicts of them, keys or names and formatters, expressions as text, tuples, dicts or compiled, strings "
    "as escaped expressions or functions, functions of any form, repeaters of any form, rules given together or apart, "
    "children rebulks or none; both find the same matches and markers; non-trivial: matches found and a rewriting applied, "
    "distinct (configuration, rewriting, input)"
)
QUICK = 24000
THOROUGH = 300000

REGEX = [
    ("a+", []),
    ("(?P<n1>a)b?", ["n1"]),
    ("[ab]+", []),
    (r"\d-?", []),
    ("(?P<n2>[ab])(?P<n1>1)?", ["n1", "n2"]),
    ("(?<=a)b", []),
    (r"(a)(b)?", []),
    (r"(?P<n3>\d)(?P<n2>[ab])|-", ["n2", "n3"]),
]
CLASSES = {"string": StringPattern, "regex": RePattern, "functional": FunctionalPattern}
# options and their values when not given
NEUTRAL = {
    "name": [None],
    "tags": [None, []],
    "formatter": [None, {}],
    "value": [None, {}],
    "validator": [None, {}],
    "children": [False, None],
    "every": [False],
    "private": [False],
    "private_parent": [False],
    "private_children": [False],
    "private_names": [None, []],
    "ignore_names": [None, []],
    "marker": [False],
    "format_all": [False],
    "validate_all": [False],
    "disabled": [False, lambda context: False, 0],
    "conflict_solver": [None],
    "log_level": [None, 10],
    "properties": [None, {}, {"other": [1]}],
    "post_processor": [None, lambda ms, p: list(ms)],
    "pre_match_processor": [None, lambda m: None, lambda m: m],
    "post_match_processor": [None, lambda m: None],
}


class Odd(Rule):
    priority = 5
    consequence = RemoveMatch

    def when(self, matches, context):
        return [m for m in matches if m.start % 3 == 1 and len(m) == 1]


class Tag(Rule):
    priority = -5
    consequence = AppendTags(["seen"])

    def when(self, matches, context):
        return [m for m in matches if matches.previous(m, lambda o: o.end == m.start, 0) is not None]


def first(m, c):
    return c if (m.start, m.end, m.name or "") < (c.start, c.end, c.name or "") else m


def never(m, c):
    return None


def occurrences(sub, shape):
    def spans(text):
        return [m.span() for m in std.finditer(std.escape(sub), text)]

    def whole(text):
        return spans(text)

    def lazily(text):
        yield from spans(text)

    def described(text):
        return [{"start": a, "end": b} for a, b in spans(text)]

    def listed(text, context, name=None):
        return tuple([a, b] for a, b in spans(text))

    def optioned(text, **options):
        return [(a, b, {}) for a, b in spans(text)]

    class Finder:
        def __call__(self, text):
            return spans(text)

        def method(self, text, context):
            return iter(spans(text))

    def more(unused, text):
        return spans(text)

    return [whole, lazily, described, listed, optioned, Finder(), Finder().method, functools.partial(more, None)][shape]


def entry(rng):
    kind = rng.choice(["string", "string", "regex", "regex", "chain"])
    opts = pipe.options(rng, gen.NAMES)
    if rng.random() < 0.25:
        opts["conflict_solver"] = rng.choice([first, never])
    if kind == "string":
        pats = rng.sample(["a", "b", "ab", "1", "-", "ba", "aa"], rng.randint(1, 3))
    elif kind == "regex":
        pats = rng.sample([x for x, _ in REGEX], rng.randint(1, 3))
    else:
        opts.pop("conflict_solver", None)
        pats = chains.rand_chain(rng, opts)
    return kind, pats, opts


def plainly(r, kind, pats, opts):
    if kind == "chain":
        chains.build(r, pats)
    else:
        getattr(r, kind)(*pats, **opts)


def spelled(rng, opts, log):
    """The same options, spelled otherwise."""
    o = dict(opts)
    for k in ("formatter", "value", "validator"):
        if k in o and rng.random() < 0.4:
            if not isinstance(o[k], dict):
                o[k] = {None: o[k]}
                log.append(f"{k} as a dict")
            elif rng.random() < 0.5:
                o[k] = {**o[k], "no such name": rng.choice([None, str])}
                log.append(f"{k} of another name")
    if rng.random() < 0.5:
        for k in rng.sample(sorted(NEUTRAL), rng.randint(1, 4)):
            if k not in o:
                o[k] = rng.choice(NEUTRAL[k])
                log.append(f"{k}={o[k]!r}"[:24])
    if rng.random() < 0.3:
        items = list(o.items())
        rng.shuffle(items)
        o = dict(items)
        log.append("order of options")
    return o


def expression(rng, pattern, log, compiled=True):
    form = rng.choice(["text", "text", "compiled" if compiled else "tuple", "tuple", "dict"])
    if form != "text":
        log.append(form)
    return {"text": pattern, "compiled": compiled and re.compile(pattern), "tuple": (pattern,), "dict": {"pattern": pattern}}[form]


REPEATS = {
    None: [1, "1", "{1,1}", "{1}"],
    1: ["1", "{1,1}", None],
    2: ["2", "{2,2}", "{2}"],
    "2": [2, "{2,2}", "{ 2 }"],
    "{2}": [2, "{2,2}"],
    "+": ["{1,}"],
    "*": ["{0,}"],
    "?": ["{0,1}", "{,1}"],
    "{1,2}": ["{1, 2}", "{ 1,2 }"],
    "{2,}": ["{2 , }"],
    "{,2}": ["{0,2}"],
    0: ["0", "{0,0}"],
    "{0,1}": ["?"],
}


def rewritten_chain(rng, spec, log, depth=0):
    """The same chain, parts written otherwise."""
    out = dict(spec, opts={**spelled(rng, {k: v for k, v in spec["opts"].items() if v is not None}, log)}, parts=[])
    for part in spec["parts"]:
        if part["kind"] == "chain":
            out["parts"].append(rewritten_chain(rng, part, log, depth + 1))
            continue
        p = dict(part, opts=spelled(rng, part["opts"], log))
        if p["rep"] in REPEATS and rng.random() < 0.5:
            p["rep"] = rng.choice(REPEATS[p["rep"]])
            p["overridden"] = []
            log.append(f"repeated {p['rep']}")
        if p["kind"] == "string" and rng.random() < 0.3:
            p["kind"] = "regex"
            p["patterns"] = [std.escape(x) for x in p["patterns"]]
            log.append("string as expression")
        if p["kind"] == "regex" and rng.random() < 0.3:
            p["patterns"] = [expression(rng, x, log) for x in p["patterns"]]
        out["parts"].append(p)
    return out


def registered(rng, r, kind, pats, opts, log):
    """One call, whatever way."""
    how = rng.choice(["method", "method", "built", "object", "child", "defaults"])
    if how != "method":
        log.append(how)
    build = "build_" + {"regex": "re"}.get(kind, kind)
    if how == "method":
        return getattr(r, kind)(*pats, **opts)
    if how == "built":
        return r.pattern(getattr(rng.choice([r, Rebulk()]), build)(*pats, **opts))
    if how == "object":
        return r.pattern(CLASSES[kind](*pats, **opts))
    child = Rebulk(default_rules=rng.random() < 0.5)
    if how == "child":
        getattr(child, kind)(*pats, **opts)
    else:
        some = {k: v for k, v in opts.items() if rng.random() < 0.6}
        general = {k: v for k, v in some.items() if rng.random() < 0.5}
        child.defaults(**general)
        getattr(child, kind + "_defaults")(**{k: v for k, v in some.items() if k not in general})
        getattr(child, kind)(*pats, **{k: v for k, v in opts.items() if k not in some})
    return r.pattern(*child.effective_patterns())


def otherwise(rng, r, kind, pats, opts, log):
    if kind == "chain":
        return chains.build(r, rewritten_chain(rng, pats, log))
    opts = spelled(rng, opts, log)
    if kind == "string" and rng.random() < 0.3 and "properties" not in opts:
        if rng.random() < 0.5:
            kind, pats = "regex", [std.escape(x) for x in pats]
        else:
            kind, pats = "functional", [occurrences(x, rng.randrange(8)) for x in pats]
        log.append(f"string as {kind}")
    if kind == "regex":
        short = rng.random() < 0.2
        if short:
            given = rng.choice([[("@", "[ab]")], [("#", r"\d")], [("@", "[ab]"), ("#", r"\d")], [("@", "[a%]"), ("%", "b")], [("%", ""), ("@", "[ab]")]])
            for k, v in reversed(given):
                pats = [x.replace(v, k) if v else k + x for x in pats]
            opts["abbreviations"] = given
            log.append("abbreviated")
        pats = [expression(rng, x, log, not short) for x in pats]
    if "name" in opts and "formatter" in opts and opts["name"] and callable(opts["formatter"]) and rng.random() < 0.6:
        k = Key(opts["name"], object, formatter=opts["formatter"])
        given = {x: v for x, v in opts.items() if x not in ("name", "formatter")}
        for p in [[x] for x in pats] if rng.random() < 0.5 else [pats]:
            getattr(r, kind)(*p, key=k, **given)
        log.append("key")
        return r
    if len(pats) > 1 and rng.random() < 0.5:
        log.append("one by one")
        for p in pats:
            registered(rng, r, kind, [p], opts, log)
    else:
        registered(rng, r, kind, pats, opts, log)
    return r


def observed(m, depth=0):
    return (
        m.span,
        m.raw_start,
        m.raw_end,
        m.raw,
        m.name,
        repr(m.value),
        list(m.tags),
        bool(m.private),
        bool(m.marker),
        m.match_index,
        m.has_literal_value,
        None if m.parent is None else (m.parent.span, m.parent.name),
        [observed(c, depth + 1) for c in m.children] if depth < 4 else [],
    )


def case(rng, rec, i):
    entries = [entry(rng) for _ in range(rng.randint(1, 4))]
    rules = rng.sample([Odd, Tag], rng.randint(0, 2))
    default_rules = rng.random() < 0.8
    s = chains.text(rng)
    a = Rebulk(default_rules=default_rules)
    for kind, pats, opts in entries:
        plainly(a, kind, pats, opts)
    a.rules(*rules)
    log = []
    b = Rebulk(default_rules=default_rules, **({"disabled": rng.choice([False, lambda context: False])} if rng.random() < 0.3 else {}))
    early = rng.random() < 0.3
    if early:
        b.rules(*rules)
    target = b
    for k, (kind, pats, opts) in enumerate(entries):
        if rng.random() < 0.15:
            log.append("noise")
            getattr(target, rng.choice(["string", "regex"]))("a", "b", disabled=rng.choice([True, 1, lambda context: True]))
        if target is b and k and rng.random() < 0.15:
            # what follows is in a child
            log.append("child rebulk")
            target = Rebulk(default_rules=False)
            b.rebulk(target)
            if rng.random() < 0.3:
                b.rebulk(Rebulk(disabled=True).regex("."))
        otherwise(rng, target, kind, pats, opts, log)
    if not early:
        for x in [rules] if rng.random() < 0.5 else [[y] for y in rules]:
            b.rules(*x)
    desc = [(k, p if k != "chain" else chains.shape(p), sorted(o)) for k, p, o in entries]
    rec.note("configuration", desc, [x.__name__ for x in rules], "written with", log, "text", repr(s))
    before = a.matches(s)
    after = b.matches(s, *rng.choice([(), (None,), ({},), ({"any": 1},)]))
    rec.expect([observed(m) for m in after], [observed(m) for m in before], "matches of the same configuration written otherwise", kind="matches")
    rec.expect([observed(m) for m in after.markers], [observed(m) for m in before.markers], "markers of the same configuration written otherwise", kind="markers")
    rec.count("rewritings", len(log))
    if log and (before or before.markers):
        rec.state(desc, log, s)
        rec.sample((desc, log, s))
