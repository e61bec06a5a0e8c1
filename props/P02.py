"""Regex patterns report exactly the matches of the regular expression engine, with group children."""

from rebulk import Rebulk
from rebulk.remodule import REGEX_ENABLED, re

from vh import gen

RULE = (
    "random safe regular expressions (named, unnamed, nested, optional groups; alternations) given as str, tuple, "
    "dict or compiled object, with flags and abbreviations, on random inputs; compared with the engine's own "
    "finditer; non-trivial: at least one match, distinct (input, patterns, form)"
)
QUICK = 48000
THOROUGH = 600000


def children_spans(mo, g, repeated):
    if repeated:
        return list(mo.spans(g))
    sp = mo.span(g)
    return [sp] if sp != (-1, -1) else []


def case(rng, rec, i):
    s = gen.text(rng, rng.choice([8, 16, 30]) if i % 61 != 7 else 100)
    npat = rng.randint(1, 3) if rng.random() < 0.9 else rng.randint(4, 6)
    flags = rng.choice([0, 0, re.IGNORECASE, re.IGNORECASE | re.DOTALL, re.MULTILINE])
    abbrev = rng.choice([None, None, [("-", "[-_. ]")], [("W", r"\w"), ("w", "b")], [("a", "[ab]"), ("b", "b+")], [("zz", "y"), ("1", r"\d"), ("o", "[oc]"), ("-", "[-_]"), ("c", "[abc]")]])
    args, oracle = [], []
    kwargs = {}
    form = rng.choice(["str", "str", "tuple", "dict", "compiled"])
    if rng.random() < 0.6:
        kwargs["name"] = "pat"
    if rng.random() < 0.3:
        kwargs["tags"] = ["t"]
    if rng.random() < 0.15:
        kwargs["marker"] = True
    if abbrev:
        kwargs["abbreviations"] = abbrev
    if form == "str" and flags:
        kwargs["flags"] = flags
    repeated = REGEX_ENABLED
    if rng.random() < 0.3:
        repeated = REGEX_ENABLED and rng.random() < 0.5
        kwargs["repeated_captures"] = repeated
    for _ in range(npat):
        while True:
            src = gen.regex_source(rng)
            if REGEX_ENABLED and rng.random() < 0.4:
                src += r"(?:(?P<rep>\w)[-_. ]?)+"
            if rng.random() < 0.15:
                src = rng.choice(["^", r"\b", "(?<=a)", "(?<!b)"]) + src
            if rng.random() < 0.15:
                src += rng.choice(["$", r"\b", "(?=b)", "(?!a)"])
            if rng.random() < 0.1:
                # groups captured outside of the match itself
                src = rng.choice(["(?<=(a)[-b])" + src, "(?<=(.)(?P<back>.)-)" + src, src + "(?=[-b](.))", src + "(?=(.))", src + "(?=(?P<ahead>[ab]))", "(?<=(.))" + src, "(?<=(?P<behind>a))" + src])
            if rng.random() < 0.08:
                src += "".join(rng.choice(["(.)?", "(a)?", "(b|.)?"]) for _ in range(rng.randint(6, 12) if rng.random() < 0.7 else rng.randint(20, 30)))
            try:
                exp = src
                if form != "compiled" and abbrev:
                    for k, v in abbrev:
                        exp = exp.replace(k, v)
                compiled = re.compile(exp, flags)
            except Exception:
                continue
            break
        oracle.append(compiled)
        if form == "str":
            args.append(src)
        elif form == "tuple":
            args.append((src, flags) if flags or rng.random() < 0.5 else (src,))
        elif form == "dict":
            args.append({"pattern": src, "flags": flags})
        else:
            args.append(compiled)
    rec.note("input", s, "patterns", [o.pattern for o in oracle], "form", form, "flags", int(flags), "kwargs", kwargs)
    frozen = repr(args)
    r = Rebulk(default_rules=False).regex(*args, **kwargs)
    rec.expect(repr(args), frozen, "patterns given by the caller are left as they were")
    out = r.matches(s)
    got = list(out.markers if kwargs.get("marker") else out)
    want = []
    for compiled in oracle:
        names = {v: k for k, v in compiled.groupindex.items()}
        for mo in compiled.finditer(s):
            if mo.end() == mo.start():
                continue
            kids = []
            for g in range(1, compiled.groups + 1):
                for a, b in children_spans(mo, g, repeated):
                    if b > a:
                        kids.append(((a, b), names.get(g, kwargs.get("name"))))
            want.append((mo.span(), kids))
    rec.expect([(m.span, [(c.span, c.name) for c in m.children]) for m in got], want, "regex matches and group children")
    for m in got:
        rec.expect((m.name, list(m.tags), bool(m.marker), m.raw, m.value, m.parent), (kwargs.get("name"), kwargs.get("tags", []), bool(kwargs.get("marker")), s[m.start : m.end], s[m.start : m.end], None), "regex match attributes")
        for c in m.children:
            rec.require(c.parent is m, "a group match has the whole match as parent")
            rec.expect((c.raw, c.value, list(c.tags)), (s[c.start : c.end], s[c.start : c.end], kwargs.get("tags", [])), "group match attributes")
            rec.require(c.initiator is m, "initiator of a group match is the whole match")
        want_names = {n for c in m.children for n in [c.name]} if m.children else {m.name}
        rec.expect(m.names, want_names, "names carried by a match")
    if want:
        rec.state(s, [o.pattern for o in oracle], form, int(flags))
        rec.count("matches", len(want))
        rec.count("group_children", sum(len(k) for _, k in want))
        rec.sample((s, [o.pattern for o in oracle], want[:3]))
