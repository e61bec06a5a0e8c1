"""Both regular expression backends produce the same matches on the syntax they share."""

import importlib
import os
import sys

from vh import gen, util

RULE = (
    "two copies of the library loaded in one process, one on the standard backend and one on the optional backend (with "
    "repeated captures off), given the same random patterns (groups, alternations, flags, abbreviations, precompiled "
    "arguments, chains) and inputs including non-ASCII text; the complete results are compared; non-trivial: at least "
    "one match, distinct (patterns, input)"
)
QUICK = 20000
THOROUGH = 250000
BACKENDS = ["re"]


def load(env):
    for name in [n for n in sys.modules if n == "rebulk" or n.startswith("rebulk.")]:
        del sys.modules[name]
    if env:
        os.environ["REBULK_REGEX_ENABLED"] = env
    else:
        os.environ.pop("REBULK_REGEX_ENABLED", None)
    return importlib.import_module("rebulk"), importlib.import_module("rebulk.remodule")


STD, STD_RE = load(None)
ALT, ALT_RE = load("1")
_regex = sys.modules.get("regex")
sys.modules["regex"] = None  # as if it was not installed
try:
    WITHOUT, WITHOUT_RE = load("1")
except ImportError:
    WITHOUT = WITHOUT_RE = None
finally:
    if _regex is None:
        del sys.modules["regex"]
    else:
        sys.modules["regex"] = _regex
ON = [load(v)[0].REGEX_ENABLED for v in ("1", "true", "True", "Y")]
OFF = [load(v)[0].REGEX_ENABLED for v in ("", "0")]
load(None)


def source(rng):
    if rng.random() < 0.05:  # many groups
        return "".join(f"({rng.choice(['a', 'b', '1', '[ab]'])})?" if k % 3 else f"(?P<g{k}>{rng.choice(['a', '[ab1]', '-'])})?" for k in range(rng.randint(7, 13) if rng.random() < 0.7 else rng.randint(20, 28)))
    if rng.random() < 0.1:  # groups captured outside of the match
        return rng.choice(["(?<=(a)[-b])", "(?<=(.)-)", "(?<=(?P<bh>.))", ""]) + gen.regex_source(rng, maxparts=2) + rng.choice(["", "(?=(.))", "(?=[-a](?P<ah>.))"])
    return gen.regex_source(rng, maxparts=3)


def case(rng, rec, i):
    if i < 8:
        rec.require(not STD.REGEX_ENABLED and ALT.REGEX_ENABLED and STD_RE.re.__name__ != ALT_RE.re.__name__, "each copy uses its backend")
        rec.require(WITHOUT is not None and not WITHOUT.REGEX_ENABLED and WITHOUT_RE.re.__name__ == "re", "the standard backend is used where the optional one is not installed")
        rec.expect(ON, [True] * 4, "values which ask for the optional backend")
        rec.expect(OFF, [False, False], "values which do not ask for the optional backend")
    plan = []
    for _ in range(rng.randint(1, 3)):
        o = {}
        if rng.random() < 0.6:
            o["name"] = rng.choice(["n1", "main"])
        k = rng.choice([None, "children", "every", "private_parent", "private_children"])
        if k:
            o[k] = True
        if rng.random() < 0.3:
            o["formatter"] = rng.choice([str.upper, len])
        if rng.random() < 0.25:
            o["flags"] = int(rng.choice([STD_RE.re.IGNORECASE, STD_RE.re.DOTALL, STD_RE.re.MULTILINE]))
        if rng.random() < 0.2:
            o["abbreviations"] = [("-", r"[\W_]"), ("c", "[c1]")]
        plan.append((rng.choice(["regex", "regex", "regex", "chain"]), [source(rng) for _ in range(rng.choice([1, 1, 2]))], rng.choice(["str", "str", "dict", "tuple", "compiled"]), o, rng.choice([None, "+", "*", 2, "{1,2}", "{2,}", "?"]), rng.choice(["*", "{,2}", "{0,1}", "{ , 3 }", "?", "{2}"])))
    rules = rng.random() < 0.5
    s = gen.text(rng, 16)
    rec.note(repr(s), plan, rules)

    def run(lib, mod, repeated):
        r = lib.Rebulk(default_rules=rules)
        if repeated is not None:
            r.regex_defaults(repeated_captures=repeated)
        for kind, pats, form, o, rep, last in plan:
            o = dict(o)
            if kind == "chain":
                flags = o.pop("flags", None)
                o.pop("abbreviations", None)
                r.chain(**o).regex(pats[0], **({"flags": flags} if flags else {})).repeater(rep if rep not in ("*", "?", None) else 1).string("-").repeater(last).close()
                continue
            flags = o.get("flags", 0)
            if form == "dict":
                o.pop("flags", None)
                args = [{"pattern": p, "flags": flags} for p in pats]
            elif form == "tuple":
                o.pop("flags", None)
                args = [(p, flags) for p in pats]
            elif form == "compiled" and not o.get("abbreviations"):
                o.pop("flags", None)
                args = [mod.re.compile(p, flags) for p in pats]
            else:
                args = pats
            r.regex(*args, **o)
        ms = r.matches(s)
        return util.dumps(ms), [(k, repr(v)) for k, v in ms.to_dict().items()]

    a, b = run(STD, STD_RE, None), run(ALT, ALT_RE, False)
    rec.expect(b[0], a[0], "matches of both backends", kind="both backends")
    if WITHOUT is not None and i % 8 == 0:
        rec.expect(run(WITHOUT, WITHOUT_RE, None)[0], a[0], "matches where the optional backend is not installed")
    rec.expect(b[1], a[1], "dict of both backends")
    if a[0][0]:
        rec.state(repr(plan), s)
        rec.sample((s, plan, a[1]))
    if i % 16 == 0:
        # an expression compiled by the standard module is used as it is
        compiled = STD_RE.re.compile(source(rng), rng.choice([0, STD_RE.re.IGNORECASE, STD_RE.re.ASCII]))
        o = rng.choice([{}, {"children": True}, {"name": "n"}])
        rec.note("compiled by the standard module", compiled.pattern, o)
        for label, lib in (("alone", ALT.Rebulk(default_rules=rules).regex(compiled, **o)), ("in a chain", ALT.Rebulk(default_rules=rules).chain().regex(compiled, **o).close())):
            same = STD.Rebulk(default_rules=rules)
            same = same.regex(compiled, **o) if label == "alone" else same.chain().regex(compiled, **o).close()
            rec.expect(util.dumps(lib.matches(s)), util.dumps(same.matches(s)), f"expression compiled by the standard module, {label}")
    # repeated captures belong to the optional backend
    if i % 16 == 0:
        try:
            STD.Rebulk().regex("a", repeated_captures=True)
        except NotImplementedError:
            rec.ok("repeated captures need the optional backend")
        else:
            rec.require(False, "repeated captures need the optional backend")
        text = "".join(rng.choice("1123-") for _ in range(rng.randint(1, 24)))
        rec.note("repeated captures", text)
        got = [m.span for m in ALT.Rebulk().regex(r"(?:(\d)-?)+", children=True).matches(text)]
        rec.expect(got, [(k, k + 1) for k, c in enumerate(text) if c != "-"], "repeated captures")
        name = rng.choice(["digit", "other", None])
        kw = {"name": name} if name else {}
        extra = rng.choice([0, 2, 9])
        got = [(m.span, m.name) for m in ALT.Rebulk(default_rules=False).regex("(z)?" * extra + r"(?:(?P<digit>\d)-?)+", children=True, **kw).matches(text)]
        rec.expect(got, [((k, k + 1), "digit") for k, c in enumerate(text) if c != "-"], "repeated captures of a named group")
        got = [m.span for m in ALT.Rebulk(default_rules=False).regex("(z)?" * extra + r"(?:(\d)-?)+", children=True, **kw).matches(text)]
        rec.expect(got, [(k, k + 1) for k, c in enumerate(text) if c != "-"], "repeated captures after other groups")
