"""
Random complete rebulks: every kind of pattern, option, callback and rule.

``build(seed, hook)`` is deterministic: called twice with the same seed it gives two equal, independent rebulks.
Every user callback calls ``hook(kind)`` first, so properties can count them, delay them or make them fail.
"""

from __future__ import annotations

import random
import re

from rebulk import AppendMatch, AppendTags, CustomRule, Key, Rebulk, RemoveMatch, RemoveTags, RenameMatch, Rule
from rebulk.match import Match
from rebulk.processors import POST_PROCESS

NAMES = ["n1", "n2", "n3"]


def build(seed, hook=lambda kind: None, rules=True, depth=0):
    rng = random.Random(f"bulk:{seed}:{depth}")

    def cb(kind, f):
        def callback(*args):
            hook(kind)
            return f(*args)

        return callback

    def cb_match(kind, f):
        def callback(match):
            hook(kind)
            return f(match)

        return callback

    def cb_text(kind, f):
        def callback(text):
            hook(kind)
            return f(text)

        return callback

    def options(children):
        o = {}
        if rng.random() < 0.7:
            o["name"] = rng.choice(NAMES)
        if rng.random() < 0.3:
            o["tags"] = rng.sample(["t1", "t2"], rng.randint(1, 2))
        r = rng.random()
        if r < 0.35:
            o["formatter"] = cb_text("formatter", rng.choice([str.upper, len, lambda v: [v]]))
        elif r < 0.5:
            o["formatter"] = {n: cb_text("formatter", rng.choice([str.upper, len])) for n in NAMES if rng.random() < 0.6}
        if rng.random() < 0.15:
            o["value"] = rng.choice(["v", 3, 0])
        if rng.random() < 0.35:
            o["validator"] = cb_match("validator", rng.choice([lambda m: m.start % 3 != 1, lambda m: len(m) > 0, lambda m: "b" not in str(m.value)]))
        if rng.random() < 0.25:
            o["conflict_solver"] = cb("conflict_solver", rng.choice([lambda a, b: a if a.start < b.start else b, lambda a, b: "__default__", lambda a, b: None, lambda a, b: b]))
        if rng.random() < 0.12:
            o["private"] = True
        if rng.random() < 0.1:
            o["disabled"] = cb("disabled", lambda context: bool((context or {}).get("off")))
        if children:
            k = rng.choice([None, "children", "every", "private_children", "private_parent"])
            if k:
                o[k] = True
            if rng.random() < 0.15:
                o["private_names"] = [rng.choice(NAMES)]
            if rng.random() < 0.15:
                o["ignore_names"] = [rng.choice(NAMES)]
        r = rng.random()
        if r < 0.08:
            o["post_processor"] = cb("post_processor", lambda ms, pattern: [m for m in ms if m.end % 4 != 2])
        elif r < 0.16:

            def pre(m):
                hook("pre_match_processor")
                return m if m.start % 5 != 3 else False

            o["pre_match_processor"] = pre
        elif r < 0.24:

            def post(m):
                hook("post_match_processor")
                m.tags.append("post")
                return m

            o["post_match_processor"] = post
        return o

    r = Rebulk(
        disabled=cb("disabled", lambda context: bool((context or {}).get("alloff"))) if depth == 0 or rng.random() < 0.7 else (lambda context: bool((context or {}).get("child"))),
        default_rules=rules,
    )
    if rng.random() < 0.4:
        r.declare_keys(Key("n1", str, formatter=cb_text("formatter", str.title)))
    if rng.random() < 0.3:
        r.defaults(tags=["d"])
    if rng.random() < 0.2:
        r.regex_defaults(abbreviations=[("-", r"[\W_]")])
    for _ in range(rng.randint(1, 4)):
        kind = rng.choice(["string", "regex", "regex", "regex", "functional", "chain", "marker"])
        if kind == "string":
            r.string(*rng.sample(["a", "b", "ab", "1", "ba", "-"], rng.randint(1, 2)), **options(False))
        elif kind == "regex":
            if rng.random() < 0.15:
                r.regex("A+(?P<n1>B)?", flags=re.IGNORECASE, log_level=rng.choice([None, 10, 20]), **options(True))
                continue
            r.regex(rng.choice([r"(?P<n1>[ab])(?P<n2>\d)?", r"a+b?", r"(?P<n2>\w)-(?P<n3>\w)", r"\d+", r"(a)(?P<n1>b)?"]), **options(True))
        elif kind == "functional":

            twice = rng.random() < 0.2

            def fn(text, context=None, twice=twice):
                hook("functional")
                out = [(k, k + 2, {"name": "n3"}) for k, c in enumerate(text[:-1]) if c == "b"]
                if twice:
                    out += out[:1]  # equal matches
                if (context or {}).get("extra") and text:
                    out.append((0, 1, {"tags": ["extra"]}))
                return out

            r.functional(fn, **options(False))
        elif kind == "chain":
            o = options(True)
            o.pop("every", None)
            if rng.random() < 0.3:
                o["chain_breaker"] = cb("chain_breaker", lambda ms: len(ms) > 2)
            c = r.chain(**o).regex("(?P<n1>[ab])", **({"children": True} if rng.random() < 0.3 else {})).repeater("+")
            c = c.string("-").repeater("?").hidden() if rng.random() < 0.5 else c.string("-").repeater("*")
            c.regex(r"(?P<n2>\d)").repeater(rng.choice(["*", "?", "+", "{1,2}"])).close()
        else:
            r.regex(rng.choice(["[ab]+", r"\d"]), marker=True, name="mk")
    if rules:
        pool = []

        class Append(Rule):
            consequence = AppendMatch("added")
            priority = 5

            def when(self, matches, context):
                hook("when")
                return [Match(m.end, m.end + 1, input_string=m.input_string, tags=["r"]) for m in matches.named("n1") if m.input_string and m.end < len(m.input_string)]

        class Rename(Rule):
            consequence = RenameMatch("renamed")

            def when(self, matches, context):
                hook("when")
                return [m for m in matches if m.name == "n2"]

        class Remove(Rule):
            consequence = RemoveMatch
            dependency = None

            def enabled(self, context):
                hook("enabled")
                return not (context or {}).get("keep")

            def when(self, matches, context):
                hook("when")
                return [m for m in matches if m.tagged("t2")]

        class Tag(Rule):
            consequence = AppendTags(["x1", "x2"])
            priority = -3

            def when(self, matches, context):
                hook("when")
                return [m for m in matches if m.start % 2 == 0]

        class Untag(Rule):
            consequence = RemoveTags(["t1"])

            def when(self, matches, context):
                hook("when")
                return list(matches)

        class Custom(CustomRule):
            priority = POST_PROCESS

            def when(self, matches, context):
                hook("when")
                return matches.holes(predicate=lambda m: len(m) == 1)

            def then(self, matches, when_response, context):
                hook("then")
                for hole in when_response:
                    hole.name = "hole"
                    matches.append(hole)

        class Several(Rule):
            consequence = [RemoveMatch, AppendMatch("several"), AppendTags(["s1"])]
            priority = 7

            def when(self, matches, context):
                hook("when")
                gone = [m for m in matches if m.start % 4 == 1]
                return gone and [gone, (Match(m.start, m.end, input_string=m.input_string) for m in gone), list(matches[:2])]

        pool = [Append, Rename, Remove, Tag, Untag, Custom, Several]
        for cls in pool:
            if rng.random() < 0.2:
                cls.log_level = rng.choice([1, 10, 20])
        r.rules(*(cls(log_level=5) if rng.random() < 0.1 else cls for cls in rng.sample(pool, rng.randint(0, 4))))
    if depth < 2:
        for k in range(rng.choice([0, 0, 1, 2]) if depth == 0 else rng.choice([0, 0, 0, 1])):
            r.rebulk(build(f"{seed}/{k}", hook, rules, depth + 1))
    return r


CONTEXTS = [None, {}, {"off": True}, {"extra": True}, {"keep": True}, {"child": True, "extra": True}, {"alloff": True}, {"off": False, "child": True}, {"extra": False, "child": False}]


def text(rng, hi=14):
    n = rng.randint(0, hi) if rng.random() < 0.97 else rng.randint(3 * hi, 8 * hi)
    return "".join(rng.choice("aabb12--ab_ ") for _ in range(n))
