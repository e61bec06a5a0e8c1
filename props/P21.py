"""The declared key contract: matching raises TypeError exactly when a pattern breaks a declared type."""

import os
import subprocess
import sys

from rebulk import Key, Rebulk, debug
from rebulk.rules import CustomRule

from vh import util

RULE = (
    "rebulks (with children rebulks, chains, privates, literal values, None values, renaming rules, disabled parts) with "
    "declared keys and formatters that agree or not, each input run with the contract check off and on; oracle: the "
    "values produced by the patterns before rules; non-trivial: at least one match bound to a declared key, distinct "
    "(configuration, input)"
)
QUICK = 20000
THOROUGH = 250000

TYPES = [int, str, float, bool]
FORMATTERS = [None, None, int, str, float, lambda v: None, lambda v: True, lambda v: [v], bool, lambda v: "", lambda v: 0, lambda v: []]


class Rename(CustomRule):
    """Gives a declared name to other matches: not the business of the contract."""

    def when(self, matches, context):
        return list(matches.named("free"))

    def then(self, matches, when_response, context):
        for m in when_response:
            matches.remove(m)
            m.name = "x"
            matches.append(m)


def case(rng, rec, i):
    if i < 4:
        # the opt-in environment variable
        value, on = [("1", True), ("true", True), ("", False), ("0", False)][i]
        code = "import rebulk, rebulk.debug as d; r = rebulk.Rebulk().declare_keys(rebulk.Key('x', int)).regex('a', name='x', formatter=str)\ntry:\n    r.matches('a'); print('ok')\nexcept TypeError: print('TypeError')"
        env = dict(os.environ, REBULK_CHECK_DECLARED_KEYS=value, PYTHONPATH=os.path.dirname(os.path.dirname(os.path.realpath(debug.__file__))))
        out = subprocess.run([sys.executable, "-B", "-c", code], env=env, capture_output=True, text=True, timeout=60).stdout.strip()
        rec.expect(out, "TypeError" if on else "ok", f"contract with the environment variable set to {value!r}")
        return
    s = "".join(rng.choice("12ab- ") for _ in range(rng.randint(1, 10) if i % 61 != 7 else 80))
    plan = []
    for _ in range(rng.randint(1, 4) if i % 61 != 7 else 12):
        kind = rng.choice(["regex", "regex", "named", "named", "named", "string", "functional", "chain", "parent", "every"])
        o = {"formatter": rng.choice(FORMATTERS)}
        if rng.random() < 0.15:
            o["value"] = rng.choice(["lit", 9, 0, "", {"__parent__": "lit"}, {"x": 9}, {"__children__": 0}, {"y": None, "x": "lit"}])
        if rng.random() < 0.15:
            o["private"] = True
        if rng.random() < 0.2:
            o["private_names"] = [rng.choice(["x", "y", "free", "other"])]
        if rng.random() < 0.1:
            o["private_parent"] = True
        plan.append((kind, o, rng.choice(["x", "y", "free"]), rng.random() < 0.25))
    keys = [Key(n, rng.choice(TYPES), formatter=rng.choice([None, None, str])) for n in ("x", "y") if rng.random() < 0.8]
    where = rng.choice(["parent", "child", "both"])
    child_disabled = rng.random() < 0.2
    parent_disabled = rng.random() < 0.08
    rename = rng.random() < 0.3

    def build(rules):
        r = Rebulk(disabled=parent_disabled, default_rules=rules)
        c = Rebulk(disabled=child_disabled, default_rules=rules)
        if where != "child":
            r.declare_keys(*keys)
        if where != "parent":
            c.declare_keys(*keys)
        for kind, o, name, in_child in plan:
            b = c if in_child else r
            o = {k: v for k, v in o.items() if v is not None}
            if kind == "regex":
                b.regex(r"\d", name=name, **o)
            elif kind == "named":
                b.regex(r"(?P<x>\d)(?P<y>[ab])?", children=True, **o)
            elif kind == "parent":  # matches with children which are not returned
                b.regex(r"(\d)([ab])?", name=name, **o)
            elif kind == "every":
                b.regex(r"(?P<x>\d)(?P<y>[ab])?", name=name, every=True, **o)
            elif kind == "string":
                b.string("a", "1", name=name, **o)
            elif kind == "functional":
                b.functional(lambda t: (0, 1) if t else None, name=name, **o)
            else:
                b.chain(children=True, **o).regex(r"(?P<x>\d)").regex(r"(?P<y>[ab])").repeater("?").close()
        if rename and rules:
            r.rules(Rename)
        return r.rebulk(c)

    rec.note(repr(s), plan, keys, where, child_disabled, parent_disabled, rename)
    debug.CHECK_DECLARED_KEYS = False
    try:
        try:
            raw = build(False).matches(s)
            values = [(m, m.value) for m in raw]
        except (ValueError, TypeError):
            return  # a formatter does not accept the text: nothing to check
        active = {}
        if not parent_disabled:
            if where != "child":
                active.update({k.name: k for k in keys})
            if where != "parent" and not child_disabled:
                for k in keys:
                    active.setdefault(k.name, k)
        broken = [m for m, v in values if m.name in active and not m.private and not m.has_literal_value and v is not None and not isinstance(v, active[m.name].value_type)]
        off = util.dumps(build(True).matches(s))
        debug.CHECK_DECLARED_KEYS = True
        try:
            on = util.dumps(build(True).matches(s))
        except TypeError as e:
            rec.require(bool(broken), "the contract check raises only when a match breaks a declared key", str(e), values, kind="contract")
            rec.count("contracts_broken")
        else:
            rec.require(not broken, "the contract check raises when a match breaks a declared key", broken, active, kind="contract")
            rec.expect(on, off, "matches with the contract check")
        debug.CHECK_DECLARED_KEYS = False
        # on demand, on a list of matches
        try:
            raw.check_declared_keys()
        except TypeError:
            rec.require(bool(broken), "check_declared_keys raises only when a match breaks a declared key", values)
        else:
            rec.require(not broken, "check_declared_keys raises when a match breaks a declared key", broken)
    finally:
        debug.CHECK_DECLARED_KEYS = False
    if any(m.name in active for m, _ in values):
        rec.state(repr(plan), [k.name for k in keys], s)
        rec.sample((s, plan, keys, bool(broken)))
