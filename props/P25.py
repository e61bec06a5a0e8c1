"""Builder defaults apply with a fixed precedence, and no pattern leaks its options into another one."""

import copy
import threading

from rebulk import Key, Rebulk

from vh import gen

RULE = (
    "random sequences of defaults (general, per kind, cleared, repeated), patterns of every kind and chains with random "
    "explicit options, overrides, lists and dicts; each built pattern observed through its matches; oracle: merge of "
    "plain dicts; objects given by the caller compared before and after; non-trivial: at least one default applied, "
    "distinct sequence"
)
QUICK = 24000
THOROUGH = 300000


def twice(text):
    return text * 2


def marked(text):
    return f"<{text}>"


OPTIONS = {
    "name": lambda rng: rng.choice(["d1", "d2", "d3", "clear", "d1", "d2", None]),
    "tags": lambda rng: rng.sample(["t1", "t2", "t3", "t4"], rng.randint(0, 2)),
    "private": lambda rng: rng.choice([True, False]),
    "marker": lambda rng: rng.choice([False, False, True]),
    "value": lambda rng: rng.choice(["v1", 0, {None: False}, {"d1": ""}, {None: "v2"}, {"d1": "v3"}, {"d2": "v4", None: "v5"}, {"__parent__": "v6"}, {None: ["w1"]}, {None: ["w2"], "d1": ["w3"]}, {"d1": ["w4"]}, ["w5"], {"clear": "v7"}, {"clear": True, "d1": "v8"}, {"clear": 0, None: "v9"}, {"d1": None}, {None: None, "d2": "v0"}, None, None]),
    "formatter": lambda rng: rng.choice([str.upper, twice, {"d1": marked}, {"d2": str.upper, "d1": twice}, {None: str.upper}, {None: ord, "d3": marked}, {"__parent__": ord}, {"clear": marked}, {"clear": twice, None: str.upper}, {"d1": None}, {"d2": None, None: twice}, {None: None}, None]),
}


def functional(c):
    return lambda t: (t.index(c), t.index(c) + 1) if c in t else None


def opts(rng, p):
    return {k: f(rng) for k, f in OPTIONS.items() if rng.random() < p}


def merge(defaults, kwargs):
    """kwargs completed with defaults: lists are prefixed, dicts are completed the same way, other values are kept."""
    out = dict(kwargs)
    for k, v in defaults.items():
        if k not in out:
            out[k] = v
        elif isinstance(v, list) and isinstance(out[k], list):
            out[k] = v + out[k]
        elif isinstance(v, dict) and isinstance(out[k], dict):
            out[k] = merge(v, out[k])
    return out


def effective(general, specific, kwargs):
    kwargs = dict(kwargs)
    protected = kwargs.pop("overrides", [])
    out = merge(general, merge(specific, kwargs))
    out.update({k: kwargs[k] for k in protected})
    return out


def expected(o, raw):
    name = o.get("name")

    def get(table, default):
        if not isinstance(table, dict):
            return default if table is None else table
        for k in ([name] if name else []) + ["__parent__", None]:
            if k in table:
                return table[k]
        return default

    value = get(o.get("value"), None)
    if value is None:
        f = get(o.get("formatter"), None)
        value = f(raw) if f else raw
    return (name, value, list(o.get("tags", [])), bool(o.get("private")), bool(o.get("marker")))


def observed(m):
    return (m.name, m.value, m.tags, bool(m.private), bool(m.marker))


class Registry:
    """An object of the caller: what it holds may neither be copied nor replaced."""

    def __init__(self):
        self.lock = threading.Lock()
        self.formatted = []
        self.validated = []

    def convert(self, text):
        self.formatted.append(text)
        return text.title()

    def check(self, match):
        self.validated.append(match.raw)
        return True


def objects(rng, rec):
    """Callables and values given as defaults are used as such by every pattern, parts of chains included."""
    reg, value = Registry(), Registry()
    r = Rebulk(default_rules=False)
    kind = rng.choice([None, "string", "regex", "functional"])
    which = rng.sample(["formatter", "validator", "value"], rng.randint(1, 3))
    table = dict(formatter=reg.convert, validator=reg.check, value=value)
    o = {k: rng.choice([table[k], {None: table[k]}, {"n": table[k]}]) for k in which}
    where = rng.choice([r, "chain", "nested"])
    c = r if where is r else r.chain(formatter=None, validator=None, value=None, children=True, overrides=["formatter", "validator", "value"])
    (c.defaults if kind is None else getattr(c, kind + "_defaults"))(**o)
    depth = rng.randint(where == "chain", 3)
    b = c
    for _ in range(depth):
        b = b.chain(formatter=None, validator=None, value=None, children=True, overrides=["formatter", "validator", "value"])
    k = kind or rng.choice(["string", "regex", "functional"])
    getattr(b, k)(functional("q") if k == "functional" else "q", name="n")
    rec.note("objects as defaults", kind, o, where is r, where, depth, k)
    ms = r.matches("zqz")
    got = [m for m in ms if m.raw == "q" and m.name == "n"]
    rec.expect(len(got), 1, f"the pattern is found among {ms}")
    # (values and formatters of a chain belong to the chain)
    chained = where == "chain" or where == "nested" or depth
    if chained:
        pass
    elif "value" in which:
        rec.require(got[0].value is value, "the value given as default", got[0].value)
    elif "formatter" in which:
        rec.expect(got[0].value, "Q", "value of the match")
        rec.require("q" in reg.formatted, "the object of the caller is called", reg.formatted)
    if "validator" in which:
        rec.require("q" in reg.validated, "the object of the caller is called", reg.validated)
    rec.state("objects", kind, tuple(sorted(which)), depth, k)


def chains_of_chains(rng, rec):
    """Chains nested in chains: each chain and part gets the defaults of the builder it is made with."""
    r = Rebulk(default_rules=False)
    kinds = ("string", "regex", "functional", "chain")
    neutral = dict(name=None, tags=[], private=False, marker=False, value=None, formatter=None)
    neutral["overrides"] = list(neutral)
    log, want = [], []

    def defaults(builder, general, specific):
        for _ in range(rng.choice([0, 1, 1, 2])):
            kind = rng.choice([None, *kinds, "chain", "functional"])
            o = opts(rng, 0.35)
            o.pop("marker", None)
            (builder.defaults if kind is None else getattr(builder, kind + "_defaults"))(**o)
            (general if kind is None else specific[kind]).update(o)
            log.append(("defaults", kind, o))

    def parts(builder, general, specific, depth):
        for _ in range(rng.randint(1, 3)):
            kind = rng.choice(["string", "regex", "functional"] + ["chain"] * (depth < 2))
            c = next(letters)
            o = {k: v for k, v in opts(rng, 0.25).items() if k != "marker"}
            e = effective(general, specific[kind], o)
            want.append((c, kind, (e.get("name"), list(e.get("tags", [])), bool(e.get("private")))))
            log.append((depth, kind, c, o))
            if kind == "chain":
                nested = builder.chain(**o)
                nested.string(c, **neutral)
                g, sp = dict(general), {k: dict(v) for k, v in specific.items()}
                defaults(nested, g, sp)
                parts(nested, g, sp, depth + 1)
            else:
                getattr(builder, kind)(functional(c) if kind == "functional" else c, **o)

    letters = iter("abcdefghijklmnopqrstuvwxyz")
    general, specific = {}, {k: {} for k in kinds}
    defaults(r, general, specific)
    top = r.chain(**neutral)
    g, sp = dict(general), {k: dict(v) for k, v in specific.items()}
    defaults(top, g, sp)
    parts(top, g, sp, 0)
    # nothing of it reaches the outer builder
    want_outer = []
    for c in "YZ":
        kind = rng.choice(kinds)
        e = effective(general, specific[kind], {})
        want_outer.append((c, expected(e, c)))
        if kind == "chain":
            r.chain().string(c, **neutral).close()
        else:
            getattr(r, kind)(functional(c) if kind == "functional" else c)
    rec.note("chains of chains", log, "outside", want_outer)
    used = "".join(c for c, _, _ in want)
    ms = r.matches(used + "-YZ")
    chain = [m for m in ms if m.start == 0 and m.end == len(used)]
    rec.expect(len(chain), 1, "the chain is found")
    for c, kind, w in want:
        at = used.index(c)
        # (a nested chain starts where its first part does)
        got = [(m.name, m.tags, bool(m.private)) for m in chain[0].children if m.start == at and (len(m.raw) == 1) and m.raw == c]
        if kind == "chain":
            got = [(m.name, m.tags, bool(m.private)) for m in chain[0].children if m.start == at and m.pattern.__class__.__name__ == "Chain"]
        rec.expect(got, [w], f"options of part {c!r} of a chain", kind="options of a part")
    for c, w in want_outer:
        rec.expect([observed(m) for m in ms if m.raw == c], [w], "options of a pattern after a chain", kind="options after a chain")


def case(rng, rec, i):
    r = Rebulk(default_rules=False)
    general, specific = {}, {k: {} for k in ("string", "regex", "functional", "chain")}
    owned = []
    want = []
    log = []
    applied = 0
    letters = iter("abcdefghijkl")
    for _ in range(rng.randint(2, 9)):
        if rng.random() < 0.45:
            o = opts(rng, 0.3)
            clear = rng.random() < 0.15
            kind = rng.choice([None, "string", "regex", "functional", "chain"])
            target = general if kind is None else specific[kind]
            owned.append((o, copy.copy(o), {k: copy.copy(v) for k, v in o.items()}))
            call = dict(o, **({"clear": True} if clear else {}))
            (r.defaults if kind is None else getattr(r, kind + "_defaults"))(**call)
            if clear:
                target.clear()
            target.update(o)
            log.append(("defaults", kind, call))
            continue
        o = opts(rng, 0.3)
        if o and rng.random() < 0.25:
            o["overrides"] = rng.sample(sorted(o), rng.randint(1, len(o)))
        if rng.random() < 0.15:  # nothing, whatever the defaults
            k = rng.choice(["name", "value", "formatter"])
            o[k] = None
            o["overrides"] = [*(x for x in o.get("overrides", []) if x != k), k]
        owned.append((o, copy.copy(o), {k: copy.copy(v) for k, v in o.items()}))
        kind = rng.choice(["string", "regex", "functional"])
        c = next(letters)
        log.append((kind, c, o))
        if rng.random() < 0.2 and kind != "functional":
            # inside a chain: defaults of the builder are inherited, those of the chain builder stay inside
            cb = r.chain(children=True, marker=False, value=None, formatter=None, validator=None, overrides=["marker", "value", "formatter"])
            inner_general, inner_specific = dict(general), {k: dict(v) for k, v in specific.items()}
            for _ in range(rng.choice([0, 0, 1, 2])):
                extra = opts(rng, 0.4)
                owned.append((extra, copy.copy(extra), {k: copy.copy(v) for k, v in extra.items()}))
                sub = rng.choice([None, "string", "regex"])
                (cb.defaults if sub is None else getattr(cb, sub + "_defaults"))(**extra)
                (inner_general if sub is None else inner_specific[sub]).update(extra)
                log.append(("chain builder defaults", sub, extra))
            o = {k: v for k, v in o.items() if k in ("name", "tags", "private") and v is not None}
            o.update(marker=False, overrides=["marker"])
            getattr(cb, kind)(c, **o).close()
            e = effective(inner_general, inner_specific[kind], o)
            want.append((c, (e.get("name"), None, list(e.get("tags", [])), bool(e.get("private")), False)))
            applied += 1
            continue
        if kind == "functional":
            r.functional(functional(c), **o)
        else:
            getattr(r, kind)(c, **o)
        e = effective(general, specific[kind], o)
        applied += e != o
        want.append((c, expected(e, c)))
    rec.note(log)
    s = "abcdefghijkl"
    for again in (False, True):
        ms = r.matches(s)
        found = {}
        for m in [*ms, *ms.markers]:
            found.setdefault(m.raw, []).append(m)
        for c, w in want:
            got = found.get(c, [])
            if w[1] is None:  # part of a chain: its value belongs to the chain
                w = (w[0], got[0].value if got else None, *w[2:])
            rec.expect([observed(m) for m in got], [w], f"options of pattern {c!r}" + (", searched again" if again else ""), kind="options of a pattern")
            for m in got:
                m.tags.append("damaged")
    if rng.random() < 0.3:
        chains_of_chains(rng, rec)
    if rng.random() < 0.2:
        objects(rng, rec)
    if rng.random() < 0.3:
        # defaults given to a chain builder stay inside, chain defaults included
        r2 = Rebulk(default_rules=False)
        outer, inner = opts(rng, 0.4), opts(rng, 0.6)
        r2.chain_defaults(**outer)
        rec.note("chain defaults", outer, "then inside", inner)
        r2.chain().chain_defaults(**inner).string("y").close()
        r2.chain().string("z").close()
        ms = r2.matches("yz")
        for c in "yz":
            got = [m for m in [*ms, *ms.markers] if m.raw == c]
            rec.expect([observed(m) for m in got], [expected(effective({}, outer, {}), c)], "options of a chain", kind="options of a chain")
    if rng.random() < 0.2:
        # nothing remains of the defaults of a builder which is reset
        r.declare_keys(Key("d1", str, formatter=str.title))
        r.reset()
        del want[:]
        used = "zyxwv"
        for c in used[: rng.randint(1, 5)]:
            o = {k: v for k, v in opts(rng, 0.3).items() if k != "private"}
            kind = rng.choice(["string", "regex", "functional"])
            getattr(r, kind)(functional(c) if kind == "functional" else c, **o)
            want.append((c, expected(o, c)))
        rec.note("after reset", want)
        ms = r.matches(used)
        for c, w in want:
            rec.expect([observed(m) for m in [*ms, *ms.markers] if m.raw == c], [w], f"options of pattern {c!r} after a reset", kind="options after a reset")
    for o, before, inner in owned:
        rec.expect(o, before, "options given by the caller")
        rec.expect({k: v for k, v in o.items()}, inner, "lists and dicts given by the caller")
    if applied:
        rec.state(repr(log))
        rec.sample((log, want))
