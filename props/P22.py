"""Declared and given keys convert the matches they name, and never replace an explicit formatter."""

from dataclasses import dataclass
from typing import TypedDict

from rebulk import Key, Rebulk
from rebulk.remodule import re

from vh import gen, model, pipe

RULE = (
    "rebulks built by random sequences of key declarations, defaults and patterns (string, regex, functional, chain) with "
    "given keys and explicit formatters in every form; oracle: precedence explicit > given key > declared key > role / "
    "default entry, resolved on plain data; dicts given by the caller must stay as they are; non-trivial: at least one "
    "match named after a key, distinct configuration"
)
QUICK = 24000
THOROUGH = 300000

NAMES = ["x", "y", "z"]


class Money:
    def __init__(self, text):
        self.text = text

    def __eq__(self, other):
        return isinstance(other, Money) and self.text == other.text

    def __repr__(self):
        return f"Money({self.text})"


@dataclass
class Record:
    a: int


class Dict(TypedDict):
    a: int


def rand_key(rng, name):
    t, f = rng.choice([(str, None), (str, str.upper), (int, len), (Money, None), (Money, Money), (str, pipe.f_rev), (bool, None), (list, None), (tuple, None)])
    return Key(name, t, formatter=f)


def conv(key):
    return key.formatter if key.formatter is not None else key.value_type


def case(rng, rec, i):
    s = gen.text(rng, 12, "ab1 -")
    r = Rebulk(default_rules=False)
    declared = {}
    default_formatter = None
    specs = []
    owned = []
    log = []
    for _ in range(rng.randint(1, 5)):
        op = rng.random()
        if op < 0.3:
            ks = [rand_key(rng, n) for n in rng.sample([*NAMES, "v1", "v2"], 5) if rng.random() < 0.5]
            r.declare_keys(*ks)
            for k in ks:
                declared[k.name] = k
            log.append(("declare", ks))
            continue
        if op < 0.36:
            default_formatter = rng.choice([pipe.f_tag, {"y": pipe.f_tag}])
            r.defaults(formatter=default_formatter)
            log.append(("defaults", default_formatter))
            continue
        kind = rng.choice(["string", "regex", "regex", "functional"])
        kw = {}
        mode = rng.random()
        if mode < 0.2:
            kw["formatter"] = rng.choice(pipe.FORMATTERS)
        elif mode < 0.5:
            kw["formatter"] = {k: rng.choice([*pipe.FORMATTERS, None]) for k in [*NAMES, "__children__", "__parent__", None] if rng.random() < 0.35}
        key = None
        if rng.random() < 0.5:
            key = rand_key(rng, rng.choice(NAMES)) if rng.random() < 0.5 else [rand_key(rng, n) for n in rng.sample([*NAMES, "v1", "v2"], 5) if rng.random() < 0.6]
        if rng.random() < 0.5:
            kw["name"] = rng.choice([*NAMES, "other"])
        if rng.random() < 0.15:
            # a literal value replaces what formatters give, no value leaves it
            kw["value"] = {k: rng.choice([None, None, "lit"]) for k in [*NAMES, "__children__", "__parent__", None] if rng.random() < 0.35}
        if kind == "regex" and rng.random() < 0.6:
            kw["children"] = True
        elif kind == "regex" and rng.random() < 0.3:
            kw["every"] = True
        if rng.random() < 0.12:
            kw["marker"] = True
        if isinstance(kw.get("formatter"), dict):
            owned.append((kw["formatter"], dict(kw["formatter"])))
        log.append((kind, dict(kw), key))
        # resolve
        explicit = kw.get("formatter")
        single = callable(explicit)
        given = dict(kw)
        if isinstance(key, list) and key and single:
            try:
                getattr(r, kind)("a", key=key, **given)
            except TypeError:
                rec.ok("keys and a single formatter are rejected")
            else:
                rec.require(False, "keys and a single formatter are rejected")
            continue
        fmt = explicit
        opts = {k: v for k, v in kw.items() if k != "formatter"}
        if isinstance(key, Key):
            opts.setdefault("name", key.name)
            if explicit is None:
                fmt = conv(key)
        elif key:
            fmt = {**{k.name: conv(k) for k in key}, **(explicit or {})}
        if default_formatter is not None:
            if fmt is None:
                fmt = default_formatter
            elif isinstance(fmt, dict) and isinstance(default_formatter, dict):
                fmt = {**default_formatter, **fmt}
        if not callable(fmt):
            fmt = {**{n: conv(k) for n, k in declared.items()}, **(fmt or {})}
        opts["formatter"] = fmt
        if kind == "string":
            pats = ["a", "b1"]
        elif kind == "regex":
            pats = [rng.choice([r"(?P<x>[ab])(?P<y>1)?", r"(?P<z>a)(b)?", r"[ab]+"])]
        else:
            pats = ["a"]
        specs.append({"kind": "regex" if kind == "regex" else "string", "patterns": pats, "opts": opts})
        if kind == "functional":
            r.functional(lambda t: [(k, k + 1) for k, c in enumerate(t) if c == "a"] or None, key=key, **given)
        else:
            getattr(r, kind)(*pats, key=key, **given)
    rec.note(repr(s), log)
    got = r.matches(s)
    want = [m for sp in specs for m in model.run(sp, s, re)]
    rec.expect([(m.span, m.name, repr(m.value)) for m in got], [((m.start, m.end), m.name, repr(m.value)) for m in want if not m.marker], "values")
    rec.expect([(m.span, m.name, repr(m.value)) for m in got.markers], [((m.start, m.end), m.name, repr(m.value)) for m in want if m.marker], "values of markers")
    rec.expect(dict(got.declared_keys), declared, "declared keys on the result")
    for given, before in owned:
        rec.expect(given, before, "formatter dict given by the caller")
    # a chain inherits the keys declared before it
    if rng.random() < 0.3:
        r2 = Rebulk(default_rules=False)
        ks = {n: rand_key(rng, n) for n in NAMES if rng.random() < 0.6}
        if rng.random() < 0.8:
            r2.declare_keys(*ks.values())
        else:
            ks = {}
        own = rng.choice([None, None, {"x": pipe.f_tag}])
        kids = rng.random() < 0.6
        cb = r2.chain(children=kids, **({"formatter": own} if own else {}))
        inside = {n: rand_key(rng, n) for n in NAMES if rng.random() < 0.4}
        parts = dict(ks)
        if rng.random() < 0.5:
            parts.update(inside)
            # keys declared on the chain builder concern what this builder builds (its parts), not the rebulk
            cb.declare_keys(*inside.values())
            rec.expect(dict(r2.effective_keys()), ks, "keys declared on a chain builder stay there")
        if kids:
            cb.regex("(?P<x>a)").regex("(?P<y>b)").repeater("*").regex("(?P<z>1)?").close()
        elif rng.random() < 0.5:
            cb.regex("a", name="x").string("b", name="y").repeater("*").regex("1", name="z").repeater("?").close()
        else:
            cb.regex("(?P<x>a)", children=True).regex("(?P<y>b)", every=True).repeater("*").regex("(?P<z>1)", children=True).repeater("?").close()
        if rng.random() < 0.5:
            r2.declare_keys(Key("x", int), Key("y", int), Key("z", int))
        eff = {**{n: conv(k) for n, k in ks.items()}, **(own or {})}
        t = rng.choice(["ab1", "abb", "aabb1-ab", s])
        for m in r2.matches(t):
            if kids:
                rec.expect(m.value, eff[m.name](m.raw) if m.name in eff else m.raw, "value of a chain child")
                continue
            # parts of a chain which is not asked for its children convert by themselves
            for part in m.children:
                if part.name:
                    rec.expect(part.value, conv(parts[part.name])(part.raw) if part.name in parts else part.raw, "value of a part of a chain")
                    rec.count("parts")
    # keys are values: equal when made alike, usable in sets, and never change
    k1 = rand_key(rng, rng.choice(NAMES))
    k2 = Key(k1.name, k1.value_type, k1.formatter) if rng.random() < 0.5 else Key(k1.name, k1.value_type, formatter=k1.formatter)
    rec.require(k1 == k2 and hash(k1) == hash(k2) and len({k1, k2}) == 1, "keys made alike are equal", k1, k2)
    k3 = rand_key(rng, rng.choice(NAMES))
    rec.expect(k1 == k3, (k1.name, k1.value_type, k1.formatter) == (k3.name, k3.value_type, k3.formatter), "keys are equal when made alike only")
    for attr, other in (("name", "w"), ("value_type", int), ("formatter", len)):
        was = getattr(k1, attr)
        try:
            setattr(k1, attr, other)
        except AttributeError:
            pass
        else:
            rec.require(False, "a key cannot be changed", attr)
        rec.require(getattr(k1, attr) is was, "a key cannot be changed", attr)
    rec.require(k1.converter is conv(k1), "converter of a key")
    # keys of structured types are rejected
    if i % 50 == 0:
        for bad in (Record, Dict):
            try:
                Key("x", bad)
            except TypeError:
                rec.ok("structured key rejected")
            else:
                rec.require(False, "a key of a structured type is rejected", bad)
    if any(m.name in NAMES for m in want):
        rec.state(repr(log), s)
        rec.sample((s, log, [(m.span, m.name, m.value) for m in got]))
