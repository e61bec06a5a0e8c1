"""Typed retrieval returns the values produced by the patterns, for every key and model."""

import dataclasses
from datetime import date, datetime
from typing import Any, Optional, TypedDict, Union

from rebulk import Key, Rebulk
from rebulk.match import Match, Matches

RULE = (
    "match lists built by hand or by rebulks with declared keys, read through typed keys, all(), and to() with generated "
    "dataclasses, typed dicts, scalar and list models whose field types agree or contradict the declared keys; oracle: "
    "values of the named matches in list order and an explicit table of related types; non-trivial: at least one match, "
    "distinct (list, model)"
)
QUICK = 48000
THOROUGH = 500000
BACKENDS = ["re"]

NAMES = ["x", "y", "z"]


class Sub(int):
    pass


def zero(raw):
    return 0


def nothing(raw):
    return None


def nodigit(raw):
    return None if raw in "1a" else raw


def blank(raw):
    return ""


def false(raw):
    return False


# field type, declared type, contradicts
TYPES = [int, str, float, date, datetime, bool, Sub]


def related(a, b):
    return issubclass(a, b) or issubclass(b, a)


def hint(rng):
    """(annotation, element type or None when it cannot be told, is a list)"""
    t = rng.choice(TYPES)
    u = rng.choice([x for x in TYPES if not related(x, t)])
    return rng.choice(
        [
            (t, t, False),
            (t, t, False),
            (list[t], t, True),
            (list[t], t, True),
            (Optional[t], t, False),
            (t | None, t, False),
            (list[t | None], t, True),
            (Optional[list[t]], t, False),
            (list[Optional[list[t]]], t, True),
            (Any, None, False),
            (Union[t, u], None, False),
            (object, object, False),
            (list[Any], None, True),
            (dict, None, False),
            (list, None, False),
        ]
    )


def case(rng, rec, i):
    big = i % 61 == 7
    length = rng.choice([3, 8]) if not big else 60
    s = "".join(rng.choice("123abc") for _ in range(length))
    # a key may also declare values which are lists themselves
    keys = {n: Key(n, rng.choice([*TYPES, list])) for n in NAMES if rng.random() < 0.5}
    if rng.random() < 0.5:
        items = []
        for _ in range(rng.choice([0, 1, 3, 6]) if not big else 40):
            a = rng.randint(0, length - 1)
            items.append(Match(a, a + 1, name=rng.choice([*NAMES, None]), value=rng.choice([None, None, "lit", 7, 0, ""]), formatter=rng.choice([None, str.upper, ord, zero, blank, false, nothing]), input_string=s))
        ms = Matches(list(items), input_string=s)
        ms.declared_keys = keys
    else:
        r = Rebulk(default_rules=False)
        r.declare_keys(*keys.values())
        fm = {n: rng.choice([str.upper, ord, zero, blank, false, nodigit]) for n in NAMES}
        r.regex(r"(?P<x>\d)(?P<y>[a-c])?", children=True, formatter=fm)
        r.string("a", "b", name="z", formatter=fm["z"])
        ms = r.matches(s)
        items = list(ms)
        rec.expect(dict(ms.declared_keys), keys, "declared keys on the result")
    rec.note(repr(s), items, keys)
    values = {n: [m.value for m in items if m.name == n] for n in [*NAMES, "none"]}
    for n in [*NAMES, "none"]:
        k = Key(n, rng.choice(TYPES))
        v = ms[k]
        rec.expect((v, type(v)), (values[n][0], type(values[n][0])) if values[n] else (None, type(None)), "value of a key")
        rec.expect(ms.all(k), values[n], "all values of a key")
    n = len(items)
    if n > 1:
        part = ms[1:]
        k = Key("x", str)
        rec.expect(part.all(k), [m.value for m in items[1:] if m.name == "x"], "all values of a key of a slice")
        rec.expect(dict(part.declared_keys), keys, "declared keys of a slice")

    # scalar and list models
    rec.expect(ms.to(list[str]), [m.value for m in items], "list model")
    try:
        got = ms.to(rng.choice([int, str, float]))
    except LookupError:
        rec.require(not items, "a scalar model is built from the first match")
    else:
        rec.require(bool(items), "a scalar model without match fails", got)
        rec.expect(got, items[0].value, "scalar model")

    # structured models
    for _ in range(3):
        fields, hints, lists_, default = [], {}, {}, {}
        for n in rng.sample([*NAMES, "none"], rng.randint(1, 4)):
            annotation, element, is_list = hint(rng)
            hints[n], lists_[n] = element, is_list
            fields.append((n, annotation))
        contradiction = any(hints[n] is not None and n in keys and not related(hints[n], keys[n].value_type) for n, _ in fields)
        typed_dict = rng.random() < 0.4
        if typed_dict:
            model = TypedDict("Model", dict(fields))
        else:
            default = {n: rng.random() < 0.7 for n, _ in fields}
            ordered = sorted(fields, key=lambda f: default[f[0]])
            # fields computed by the class itself are not given to its constructor
            own = [n for n in [*NAMES, "none"] if n not in hints and rng.random() < 0.3]
            computed = [(n, Any, dataclasses.field(init=False, default_factory=list)) for n in own]
            # how a field is shown, compared or given says nothing about what fills it
            shape = lambda n: rng.choice([{}, {}, {"repr": False}, {"compare": False}, {"hash": False}, {"kw_only": True}, {"metadata": {"rebulk": False}}, {"repr": False, "compare": False}])
            given = [(n, a, dataclasses.field(default="DEFAULT", **shape(n)) if default[n] else dataclasses.field(**shape(n))) for n, a in ordered]
            if rng.random() < 0.2:
                # some of the fields belong to a base class
                cut = rng.randint(0, len(given))
                base = dataclasses.make_dataclass("Base", computed + given[:cut])
                model = dataclasses.make_dataclass("Model", given[cut:], bases=(base,), frozen=False)
            else:
                model = dataclasses.make_dataclass("Model", computed + given, **rng.choice([{}, {}, {"slots": True}, {"frozen": True}, {"eq": False}, {"repr": False}]))
        want = {}
        for n, _ in fields:
            if lists_[n]:
                want[n] = values[n]
            elif values[n]:
                want[n] = values[n][0]
        rec.note("model", fields, typed_dict, default)
        missing = not typed_dict and any(n not in want and not default[n] for n, _ in fields)
        try:
            got = ms.to(model)
        except TypeError as e:
            rec.require(contradiction or missing, "to() fails only on a contradicted or missing field", str(e), kind="to() rejects")
            rec.count("models_rejected")
        else:
            rec.require(not contradiction, "to() rejects a field contradicting its declared key", fields, keys, kind="to() rejects")
            rec.require(not missing, "to() rejects a missing required field", fields)
            if typed_dict:
                rec.expect(got, want, "typed dict")
            else:
                rec.require(isinstance(got, model), "dataclass instance")
                for n, _ in fields:
                    rec.expect(getattr(got, n), want.get(n, "DEFAULT"), "dataclass field")
                for n in own:
                    rec.expect(getattr(got, n), [], "computed dataclass field")
            rec.count("models_built")
        for bad in (list[model], 3, "x"):
            try:
                ms.to(bad)
            except TypeError:
                rec.ok("unsupported model")
            else:
                rec.require(False, "an unsupported model is rejected", bad)
        if items:
            rec.state([(m.span, m.name, repr(m.value)) for m in items], fields, typed_dict, sorted(keys))
            rec.sample((items, keys, fields))
