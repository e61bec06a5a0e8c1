"""Random pattern options (shared by the pipeline and chain properties)."""

from __future__ import annotations


def f_upper(v):
    return v.upper()


def f_len(v):
    return len(v)


def f_tag(v):
    return "<" + v + ">"


def f_rev(v):
    return v[::-1]


def v_even(m):
    return (m.end - m.start) % 2 == 0


def v_long(m):
    return m.end - m.start >= 2


def v_noa(m):
    return "a" not in str(m.value)


def v_start(m):
    return m.start % 3 != 1


def v_pub(m):
    return not m.private


FORMATTERS = [f_upper, f_len, f_tag, f_rev]
VALIDATORS = [v_even, v_long, v_noa, v_start]
VALUES = ["LIT", 42, "x", 0, "", False]


def per_name(rng, pool, names, single=0.4):
    """A single option, or a dict of options per name / role."""
    if rng.random() < single:
        return rng.choice(pool)
    keys = [k for k in [*names, "__parent__", "__children__", None] if rng.random() < 0.4]
    # an entry without a value is an entry all the same: less specific ones do not apply
    return {k: rng.choice(pool) if rng.random() < 0.9 else None for k in keys} or None


def options(rng, names, structural=True):
    o = {}
    if rng.random() < 0.6:
        o["name"] = rng.choice(["pat", *names])
    if rng.random() < 0.3:
        o["tags"] = rng.choice([["t"], ["t", "u"]])
    if rng.random() < 0.5:
        o["formatter"] = per_name(rng, FORMATTERS, [*names, "pat"])
    if rng.random() < 0.3:
        o["value"] = per_name(rng, VALUES, [*names, "pat"])
    if rng.random() < 0.4:
        o["validator"] = per_name(rng, VALIDATORS, [*names, "pat"])
    if structural:
        for k, p in (("children", 0.45), ("every", 0.2), ("private_parent", 0.15), ("private_children", 0.15), ("format_all", 0.2), ("validate_all", 0.2), ("marker", 0.1), ("private", 0.1)):
            if rng.random() < p:
                o[k] = True
        if rng.random() < 0.25:
            o["private_names"] = [n for n in [*names, "pat"] if rng.random() < 0.4]
        if rng.random() < 0.25:
            o["ignore_names"] = [n for n in [*names, "pat"] if rng.random() < 0.4]
    return {k: v for k, v in o.items() if v is not None}
