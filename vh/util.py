"""Observers shared by property modules."""

from __future__ import annotations


class Raiser(Exception):
    """Injected failure."""


def val(match):
    return match.value


def dump(match, depth: int = 0):
    """Everything publicly observable on a match, as plain data."""
    parent = match.parent
    return (
        match.span,
        match.name,
        repr(match.value),
        match.raw,
        bool(match.private),
        bool(match.marker),
        tuple(match.tags),
        match.match_index,
        (match.raw_start, match.raw_end),
        match.input_string,
        None if parent is None else (parent.span, parent.name),
        tuple(dump(c, depth + 1) for c in match.children) if depth < 4 else (),
    )


def dumps(matches):
    ret = [dump(m) for m in matches]
    markers = getattr(matches, "markers", None)
    return ret, ([dump(m) for m in markers] if markers is not None else [])


def brief(matches):
    return [(m.span, m.name, m.value) for m in matches]


def ids(seq):
    return [id(x) for x in seq]
