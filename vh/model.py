"""
Reference model of the pattern pipeline, written from the documented options.

A specification is plain data; the model computes which matches must come out, without rebulk.
"""

from __future__ import annotations


class MM:
    """Model match."""

    def __init__(self, start, end, name, s, parent=None, tags=(), private=False, marker=False):
        self.start, self.end, self.name, self.s = start, end, name, s
        self.parent = parent
        self.tags = list(tags)
        self.private, self.marker = bool(private), bool(marker)
        self.literal = None
        self.formatter = None
        self.children = []
        self.index = 0
        self.owner = None
        self.raw_bounds = None  # set apart from the span by a processor

    @property
    def raw(self):
        return self.s[self.raw_start : self.raw_end]

    @property
    def raw_start(self):
        return self.start if self.raw_bounds is None else self.raw_bounds[0]

    @property
    def raw_end(self):
        return self.end if self.raw_bounds is None else self.raw_bounds[1]

    @property
    def value(self):
        if self.literal is not None:
            return self.literal
        if self.formatter:
            return self.formatter(self.raw)
        return self.raw

    @property
    def initiator(self):
        m = self
        while m.parent is not None:
            m = m.parent
        return m

    def key(self):
        return ((self.start, self.end), self.name, repr(self.value), self.raw, self.private, self.marker, tuple(self.tags), self.index, None if self.parent is None else ((self.parent.start, self.parent.end), self.parent.name), tuple(c.key() for c in self.children))


def observed(m):
    """Same key, observed on a real match."""
    return (m.span, m.name, repr(m.value), m.raw, bool(m.private), bool(m.marker), tuple(m.tags), m.match_index, None if m.parent is None else (m.parent.span, m.parent.name), tuple(observed(c) for c in m.children))


def lookup(table, m, child, default):
    """Most specific entry of a per-name option."""
    if table is None:
        return default
    if not isinstance(table, dict):
        return table
    for k in ([m.name] if m.name else []) + ["__children__" if child else "__parent__", None]:
        if k in table:
            return table[k]
    return default


def attributes(spec, m, child):
    o = spec["opts"]
    if m.name and m.name in o.get("private_names", ()):
        m.private = True
    if o.get("private_children") if child else o.get("private_parent"):
        m.private = True
    v = lookup(o.get("value"), m, child, None)
    if v is not None:
        m.literal = v
    returned = (o.get("children") or o.get("every")) if child else (not o.get("children") or o.get("every"))
    if returned or o.get("format_all"):
        m.formatter = lookup(o.get("formatter"), m, child, None)
    if returned or o.get("validate_all"):
        validator = lookup(o.get("validator"), m, child, None)
        if validator and not validator(m):
            return False
    return True


def emit(spec, m):
    o = spec["opts"]
    out = []
    ignored = o.get("ignore_names", ())
    if (not o.get("children") or o.get("every") or o.get("private_parent")) and m.name not in ignored:
        out.append(m)
    if o.get("children") or o.get("every") or o.get("private_children"):
        out.extend(c for c in m.children if c.name not in ignored)
    return out


def raw_matches(spec, s, re):
    """Unprocessed matches, grouped per alternative of the pattern."""
    o = spec["opts"]
    base = dict(tags=o.get("tags", ()), private=o.get("private"), marker=o.get("marker"))
    for pat in spec["patterns"]:
        found = []
        if spec["kind"] in ("string", "functional"):
            i = 0
            while True:
                i = s.find(pat, i)
                if i < 0:
                    break
                found.append(MM(i, i + len(pat), o.get("name"), s, **base))
                i += len(pat)
        else:
            c = re.compile(pat)
            names = {v: k for k, v in c.groupindex.items()}
            for mo in c.finditer(s):
                if mo.start() == mo.end():
                    continue
                m = MM(mo.start(), mo.end(), o.get("name"), s, **base)
                for g in range(1, c.groups + 1):
                    for a, b in mo.spans(g) if hasattr(mo, "spans") else [mo.span(g)]:
                        if b > a >= 0:
                            m.children.append(MM(a, b, names.get(g, o.get("name")), s, parent=m, **base))
                found.append(m)
        yield found


def process(spec, m, index):
    """Apply options to a match and its children. False when invalidated."""
    m.index = index
    if not attributes(spec, m, False):
        return False
    for c in m.children:
        c.index = index
        if not attributes(spec, c, True):
            return False
    return True


def run(spec, s, re):
    out = []
    for found in raw_matches(spec, s, re):
        for index, m in enumerate(found):
            if process(spec, m, index):
                out.extend(emit(spec, m))
    return out
