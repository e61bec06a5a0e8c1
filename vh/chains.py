"""Reference model and generator for chains."""

from __future__ import annotations

import copy

from vh import model, pipe

PART_PATTERNS = [
    # (kind, pattern, has mandatory group)
    ("string", "a", False),
    ("string", "b", False),
    ("string", "ab", False),
    ("string", "-", False),
    ("functional", "a", False),
    ("functional", "b-", False),
    ("regex", "a", False),
    ("regex", "[ab]", False),
    ("regex", r"\d", False),
    ("regex", r"[-_ ]", False),
    ("regex", "ba?", False),
    ("regex", "a+b", False),
    ("string", "aa", False),
    ("string", "aba", False),
    ("regex", "[ab]{2}", False),
    ("regex", "(?P<n1>a)b?", True),
    ("regex", "(?P<n2>[bc])", True),
    ("regex", r"(?P<n1>\d)(?P<n2>[ab])", True),
    ("regex", r"-(?P<n3>\d+)", True),
    ("regex", "(a)(?:-)?", True),
    ("regex", "((a)b)", True),
    ("regex", "(?=.(b))(a)b", True),
    ("regex", "c|ab", False),
    ("regex", "(?P<n1>[ab])(?P<n2>[ab])", True),
    ("regex", "(?P<n3>a)|b", False),
]

REPEATERS = [
    (None, 1, 1),
    (None, 1, 1),
    (1, 1, 1),
    (2, 2, 2),
    ("2", 2, 2),
    ("+", 1, None),
    ("*", 0, None),
    ("?", 0, 1),
    ("{1,2}", 1, 2),
    ("{2,}", 2, None),
    ("{,2}", 0, 2),
    ("{2,3}", 2, 3),
    (0, 0, 0),
    ("{0,1}", 0, 1),
    ("{,1}", 0, 1),
    ("{4,}", 4, None),
    (5, 5, 5),
    ("{,3}", 0, 3),
    ("{ 1 , 4 }", 1, 4),
    ("{2}", 2, 2),
    ("{ 3 }", 3, 3),
    ("{0,}", 0, None),
    ("{1,}", 1, None),
    ("{1,1}", 1, 1),
    ("{0}", 0, 0),
]


def rand_part(rng, first):
    kind, pat, grouped = rng.choice(PART_PATTERNS)
    while True:
        rep, lo, hi = rng.choice(REPEATERS)
        if lo > 0 or not first:
            break
    opts = {}
    if rng.random() < 0.5:
        opts["name"] = rng.choice(["p1", "p2", "n2"])
    if grouped and rng.random() < 0.35:
        opts["children"] = True
    elif grouped and rng.random() < 0.25:
        opts["every"] = True
    if rng.random() < 0.25:
        opts["formatter"] = rng.choice(pipe.FORMATTERS)
    if rng.random() < 0.15:
        opts["tags"] = ["pt"]
    if rng.random() < 0.1:
        opts["validator"] = rng.choice([pipe.v_even, pipe.v_noa, short, {"__parent__": pipe.v_even}, {"n1": short, "n2": pipe.v_even, "p1": short}])
        if rng.random() < 0.3:
            opts["validate_all"] = True
    if rng.random() < 0.1:
        opts["private"] = True
    if rng.random() < 0.1:
        opts["value"] = rng.choice(["PV", "PV", 0])
    if rng.random() < 0.2:
        # (a copy is not the parent of the children of its model)
        opts["pre_match_processor"] = rng.choice([same, bounded, trimmed] + ([] if "(" in pat else [copied, copied, trimmed_copy]))
    overridden = [rng.choice(REPEATERS)[0] or 3] if rep is not None and rng.random() < 0.1 else []
    return {"kind": kind, "patterns": [pat], "opts": opts, "rep": rep, "lo": lo, "hi": hi, "hidden": rng.random() < 0.15, "overridden": overridden}


def rand_chain(rng, opts, depth=0, parts=None):
    n = parts or rng.randint(1, 4)
    chain = {"kind": "chain", "opts": opts, "parts": [rand_part(rng, k == 0) for k in range(n)], "breaker": None}
    if depth == 0 and rng.random() < 0.2:
        nested_opts = {"name": rng.choice([None, "nest"])}
        if rng.random() < 0.5:
            nested_opts["validator"] = rng.choice([pipe.v_even, pipe.v_start, short, short])
        if rng.random() < 0.3:
            nested_opts["formatter"] = rng.choice(pipe.FORMATTERS)
        nested = rand_chain(rng, nested_opts, 1, rng.randint(1, 2))
        nested.update(lo=1, hi=1, rep=None, hidden=False)
        chain["parts"].insert(rng.randint(0, len(chain["parts"])), nested)
    return chain


def finder(sub):
    """A functional pattern reporting what a string pattern finds."""

    def find(text):
        found, i = [], text.find(sub)
        while i >= 0:
            found.append((i, i + len(sub)))
            i = text.find(sub, i + len(sub))
        return found

    return find


def same(m):
    """Processor changing nothing."""
    return None


def copied(m):
    """Processor giving another match for the same text."""
    return copy.copy(m)


def bounded(m):
    """Processor making the raw bounds of a match explicit."""
    m.raw_start = m.start
    m.raw_end = m.end
    return m


def trimmed(m):
    """Processor leaving the last character out of the span."""
    if m.end - m.start > 1:
        m.raw_end = m.end
        m.end -= 1


def trimmed_copy(m):
    """Processor giving another match, without the first character."""
    c = copy.copy(m)
    if c.end - c.start > 1:
        c.raw_start = c.start
        c.start += 1
    return c


def short(m):
    return m.end - m.start <= 2


def build(builder, chain):
    """Register the chain with the fluent API of a Rebulk (or of an outer chain)."""
    kw = {k: v for k, v in chain["opts"].items() if v is not None}
    if chain["breaker"]:
        kw["chain_breaker"] = chain["breaker"]
    cb = builder.chain(**kw)
    cur = cb
    for part in chain["parts"]:
        if part["kind"] == "chain":
            # (a part opens a chain without options)
            build(cb if any(v is not None for v in part["opts"].values()) else cur, part)
            cur = cb
            continue
        patterns = part["patterns"]
        if part["kind"] == "functional":
            patterns = [finder(p) for p in patterns]
        cur = getattr(cur, part["kind"])(*patterns, **part["opts"])
        if part["rep"] is not None:
            for other in part.get("overridden", ()):
                cur = cur.repeater(other)  # the last one counts
            cur = cur.repeater(part["rep"])
        if part["hidden"]:
            cur = cur.hidden()
    return cur.close()


def groups(part, s, base, re):
    """(raw match, emitted matches) for each match of a part in s[base:], with absolute positions."""
    sub = s[base:]
    out = []
    if part["kind"] == "chain":
        for index, m in enumerate(search(part, sub, re)):
            if process(part, m, index):
                out.append((m, model.emit(part, m)))
            else:
                out.append((m, []))
    else:
        for found in model.raw_matches(part, sub, re):
            for index, m in enumerate(found):
                m.owner = part
                for c in m.children:
                    c.owner = part
                processor = part["opts"].get("pre_match_processor")
                if processor in (trimmed, trimmed_copy) and m.end - m.start > 1:
                    m.raw_bounds = (m.start, m.end)
                    if processor is trimmed:
                        m.end -= 1
                    else:
                        m.start += 1
                # (what a validator refuses is consumed, but not part of the result)
                out.append((m, model.emit(part, m) if model.process(part, m, index) else []))
    done = set()

    def shift(m):
        if id(m) not in done:
            done.add(id(m))
            m.s = s
            m.start += base
            m.end += base
            if m.raw_bounds:
                m.raw_bounds = (m.raw_bounds[0] + base, m.raw_bounds[1] + base)
            for c in m.children:
                shift(c)

    for raw, emitted in out:
        shift(raw)
        for m in emitted:
            shift(m)
    return out


def search(chain, s, re):
    offset = 0
    found = []
    while offset < len(s):
        current = []
        pos = offset
        stop = failed = False
        for k, part in enumerate(chain["parts"]):
            run = []
            for raw, emitted in groups(part, s, pos, re):
                if run:
                    if raw.raw_start != run[-1][0].raw_end:
                        break
                elif k and raw.raw_start != pos:
                    break
                run.append((raw, emitted))
            full = len(run)
            if part["hi"] is not None:
                run = run[: part["hi"]]
            if full < part["lo"]:
                failed = True
                if k == 0:
                    if not run:
                        stop = True
                    else:
                        offset = run[-1][0].raw_end
                elif current:
                    offset = current[0].raw_end
                else:
                    offset = pos
                break
            # nothing is reported from a part after a repetition which is not
            first = next((x for x, (_, emitted) in enumerate(run) if emitted), len(run))
            if k and first:
                first = len(run)
            after = next((x for x in range(first, len(run)) if not run[x][1]), len(run))
            for x, (raw, emitted) in enumerate(run):
                pos = raw.raw_end
                if not first <= x < after:
                    emitted = []
                if not part["hidden"] and not (chain["breaker"] and chain["breaker"](current + emitted)):
                    current.extend(emitted)
        if stop:
            break
        if failed:
            continue
        offset = pos
        if current:
            o = chain["opts"]
            m = model.MM(min(x.start for x in current), max(x.end for x in current), o.get("name"), s, tags=o.get("tags", ()), private=o.get("private"), marker=o.get("marker"))
            m.owner = chain
            for x in current:
                m.children.extend(x.children)
                if not any(c is x for c in m.children):
                    m.children.append(x)
                    x.parent = m
            found.append(m)
    return found


def process(chain, m, index):
    """Options of the chain, dropping trailing repetitions of its last part until it is valid."""
    m.index = index
    ok = model.attributes(chain, m, False)
    if not ok and m.children:
        kept, end = list(m.children), m.end
        last = m.children[-1].owner
        lo = next((p["lo"] for p in chain["parts"] if p is last), 0)
        for rep in sorted({c.index for c in m.children if c.owner is last and c.index >= lo}, reverse=True):
            m.children = [c for c in m.children if not (c.owner is last and c.index == rep)]
            m.end = max((c.end for c in m.children if c.parent is m), default=m.start)
            if model.attributes(chain, m, False):
                ok = True
                break
        else:
            m.children, m.end = kept, end
    if not ok:
        return False
    for c in m.children:
        c.index = index
        if not model.attributes(chain, c, True):
            return False
    return m.end > m.start  # nothing left when every repetition has been dropped


def run(chain, s, re):
    out = []
    for index, m in enumerate(search(chain, s, re)):
        if process(chain, m, index):
            out.extend(model.emit(chain, m))
    return out


def text(rng):
    if rng.random() < 0.01:
        return "".join(text(rng) for _ in range(6))
    mode = rng.random()
    if mode < 0.08:
        return "".join(rng.choice(["aaaa", "bbbbb", "ab", "-", "1a1a1a1a", "-1-1-1-1-1", "aaaaaa", "b"]) for _ in range(rng.randint(1, 4)))
    if mode < 0.4:
        return "".join(rng.choice("ab-1c") for _ in range(rng.randint(1, 16)))
    if mode < 0.7:
        return "".join(rng.choice(["a", "b", "ab", "1a", "-1", "-", "c", "aab", " ", "2b"]) for _ in range(rng.randint(1, 10)))
    return "".join(rng.choice(["ab", "ab", "a", "-1", "a-1", "b", "x"]) for _ in range(rng.randint(1, 12)))


def shape(chain):
    return [(p["kind"], p.get("patterns") or shape(p), p["lo"], p["hi"], p["hidden"], sorted(p["opts"]), getattr(p["opts"].get("pre_match_processor"), "__name__", None)) for p in chain["parts"]]
