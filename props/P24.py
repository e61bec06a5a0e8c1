"""Introspection describes every property that matching can produce, and only those of enabled public parts."""

from rebulk import Rebulk, introspector
from rebulk.rules import AppendMatch, Rule

from vh import gen

RULE = (
    "rebulks with children rebulks enabled by context, string / regex / functional patterns with values, groups, "
    "privates, markers and declared properties, and rules with declared properties; introspection compared with the "
    "specification, and every public match of random inputs must be described; non-trivial: at least two described "
    "properties and one match, distinct specification"
)
QUICK = 15000
THOROUGH = 200000

NAMES = ["n1", "n2", "n3", "n4"]


class R1(Rule):
    consequence = AppendMatch
    properties = {"ruled": ["v", None], "n1": ["rv"], "n2": [None, "p"], "n3": ["p"], "n4": ["q"], "late": [0]}

    def when(self, matches, context):
        return []


class R2(Rule):
    consequence = AppendMatch

    def when(self, matches, context):
        return []


def add(target, name, values):
    have = target.setdefault(name, [])
    for v in values:
        if v not in have:
            have.append(v)


# expression, names of its groups
SOURCES = [
    ("[ab]1?", []),
    ("(?P<n1>[ab])1?", ["n1"]),
    ("(?P<n2>a)(?P<n3>1)?", ["n2", "n3"]),
    ("1(?P<n4>b)", ["n4"]),
    ("(?P<n3>1)|c", ["n3"]),
    ("(a)b?", [None]),
    ("([ab])(?P<n1>1)?", [None, "n1"]),
    ("(?P<n2>b)", ["n2"]),
    ("(?P<n1>a)?(?P<n2>b)?(?P<n3>1)?(?P<n4>[ab1c])", ["n1", "n2", "n3", "n4"]),
]


def options(rng):
    opts = {}
    for k, p in (("children", 0.4), ("every", 0.2), ("private_parent", 0.15), ("private_children", 0.15)):
        if rng.random() < p:
            opts[k] = True
    for k in ("private_names", "ignore_names"):
        if rng.random() < 0.2:
            opts[k] = rng.sample(NAMES, rng.randint(1, 2))
    if rng.random() < 0.4:
        value = lambda: rng.choice(["v", "w", 7, ["l"], 0, ""])
        opts["value"] = value() if rng.random() < 0.4 else {k: value() for k in rng.sample([*NAMES, *NAMES, "__parent__", "__children__", None], rng.choice([1, 2, 3, 3, 7]))}
    return opts


def produced(opts, sources):
    """(name, value) of the public matches a pattern can give."""
    names = []
    name, children = opts.get("name"), opts.get("children") or opts.get("every")
    if (not opts.get("children") or opts.get("every")) and not opts.get("private_parent"):
        names.append((name, "__parent__"))
    if not opts.get("private_children"):
        for groups in sources:
            for g in groups:
                # (groups are described as such even when only their parent is returned)
                if g or children:
                    names.append((g or name, "__children__"))
    out = []
    for n, role in names:
        if n and n not in opts.get("private_names", ()) and n not in opts.get("ignore_names", ()):
            v = opts.get("value")
            if isinstance(v, dict):
                v = next((v[k] for k in (n, role, None) if k in v), None)
            out.append((n, v))
    return out


MANY = [f"s{k}" for k in range(20)]


def case(rng, rec, i):
    want = {}
    context = rng.choice([None, {}, {"on": True}])
    log = []
    rs = []
    parent, up = [], []
    for k in range(rng.randint(1, 4)):
        mode = rng.choice(["always", "always", "never", "context"]) if k else "always"
        active = mode == "always" or (mode == "context" and bool((context or {}).get("on")))
        # a child of the root, or of another child
        parent.append(rng.choice([0, 0, rng.randrange(k)]) if k else None)
        active = active and (not k or up[parent[k]])
        up.append(active)
        # the context may be None here
        r = Rebulk(default_rules=rng.random() < 0.7, disabled={"always": False, "never": True, "context": lambda c: not (c or {}).get("on")}[mode])
        for _ in range(rng.randint(0, 3)):
            kind = rng.choice(["string", "regex", "regex", "regex", "functional", "props"])
            name = rng.choice([*NAMES, *NAMES, None])
            flag = rng.choice([None, None, None, None, "private", "marker"])
            opts = options(rng)
            if name:
                opts["name"] = name
            kw = {flag: True} if flag else {}
            kw.update(opts)
            described = {}
            if kind == "string":
                kw["name"] = opts["name"] = name = name or "n1"
                pats = rng.sample(["a", "b", "ab", "1"], rng.randint(1, 3)) + (list(MANY) if rng.random() < 0.05 else [])
                r.string(*pats, **kw)
                for n, v in produced(opts, []):
                    add(described, n, pats if v is None else [v])
            elif kind == "regex":
                sources, groups = [], []
                for _ in range(rng.choice([1, 1, 2, 5])):
                    source, found = rng.choice(SOURCES)
                    sources.append(source)
                    groups.append(found)
                r.regex(*sources, **kw)
                for n, v in produced(opts, groups):
                    add(described, n, [v])
            elif kind == "functional":
                kw["name"] = opts["name"] = name = name or "n1"
                r.functional(lambda t: (0, 1) if t else None, **kw)
                for n, v in produced(opts, []):
                    add(described, n, [v])
                for n, v in opts["value"].items() if isinstance(opts.get("value"), dict) else []:
                    if n in NAMES and n not in opts.get("private_names", ()) and n not in opts.get("ignore_names", ()):
                        add(described, n, [v])
            else:
                props = {n: rng.sample(["p", "q", None], 2) for n in rng.sample(NAMES, rng.choice([2, 2, len(NAMES)]))}
                r.string("zzz", properties=props, **kw)
                described = props
            log.append((k, mode, kind, opts, flag, described))
            if active and flag is None:
                for n, v in described.items():
                    add(want, n, v)
        if rng.random() < 0.4:
            rules = [x for x in (R1, R2) if rng.random() < 0.6]
            r.rules(*rules)
            if active and R1 in rules:
                log.append("rule")
                want.setdefault("__rule__", True)
        rs.append(r)
    root = rs[0]
    for k in range(1, len(rs)):
        rs[parent[k]].rebulk(rs[k])
    ruled = want.pop("__rule__", False)
    if ruled:
        for n, v in R1.properties.items():
            add(want, n, v)
    rec.note(log, context, parent)
    got = introspector.introspect(root, context)
    # (values without a name describe nothing)
    canon = lambda d: {n: sorted(map(repr, v)) for n, v in d.items() if n and v}
    rec.expect(canon(got.properties), canon(want), "described properties")
    merged = {}
    for part in [*got.patterns, *got.rules]:
        for n, v in part.properties.items():
            add(merged, n, v)
    rec.expect(canon(merged), canon(want), "described properties of the parts")
    rec.require(len(got.rules) == len(root.effective_rules(context)) and all(d.rule is r for d, r in zip(got.rules, root.effective_rules(context))), "described rules", got.rules)
    rec.expect([id(d.pattern) for d in got.patterns], [id(p) for p in root.effective_patterns(context) if not p.private and not p.marker], "described patterns")
    seen = 0
    for _ in range(3):
        s = gen.text(rng, 8, "ab1")
        for m in root.matches(s, dict(context) if context is not None else None):
            props = got.properties
            if m.name is None or m.private:
                continue
            rec.require(m.name in props, "the name of a match is described", m, dict(props))
            values = props[m.name]
            rec.require(None in values or m.value in values, "the value of a match is described", m, values)
            seen += 1
    rec.expect(canon(introspector.introspect(root, context).properties), canon(want), "described properties, again")
    if len(want) >= 2 and seen:
        rec.state(repr(log), context)
        rec.sample((log, dict(want)))
