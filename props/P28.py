"""A rebulk made of children gives what one rebulk holding the enabled parts would give."""

from rebulk import AppendMatch, Key, Rebulk, Rule
from rebulk.match import Match
from rebulk.pattern import FunctionalPattern, RePattern, StringPattern

from vh import bulk, util

RULE = (
    "rebulks made of 0-4 children, each with patterns, rules and keys (some objects shared between children), disabled "
    "always / never / by context at the level of the rebulk or of the pattern; compared with a flat rebulk registering "
    "the enabled parts once, in order; adding a disabled child must change nothing; non-trivial: a child contributes "
    "matches, distinct composition"
)
QUICK = 20000
THOROUGH = 250000


def rule(k, prio):
    class Added(Rule):
        consequence = AppendMatch
        priority = prio
        name = f"rule{k}"

        def when(self, matches, context):
            n = len(matches.named(f"rule{k}"))
            return [Match(0, 1, name=f"rule{k}", value=f"{k}:{n}:{len(matches)}", input_string=matches.input_string)] if matches.input_string else []

    return Added


def switch(mode):
    return {
        "never": False,
        "always": True,
        "context": lambda c: bool((c or {}).get("off")),
        "context2": lambda c: not (c or {}).get("extra"),
    }[mode]


def active(mode, c):
    return {"never": True, "always": False, "context": not (c or {}).get("off"), "context2": bool((c or {}).get("extra"))}[mode]


def case(rng, rec, i):
    context = rng.choice(bulk.CONTEXTS)
    default_rules = rng.random() < 0.5
    pool = []
    for k in range(rng.randint(2, 10) if i % 61 != 7 else 20):
        mode = rng.choice(["never"] * 6 + ["always", "context", "context2"])
        kw = {"name": f"p{k}", "disabled": switch(mode)}
        if rng.random() < 0.15:
            kw["marker"] = True
        if rng.random() < 0.2:
            kw["private"] = True
        kind = rng.choice(["string", "regex", "functional"])
        if kind == "string":
            p = StringPattern(rng.choice(["a", "b", "ab", "1"]), **kw)
        elif kind == "regex":
            p = RePattern(rng.choice(["[ab]+", r"\d-?", "(?P<g>a)b?"]), **kw)
        else:
            p = FunctionalPattern(lambda t: [(n, n + 1) for n, c in enumerate(t) if c == "2"], **kw)
        pool.append((p, mode))
    rules = [rule(k, rng.choice([0, 0, 10, -10])) for k in range(4)]
    parts = []
    for k in range(rng.randint(1, 5) if i % 61 != 7 else 12):
        mode = "never" if k == 0 and rng.random() < 0.9 else rng.choice(["never", "never", "never", "always", "context", "context2"])
        ps = rng.sample(pool, rng.randint(0, min(rng.choice([3, 3, 3, 7]), len(pool))))
        rs = rng.sample(rules, rng.randint(0, 2))
        ks = [Key(n, rng.choice([int, str, float]), formatter=str) for n in ("k1", "k2", "p0") if rng.random() < 0.3]
        parts.append((mode, ps, rs, ks))

    def one(mode, ps, rs, ks):
        r = Rebulk(disabled=switch(mode), default_rules=default_rules)
        r.pattern(*(p for p, _ in ps))
        return r.rules(*rs).declare_keys(*ks)

    built = [one(*part) for part in parts]
    root = built[0]
    # children of the root, or of children, attached in any order
    parent = [0] * len(parts)
    deep = rng.random() < 0.4
    if deep:
        parent = [rng.randrange(k) if k else 0 for k in range(len(parts))]
    attach = list(range(1, len(parts)))
    if deep and rng.random() < 0.5:
        rng.shuffle(attach)
    if not deep and rng.random() < 0.5:
        root.rebulk(*built[1:])
    else:
        for k in attach:
            built[parent[k]].rebulk(built[k])

    def preorder(k):
        return [k] + [x for c in attach if parent[c] == k for x in preorder(c)]

    def reached(k, context):
        return active(parts[k][0], context) and (k == 0 or reached(parent[k], context))

    ordered = preorder(0)
    s = bulk.text(rng)
    rec.note(repr(s), context, [(m, [p.name for p, _ in ps], [r.name for r in rs], ks) for m, ps, rs, ks in parts], parent, attach, [(p.name, m) for p, m in pool])

    def compare(context, label):
        """The flat equivalent under a context, and what the composition gives."""
        flat = Rebulk(default_rules=default_rules)
        names, keys = [], {}
        rules_in = []
        if active(parts[0][0], context):
            for k in ordered:
                mode, ps, rs, ks = parts[k]
                if not reached(k, context):
                    continue
                for p, _ in ps:
                    if p not in names or k == 0:
                        names.append(p)
                for x in rs:
                    if x not in rules_in:
                        rules_in.append(x)
                for key in ks:
                    keys.setdefault(key.name, key)
            enabled = {p for p, m in pool if active(m, context)}
            flat.pattern(*(p for p in names if p in enabled))
            flat.rules(*rules_in)
            flat.declare_keys(*keys.values())
        else:
            flat = Rebulk(default_rules=False)
        ctx = dict(context) if context is not None else None
        got, want = root.matches(s, ctx), flat.matches(s, ctx)
        canon = lambda ms: tuple(sorted(x, key=repr) for x in util.dumps(ms))
        rec.expect(util.dumps(got) if not rules_in else canon(got), util.dumps(want) if not rules_in else canon(want), "matches of a composition and of its flat equivalent" + label, kind="composition")
        rec.expect(dict(got.declared_keys), keys, "declared keys of the composition")
        rec.expect(ctx, context, "context")
        if active(parts[0][0], context):
            rec.expect({r.name for r in root.effective_rules(context) if r.name}, {x.name for x in rules_in}, "effective rules")
            rec.expect([id(p) for p in root.effective_patterns(context)], [id(p) for p in names], "effective patterns")
            rec.expect(root.effective_keys(context), keys, "effective keys")
            if context is None:
                rec.expect([id(p) for p in root.effective_patterns()], [id(p) for p in names], "effective patterns without a context")
                rec.expect({r.name for r in root.effective_rules() if r.name}, {x.name for x in rules_in}, "effective rules without a context")
                rec.expect(root.effective_keys(), keys, "effective keys without a context")
        return got, want, keys, ctx

    got, want, keys, ctx = compare(context, "")
    # used again, under another context and under the same one
    for _ in range(rng.choice([0, 1, 2])):
        compare(rng.choice([*bulk.CONTEXTS, context]), ", searched again")
        if rng.random() < 0.4:
            # configured further between two searches
            k = rng.randrange(len(parts))
            _, ps, rs, ks = parts[k]
            new = rng.choice(pool)
            if new not in ps:
                ps.append(new)
                built[k].pattern(new[0])
            if rng.random() < 0.4 and len(rs) < len(rules):
                rs.append(rng.choice([x for x in rules if x not in rs]))
                built[k].rules(rs[-1])
            if rng.random() < 0.4:
                key = Key(rng.choice(["k1", "k2", "k3"]), int, formatter=str)
                ks[:] = [x for x in ks if x.name != key.name] + [key]
                built[k].declare_keys(key)
            rec.note("then part", k, "gets", new[0].name, rs, ks)
            got, want, keys, ctx = compare(context, ", configured further")
    # the children are left as they were: each still works alone
    k = rng.randrange(len(built))
    if k:

        def alone(k):
            b = one(*parts[k])
            for c in attach:
                if parent[c] == k:
                    b.rebulk(alone(c))
            return b

        rec.expect(util.dumps(built[k].matches(s, ctx)), util.dumps(alone(k).matches(s, ctx)), "matches of a child alone", kind="child alone")
    # a disabled child adds nothing
    before = util.dumps(root.matches(s, ctx))
    off = Rebulk(disabled=rng.choice([True, lambda c: True]))
    off.string("a", "b", "1", name="off").rules(rule(9, 0)).declare_keys(Key("off", int))
    if rng.random() < 0.3:
        # nor do its children
        off.rebulk(Rebulk(default_rules=False).regex(".", name="off").rules(rule(9, 0)).declare_keys(Key("off2", int)))
    rng.choice(built).rebulk(off)
    after = root.matches(s, ctx)
    rec.expect(util.dumps(after), before, "matches with one more disabled child", kind="disabled child")
    rec.expect(sorted(after.declared_keys), sorted(keys), "declared keys with one more disabled child")
    if rng.random() < 0.2:
        # being its own child, or the child of its children, adds nothing either
        rng.choice(built).rebulk(root)
        rec.expect(util.dumps(root.matches(s, ctx)), before, "matches of a rebulk which is also a child", kind="own child")
    if len(parts) > 1 and want:
        rec.state(repr([(m, [p.name for p, _ in ps], [r.name for r in rs]) for m, ps, rs, ks in parts] + parent), s, context)
        rec.sample((s, context, list(got)))
