"""check_keys reports exactly the declared names no pattern can produce."""

from rebulk import Key, Rebulk

from vh import gen, util

RULE = (
    "rebulks with children, disabled parts, chains (nested), privates, markers, properties and functional patterns, with "
    "declared keys on any of them; oracle: set of names written in the specification; each reported name must also never "
    "appear in the matches of random inputs; non-trivial: at least one key, distinct (keys, names)"
)
QUICK = 24000
THOROUGH = 300000

NAMES = ["n1", "n2", "n3", "n4", "n5", "n6"]


def case(rng, rec, i):
    produced = set()

    def add(b, names, depth=0):
        kind = rng.choice(["string", "regex", "regexmany", "functional", "chain", "props", "regexprops"] if depth < 2 else ["string", "regex"])
        name = rng.choice([None, *names])
        kw = {"name": name} if name else {}
        if rng.random() < 0.2:
            kw[rng.choice(["private", "marker", "disabled", "children", "private_children"])] = True
        if name:
            produced.add(name)
        if kind == "string":
            return b.string("a", "b", **kw)
        if kind == "regex":
            n = rng.choice(names)
            produced.add(n)
            return b.regex(rf"(?P<{n}>[ab])1?", **kw)
        if kind == "regexmany":
            ns = rng.sample(names, rng.choice([2, 2, len(names)]))
            produced.update(ns)
            return b.regex(*(rf"{x}(?P<{n}>[ab])?" for n, x in zip(ns, "1abc1a")), **kw)
        if kind == "functional":
            return b.functional(lambda t: (0, 1) if t else None, **kw)
        if kind == "props":
            n = rng.choice(names)
            produced.add(n)
            return b.string("c", properties={n: [None]}, **kw)
        if kind == "regexprops":
            n, m = rng.sample(names, 2)
            produced.update((n, m))
            return b.regex(rf"(?P<{m}>[ab])1?", properties={n: [None]}, **kw)
        if depth and not hasattr(b, "close"):
            return b
        c = b.chain(**kw)
        for _ in range(rng.choice([1, 2, 2, 5])):
            part = add(c, names, depth + 1)
            if rng.random() < 0.3 and hasattr(part, "repeater"):
                part.repeater(rng.choice(["+", "?", "*", 2]))
            if rng.random() < 0.2 and hasattr(part, "hidden"):
                part.hidden()
        return c.close()

    off = rng.random() < 0.3
    rs = [Rebulk(disabled=(lambda c: bool(c.get("off"))) if off and k else rng.random() < 0.15) for k in range(rng.choice([1, 2, 3, 6]))]
    late = set()
    keys = set()
    own = set()
    pool = rng.sample(NAMES, rng.randint(2, 5))
    if len(pool) < 2:
        return
    for r in rs:
        for _ in range(rng.randint(0, 2)):
            add(r, pool)
        ks = [n for n in [*NAMES, "typo"] if rng.random() < 0.3]
        keys.update(ks)
        if off and r is not rs[0]:
            late.update(ks)
            r.declare_keys(*(Key(n, str, str.upper) for n in ks))
        else:
            own.update(ks)
            r.declare_keys(*(Key(n, str) for n in ks))
    root = rs[0]
    if rng.random() < 0.6:
        root.rebulk(*rs[1:])
    else:
        # children of children
        for k in range(1, len(rs)):
            rs[rng.randrange(k)].rebulk(rs[k])
    allowed = rng.choice([(), (), "n1", "n1 n2", "n1,n2", ["n2", "typo"], {"n3"}, iter(["n4"])])
    names = {allowed} if isinstance(allowed, str) else set(allowed) if not hasattr(allowed, "__next__") else {"n4"}
    rec.note("keys", sorted(keys), "produced", sorted(produced), "allowed", sorted(names))
    want = sorted(keys - produced - names)
    if off:
        off = not rs[0].disabled({})
        aside = {s: util.dumps(root.matches(s, {"off": True})) for s in ("ab1c", "ba")}
        late -= own
    got = root.check_keys(allowed_unused=allowed) if allowed or rng.random() < 0.5 else root.check_keys()
    rec.expect(got, want, "unused keys")
    for _ in range(2):
        s = gen.text(rng, 8, "ab1c")
        ms = root.matches(s)
        seen = {m.name for m in ms} | {m.name for m in ms.markers}
        rec.require(not (seen & (set(want) - {"typo"})), "a reported key never names a match", want, seen)
    rec.expect(root.check_keys(), sorted(keys - produced), "unused keys, again")
    if off:
        # checking changes nothing: what is disabled for a search takes no part in it
        for s in ("ab1c", "ba"):
            rec.expect(util.dumps(root.matches(s, {"off": True})), aside[s], "matches without the disabled children, after the check")
        n = next((n for n in NAMES if n in late), None)
        if n is not None:
            root.string("zz", name=n, tags=["mine"])
            rec.expect([m.value for m in root.matches("zz", {"off": True}).tagged("mine")], ["zz"], "keys of the children concern patterns of the children only")
    if keys:
        rec.state(sorted(keys), sorted(produced), sorted(names))
        rec.sample((sorted(keys), sorted(produced), got))
