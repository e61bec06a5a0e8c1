"""Topological ordering: layers respect dependencies, cover every item once, and cycles are reported."""

from rebulk.toposort import CyclicDependency, toposort, toposort_flatten

RULE = (
    "random dependency graphs of 0-12 items (chains, diamonds, self dependencies, items only named as dependencies, "
    "cycles anywhere); oracle: longest-path layer of each item computed by relaxation, reachability for cycles; "
    "non-trivial: at least one edge, distinct graph"
)
QUICK = 60000
THOROUGH = 1000000
BACKENDS = ["re"]


def case(rng, rec, i):
    n = rng.choice([0, 1, 2, 4, 8, 12]) if i % 61 != 7 else 70
    mode = rng.choice(["dag", "dag", "any", "sparse"])
    outside = rng.choice([0, 2, 2, 2, 12])  # items only named as dependencies
    perm = list(range(n + 1 + outside))
    rng.shuffle(perm)
    data = {}
    for k in range(n):
        deps = set()
        for _ in range(rng.choice([0, 0, 1, 1, 2, 4])):
            if rng.random() < 0.3 and outside == 12:
                j = rng.randint(n, n + outside)
            elif mode == "dag":
                j = rng.randint(0, k)
            elif mode == "sparse" and rng.random() < 0.7:
                j = rng.randint(0, k)
            else:
                j = rng.randint(0, n + outside)
            deps.add(perm[j])
        if rng.random() < 0.1:
            deps.add(perm[k])
        data[perm[k]] = deps
    if rng.random() < 0.5:
        data = {f"i{k}": {f"i{d}" for d in v} for k, v in data.items()}
    odd = rng.random() < 0.15
    if odd:
        # items of any type, falsy ones included
        other = [None, 0, "", (), False or 0.5, frozenset(), "0", b"", (None,), int, len]
        name = {}
        for k in data.keys() | {d for v in data.values() for d in v}:
            name[k] = other.pop(rng.randrange(len(other))) if other and rng.random() < 0.7 else ("item", k)
        data = {name[k]: {name[d] for d in v} for k, v in data.items()}
    rec.note(data)
    before = {k: set(v) for k, v in data.items()}
    graph = {k: v - {k} for k, v in data.items()}
    for v in list(graph.values()):
        for d in v:
            graph.setdefault(d, set())
    # layer of each item, None when it depends on a cycle
    layer = {}
    for _ in range(len(graph) + 1):
        for k, v in graph.items():
            if k not in layer and all(d in layer for d in v):
                layer[k] = 1 + max((layer[d] for d in v), default=-1)
    want = []
    for k, l in layer.items():
        while len(want) <= l:
            want.append(set())
        want[l].add(k)
    stuck = set(graph) - set(layer)
    got = []
    try:
        for batch in toposort(data):
            got.append(set(batch))
    except CyclicDependency as e:
        rec.require(bool(stuck), "a cyclic dependency is reported only for a cycle", str(e))
        rec.expect(set(e.cyclic), stuck, "items of the cyclic dependency")
        rec.require(all(repr(x) in str(e) for x in stuck), "the message of a cyclic dependency names its items", str(e), stuck)
        rec.require(isinstance(e, ValueError), "a cyclic dependency is a ValueError")
        rec.count("cycles")
    else:
        rec.require(not stuck, "a cycle is reported", stuck)
    rec.expect(got, want if not stuck else want[: len(got)], "layers")
    rec.expect(data, before, "graph after sorting")
    flags = [True, False] if not odd else [False]
    for sort in flags:
        try:
            flat = toposort_flatten(data, sort=sort)
        except CyclicDependency:
            rec.require(bool(stuck), "a cycle is reported only for a cycle")
            continue
        rec.require(not stuck, "a cycle is reported when flattening", stuck)
        rec.expect(sorted(flat, key=repr), sorted(graph, key=repr), "flattened items")
        if sort:
            rec.expect(flat, [x for b in want for x in sorted(b)], "flattened order")
        pos = {x: k for k, x in enumerate(flat)}
        for k, v in graph.items():
            for d in v:
                rec.require(pos[d] < pos[k], "a dependency comes before what depends on it", d, k, kind="edge order")
    rec.expect(data, before, "graph after flattening")
    if any(graph.values()):
        rec.state(sorted((str(k), sorted(map(str, v))) for k, v in graph.items()))
        rec.sample((data, got, stuck))
