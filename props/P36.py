"""Rules given as classes, instances or modules are registered as listed, a module standing for its own rule classes."""

import types

from rebulk import CustomRule, Rebulk, Rule
from rebulk.rules import Rules

RULE = (
    "random sequences of rule classes, rule instances and generated modules (holding rule classes of their own, imported "
    "rule classes, helper functions with and without arguments, helper classes, constants, modules) given to a rule "
    "list and to a rebulk at once or in several calls; registered rules compared with the specification, and each rule "
    "observed running once per search; helpers must not be called; non-trivial: a module with a rule and a helper, "
    "distinct sequence"
)
QUICK = 24000
THOROUGH = 300000
BACKENDS = ["re"]


def case(rng, rec, i):
    ran = []
    touched = []
    made = []

    def rule(name, module):
        base = rng.choice([Rule, CustomRule])

        def when(self, matches, context):
            ran.append((type(self), self))

        def then(self, matches, when_response, context):
            raise AssertionError

        attrs = {"when": when, "then": then, "__module__": module, "priority": rng.choice([0, 0, 5])}
        if rng.random() < 0.2:
            # behaviour may be inherited from a class of another module
            parent = type("Base" + name, (base,), {**attrs, "__module__": "elsewhere"})
            cls = type(name, (parent,), {"__module__": module, "__doc__": "own"})
        else:
            cls = type(name, (base,), attrs)
        made.append(cls)
        return cls

    def helper0():
        touched.append("helper0")

    def helper1(a):
        touched.append("helper1")

    class Plain:
        def __init__(self, a):
            touched.append("Plain")

    class Plain0:
        def __init__(self):
            touched.append("Plain0")

    items, want, trail = [], [], []
    serial = 0
    rich = False
    for _ in range(rng.randint(1, 4) if i % 122 != 7 else rng.randint(9, 20)):
        kind = rng.choice(["class", "instance", "module", "module", "again"])
        if kind == "again":
            # another rule of a class already registered, with a priority of its own
            if not want:
                continue
            cls = rng.choice(want)[0]
            inst = cls()
            inst.priority = 10 + len(want)
            items.append(inst)
            want.append((cls, inst))
            trail.append(kind)
            continue
        if kind == "class":
            serial += 1
            cls = rule(f"C{serial}", "elsewhere")
            items.append(cls)
            want.append((cls, None))
        elif kind == "instance":
            serial += 1
            inst = rule(f"I{serial}", "elsewhere")()
            items.append(inst)
            want.append((type(inst), inst))
        else:
            serial += 1
            name = f"verif_rules_{serial}"
            mod = types.ModuleType(name)
            own = {}
            for k in rng.sample("ABCDE", rng.randint(0, 4)):
                k = rng.choice(["R", "R", "_R", "__R"]) + k
                own[f"{k}{serial}"] = rule(f"{k}{serial}", name)
            for k, v in own.items():
                setattr(mod, k, v)
            extras = rng.sample(["imported", "helper0", "helper1", "Plain", "Plain0", "const", "sub", "CustomRule"], rng.randint(0, 5))
            for e in extras:
                if e == "imported":
                    mod.Imported = rule(f"X{serial}", rng.choice(["elsewhere", name + ".sub", name + "x", "verif_rules"]))
                elif e == "const":
                    mod.CONST = 3
                    mod.NAMES = ["a"]
                elif e == "sub":
                    mod.sub = types
                elif e == "CustomRule":
                    mod.CustomRule, mod.Rule = CustomRule, Rule
                else:
                    obj = {"helper0": helper0, "helper1": helper1, "Plain": Plain, "Plain0": Plain0}[e]
                    obj.__module__ = name if rng.random() < 0.8 else "elsewhere"
                    setattr(mod, "h_" + e, obj)
            if own and rng.random() < 0.2:
                # a rule of the module, listed before it with a priority of its own
                inst = rng.choice(list(own.values()))()
                inst.priority = 10 + len(want)
                items.append(inst)
                want.append((type(inst), inst))
            items.append(mod)
            want.extend((own[k], None) for k in sorted(own))
            rich |= bool(own) and bool(extras)
            kind = (kind, sorted(own), sorted(extras))
        trail.append(kind)
    rec.note(trail)

    def same(registered, label):
        rec.expect([type(x) for x in registered], [c for c, _ in want], f"registered rules ({label})")
        for x, (_, inst) in zip(registered, want):
            if inst is not None:
                rec.require(x is inst, "a rule instance is registered itself")

    twice = rng.choice(want)[0] if want else rule("Twice", "elsewhere")
    rec.expect([type(x) for x in Rules(twice, twice)], [twice, twice], "a class listed twice")
    prio = lambda w: w[0].priority if w[1] is None else w[1].priority
    how = rng.choice(["constructor", "load", "one by one"])
    rules = Rules(*items) if how == "constructor" else Rules()
    if how == "load":
        rules.load(*items)
    elif how == "one by one":
        for x in items:
            rules.load(x)
    same(rules, how)
    r = Rebulk(default_rules=False).string("a")
    if rng.random() < 0.5:
        rec.require(r.rules(*items) is r, "registering rules returns the rebulk")
    else:
        for x in items:
            r.rules(x)
    same([x for x in r.effective_rules() if type(x) in made], "rebulk")
    for _ in range(2):
        ran.clear()
        r.matches("ab")
        rec.expect(sorted(c.__name__ for c, _ in ran), sorted(c.__name__ for c, _ in want), "rules run by a search")
        rec.expect([c for c, _ in ran], [c for c, _ in sorted(want, key=lambda w: -prio(w))], "order of rules")
    rec.expect(touched, [], "helpers of a rules module are left alone")
    if rich:
        rec.state(trail)
        rec.sample(trail)
    rec.count("rules_registered", len(want))
