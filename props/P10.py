"""Order of rules, their conditions and consequences."""

import collections

from rebulk import Rebulk, Rule
from rebulk.match import Match, Matches
from rebulk.rules import AppendMatch, RemoveMatch, Rules
from rebulk.toposort import CyclicDependency

from vh import gen

RULE = (
    "1-9 generated rule classes with random priorities, same-priority dependency graphs (class or instance, acyclic, or "
    "cyclic/duplicated on purpose), enabled conditions, responses and consequences, registered as classes or instances "
    "on the rebulk and a child; the event log of enabled/when/then calls is checked against the ordering specification; "
    "non-trivial: at least two rules ran, distinct plan"
)
QUICK = 48000
THOROUGH = 600000
BACKENDS = ["re"]


class Recorder(RemoveMatch):
    def __init__(self, log, label):
        self.log, self.label = log, label

    def then(self, matches, when_response, context):
        self.log.append(("cons", self.label, when_response))
        self.log.contexts.append(context)


class Log(list):
    """Events, and the contexts consequences were given."""

    def __init__(self):
        super().__init__()
        self.contexts = []


def recorder(log, label, as_class):
    if as_class:
        return type("Fresh", (Recorder,), {"__init__": lambda self: Recorder.__init__(self, log, label)})
    return Recorder(log, label)


def make_rule(k, log, priority, dependency, enabled, response, how, name=None, as_class=False, lazy=None):
    def label(self):
        return getattr(self, "label", k)

    def is_enabled(self, context):
        log.append(("enabled", label(self), context))
        return enabled(context) if callable(enabled) else enabled

    def when(self, matches, context):
        log.append(("when", label(self), len(matches), context))
        if callable(response):
            return response(matches)
        return lazy(response) if lazy is not None else response

    attrs = {"priority": priority, "enabled": is_enabled, "when": when}
    if priority == 0 and k % 2:
        del attrs["priority"]  # the default priority
    if name is not None:
        attrs["name"] = name
    if dependency is not None:
        attrs["dependency"] = dependency
    if how == "then":

        def then(self, matches, when_response, context):
            log.append(("then", label(self), when_response, context))
            matches.append(Match(0, 1, name=f"r{k}"))

        attrs["then"] = then
    elif how == "cons":
        attrs["consequence"] = recorder(log, k, as_class)
    elif how == "consone":  # a list of one consequence takes a single response as it is
        attrs["consequence"] = [recorder(log, k, as_class)]
    else:
        attrs["consequence"] = [recorder(log, (k, c), as_class == (c % 2 == 0)) for c in range(len(response) if how == "conslist" and isinstance(response, list) and response else 2)]
    return type(f"R{k}", (Rule,), attrs)


def case(rng, rec, i):
    n = rng.randint(1, 9) if i % 61 != 7 else rng.randint(15, 30)
    log = Log()
    prios = [rng.choice([0, 0, 0, 0, 1, -1, 5, -1500, -2000, -3000, 2047, 4096, rng.randint(-9999, 9999)]) for _ in range(n)]
    deps = {k: set() for k in range(n)}
    for k in range(n):
        for j in range(n):
            # an arbitrary hidden order keeps the graph acyclic
            if j != k and (j * 7 + 3) % 11 < (k * 7 + 3) % 11 and rng.random() < 0.25:
                deps[k].add(j)
    if n > 9 and rng.random() < 0.4:
        # many rules which nothing orders but their registration
        prios = [0] * n
        deps = {k: set() for k in range(n)}
    bad = rng.choice([None] * 8 + ["cycle", "dup"])
    order = list(range(n))
    rng.shuffle(order)
    classes, plan, instances, how_of = {}, {}, {}, {}
    for k in sorted(range(n), key=lambda k: (k * 7 + 3) % 11):
        en = rng.choice([True, True, True, False, "ctx"])
        resp = rng.choice([True, True, None, [], False, 0, "", (), {}, "m", ["x", "y"]])
        how = rng.choice(["then", "then", "cons", "conslist", "consone"])
        if how == "conslist" and resp:
            resp = rng.choice([["x", "y"], ["x", []], [None, "y"], [[], ()], [0, ["y"]], ["v", "w", "x", "y", "z"]])
        # several consequences share what is iterated, whatever it is
        lazy = rng.choice([iter, lambda r: (x for x in r), collections.deque, lambda r: dict(enumerate(r)).values()]) if how == "conslist" and resp and isinstance(resp, list) and rng.random() < 0.5 else None
        # a dependency is a class or a rule of this class, registered or not
        dep = [classes[j] if rng.random() < 0.7 else instances.setdefault(j, classes[j]()) for j in deps[k]]
        dependency = None
        if len(dep) == 1 and rng.random() < 0.5:
            dependency = dep[0]
        elif dep:
            dependency = rng.choice([list, tuple, set])(dep)
        oneself = rng.random() < 0.15  # a dependency on oneself means nothing
        enabled = (lambda ctx: bool(ctx.get("on"))) if en == "ctx" else en
        response = (lambda ms: ms[0] if len(ms) else None) if resp == "m" else resp
        classes[k] = make_rule(k, log, prios[k], dependency, enabled, response, how, rng.choice([None, None, "zz", "aa", "mm"]), rng.random() < 0.3, lazy)
        if oneself:
            dep.insert(rng.randint(0, len(dep)), classes[k])
            classes[k].dependency = tuple(dep)
        plan[k] = (en, resp, how)
        how_of[k] = lazy
    ctx = rng.choice([None, {"on": True}, {"on": False}])
    on = bool(ctx and ctx["on"])
    r = Rebulk(default_rules=False).string("a")
    child = Rebulk(default_rules=False)
    in_child = [k for k in order if rng.random() < 0.2]
    regs = [k for k in order if k not in in_child] + in_child
    if bad == "cycle" and n >= 2:
        a, b = rng.sample(range(n), 2)
        classes[a].priority = classes[b].priority = 3
        classes[a].dependency, classes[b].dependency = classes[b], classes[a]
    for k in regs:
        target = child if k in in_child else r
        registered = classes[k]
        if k in instances and rng.random() < 0.5:
            registered = instances[k]
        elif rng.random() < 0.5:
            registered = classes[k]()
        target.rules(registered)
    order = list(regs)
    kind_of = {k: k for k in range(n)}
    if not bad and rng.random() < 0.3:
        # other rules of the same classes, at other priorities
        for _ in range(rng.randint(1, 3)):
            k = rng.randrange(n)
            twin = classes[k]()
            twin.label = len(prios)
            twin.priority = rng.choice([0, 1, -1, 5, 7])
            if k in in_child or any(prios[x] == twin.priority for x in kind_of if kind_of[x] == k):
                continue
            kind_of[twin.label] = k
            prios.append(twin.priority)
            plan[twin.label] = plan[k]
            r.rules(twin)  # (a child adds no rule of a class already there)
            order.insert(len(order) - len(in_child), twin.label)
    if bad == "dup":
        r.rules(classes[regs[0]])
    r.rebulk(child)
    rec.note("priorities", prios, "deps", deps, "registration", order, "of class", kind_of, "plan", plan, "context", ctx, "bad", bad)
    s = rng.choice(["a", "xx", "aa"])
    if bad == "dup":
        try:
            r.matches(s, ctx)
        except ValueError as e:
            rec.require(not isinstance(e, CyclicDependency), "duplicate rules are reported as such")
            rec.ok("duplicate rule rejected")
        else:
            rec.require(regs[0] in in_child, "two rules of one class with the same priority are rejected")
        return
    if bad == "cycle" and n >= 2:
        try:
            r.matches(s, ctx)
        except CyclicDependency:
            rec.ok("cycle rejected")
        else:
            rec.require(False, "cyclic dependencies are rejected")
        return
    r.matches(s, ctx)
    # every rule is considered once
    ran = [e[1] for e in log if e[0] == "enabled"]
    total = len(prios)
    rec.expect(sorted(ran), list(range(total)), "each rule is considered exactly once")
    pos = {k: x for x, k in enumerate(ran)}
    for x, y in zip(ran, ran[1:]):
        rec.require(prios[x] >= prios[y], "higher priorities first", x, y, prios)
    before = {k: {j for j in range(total) if prios[j] == prios[k] and kind_of[j] in deps[kind_of[k]]} for k in range(total)}
    for k in range(total):
        for j in before[k]:
            rec.require(pos[j] < pos[k], "a dependency runs before its dependent", j, k, ran)

    def level(k):
        return 1 + max((level(j) for j in before[k]), default=-1)

    for a in range(total):
        for b in range(total):
            if prios[a] == prios[b] and order.index(a) < order.index(b) and level(a) == level(b):
                rec.require(pos[a] < pos[b], "independent rules run in registration order", a, b, ran)
    # one context for the whole search, the caller's own if any: rules may leave notes there for later ones
    seen = [e[-1] for e in log if e[0] in ("enabled", "when", "then")] + log.contexts
    rec.require(all(c is (seen[0] if ctx is None else ctx) for c in seen), "rules are given the very context of the search")
    # event sequence of each rule, in order
    x = 0
    size = s.count("a")
    for k in ran:
        en, resp, how = plan[k]
        rec.expect(log[x][:2], ("enabled", k), "rule events")
        rec.expect(log[x][2], {} if ctx is None else ctx, "context given to a rule")
        x += 1
        if en is False or (en == "ctx" and not on):
            continue
        rec.expect(log[x], ("when", k, size, {} if ctx is None else ctx), "condition is evaluated on current matches")
        x += 1
        if not resp or (resp == "m" and size == 0):
            continue
        if how == "then":
            rec.expect(log[x][:2], ("then", k), "triggered rule runs its consequence")
            if resp != "m":
                rec.expect(log[x][2], resp, "consequence gets the response of the condition")
            size += 1
            x += 1
        elif how in ("cons", "consone"):
            rec.expect(log[x][:2], ("cons", kind_of[k]), "triggered rule runs its consequence")
            if resp != "m":
                rec.expect(log[x][2], resp[0] if how == "consone" and isinstance(resp, list) else resp, "consequence gets the response of the condition")
            x += 1
        else:
            for c in range(len(resp)):
                rec.expect(log[x], ("cons", (kind_of[k], c), resp[c]), "each consequence gets its own response")
                x += 1
    rec.expect(x, len(log), "no other rule event")
    # executing the rules by hand: the triggered rules and their responses are returned, in order
    rules = r.effective_rules(ctx)
    rec.require(isinstance(rules, Rules), "rules to execute")
    ms = Matches([Match(k, k + 1, input_string=s) for k, c in enumerate(s) if c == "a"], input_string=s)
    now = len(ms)
    del log[:]
    done = rules.execute_all_rules(ms, {} if ctx is None else ctx)
    want_done = []
    for k in ran:
        en, resp, how = plan[k]
        if en is False or (en == "ctx" and not on) or not resp or (resp == "m" and now == 0):
            continue
        want_done.append((k, resp))
        now += how == "then"
    rec.expect([getattr(rule, "label", None) if hasattr(rule, "label") else int(type(rule).__name__[1:]) for rule, _ in done], [k for k, _ in want_done], "triggered rules which are returned")
    for (rule, response), (_, resp) in zip(done, want_done):
        if resp == "m":
            rec.require(isinstance(response, Match), "response which is returned", response)
        else:
            kind = how_of.get(kind_of.get(getattr(rule, "label", None), int(type(rule).__name__[1:])))
            rec.require(response is resp or kind is not None, "response which is returned", response, resp)
    rec.expect([e[1] for e in log if e[0] == "enabled"], ran, "rules executed by hand are in the same order")
    if n >= 2:
        rec.state(prios, deps, regs, plan, ctx)
        rec.sample((prios, deps, regs, ran))
    rec.count("rules_run", total)
