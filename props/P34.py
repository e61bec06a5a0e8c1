"""An exception raised by any user callback reaches the caller unchanged and leaves the rebulk usable."""

import copy

from rebulk import Rebulk

from vh import bulk, util

RULE = (
    "random complete rebulks; the callbacks of a first search are counted (formatters, validators, functional patterns, "
    "processors, chain breakers, conflict solvers, disabled functions, rule conditions and actions), then the search is "
    "run again with a failure injected at the n-th callback, for the first, last and random n; the exception object must "
    "be the one caught, and later searches must give what a fresh rebulk gives; non-trivial: a failure injected, "
    "distinct (configuration, input, n)"
)
QUICK = 8000
THOROUGH = 150000


class Injected(Exception):
    pass


class InjectedBase(BaseException):
    pass


def formatter_failure(rng, rec):
    """A formatter fails where nothing else but reading the value of one match happens."""
    cls = rng.choice([ValueError, Injected, KeyError, AttributeError, TypeError, IndexError, UnicodeError, ArithmeticError, OSError, AssertionError])
    exc = cls("injected")
    on = [True]

    def formatter(v):
        if on[0]:
            raise exc
        return v.upper()

    how = rng.choice(["single", "by name", "for parents", "for children"])
    kids = how == "for children" or rng.random() < 0.3
    kw = {"name": "x", "formatter": formatter if how == "single" else {{"by name": "x", "for parents": "__parent__", "for children": "__children__"}[how]: formatter}}
    if kids:
        kw["children"] = True
        if how in ("for parents",):
            kw.update(children=False, every=True)
    early = rng.random() < 0.5  # the value is read during the search, or after
    if early:
        kw["validator"] = lambda m: m.value is not None
    rec.note("failing formatter", cls.__name__, how, kids, early)
    r = Rebulk(default_rules=False).regex(r"(a)b" if kids else r"ab", **kw)
    caught = None
    try:
        ms = r.matches("ab-ab")
        if not early:
            rec.expect(len(ms), 4 if kw.get("every") else 2, "matches whose formatter fails")
        for m in ms:
            m.value
    except Exception as e:
        caught = e
    rec.require(caught is exc, "the exception of a formatter reaches who reads the value", cls.__name__, caught, kind="exception of a formatter")
    on[0] = False
    rec.expect({m.value for m in r.matches("ab-ab")} <= {"A", "AB", "a", "ab"}, True, "values once the formatter works again")


def case(rng, rec, i):
    if rng.random() < 0.1:
        return formatter_failure(rng, rec)
    seed = rng.getrandbits(40)
    s, c = bulk.text(rng), rng.choice(bulk.CONTEXTS)
    other = bulk.text(rng)
    rec.note("configuration", seed, repr(s), c)
    calls = []
    fail = {"at": None, "exc": None}

    def hook(kind):
        calls.append(kind)
        if fail["at"] == len(calls):
            raise fail["exc"]

    def ctx():
        return copy.deepcopy(c)

    r = bulk.build(seed, hook)
    plain = util.dumps(bulk.build(seed).matches(s, ctx()))
    plain_other = util.dumps(bulk.build(seed).matches(other, ctx()))
    r.matches(s, ctx())
    total = len(calls)
    if not total:
        return
    for n in sorted({1, total - rng.randint(0, min(5, total - 1)), rng.randint(1, total), rng.randint(1, total)}):
        calls.clear()
        cls = rng.choice([Injected, Injected, InjectedBase, ValueError, KeyError, AttributeError, StopIteration, TypeError, IndexError, LookupError])
        exc = cls(f"injected {n}")
        fail.update(at=n, exc=exc)
        context = ctx()
        caught = None
        try:
            r.matches(s, context)
        except (Exception, InjectedBase) as e:
            caught = e
        fail.update(at=None)
        if caught is None and len(calls) < n:
            continue  # fewer callbacks than in the first search: nothing was injected
        kind = calls[n - 1] if len(calls) >= n else None
        rec.note("failure", n, "of", total, kind, cls.__name__)
        rec.count(f"failures in {kind}")
        if cls is StopIteration and isinstance(caught, RuntimeError):
            # what the language does with StopIteration raised inside a generator
            caught = caught.__cause__ or caught.__context__
        if cls is ValueError and kind == "formatter":
            # comparing matches reads their values, and ValueError is how lists tell that they do not hold something
            continue
        rec.require(caught is exc, "the injected exception reaches the caller", kind, cls.__name__, caught, kind="exception reaches the caller")
        rec.expect(len(calls), n, "callbacks run after the failure")
        rec.expect(context, c, "context after a failure")
        got = util.dumps(r.matches(s, ctx()))
        rec.expect(got, plain, "matches after a failure", kind="search after a failure")
        rec.expect(util.dumps(r.matches(other, ctx())), plain_other, "matches of another input after a failure")
        rec.state(seed, s, n)
    rec.sample((seed, s, total))
