"""A user callable receives exactly the offered arguments that its signature accepts."""

import functools

from rebulk import Rebulk
from rebulk.loose import call

RULE = (
    "generated callables (functions, lambdas, bound / class / static methods, callable objects, classes with and without "
    "constructor) with random positional, defaulted, keyword-only, *args and **kwargs parameters, called with random "
    "offered arguments, directly and as functional patterns; oracle: binding computed from the generated signature; "
    "non-trivial: some offered argument must be dropped, distinct (signature, offer)"
)
QUICK = 48000
THOROUGH = 500000
BACKENDS = ["re"]

MISSING = object()
CLASSES = ("class", "new", "inherited")


def case(rng, rec, i):
    # generated signature
    npos = rng.randint(0, 3) if i % 61 != 7 else 8
    pos = [f"p{k}" for k in range(npos)]
    ndef = rng.randint(0, npos)
    kwonly = [f"k{k}" for k in range(rng.choice([0, 0, 1, 2]))]
    kwdef = {k: rng.random() < 0.6 for k in kwonly}
    varargs, varkw = rng.random() < 0.25, rng.random() < 0.25
    params = [p if k < npos - ndef else f"{p}='d-{p}'" for k, p in enumerate(pos)]
    if varargs:
        params.append("*args")
    elif kwonly:
        params.append("*")
    params += [f"{k}='d-{k}'" if kwdef[k] else k for k in kwonly]
    if varkw:
        params.append("**kw")
    body = "dict(" + ", ".join([f"{p}={p}" for p in pos + kwonly] + (["args=args"] if varargs else []) + (["kw=kw"] if varkw else [])) + ")"
    sig = ", ".join(params)
    form = rng.choice(["function", "lambda", "method", "classmethod", "staticmethod", "object", "class", "new", "inherited", "partial", "funcobject"])
    ns = {}
    me = ", ".join(["self", *params])
    if form == "function":
        exec(f"def f({sig}):\n    return {body}", ns)
        f = ns["f"]
    elif form == "lambda":
        f = eval(f"lambda {sig}: {body}")
    elif form == "method":
        exec(f"class C:\n    def f({me}):\n        return {body}", ns)
        f = ns["C"]().f
    elif form == "classmethod":
        exec(f"class C:\n    @classmethod\n    def f({me}):\n        return {body}", ns)
        f = ns["C"].f
    elif form == "staticmethod":
        exec(f"class C:\n    @staticmethod\n    def f({sig}):\n        return {body}", ns)
        f = ns["C"].f
    elif form == "object":
        exec(f"class C:\n    def __call__({me}):\n        return {body}", ns)
        f = ns["C"]()
    elif form == "partial":
        exec(f"def f({', '.join(['first', *params])}):\n    assert first == 'bound'\n    return {body}", ns)
        f = functools.partial(ns["f"], "bound")
    elif form == "funcobject":  # an object that looks like a partial or a method
        exec(f"class C:\n    func = args = keywords = property(lambda self: 1)\n    __wrapped__ = None\n    def __call__({me}):\n        return {body}", ns)
        del ns["C"].__wrapped__
        f = ns["C"]()
        f.__name__ = "f"
    elif form == "new":
        exec(f"class C:\n    def __new__({me}):\n        o = object.__new__(self)\n        o.got = {body}\n        return o", ns)
        f = ns["C"]
    else:
        exec(f"class C:\n    def __init__({me}):\n        self.got = {body}", ns)
        exec("class D(C):\n    pass", ns)
        f = ns["D" if form == "inherited" else "C"]
    # offered arguments: positional first, and keywords, also of arguments already given by position (not offered again then)
    given = tuple(f"a{k}" for k in range(rng.randint(0, 4 if npos < 8 else 9)))
    names = [*pos[len(given) :], *kwonly, "other", "extra"]
    offer = {n: rng.choice([f"o-{n}", f"o-{n}", None, 0, False]) for n in names if rng.random() < 0.5}
    if rng.random() < 0.3:
        offer.update({n: f"o-{n}" for n in pos[: len(given)] if rng.random() < 0.5})
    rec.note(form, sig, given, offer)
    want = {}
    complete = True
    for k, p in enumerate(pos):
        if k < len(given):
            want[p] = given[k]
        elif p in offer:
            want[p] = offer[p]
        elif k >= npos - ndef:
            want[p] = f"d-{p}"
        else:
            complete = False
    for k in kwonly:
        if k in offer:
            want[k] = offer[k]
        elif kwdef[k]:
            want[k] = f"d-{k}"
        else:
            complete = False
    if varargs:
        want["args"] = given[npos:]
    if varkw:
        want["kw"] = {n: v for n, v in offer.items() if n not in pos + kwonly}
    before = dict(offer)
    try:
        got = call(f, *given, **offer)
    except TypeError as e:
        rec.require(not complete, "call() fails only when a required argument is not offered", str(e), kind="missing argument")
        rec.count("missing_argument")
        return
    got = got.got if form in CLASSES else got
    rec.require(complete, "a missing required argument is an error", got)
    rec.expect(got, want, "received arguments")
    rec.expect(offer, before, "offered arguments")
    if len(given) > npos or set(offer) - set(pos + kwonly):
        rec.state(form, sig, given, sorted(offer))
        rec.sample((form, sig, given, offer, got))
    # an error raised by the callable is its own: it is called once
    if form in ("function", "method", "object") and rng.random() < 0.5:
        calls = []
        error = rng.choice([TypeError, AttributeError, KeyError, ValueError])

        class Failing:
            def __call__(self, *args, **kw):
                calls.append(1)
                raise error("of the callable")

        def failing(*args, **kw):
            calls.append(1)
            raise error("of the callable")

        target = {"function": failing, "method": Failing().__call__, "object": Failing()}[form]
        try:
            call(target, *given, **offer)
        except error as e:
            rec.require("of the callable" in str(e), "the error of a callable is raised as it is", e)
        else:
            rec.require(False, "the error of a callable is raised")
        rec.expect(len(calls), 1, "a callable is called once")
    # functional patterns: text, then context, then options
    if not varkw and not kwonly and not varargs and ndef == npos and form not in CLASSES:
        seen = []
        exec_ns = {"seen": seen}
        exec(f"def g({sig}):\n    seen.append({body})\n    return (0, 1)", exec_ns)
        g = exec_ns["g"]
        context = {"c": 1}
        text = "text"
        option = {"name": "n"}
        if rng.random() < 0.3:
            # an option may have the name of the argument which receives the text, or the context
            option.update({p: "option" for p in pos[:2] if rng.random() < 0.7})
        ms = Rebulk().functional(g, **option).matches(text, context)
        rec.expect([(m.span, m.name) for m in ms], [((0, 1), "n")], "functional pattern")
        offered = [text, context]
        rec.expect(seen, [{p: offered[k] if k < 2 else f"d-{p}" for k, p in enumerate(pos)}], "arguments of a functional pattern")
