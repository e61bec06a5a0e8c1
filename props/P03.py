"""Functional patterns: how the function is called, and how what it returns becomes matches."""

import functools

from rebulk import Rebulk

from vh import gen

RULE = (
    "functions of many shapes (plain, lambda, bound method, callable object, partial, static/class method, "
    "*args/**kwargs, keyword-only) taking input, context and pattern options, returning every supported form "
    "(None, pair, pair with options, dict, list/tuple/generator of those); the calls and the matches are compared "
    "with the plan; non-trivial: distinct (shape, return form, spans)"
)
QUICK = 60000
THOROUGH = 800000
BACKENDS = ["re"]


class Obj:
    def __init__(self, body):
        self.body = body

    def one(self, string):
        return self.body(string)

    def two(self, string, context):
        return self.body(string, context=context)

    def opt(self, string, context, flavour=None):
        return self.body(string, context=context, flavour=flavour)


class Call1(Obj):
    def __call__(self, string):
        return self.body(string)


class Call2(Obj):
    def __call__(self, string, context):
        return self.body(string, context=context)


class CallFunc(Obj):
    """A callable object which looks like a partial or a method."""

    def __init__(self, body):
        super().__init__(body)
        self.func = body
        self.args = (1, 2, 3)
        self.keywords = {"flavour": "keywords"}
        self.__name__ = "named"

    def __call__(self, string):
        return self.body(string)


class Klass:
    body = None

    @classmethod
    def cm(cls, string):
        return cls.body(string)

    @staticmethod
    def sm(string, context):
        return Klass.body(string, context=context)


MISSING = object()


def shapes(body):
    def f1(string):
        return body(string)

    def f2(string, context):
        return body(string, context=context)

    def fk(string, context, flavour):
        return body(string, context=context, flavour=flavour)

    def fd(string, context=None, *, flavour="dflt"):
        return body(string, context=context, flavour=flavour)

    def fa(*args):
        return body(*args[:1], context=args[1], nargs=len(args))

    def fn(string, *, empty="dflt"):
        assert empty is None, empty
        return body(string)

    def fkw(string, **kw):
        assert kw.get("empty", MISSING) is None, kw
        return body(string, flavour=kw.get("flavour", MISSING))

    def fall(*args, **kw):
        return body(args[0], context=args[1], flavour=kw.get("flavour", MISSING))

    def pre(bound, string):
        assert bound == "bound"
        return body(string)

    Klass.body = staticmethod(body)
    o = Obj(body)
    return {
        "f1": f1,
        "lambda": lambda s: body(s),
        "named": lambda name: body(name),
        "valued": lambda value, tags: body(value, context=tags),
        "f2": f2,
        "lambda2": lambda s, c: body(s, context=c),
        "fk": fk,
        "fd": fd,
        "fa": fa,
        "fkw": fkw,
        "fn": fn,
        "fall": fall,
        "method1": o.one,
        "method2": o.two,
        "methodk": o.opt,
        "call1": Call1(body),
        "call2": Call2(body),
        "callfunc": CallFunc(body),
        "classmethod": Klass.cm,
        "staticmethod": Klass.sm,
        "partial": functools.partial(pre, "bound"),
    }


SHAPES = list(shapes(lambda *a, **k: None))


def in_chain(rng, rec, s, ctx):
    """The parts of a chain are given the context as well, and what is left of the input."""
    calls = []
    at = rng.randint(0, len(s))
    head, c = s[at : at + 1], s[at + 1 : at + 2]
    if not head or not c:
        return

    def body(string, context=MISSING, flavour=MISSING, nargs=MISSING):
        calls.append((string, context, flavour))
        return (0, 1) if string.startswith(c) else None

    shape = rng.choice(["f2", "lambda2", "fk", "fd", "method2", "methodk", "call2", "staticmethod"])
    fn = shapes(body)[shape]
    r = Rebulk(default_rules=False)
    nested = rng.random() < 0.5
    before = rng.randint(0, 1)
    cb = r.chain()
    if before:
        cb.string(head)
    if nested:
        cb.chain().functional(fn, flavour="F")
    else:
        cb.functional(fn, flavour="F")
    given = rng.choice([ctx, {"other": 2}])
    rec.note("chain", repr(s), "starts", repr(head) if before else None, "then", repr(c), "nested", nested, shape, given)
    got = r.matches(s, given)
    rec.require(calls or (before and head not in s), "functional parts of a chain are called")
    for string, context, flavour in calls:
        rec.require(s.endswith(string), "input given to a part of a chain", string)
        rec.expect(context, {} if given is None else given, "context given to a part of a chain")
        rec.require(given is None or context is given, "the very context of the caller is given to a part of a chain")
        if shape in ("fk", "fd", "methodk"):
            rec.expect(flavour, "F", "option given to a part of a chain")
    for m in got:
        rec.expect(m.value, (head if before else "") + c, "match of the chain")
    rec.count("chains", len(calls))


def case(rng, rec, i):
    big = i % 61 == 7
    s = gen.text(rng, 20 if not big else 100) or "ab"
    n = rng.choice([0, 1, 1, 2, 3, 4]) if not big else 40
    sp = gen.spans(rng, len(s), n, empty=0.15)
    kwargs = {"flavour": "F", "empty": None}
    if rng.random() < 0.5:
        kwargs["name"] = "pat"
    if rng.random() < 0.4:
        kwargs["tags"] = ["t"]
    if rng.random() < 0.15:
        kwargs["private"] = True
    marker = rng.random() < 0.1
    if marker:
        kwargs["marker"] = True
    if rng.random() < 0.1:
        # the value of the pattern is the one of all its matches
        kwargs["value"] = rng.choice(["PV", 0, False])
    shape = rng.choice(SHAPES)
    form = rng.choice(["pair", "pairlist", "dict", "dictlist", "opts", "optslist", "gen", "mixed", "tuplelist"])
    single = form in ("pair", "dict", "opts")
    if single:
        sp = sp[:1]
    ctx = rng.choice([None, {}, {"k": 1}])
    want = []
    ret = []
    base_name, base_tags, base_priv = kwargs.get("name"), kwargs.get("tags", []), bool(kwargs.get("private"))
    for a, b in sp:
        kind = {"pair": "p", "pairlist": "p", "dict": "d", "dictlist": "d", "opts": "o", "optslist": "o"}.get(form) or rng.choice("pdo")
        name, tags, value, priv, mark = base_name, base_tags, None, base_priv, marker
        if kind == "p":
            pair = [a, b]
            if rng.random() < 0.25:
                # what follows is the value, then what the pattern says nothing about
                value = rng.choice(["V", 0, None])
                pair.append(value)
                if "name" not in kwargs and rng.random() < 0.6:
                    name = rng.choice(["own", None])
                    pair.append(name)
                    if "tags" not in kwargs and rng.random() < 0.6:
                        tags = rng.choice([["own"], None])
                        pair.append(tags)
                        if not marker and rng.random() < 0.5:
                            pair.append(False)
            ret.append(tuple(pair) if rng.random() < 0.8 else pair)
        elif kind == "d":
            d = {"start": a, "end": b}
            if rng.random() < 0.5:
                d["name"] = name = "own"
            if rng.random() < 0.4:
                d["tags"] = tags = ["own"]
            if rng.random() < 0.3:
                d["value"] = value = rng.choice(["V", 0])
            if rng.random() < 0.2:
                d["input_string"] = "something else"
            if rng.random() < 0.05:
                d["marker"] = mark = rng.choice([True, False])
            if "name" not in d and rng.random() < 0.15:
                d["name"] = name = None
            if "tags" not in d and rng.random() < 0.1:
                d["tags"] = tags = rng.choice([None, []])
            if "private" not in d and rng.random() < 0.1:
                d["private"] = priv = rng.choice([True, False])
            ret.append(d)
        else:
            d = {}
            if rng.random() < 0.5:
                d["name"] = name = "own"
            if rng.random() < 0.3:
                d["value"] = value = rng.choice([7, False])
            if "name" not in d and rng.random() < 0.15:
                d["name"] = name = None
            if rng.random() < 0.3:
                d["tags"] = tags = rng.choice([["own"], ["own", "t"], None, []])
            if rng.random() < 0.15:
                d["private"] = priv = rng.choice([True, False])
            if rng.random() < 0.05:
                d["marker"] = mark = rng.choice([True, False])
            ret.append((a, b, d))
        if "value" in kwargs:
            value = kwargs["value"]
        if b > a:
            want.append((mark, (a, b), name, list(tags or []), priv, s[a:b] if value is None else value, s[a:b]))
    if not ret:
        produce = rng.choice([None, [], (), False])
    elif single:
        produce = ret[0]
    elif form == "tuplelist":
        produce = tuple(ret)
    elif form == "gen":
        produce = "GEN"
    else:
        produce = list(ret)
    calls = []

    def body(string, context=MISSING, flavour=MISSING, nargs=MISSING):
        calls.append((string, context, flavour, nargs))
        if produce == "GEN":
            return (x for x in ret)
        return produce

    fn = shapes(body)[shape]
    nfn = rng.choice([1, 1, 2])
    rec.note("input", s, "shape", shape, "form", form, "returns", ret, "kwargs", kwargs, "functions", nfn)
    fns = [fn] * nfn
    others = []
    if rng.random() < 0.2:

        def other(string):
            others.append(string)
            return 0, len(string)

        at = rng.randint(0, nfn)
        fns.insert(at, other)
        want = want * at + [(marker, (0, len(s)), base_name, list(base_tags), base_priv, kwargs.get("value", s), s)] + want * (nfn - at)
    else:
        want = want * nfn
    r = Rebulk(default_rules=False).functional(*fns, **kwargs)
    out = r.matches(s, ctx)
    for mark, found in ((False, out), (True, out.markers)):
        got = [(m.span, m.name, list(m.tags), bool(m.private), m.value, m.raw) for m in found]
        rec.expect(got, [w[1:] for w in want if w[0] == mark], "markers of a functional pattern" if mark else "matches of a functional pattern")
    if len(fns) > nfn:
        rec.expect(others, [s], "calls of the other function")
    rec.expect(len(calls), nfn, "calls per function and search")
    want_ctx = {} if ctx is None else ctx
    for string, context, flavour, nargs in calls:
        rec.expect(string, s, "input given to the function")
        if context is not MISSING:
            rec.expect(context, want_ctx, "context given to the function")
            rec.require(ctx is None or context is ctx, "the very context of the caller is given to the function")
        if shape in ("f2", "lambda2", "fk", "fd", "fa", "fall", "method2", "methodk", "call2", "staticmethod"):
            rec.require(context is not MISSING, "context is passed to functions that take it")
        if shape in ("fk", "fd", "fkw", "fall", "methodk"):
            rec.expect(flavour, "F", "pattern option passed to a function that takes it")
        if nargs is not MISSING:
            rec.expect(nargs, 2, "positional arguments of a variadic function")
    if rng.random() < 0.3:
        in_chain(rng, rec, s, ctx)
    rec.state(shape, form, sp, sorted(kwargs))
    if want:
        rec.sample((shape, form, ret, want))
