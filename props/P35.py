"""Matching terminates on every input, including configurations that match nothing or empty text."""

import os
import sys

import rebulk
from rebulk import Rebulk
from rebulk.match import Match, Matches
from rebulk.utils import find_all

from vh import gen
from vh.core import StepBudget, Violation

RULE = (
    "hostile but legal configurations: empty strings and patterns, patterns matching empty text, optional and repeated "
    "chain parts that match nothing, empty functional results, zero-length matches, long uniform inputs, and list queries "
    "outside the input, run with every executed line of the library counted against a budget quadratic in the input; "
    "non-trivial: at least 200 lines executed, distinct (configuration, input)"
)
QUICK = 8000
THOROUGH = 100000

ROOT = os.path.dirname(os.path.realpath(rebulk.__file__)) + os.sep


def counted(budget, f):
    lines = 0

    def tracer(frame, event, arg):
        nonlocal lines
        if not frame.f_code.co_filename.startswith(ROOT):
            return None
        lines += 1
        if lines > budget:
            raise StepBudget
        return tracer

    sys.settrace(tracer)
    try:
        return f(), lines
    except StepBudget:
        raise Violation(f"no termination: more than {budget} lines of the library executed") from None
    finally:
        sys.settrace(None)


def pattern(rng, b, chain=False):
    kind = rng.choice(["string", "regex", "regex", "functional"])
    kw = {"name": rng.choice(["x", "y"])} if rng.random() < 0.6 else {}
    if kind == "string":
        return b.string(*rng.sample(["", "", "a", "aa", "b"], rng.randint(1, 2)), **({"ignore_case": True} if rng.random() < 0.3 else {}), **kw)
    if kind == "regex":
        if rng.random() < 0.3 and not chain:
            kw["children"] = True
        return b.regex(rng.choice(["", "a*", "a*?", "(a*)", "(?P<x>a?)(?P<y>b?)", "(?=a)", "^", "$", "a|", r"\b", "(b*)a?", "a+"]), **kw)
    return b.functional(rng.choice([lambda t: None, lambda t: [], lambda t: (0, 0), lambda t: (0, len(t)), lambda t: [(k, k) for k in range(len(t))], lambda t: [(k, k + 1) for k in range(len(t))], lambda t: (k for k in ())]), **kw)


def case(rng, rec, i):
    mode = rng.random()
    n = rng.choice([0, 1, 2, 5, 20, 60])
    s = rng.choice(["a" * n, "ab" * (n // 2), "b" * n, gen.text(rng, n or 1)])[:60]
    what = []
    if mode < 0.7:
        r = Rebulk(default_rules=rng.random() < 0.7)
        for _ in range(rng.randint(1, 2)):
            if rng.random() < 0.5:
                pattern(rng, r)
                what.append("pattern")
            else:
                c = r.chain(**rng.choice([{}, {"name": "x"}, {"children": True}]))
                for _ in range(rng.randint(1, 3)):
                    rep = rng.choice([None, "*", "+", "?", "{1,2}", 2, "{0,3}", "{2,}"])
                    part = pattern(rng, c, chain=True)
                    if rep is not None:
                        part.repeater(rep)
                    if rng.random() < 0.2:
                        part.hidden()
                    what.append(("chain", rep))
                c.close()
        pats = [(type(p).__name__, [getattr(x, "pattern", None) or (x if isinstance(x, str) else None) for x in getattr(p, "patterns", [])], [(q.pattern, q.repeater_start, q.repeater_end) for q in p.parts] if hasattr(p, "parts") else None) for p in r.effective_patterns()]
        rec.note(repr(s), what, pats)
        ms, lines = counted(200_000 + 4000 * len(s) * len(s), lambda: r.matches(s))
        rec.require(all(m.end > m.start for m in ms if "hain" not in type(m.pattern).__name__), "patterns give no empty match", list(ms))
        rec.state(pats, s) if lines >= 200 else None
        rec.sample((s, pats, lines))
    elif mode < 0.85:
        sub = rng.choice(["", "a", "aa", "ab", s[:3]])
        a, b = rng.choice([None, 0, 3, -2, 100]), rng.choice([None, 0, 5, -1, 100])
        rec.note("find_all", repr(s), repr(sub), a, b)
        got, lines = counted(20_000 + 50 * len(s), lambda: list(find_all(s, sub, a, b, ignore_case=rng.random() < 0.3)))
        rec.expect(got, sorted(set(got)), "indices are increasing")
        rec.state("find_all", s, sub, a, b)
    else:
        items = []
        for _ in range(rng.randint(0, 6)):
            a = rng.randint(0, len(s))
            items.append(Match(a, max(a, min(len(s), a + rng.randint(0, 3))), name="x", input_string=s))
        ms = Matches(items, input_string=s)
        probe = Match(rng.randint(-3, 80), 90, input_string=s)
        lo, hi = rng.randint(0, 80), rng.choice([None, rng.randint(0, 90)])
        rec.note("queries", repr(s), items, probe, lo, hi)

        def ask():
            ms.holes(lo, hi)
            ms.holes(0, hi, seps="a") if s else None
            ms.previous(probe), ms.next(probe), ms.conflicting(probe), ms.range(lo, hi)
            ms.chain_before(lo, "a"), ms.chain_after(min(lo, len(s)), "ab")
            for m in items:
                ms.previous(m), ms.next(m)
                m.crop([(1, 2), (0, 90)])
                m.split("a") if m.raw is not None else None
            return True

        got, lines = counted(400_000 + 2000 * len(s) * len(s), ask)
        rec.ok("queries terminate")
        rec.state("queries", s, [m.span for m in items], lo, hi)
    rec.ok("terminated within the budget")
    rec.count("lines_executed", lines)
