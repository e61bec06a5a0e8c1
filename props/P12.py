"""Lookups of a match list agree with its content after any history of mutations and queries."""

from rebulk.match import Children, Markers, Match, Matches

from vh import lists

RULE = (
    "histories of 1-25 list operations (append, insert, extend, remove, pop, del/set of items and slices, reverse, sort "
    "by assignment, clear, +=, failing operations) interleaved with lookups, on match, marker and children lists with equal but "
    "distinct matches and repeated objects; a shadow plain list is the oracle for content, names, tags, positions and "
    "maximum end; non-trivial: at least two mutations, distinct history"
)
QUICK = 48000
THOROUGH = 500000
BACKENDS = ["re"]


def case(rng, rec, i):
    big = i % 61 == 7
    length = rng.choice([2, 6, 10]) if not big else 60
    marker = rng.random() < 0.2
    children = rng.random() < 0.2
    cls = Children if children else Markers if marker else Matches
    s = rng.choice([None, ("abcdefghij" * 6)[:length]])
    kw = {"marker": True} if marker else {}

    def new():
        if model and rng.random() < 0.25:
            o = rng.choice(model)
            if rng.random() < 0.3:
                return o  # the same object, twice in the list
            return Match(o.start, o.end, value=o.value if o.has_literal_value else None, name=o.name, tags=rng.sample(lists.TAGS[:3], 1), private=rng.choice([None, True]), input_string=s, marker=o.marker)
        if rng.random() < 0.05:
            k = rng.randint(0, length)
            return lists.match(rng, length, s, span=(k, k), **kw)
        return lists.match(rng, length, s, **kw)

    model = []
    init = [new() for _ in range(rng.choice([0, 0, 1, 3, 6]) if not big else 60)]
    model = list(init)
    ms = cls(list(init), input_string=s) if init or rng.random() < 0.5 else cls(input_string=s)
    history = []
    held = None
    full = rng.random() < 0.5
    for step in range(rng.randint(1, 25)):
        op = rng.choice(["append", "append", "insert", "extend", "remove", "pop", "popi", "del", "delslice", "set", "setslice", "reverse", "clear", "iadd", "bad", "query", "slice", "sortset", "setext", "own", "scan"])
        n = len(model)
        rec.note(op, n)
        history.append(op)
        if rng.random() < 0.2:
            held = (ms.names, list(ms.names), ms.tags, list(ms.tags))
        if op == "append":
            m = new()
            ms.append(m)
            model.append(m)
        elif op == "insert":
            m, k = new(), rng.randint(-n - 1, n + 2)
            ms.insert(k, m)
            model.insert(k, m)
        elif op == "extend":
            l = [new() for _ in range(rng.randint(0, 3))]
            ms.extend(rng.choice([list, iter, tuple])(l))
            model.extend(l)
        elif op == "iadd":
            l = [new() for _ in range(rng.randint(0, 2))]
            ms += l
            model.extend(l)
        elif op == "remove" and n:
            m = rng.choice(model)
            ms.remove(m)
            del model[next(k for k, o in enumerate(model) if o is m)]
        elif op == "pop" and n:
            rec.require(ms.pop() is model.pop(), "popped match")
        elif op == "popi" and n:
            k = rng.randrange(-n, n)
            rec.require(ms.pop(k) is model.pop(k), "popped match")
        elif op == "del" and n:
            k = rng.randrange(-n, n)
            del ms[k]
            del model[k]
        elif op == "delslice":
            sl = slice(rng.choice([None, rng.randint(0, n)]), rng.choice([None, rng.randint(0, n)]), rng.choice([None, None, 2, -1]))
            del ms[sl]
            del model[sl]
        elif op == "set" and n:
            k, m = rng.randrange(-n, n), new()
            ms[k] = m
            model[k] = m
        elif op == "setslice":
            a, b = rng.randint(0, n), rng.randint(0, n)
            l = [new() for _ in range(rng.randint(0, 3))]
            ms[a:b] = rng.choice([list, iter])(l)
            model[a:b] = l
        elif op == "setext" and n >= 2:
            l = [new() for _ in range(len(model[::2]))]
            ms[::2] = l
            model[::2] = l
        elif op == "own" and n <= 80:
            # its own content, or part of it, given to it
            a, b, c, d = (rng.randint(-n - 1, n + 1) for _ in range(4))
            how = rng.choice(["extend", "iadd", "set", "insert", "chain"])
            if how == "extend":
                ms.extend(ms)
                model.extend(model)
            elif how == "iadd":
                ms += ms[a:b]
                model += model[a:b]
            elif how == "set":
                part = rng.choice([lambda l: l[c:d], lambda l: (m for m in l), lambda l: reversed(l), lambda l: l])
                ms[a:b] = part(ms)
                model[a:b] = part(model)
            elif how == "insert" and n:
                k = rng.randrange(n)
                ms.insert(a, ms[k])
                model.insert(a, model[k])
            else:
                ms.extend(m for m in ms[a:b] if m.start % 2)
                model.extend([m for m in model[a:b] if m.start % 2])
        elif op == "scan":
            m = rng.choice(model) if model and rng.random() < 0.8 else new()
            rec.expect(ms.count(m), model.count(m), "count of a match")
            rec.expect(m in ms, m in model, "membership of a match")
            rec.expect(lists.ids(reversed(ms)), lists.ids(reversed(model)), "reversed content")
            rec.expect([id(x) for x in ms], lists.ids(model), "iterated content")
            a, b = rng.randint(0, n + 1), rng.randint(0, n + 1)
            for args in ((), (a,), (a, b)):
                try:
                    want = model.index(m, *args)
                except ValueError:
                    want = None
                try:
                    got = ms.index(m, *args)
                except ValueError:
                    got = None
                rec.expect(got, want, "index of a match")
            k = rng.randint(-n - 2, n + 1)
            try:
                got = ms[k]
            except IndexError:
                got = None
            rec.require(got is (model[k] if -n <= k < n else None), "item of the list", k)
        elif op == "reverse":
            ms.reverse()
            model.reverse()
        elif op == "sortset":
            ms[:] = sorted(ms)
            model[:] = sorted(model)
        elif op == "clear" and rng.random() < 0.3:
            ms.clear()
            model.clear()
        elif op == "bad":
            wrong = Match(0, length + 5, name="zz", marker=not marker)
            how = rng.choice(["del", "pop", "remove"] + ["append", "insert", "set", "setslice", "extend"] * (not children))
            try:
                if how == "append":
                    ms.append(wrong)
                elif how == "insert":
                    ms.insert(0, wrong)
                elif how == "set":
                    ms[0] = wrong
                elif how == "setslice":
                    ms[0:0] = [wrong]
                elif how == "extend":
                    ms.extend([wrong])
                elif how == "del":
                    del ms[n + 3]
                elif how == "pop":
                    ms.pop(n + 3)
                else:
                    ms.remove(Match(0, length + 7, name="zz", marker=marker))
            except (AssertionError, IndexError, ValueError):
                rec.ok("failed mutation")
            else:
                rec.require(False, "an impossible mutation is rejected", how)
            history.append(how)
        elif op == "query":
            p = rng.randint(-2, length + 3)
            for f in rng.sample([lambda: ms.named(rng.choice(["x", "zz"])), lambda: ms.tagged("t1"), lambda: ms.starting(p), lambda: ms.ending(p), lambda: ms.at_index(p), lambda: ms.at_span((p, p + 2)), lambda: list(ms.names), lambda: list(ms.tags), lambda: ms.max_end], 3):
                f()
        elif op == "slice":
            a, b = sorted((rng.randint(0, n), rng.randint(0, n)))
            part = ms[a:b]
            rec.expect(lists.ids(part), lists.ids(model[a:b]), "slice")
            rec.require(isinstance(part, cls), "a slice is the same kind of list", type(part))
            rec.expect(part.input_string, ms.input_string, "input of a slice")
            if model[a:b]:
                lists.verify(rec, part, model[a:b], length, "slice: ")
            if rng.random() < 0.5 and part:
                part.pop()  # a slice is independent
        rec.expect(lists.ids(ms), lists.ids(model), f"content after {op}")
        if held:
            rec.expect([list(held[0]), list(held[2])], [held[1], held[3]], "names and tags read before a mutation")
        if full:
            lists.verify(rec, ms, model, length, f"after {op}: ")
        else:
            rec.require(all(ms[k] is m for k, m in enumerate(model)), "indexing")
    lists.verify(rec, ms, model, length, "after the history: ")
    rec.expect([m in ms for m in model], [True] * len(model), "membership")
    if len(history) >= 2:
        rec.state(history, marker, [(m.span, m.name) for m in model])
        rec.sample((history, model))
    rec.count("mutations", len(history))
