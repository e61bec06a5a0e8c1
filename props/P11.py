"""Consequences applied by rules: remove, append, rename, tag."""

from rebulk.match import Match, Matches
from rebulk.rules import AppendMatch, AppendTags, RemoveMatch, RemoveTags, RenameMatch

from vh import lists

RULE = (
    "random match lists (with equal but distinct matches, private flags, tags), random sequences of 1-5 consequences "
    "applied to one match, lists, generators, matches absent from the list, and duplicated responses, with lookups "
    "queried in between; content by identity, names, tags and every lookup are compared with a reference list; "
    "non-trivial: the list changed, distinct plan"
)
QUICK = 48000
THOROUGH = 600000
BACKENDS = ["re"]


def find(model, m):
    for k, o in enumerate(model):
        if o is m:
            return k
    for k, o in enumerate(model):
        if o == m:
            return k
    return None


def remove(model, targets):
    gone = []
    for m in targets:
        k = find(model, m)
        if k is not None:
            del model[k]
            gone.append(m)
    return gone


def case(rng, rec, i):
    big = i % 61 == 7
    length = rng.choice([3, 8]) if not big else 64
    s = ("abcdefgh" * 8)[:length]
    model = lists.matches(rng, rng.choice([1, 2, 4, 7]) if not big else 50, length, s, dup=0.3)
    ms = Matches(list(model), input_string=s)
    changed = False
    trail = []
    rec.note("list", model)
    for step in range(rng.randint(1, 5)):
        kind = rng.choice(["remove", "append", "appendname", "rename", "tags", "untag"])
        pool = model + [lists.match(rng, length, s) for _ in range(2)] 
        if not pool:
            break
        single = rng.random() < 0.4
        targets = [rng.choice(pool)] if single else [t for t in pool if rng.random() < 0.4]
        if kind == "remove" and not single and targets and rng.random() < 0.2:
            targets.append(targets[0])
        lazy = not single and rng.random() < 0.15 and kind != "appendname"
        if lazy:
            # read from the list while the list changes
            if kind == "append":
                new = targets
                targets = new[: len(model)]
                response = (t for t, _ in zip(new, ms))
            else:
                targets = [t for t in model if any(t is o for o in targets)]
                wanted = {id(t) for t in targets}
                response = (m for m in ms if id(m) in wanted)
        elif single:
            response = targets[0]
        else:
            response = rng.choice([list, tuple, iter, lambda t: Matches(t) if kind != "append" else list(t)])(targets)
        name = rng.choice(["x", "new"])
        tags = rng.choice([["t1"], ["t9", "t2"], ["t9", "t8", "t7", "t1", "t2"], ["t"], ["t11", "1"]])
        before = list(model)
        tags_before = {id(m): list(m.tags) for m in model + targets}
        for m in model + targets:
            if not m.children and rng.random() < 0.3:
                m.children.append(Match(m.start, m.end, name=rng.choice(["c", None]), tags=["t1", "ct"], parent=m, input_string=s))
        families = [(c, c.name, list(c.tags)) for m in model + targets for c in m.children]
        names_before = {id(m): m.name for m in model + targets}
        rec.note("step", kind, "single" if single else "iterable", [before.index(t) if t in before else repr(t) for t in targets], name, tags)
        if kind == "remove":
            if len({id(t) for t in targets}) < len(targets) and any(sum(o == t for o in model) > 1 for t in targets):
                # removing one object twice while another equal one exists is not specified
                targets = list({id(t): t for t in targets}.values())
                response = list(targets)
            gone = remove(model, targets)
            ret = RemoveMatch().then(ms, response, {})
            rec.expect(lists.ids(ret) if not single else (None if ret is None else [id(ret)]), lists.ids(gone) if not single or gone else None, "removed matches are returned")
        elif kind in ("append", "appendname"):
            new, renamed = [], []
            for t in targets:
                if not any(o == t for o in model):
                    if kind == "appendname":
                        t_name = name
                    else:
                        t_name = t.name
                    new.append((t, t_name))
                    model.append(t)
                    if kind == "appendname":
                        # equality of later targets is judged with the new name
                        renamed.append((t, t.name))
                        t.name = name
            for t, old_name in renamed:
                t.name = old_name
            ret = (AppendMatch(name) if kind == "appendname" else AppendMatch()).then(ms, response, {})
            if single:
                rec.require(ret is (new[0][0] if new else None), "an appended match is returned", ret)
            else:
                rec.expect(lists.ids(ret), lists.ids([t for t, _ in new]), "appended matches are returned")
            for t, t_name in new:
                rec.expect(t.name, t_name, "name of an appended match")
            for t in targets:
                if not any(t is x for x, _ in new):
                    rec.expect(t.name, names_before[id(t)], "a match that is not appended keeps its name")
        elif kind == "rename":
            gone = remove(model, targets)
            RenameMatch(name).then(ms, response, {})
            for m in gone:
                rec.expect(m.name, name, "renamed match")
            for m in gone:
                if not any(o == m for o in model):
                    model.append(m)
        else:
            (AppendTags(tags) if kind == "tags" else RemoveTags(tags)).then(ms, response, {})
            gone = remove(model, targets)
            model.extend(gone)
            for m in gone:
                want = tags_before[id(m)] + tags if kind == "tags" else [t for t in tags_before[id(m)] if t not in tags]
                rec.expect(sorted(m.tags), sorted(want), "tags after the consequence")
            for m in before:
                if not any(m is g for g in gone):
                    rec.expect(m.tags, tags_before[id(m)], "tags of other matches")
        if lists.ids(before) != lists.ids(model) or kind in ("tags", "untag", "rename"):
            changed = True
        for c, c_name, c_tags in families:
            rec.expect((c.name, c.tags), (c_name, c_tags), "children are left as they are")
        trail.append((kind, single, len(targets)))
        rec.expect(sorted(lists.ids(ms)), sorted(lists.ids(model)), f"matches after {kind}")
        rec.expect(lists.ids(ms), lists.ids(model), f"order of matches after {kind}")
        if rng.random() < 0.6:
            lists.verify(rec, ms, model, length, "lookup after consequence: ")
    lists.verify(rec, ms, model, length, "lookup after consequences: ")
    if changed:
        rec.state(trail, [(m.span, m.name, tuple(m.tags)) for m in model])
        rec.sample((trail, model))
