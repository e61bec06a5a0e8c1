"""Debugging aids (definition frames, log levels, enabled logging, contract check) never change results."""

import logging

from rebulk import Rebulk, Rule, debug

from vh import bulk, util

RULE = (
    "random complete rebulks built and searched with every aid off, then with random combinations of definition frames, "
    "log levels, an enabled logging handler that formats every record, and repr() of everything; the complete results "
    "are compared; with definition frames on, patterns and rules must report a frame outside the library; "
    "non-trivial: at least one match and one aid, distinct (configuration, aids)"
)
QUICK = 8000
THOROUGH = 150000


class Handler(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.lines = []

    def emit(self, record):
        self.lines.append((record.levelno, record.getMessage()))


class Leveled(Rule):
    def when(self, matches, context):
        return self.answer

    def then(self, matches, when_response, context):
        pass


class Fixed(Leveled):
    log_level = 37


def levels(rng, rec, handler):
    """Records about a pattern or a rule are logged at its own level, or at the default one."""
    default = rng.choice([logging.DEBUG, 3, 42])
    own = rng.choice([None, None, 7, logging.WARNING, logging.DEBUG, 0])
    logger = logging.getLogger("rebulk")
    saved = debug.LOG_LEVEL, logger.level
    subject = rng.choice(["string", "regex", "functional", "rule", "rule", "fixed"])
    try:
        debug.LOG_LEVEL = default
        logger.addHandler(handler)
        logger.setLevel(1)
        del handler.lines[:]
        r = Rebulk(default_rules=False)
        options = {} if own is None and rng.random() < 0.5 else {"log_level": own}
        if subject in ("rule", "fixed"):
            rule = (Leveled if subject == "rule" else Fixed)(**options)
            rule.answer = rng.choice([True, False])
            if rng.random() < 0.2:
                rule.enabled = lambda context: False
            r.rules(rule)
        else:
            if rng.random() < 0.2:
                options["disabled"] = True
            if rng.random() < 0.2:
                options["marker"] = True
            getattr(r, subject)("a" if subject != "functional" else (lambda s: (0, 1)), **options)
        r.matches(rng.choice(["a", "ab", "aa"]))
        want = own if own is not None else 37 if subject == "fixed" else default
        rec.expect({level for level, _ in handler.lines}, {want} - {0}, f"level of the records about one {subject}", kind="levels")
        rec.count("leveled", len(handler.lines))
    finally:
        debug.LOG_LEVEL = saved[0]
        logger.removeHandler(handler)
        logger.setLevel(saved[1])


def case(rng, rec, i):
    seed = rng.getrandbits(40)
    s, c = bulk.text(rng), rng.choice(bulk.CONTEXTS)
    aids = dict(frames=rng.random() < 0.5, logging=rng.random() < 0.6, level=rng.choice([None, logging.DEBUG, logging.INFO, 1, 0]), reprs=rng.random() < 0.4)
    rec.note("configuration", seed, repr(s), c, aids)
    plain = util.dumps(bulk.build(seed).matches(s, dict(c) if c is not None else None))
    handler = Handler()
    logger = logging.getLogger("rebulk")
    saved = (debug.DEBUG, debug.LOG_LEVEL, logger.level, logging.root.manager.disable)
    try:
        debug.DEBUG = aids["frames"]
        if aids["level"] is not None:
            debug.LOG_LEVEL = aids["level"]
        if aids["logging"]:
            logger.addHandler(handler)
            logger.setLevel(1)
        r = bulk.build(seed)
        if aids["reprs"]:
            for p in [*r.effective_patterns(c), *r.effective_rules(c)]:
                repr(p)
        ms = r.matches(s, dict(c) if c is not None else None)
        if aids["reprs"]:
            repr(ms), str(ms.markers), [repr(m) for m in ms]
        got = util.dumps(ms)
        if aids["reprs"]:
            for _ in range(rng.randint(1, 3)):
                for p in [*r.effective_patterns(c), *r.effective_rules(c)]:
                    if rng.random() < 0.5:
                        repr(p)
        again = util.dumps(r.matches(s, dict(c) if c is not None else None))
        if aids["frames"]:
            for x in [*r.effective_patterns(c), *r.effective_rules(c)]:
                if type(x).__module__.startswith("rebulk.") and not hasattr(x, "patterns") and not hasattr(x, "parts"):
                    continue  # a default rule
                rec.require(x.defined_at is not None and x.defined_at.filename.endswith("/vh/bulk.py"), "a pattern or rule reports where it was defined", x, kind="definition frames")
            for m in [*ms, *ms.markers]:
                if m.pattern is not None:
                    rec.expect(m.defined_at, m.pattern.defined_at, "definition of a match is that of its pattern", kind="definition frames")
        if aids["frames"] and i % 4 == 0:
            # code which belongs to no package
            place = f"<place {i}>"
            ns = {"Rebulk": Rebulk, "Rule": Rule, "__name__": "nowhere"}
            exec(compile("\n" * (i % 7) + "r = Rebulk(default_rules=False).string('a')\nr.rules(type('R', (Rule,), {'when': lambda *a: None}))", place, "exec"), ns)
            for x, line in zip([*ns["r"].effective_patterns(), *ns["r"].effective_rules()], (1, 2)):
                rec.expect((x.defined_at.filename, x.defined_at.lineno), (place, line + i % 7), "definition of a pattern or rule out of any package", kind="definition frames")
        if aids["logging"] and plain[0] and aids["level"] != 0:
            rec.count("log_records", len(handler.lines))
    finally:
        debug.DEBUG, debug.LOG_LEVEL = saved[:2]
        logger.removeHandler(handler)
        logger.setLevel(saved[2])
    if i % 3 == 0:
        levels(rng, rec, handler)
    rec.expect(got, plain, "matches with debugging aids", kind="neutrality")
    rec.expect(again, plain, "matches with debugging aids, again", kind="neutrality")
    if plain[0] and any(aids.values()):
        rec.state(seed, repr(aids), s)
        rec.sample((seed, aids, s))
