"""
Core of the harness: what a monitored case can report, and what a property module is.

A property module (``/verif/props/<id>.py``) defines:

* ``RULE``      how cases are made and what makes one non-trivial (goes to evidence);
* ``QUICK`` / ``THOROUGH``  number of cases per tier;
* ``BACKENDS``  regular expression backends to run under (default: both);
* ``case(rng, rec, i)``  drives the real library with a workload generated from ``rng`` while
  monitors observe it; raises :class:`Violation` when an oracle disagrees with an observation.

Any other exception escaping ``case`` is an unexpected failure of the library on an in-contract
workload, and is reported as a violation too.
"""

from __future__ import annotations

import hashlib
from collections import Counter


class Violation(Exception):
    """The property does not hold on an observed execution."""


class CaseTimeout(BaseException):
    """Wall clock watchdog (never a verdict by itself)."""


class StepBudget(BaseException):
    """Logical step budget exceeded (verdict: does not terminate)."""


class Rec:
    """What the monitors observed in this worker."""

    def __init__(self) -> None:
        self.cases = 0
        self.checks = 0
        self.counts: Counter = Counter()
        self.distinct: set[bytes] = set()
        self.samples: list = []
        self.notes: list = []

    def start(self) -> None:
        self.notes = []

    def note(self, *items) -> None:
        """Describe the workload of the current case (kept for the replay file)."""
        self.notes.append(" ".join(x if isinstance(x, str) else repr(x) for x in items)[:2000])

    def ok(self, kind: str = "oracle", n: int = 1) -> None:
        """An oracle has been evaluated on an observation."""
        self.checks += n
        self.counts[kind] += n

    def count(self, kind: str, n: int = 1) -> None:
        self.counts[kind] += n

    def state(self, *key) -> None:
        """A distinct, non-trivial observed execution."""
        if len(self.distinct) < 400000:
            self.distinct.add(hashlib.blake2b(repr(key).encode("utf-8", "backslashreplace"), digest_size=8).digest())

    def sample(self, obj) -> None:
        if len(self.samples) < 2:
            self.samples.append(str(obj)[:600])

    def expect(self, got, want, what: str, kind: str | None = None) -> None:
        self.ok(kind or what)
        if not (got == want):
            raise Violation(f"{what}: observed {got!r}, expected {want!r}")

    def require(self, cond, what: str, *detail, kind: str | None = None) -> None:
        self.ok(kind or what)
        if not cond:
            raise Violation(what + (": " + " ".join(map(repr, detail)) if detail else ""))
