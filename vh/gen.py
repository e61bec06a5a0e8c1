"""Workload generators: input strings, patterns, match lists."""

from __future__ import annotations

WORDS = ["a", "ab", "aba", "b", "ba", "c", "abc", "x1", "12", "1", "2019", "foo", "Foo", "bar", "o", "oo", "-", "_", "."]
SEPS = " -_."
NAMES = ["n1", "n2", "n3", "season", "episode"]
TAGS = ["t1", "t2", "t3"]


def text(rng, hi: int = 24, alphabet: str | None = None) -> str:
    mode = rng.random()
    n = rng.randint(0, hi)
    if alphabet:
        return "".join(rng.choice(alphabet) for _ in range(n))
    if mode < 0.35:
        return "".join(rng.choice("ab") for _ in range(n))
    if mode < 0.6:
        return "".join(rng.choice("abc12-_ ") for _ in range(n))
    if mode < 0.9:
        out = ""
        while len(out) < n:
            out += rng.choice(WORDS) + rng.choice(["", " ", "-", "_", "."])
        return out[:hi]
    return "".join(rng.choice("aAbBéÉßİıΣσ名前🎬\n\t 1\u00a0\u2009ﬁ\u212akÅ\u00ad\x00\r") for _ in range(n))


def atom(rng) -> str:
    return rng.choice(["a", "b", "c", "ab", r"\d", r"\w", "[ab]", "[^a]", "-", "1", r"[\w]", "o", "[a-c]", "."])


def quant(rng) -> str:
    return rng.choice(["", "", "", "+", "?", "{1,2}", "+?"])


def seq(rng, n: int) -> str:
    return "".join(atom(rng) + quant(rng) for _ in range(n))


def regex_source(rng, names=None, groups: float = 0.6, maxparts: int = 4) -> str:
    """A regular expression without nested repetition (so never exponential)."""
    names = list(NAMES if names is None else names)
    rng.shuffle(names)
    out = []
    for _ in range(rng.randint(1, maxparts)):
        r = rng.random()
        if r < groups:
            inner = seq(rng, rng.randint(1, 2))
            if rng.random() < 0.2:
                inner += "|" + atom(rng)
            kind = rng.random()
            if rng.random() < 0.06:
                # groups taking part several times, or not in the order of the text
                g1 = f"(?P<{names.pop()}>" if names and rng.random() < 0.5 else "("
                if rng.random() < 0.7:
                    g = f"(?:{g1}{atom(rng)})({atom(rng)})){{1,3}}"
                else:
                    g = f"(?=.{g1}{atom(rng)}))({atom(rng)})"
            elif kind < 0.5 and names:
                g = f"(?P<{names.pop()}>{inner})"
            elif kind < 0.8:
                g = f"({inner})"
            elif kind < 0.9:
                g = f"(?:{inner})"
            else:
                g = f"(({atom(rng)}){atom(rng)})" if rng.random() < 0.7 else f"(({atom(rng)}))"
            if rng.random() < 0.15:
                g += "?"
            out.append(g)
        else:
            out.append(atom(rng) + quant(rng))
    return "".join(out)


def spans(rng, length: int, n: int, empty: float = 0.0):
    ret = []
    for _ in range(n):
        a = rng.randint(0, max(0, length - 1))
        b = a + rng.randint(1, max(1, min(6, length - a)))
        if length > 40 and rng.random() < 0.2:
            b = rng.randint(a + 1, length)
        if empty and rng.random() < empty:
            b = a
        ret.append((a, min(b, length) if b > a or True else b))
    return [(a, b) for a, b in ret]
