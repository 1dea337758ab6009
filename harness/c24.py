"""C24: gensym, scrub_uuid."""
import uuid
from sx.api import H

HEX = "0123456789abcdef"
BOUNDS = {"quick": "gensym: every sequence of 3 calls (two with 6 base names, one with 2 or with a name generated before) and a unique-id source that returns any sequence of 2 ids, repeating in any pattern (at most 4 times in a row); scrub_uuid: every string of the lengths 0-2, 20, 31-35, 37 over 14 characters (hex digits of both cases, underscore, space, signs, x, other letters, a non-ASCII digit); strings with a suffix of 30-33 or 64 digits, one of them exchanged",
          "thorough": "gensym: sequences of 4 calls, 3 ids; otherwise as quick, also with lengths 65-67 and 70, and two digits exchanged"}
OUTSIDE = "longer sequences and strings; several processes"
ASSUMPTIONS = ["for removing the suffix, the base name is not empty (a bare unique id has no `_` before it)", "suffixes with upper-case hex digits are not generated; whether they are removed is not specified"]
ALPHA = "_0a9fxX+- gz\u0660é"


class Source:
    """uuid4 returning one of n ids, as the solver likes; but in any run of `n + 1` calls, at least one new one."""
    def __init__(self, S, n):
        self.S, self.n, self.k, self.fresh = S, n, 0, 0
        self.run = 0
        self.ids = [uuid.UUID(int=int(("%x" % (i + 10)) * 32, 16)) for i in range(n)] + [uuid.UUID(int=i) for i in range(1, 60)]
        self.seen = set()
    def __call__(self):
        self.k += 1
        self.run += 1
        if self.run > 4:        # eventually fresh
            self.fresh += 1
            self.run = 0
            return self.ids[self.n + self.fresh]
        return self.ids[self.S.pick(f"id{self.k}", range(self.n))]


def h_gensym(S, calls, ids):
    G = S.m.utils.gensym
    src = Source(S, ids)
    seen = []
    old, uuid.uuid4 = uuid.uuid4, src
    try:
        for i in range(calls):
            base = S.pick(f"b{i}", ["a", None, "", "a_", "0-x", "gensym"] if i < 2 else ["a", None, "again"])
            if base == "again":     # a name generated from a generated name
                base = seen[S.pick(f"of{i}", range(len(seen)))]
            src.run = 0
            s = G(base) if base is not None else G()
            S.check(type(s) is str, "not a string")
            S.check(s not in seen, lambda: f"{s!r} was generated before: {seen}")
            S.check(s.startswith(base if base is not None else ""), lambda: f"{s!r} does not start with {base!r}")
            if base is None or base.isidentifier():
                S.check(s.isidentifier(), lambda: f"{s!r} is not an identifier")
            if base:
                S.check(S.m.utils.scrub_uuid(s) == base, lambda: f"suffix of {s!r}")
            if src.run > 1:
                S.reach("collision")
            seen.append(s)
    finally:
        uuid.uuid4 = old
    S.note(lambda: seen)
    S.reach("done")


def h_types(S):
    for bad in (1, b"x", ["a"]):
        S.raises(TypeError, lambda: S.m.utils.gensym(bad), "base name of the wrong type")
    S.reach("done")


def h_scrub(S, lengths):
    """Any string."""
    s = S.str("s", lengths, ALPHA)
    S.note(lambda: repr(str(s)))
    # the specification: `_` and exactly 32 hex digits at the end
    n = len(s)
    r = S.m.utils.scrub_uuid(s)
    suffix = False
    if n >= 33:
        tail = s[n - 32:]
        suffix = s[n - 33] == "_"
        if suffix:
            for c in tail:
                if c not in "09af":
                    suffix = False
                    break
    if suffix:
        S.check(r == s[:n - 33], lambda: f"suffix not removed: {s!r} -> {r!r}")
        S.reach("suffix")
    else:
        S.check(r == s, lambda: f"{s!r} changed to {r!r}")
        S.reach("none")


def h_scrub_near(S, bases, ns, changes):
    """A suffix, or almost one: at most two characters off."""
    base = S.str("base", bases, "_a0")
    digits = list((HEX * 3)[:S.pick("n", ns)])
    for k in range(changes):
        p = S.int(f"pos{k}", 0, len(digits))
        c = S.pick(f"ch{k}", ["x", "_", "+", " ", "-"])
        if p < len(digits):
            digits[int(p)] = c
    tail = "".join(digits)
    s = str(base) + "_" + tail
    S.note(repr(s))
    r = S.m.utils.scrub_uuid(s)
    want = s
    if len(s) >= 33 and s[-33] == "_" and all(c in HEX for c in s[-32:]):
        want = s[:-33]
        S.reach("suffix")
    else:
        S.reach("none")
    S.check(r == want, lambda: f"{s!r} changed to {r!r}, expected {want!r}")


HARNESSES = [
    H("gensym", h_gensym, "fresh names under repeating ids", dict(calls=3, ids=2), dict(calls=4, ids=3), reach={"done"}),
    H("types", h_types, "base names of the wrong type", reach={"done"}),
    H("scrub", h_scrub, "scrub_uuid on any string", dict(lengths=[0, 1, 2, 20, 31, 32, 33, 34, 35, 37]), dict(lengths=[0, 1, 2, 20, 31, 32, 33, 34, 35, 37, 65, 66, 67, 70]),
      reach={"suffix", "none"}, eager=False),
    H("scrub_near", h_scrub_near, "scrub_uuid on strings ending in almost a suffix", dict(bases=[0, 1, 2], ns=[30, 31, 32, 33, 64], changes=1), dict(bases=[0, 1], ns=[31, 32, 33], changes=2), reach={"suffix", "none"}),
]
