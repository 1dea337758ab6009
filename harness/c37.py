"""C37: NestingLevelTracker."""
from sx.api import H

BOUNDS = {"quick": "every program of up to 3 steps (setting, changing or reading the level, raising, leaving a generator or a function from inside), nested and in sequence in every way; levels and changes any integers in -3..5",
          "thorough": "4 steps, integers in -10^9..10^9"}
OUTSIDE = "blocks that are not left in the reverse of the order they were entered in; threads"
ASSUMPTIONS = []


class Stop(Exception):
    pass


def h_program(S, n, lo, hi):
    T = S.m.utils.NestingLevelTracker
    first = S.pick("start", ["default", "given"])
    start = 0 if first == "default" else S.int("start value", 0, 5)
    t = T() if first == "default" else T(start)
    other = T()
    left = [n]
    S.check(t.value == start, "the initial level")
    def body(level, depth):
        """Any steps on this level of nesting."""
        while left[0]:
            left[0] -= 1
            i = n - left[0]
            op = S.pick(f"op{i}", ["set", "change", "raise", "return", "wrong"] + (["leave"] if depth else []) + ["other"])
            S.note(op)
            if op == "leave":
                return
            elif op == "return":
                return True
            elif op == "raise":
                raise Stop(i)
            elif op == "other":
                with other.set_to(7):
                    S.check(t.value == level, "another tracker changes the level")
                S.check(other.value == 0, "the other tracker is not reset")
            elif op == "wrong":
                bad = S.pick(f"bad{i}", ["text", None, 1.0])
                S.raises(TypeError, lambda: t.set_to(bad), "a level that is no integer")
            else:
                v = S.int(f"v{i}", lo, hi)
                want = v if op == "set" else level + v
                make = (lambda: t.set_to(v)) if op == "set" else (lambda: t.changed_by(v))
                if want < 0:
                    S.raises(ValueError, make, "a negative level")
                    S.check(t.value == level, "the level after a refused change")
                    S.reach("negative")
                    continue
                err = None
                try:
                    with make() as x:
                        S.check(x is None, "the context manager's value")
                        S.check(t.value == want, lambda: "the level in the block")
                        out = body(want, depth + 1)
                except Stop as e:
                    err = e
                S.check(t.value == level, lambda: "the level after the block")
                S.reach(op)
                if err:
                    S.reach("raised")
                    if S.pick(f"again{i}", [False, True]):
                        raise err
                elif out:
                    S.reach("returned")
                    return S.pick(f"out{i}", [False, True])
            S.check(t.value == level, lambda: "the level between two blocks")
    try:
        body(start, 0)
    except Stop:
        pass
    S.check(t.value == start, "the level at the end")
    try:
        t.value = 3
    except AttributeError:
        S.reach("done")
    else:
        S.fail("the level can be assigned to")


def h_generator(S):
    """A block in a generator that is closed, and a context manager that is made but not used."""
    t = S.m.utils.NestingLevelTracker()
    a, b = S.int("a", 0, 5), S.int("b", 0, 5)
    def gen():
        with t.set_to(a):
            yield t.value
            yield t.value
    g = gen()
    S.check(next(g) == a, "the level in the block")
    how = S.pick("how", ["close", "exhaust", "throw"])
    if how == "close":
        g.close()
    elif how == "exhaust":
        list(g)
    else:
        S.raises(Stop, lambda: g.throw(Stop()), "the exception must come out")
    S.check(t.value == 0, "the level after the generator")
    c = t.changed_by(b)
    S.check(t.value == 0, "the level changes before the block is entered")
    with c:
        S.check(t.value == b, "the level in the block")
    S.check(t.value == 0, "the level after the block")
    S.reach(how)


HARNESSES = [
    H("program", h_program, "programs of nested blocks", dict(n=3, lo=-3, hi=5), dict(n=4, lo=-10**9, hi=10**9), reach={"set", "change", "negative", "raised", "returned", "done"}),
    H("generator", h_generator, "blocks in generators", dict(), reach={"close", "exhaust", "throw"}),
]
