"""What a harness sees: `S`, the source of symbolic inputs, and the place to state the property.

The same harness runs in three modes:
- symbolic: on the instrumented modules; inputs are symbolic, z3 decides every branch on them;
- concrete: replay of one assignment on the uninstrumented modules;
- eager: on the uninstrumented modules, with every input forked over at creation (by z3). Used when the
  symbolic mode meets something it cannot execute faithfully.
"""
import sys
import z3

from . import engine, nodes
from .engine import SInt, SBool, SStr, Violation, Infeasible


class TreeCtx:
    __slots__ = ("assignment", "lazy", "locate")
    def __init__(self, assignment, lazy, locate):
        self.assignment, self.lazy, self.locate = assignment, lazy, locate


class S:
    def __init__(self, m, mode, assignment=None):
        self.m, self.mode, self.assignment = m, mode, assignment
        self.labels = set()
        self.notes = []
        self.checks = 0
        self.symbolic = mode == "symbolic"

    # -- inputs ---------------------------------------------------------------
    def bool(self, name):
        if self.mode == "concrete":
            return bool(self.assignment.get(name, False))
        b = SBool(engine.CUR.bool_var(name))
        return bool(b) if self.mode == "eager" else b

    def int(self, name, lo, hi):
        if self.mode == "concrete":
            return self.assignment.get(name, lo)
        z = engine.CUR.int_var(name, lo, hi)
        if self.mode == "eager":
            if hi - lo > 6:
                pts = sorted({lo, lo + 1, (lo + hi) // 2, hi - 1, hi, *(p for p in (-1, 0, 1) if lo <= p <= hi)})
                engine.CUR.add(z3.Or(*[z == p for p in pts]))
            return engine.CUR.concretize_int(z)
        return SInt(z)

    def pick(self, name, seq):
        """One of `seq` (forks at once)."""
        if len(seq) == 1:
            return seq[0]
        if self.mode == "concrete":
            return seq[self.assignment.get(name, 0)]
        return seq[engine.CUR.choose(engine.CUR.int_var(name, 0, len(seq) - 1), "p")]

    def str(self, name, lengths, alphabet):
        """A string of one of `lengths`, over `alphabet`."""
        lengths = list(lengths)
        n = self.pick(name + ".len", lengths)
        if self.mode == "concrete":
            return "".join(chr(self.assignment.get(f"{name}.{i}", ord(alphabet[0]))) for i in range(n))
        cs = []
        for i in range(n):
            z = engine.CUR.int_var(f"{name}.{i}")
            engine.CUR.add(z3.Or(*[z == ord(c) for c in alphabet]))
            cs.append(z)
        s = SStr(cs)
        return s.concrete() if self.mode == "eager" else s

    def tree(self, name, sort, grammar, level=0, locate=None):
        ctx = TreeCtx(self.assignment if self.mode == "concrete" else None, self.symbolic, locate)
        d = nodes.Desc(ctx, name, sort, grammar, level)
        n = nodes.make(d)
        if not self.symbolic:
            nodes.force(n)
        return n
    def expr(self, name, grammar, level=0, locate=None):
        return self.tree(name, "expr", grammar, level, locate)
    def stmt(self, name, grammar, level=0, locate=None):
        return self.tree(name, "stmt", grammar, level, locate)

    # -- statements -------------------------------------------------------------
    def assume(self, c):
        if self.mode == "concrete":
            if not c:
                raise Infeasible
        else:
            engine.CUR.assume(c)

    def check(self, c, msg="check failed"):
        self.checks += 1
        if self.mode == "concrete":
            if not c:
                raise Violation(msg() if callable(msg) else msg)
        else:
            engine.CUR.check(c, "check failed" if callable(msg) else msg)

    def same(self, a, b, msg="trees differ", attrs=False):
        self.checks += 1
        d = nodes.diff(a, b, attrs)
        if d is not None:
            raise Violation(f"{msg}: {d}")

    def is_same(self, a, b, attrs=False):
        return nodes.diff(a, b, attrs) is None

    def raises(self, exc, fn, msg):
        """`fn` must raise `exc`; return the exception."""
        self.checks += 1
        try:
            r = fn()
        except exc as e:
            return e
        except Exception as e:
            raise Violation(f"{msg}: expected {exc}, got {type(e).__name__}: {e}") from e
        raise Violation(f"{msg}: expected {exc}, got no exception (returned {nodes._short(r)})")

    def fail(self, msg):
        raise Violation(msg)

    def reach(self, label):
        self.labels.add(label)

    def note(self, x):
        """Describe the input (a value, or a function giving it), for samples and counterexamples."""
        if self.mode == "concrete":
            try:
                self.notes.append(str(x() if callable(x) else x)[:600])
            except Exception as e:
                self.notes.append(f"<{type(e).__name__}>")


class H:
    """A harness: `fn(S, **params)`, with parameters per tier, and the labels it must reach."""
    def __init__(self, name, fn, doc, quick=None, thorough=None, reach=(), tiers=("quick", "thorough"), weight=1.0, eager=True):
        self.eager = eager      # whether forking on all inputs is feasible (else the harness is dropped where symbolic execution fails)
        self.name, self.fn, self.doc, self.reach, self.tiers = name, fn, doc, set(reach), tiers
        self.params = {"quick": quick or {}, "thorough": thorough if thorough is not None else (quick or {})}
        self.weight = weight
