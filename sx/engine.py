"""Symbolic executor: deterministic re-execution, one z3 query per decision, depth-first.

A *run* executes a harness once under a list of decisions (the prefix); past the prefix, each
decision point asks z3 which outcomes are feasible under the path condition, takes the first one, and
queues the others. `Engine.explore` repeats until the queue is empty: then every feasible path within
the harness's bounds has been executed.
"""
import operator
import time
from fractions import Fraction
import z3

CUR = None  # the engine of the current run, or None when not running symbolically


class EngineStop(BaseException):
    """Steering exception: abandon the current run."""

class Infeasible(EngineStop):
    pass

class Nondeterminism(EngineStop):
    pass

class Inconclusive(EngineStop):
    """z3 answered unknown."""

class Violation(Exception):
    pass


class Sym:
    """Base of all symbolic values."""
    __slots__ = ()


class SBool(Sym):
    __slots__ = ("z",)
    def __init__(self, z):
        self.z = z
    def __bool__(self):
        return CUR.branch(self.z)
    def __invert__(self):
        return SBool(z3.Not(self.z))
    def __and__(self, o):
        return SBool(z3.And(self.z, zb(o)))
    __rand__ = __and__
    def __or__(self, o):
        return SBool(z3.Or(self.z, zb(o)))
    __ror__ = __or__
    def __eq__(self, o):
        return SBool(self.z == zb(o))
    def __ne__(self, o):
        return SBool(self.z != zb(o))
    def __hash__(self):
        return hash(bool(self))
    def __deepcopy__(self, memo):
        return self
    def __copy__(self):
        return self
    @property
    def __class__(self):
        return bool


def zb(x):
    if isinstance(x, SBool) or type(x) is SBool:
        return x.z
    return z3.BoolVal(bool(x))

def zi(x):
    if type(x) is SInt:
        return x.z
    if type(x) is SBool:
        return z3.If(x.z, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, float):
        return z3.RealVal(repr(x))
    return z3.IntVal(int(x))

def _isnum(x):
    return type(x) in (SInt, SBool) or (isinstance(x, (int, float)) and type(x) is not SFloat)


class SInt(Sym):
    """Mathematical integer (or real, when multiplied by a float)."""
    __slots__ = ("z",)
    def __init__(self, z):
        self.z = z
    def _cmp(self, o, f):
        if not _isnum(o):
            return NotImplemented
        return SBool(f(self.z, zi(o)))
    def __eq__(self, o):
        if not _isnum(o):
            return NotImplemented if type(o) is SFloat else False
        if type(o) is SInt and (self.z is o.z or self.z.eq(o.z)):
            return True
        return SBool(self.z == zi(o))
    def __ne__(self, o):
        if not _isnum(o):
            return NotImplemented if type(o) is SFloat else True
        return SBool(self.z != zi(o))
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def _bin(self, o, f):
        if not _isnum(o):
            return NotImplemented
        return SInt(f(self.z, zi(o)))
    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o):
        if isinstance(o, (str, list, tuple, bytes)):
            return o * self.__index__()
        if isinstance(o, float):
            return SFloat(self.z, Fraction(repr(o)))
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __neg__(self): return SInt(-self.z)
    def __pos__(self): return self
    def __abs__(self): return SInt(z3.If(self.z >= 0, self.z, -self.z))
    def __floordiv__(self, o): return SInt(self.z / zi(o)) if isinstance(o, int) and o > 0 else int(self) // o
    def __mod__(self, o): return SInt(self.z % zi(o)) if isinstance(o, int) and o > 0 else int(self) % o
    def __bool__(self): return CUR.branch(self.z != 0)
    def __index__(self): return CUR.concretize_int(self.z)
    __int__ = __index__
    def __float__(self): return float(self.__index__())
    def __hash__(self): return hash(self.__index__())
    def __repr__(self): return repr(self.__index__()) if CUR is not None else f"<SInt {self.z}>"
    def __str__(self): return str(self.__index__())
    def __format__(self, spec): return format(self.__index__(), spec)
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def __truediv__(self, o):
        if isinstance(o, (int, float)) and o and type(o) is not SInt:
            return SFloat(self.z, 1 / Fraction(repr(o)))
        return int(self) / o
    def __reduce__(self):
        # stays symbolic when it is loaded again in the same run
        PICKLED.append(self)
        return (_unpickle, (len(PICKLED) - 1, self.z.sexpr()))
    @property
    def __class__(self):
        return int


class SFloat(Sym):
    """A symbolic integer times a positive constant (rounding is not modelled)."""
    __slots__ = ("z", "k")
    def __init__(self, z, k):
        self.z, self.k = z, k
    def _cmp(self, o, op, f):
        if type(o) is SFloat and o.k == self.k:
            return SBool(f(self.z, o.z))
        if type(o) in (SFloat, SInt):
            k = o.k if type(o) is SFloat else Fraction(1)
            r = self.k / k
            return SBool(f(self.z * r.numerator, o.z * r.denominator))
        if isinstance(o, (int, float)):
            if o in (float("inf"), float("-inf")):
                return op(0, o)
            o = Fraction(o)
            return SBool(f(self.z * (self.k.numerator * o.denominator), z3.IntVal(o.numerator * self.k.denominator)))
        return NotImplemented
    def __eq__(self, o):
        r = self._cmp(o, operator.eq, lambda a, b: a == b)
        return False if r is NotImplemented else r
    def __ne__(self, o):
        r = self._cmp(o, operator.ne, lambda a, b: a != b)
        return True if r is NotImplemented else r
    def __lt__(self, o): return self._cmp(o, operator.lt, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, operator.le, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, operator.gt, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, operator.ge, lambda a, b: a >= b)
    def __mul__(self, o):
        return SFloat(self.z, self.k * Fraction(repr(o))) if isinstance(o, (int, float)) and o > 0 else float(self) * o
    __rmul__ = __mul__
    def __truediv__(self, o):
        return SFloat(self.z, self.k / Fraction(repr(o))) if isinstance(o, (int, float)) and o > 0 else float(self) / o
    def floor(self): return SInt(self.z * self.k.numerator / self.k.denominator)    # (z3 rounds down)
    def __float__(self): return float(CUR.concretize_int(self.z) * self.k)
    def __int__(self): return int(CUR.concretize_int(self.z) * self.k)
    def __bool__(self): return CUR.branch(self.z != 0)
    def __hash__(self): return hash(float(self))
    def __repr__(self): return repr(float(self)) if CUR is not None else f"<SFloat {self.z}>"
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def __reduce__(self):
        PICKLED.append(self)
        return (_unpickle, (len(PICKLED) - 1, self.z.sexpr()))
    @property
    def __class__(self):
        return float


PICKLED = []

def _unpickle(i, text):
    x = PICKLED[i]
    assert x.z.sexpr() == text
    return x


class SStr(Sym):
    """String of concrete length whose characters are symbolic, over a finite alphabet.

    Operations that are not lifted concretize the whole string by forking over its feasible values.
    """
    __slots__ = ("cs",)
    def __init__(self, cs):
        self.cs = tuple(cs)   # each: a str of length 1, or a z3 Int (code point)
    @staticmethod
    def of(x):
        return x if type(x) is SStr else SStr(tuple(x))
    def __len__(self): return len(self.cs)
    def __bool__(self): return bool(self.cs)
    def __iter__(self): return iter([SStr((c,)) for c in self.cs])
    def __getitem__(self, k):
        if isinstance(k, slice):
            return SStr(self.cs[k])
        return SStr((self.cs[k],))
    def _eqz(self, o):
        o = SStr.of(o)
        if len(o.cs) != len(self.cs):
            return False
        conj = []
        for a, b in zip(self.cs, o.cs):
            if isinstance(a, str) and isinstance(b, str):
                if a != b:
                    return False
                continue
            conj.append(_zc(a) == _zc(b))
        if not conj:
            return True
        return SBool(z3.And(*conj))
    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        return self._eqz(o)
    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if type(r) is SBool else not r
    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return SStr(self.cs + SStr.of(o).cs)
    def __radd__(self, o):
        return SStr(SStr.of(o).cs + self.cs)
    def startswith(self, p, *a):
        if a or isinstance(p, tuple):
            return self.concrete().startswith(p, *a)
        p = SStr.of(p)
        return len(p) <= len(self) and bool(self[:len(p)]._eqz(p))
    def endswith(self, p, *a):
        if a or isinstance(p, tuple):
            return self.concrete().endswith(p, *a)
        p = SStr.of(p)
        return len(p) <= len(self) and (len(p) == 0 or bool(self[-len(p):]._eqz(p)))
    def find(self, p, start=0):
        p = SStr.of(p)
        for i in range(start, len(self) - len(p) + 1):
            if self[i:i + len(p)]._eqz(p):
                return i
        return -1
    def rfind(self, p):
        p = SStr.of(p)
        for i in range(len(self) - len(p), -1, -1):
            if self[i:i + len(p)]._eqz(p):
                return i
        return -1
    def __contains__(self, p): return self.find(p) != -1
    def count(self, p):
        p = SStr.of(p); n = i = 0
        while True:
            i = self.find(p, i)
            if i == -1 or not len(p):
                return n
            n += 1; i += len(p)
    def replace(self, a, b, *cnt):
        if cnt or not len(a):
            return self.concrete().replace(a, b, *cnt)
        a, b = SStr.of(a), SStr.of(b)
        out = []; i = 0
        while i < len(self):
            if i + len(a) <= len(self) and self[i:i + len(a)]._eqz(a):
                out.extend(b.cs); i += len(a)
            else:
                out.append(self.cs[i]); i += 1
        return SStr(out)
    def concrete(self):
        return "".join(c if isinstance(c, str) else chr(CUR.concretize_int(c)) for c in self.cs)
    def __hash__(self): return hash(self.concrete())
    def __str__(self): return self.concrete()
    def __repr__(self): return repr(self.concrete())
    def __format__(self, spec): return format(self.concrete(), spec)
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def __reduce__(self): return (str, (self.concrete(),))
    def __lt__(self, o): return self.concrete() < str(o)
    def __gt__(self, o): return self.concrete() > str(o)
    def __le__(self, o): return self.concrete() <= str(o)
    def __ge__(self, o): return self.concrete() >= str(o)
    def __mod__(self, o): return self.concrete() % o
    def __mul__(self, n): return SStr(self.cs * n)
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.concrete(), name)
    @property
    def __class__(self):
        return str


def _zc(c):
    return z3.IntVal(ord(c)) if isinstance(c, str) else c


class Engine:
    def __init__(self, timeout_ms=20000):
        self.solver = z3.SimpleSolver()
        self.solver.set("timeout", timeout_ms)
        self.queries = 0
        self.solver_s = 0.0
        self.decisions = 0
        self.runs = 0
        self._intern = {}

    # -- one run ------------------------------------------------------------
    def run(self, fn, prefix, want_assignment=False):
        """Execute `fn` under `prefix`. Return (outcome, value, assignment); see also `pending`."""
        global CUR
        self.prefix = prefix
        self.trail = []
        self.pending = []
        self.vars = {}
        self.pc = []        # path condition; reaches the solver when a query needs it
        self.nasserted = 0
        self._model = None
        self.solver.push()
        self.runs += 1
        prev, CUR = CUR, self
        asg = {}
        try:
            try:
                val = fn()
                outcome = "ok"
            except Infeasible:
                outcome, val = "infeasible", None
            except Nondeterminism as e:
                outcome, val = "nondet", e
            except Inconclusive as e:
                outcome, val = "unknown", e
            except Exception as e:
                outcome, val = "exc", e
            if outcome == "exc" or (outcome == "ok" and want_assignment):
                try:
                    asg = self.assignment()
                except EngineStop:
                    outcome, val = "infeasible", None
        finally:
            CUR = prev
            self.solver.pop()
        return outcome, val, asg

    def assignment(self):
        m = self.model()
        out = {}
        for name, (z, sort) in self.vars.items():
            v = m.eval(z, model_completion=True)
            if sort == "bool":
                out[name] = z3.is_true(v)
            else:
                out[name] = v.as_long()
        return out

    # -- solver ---------------------------------------------------------------
    def add(self, z):
        """Add to the path condition."""
        self.pc.append(z)
        self._model = None

    def _check(self, *assumptions):
        n = len(self.pc)
        if self.nasserted < n:
            self.solver.add(*self.pc[self.nasserted:])
            self.nasserted = n
        t = time.perf_counter()
        r = self.solver.check(*assumptions)
        self.solver_s += time.perf_counter() - t
        self.queries += 1
        if r == z3.unknown:
            raise Inconclusive(self.solver.reason_unknown())
        return r == z3.sat

    def model(self):
        if self._model is None:
            if not self._check():
                raise Infeasible
            self._model = self.solver.model()
        return self._model

    # -- variables ------------------------------------------------------------
    def int_var(self, name, lo=None, hi=None):
        if name in self.vars:
            raise RuntimeError(f"duplicate variable {name}")
        k = (name, lo, hi)
        got = self._intern.get(k)
        if got is None:
            z = z3.Int(name)
            got = self._intern[k] = (z, ([z >= lo] if lo is not None else []) + ([z <= hi] if hi is not None else []))
        z, cs = got
        self.vars[name] = (z, "int")
        if cs:
            self.pc.extend(cs)
            if not lo <= 0 <= hi:
                self._model = None     # (a model without the variable completes it with 0)
        return z

    def bool_var(self, name):
        if name in self.vars:
            raise RuntimeError(f"duplicate variable {name}")
        z = self._intern.get(name)
        if z is None:
            z = self._intern[name] = z3.Bool(name)
        self.vars[name] = (z, "bool")
        return z

    # -- decisions ------------------------------------------------------------
    def branch(self, z):
        i = len(self.trail)
        if i >= len(self.prefix) or self.prefix[i][0] != "b":
            z = z3.simplify(z)
            if z3.is_true(z):
                return True
            if z3.is_false(z):
                return False
            if i < len(self.prefix):
                raise Nondeterminism(f"expected {self.prefix[i][0]}, got branch")
        else:
            z = z3.simplify(z)
            if z3.is_true(z):
                return True
            if z3.is_false(z):
                return False
            v = self.prefix[i][1]
            self.trail.append(("b", v))
            self.add(z if v else z3.Not(z))
            return v
        self.decisions += 1
        m = self.model()
        v = z3.is_true(m.eval(z, model_completion=True))
        nz = z3.Not(z)
        if self._check(nz if v else z):
            self.pending.append(self.trail + [("b", not v)])
        self.trail.append(("b", v))
        self.pc.append(z if v else nz)    # (the model satisfies it)
        return v

    def choose(self, z, tag="c"):
        """Fork over all feasible values of the integer term `z`."""
        i = len(self.trail)
        if i < len(self.prefix):
            t, v = self.prefix[i]
            if t != tag:
                if z3.is_int_value(z3.simplify(z)):
                    return z3.simplify(z).as_long()
                raise Nondeterminism(f"expected {t}, got {tag}")
            if tag == "i" and z3.is_int_value(z3.simplify(z)):
                return z3.simplify(z).as_long()
            self.trail.append((t, v))
            self.add(z == v)
            return v
        if not z3.is_const(z):
            z = z3.simplify(z)
        if z3.is_int_value(z):
            return z.as_long()
        self.decisions += 1
        vals = []
        self._check()
        self.solver.push()
        try:
            while self._check():
                m = self.solver.model()
                v = m.eval(z, model_completion=True).as_long()
                vals.append(v)
                self.solver.add(z != v)
                if len(vals) > 400:
                    raise Inconclusive("too many values to concretize")
        finally:
            self.solver.pop()
        if not vals:
            raise Infeasible
        vals.sort()
        for v in vals[:0:-1]:
            self.pending.append(self.trail + [(tag, v)])
        v = vals[0]
        self.trail.append((tag, v))
        self.add(z == v)
        return v

    def concretize_int(self, z):
        if z3.is_real(z):
            z = z3.ToInt(z)
        return self.choose(z, "i")

    def assume(self, c):
        if type(c) is SBool:
            self.add(c.z)
            if len(self.trail) >= len(self.prefix):
                self.model()
        elif not c:
            raise Infeasible

    def check(self, c, msg):
        if type(c) is SBool:
            z = z3.simplify(c.z)
            if z3.is_true(z):
                return
            if len(self.trail) < len(self.prefix):
                self.pc.append(z)      # the run that queued this prefix has checked it
                return
            if self._check(z3.Not(z)):
                self.add(z3.Not(z))
                raise Violation(msg)
            self.pc.append(z)
        elif not c:
            raise Violation(msg)
