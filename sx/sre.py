"""Regular expressions over symbolic strings: a backtracking matcher (same search order as `re`) over
the parsed pattern, whose character tests fork. Strings that are not symbolic go to the real `re`."""
import re as _re
import types

import z3
from re import _parser, _constants as K

from . import engine
from .engine import SStr, SBool

_WORD = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"
_CATS = {K.CATEGORY_DIGIT: "0123456789", K.CATEGORY_SPACE: " \t\n\r\f\v", K.CATEGORY_WORD: _WORD}
_NCATS = {K.CATEGORY_NOT_DIGIT: K.CATEGORY_DIGIT, K.CATEGORY_NOT_SPACE: K.CATEGORY_SPACE, K.CATEGORY_NOT_WORD: K.CATEGORY_WORD}


class Unsupported(Exception):
    pass


def _ranges_of(chars):
    cs = sorted(map(ord, chars))
    out = []
    for c in cs:
        if out and out[-1][1] == c - 1:
            out[-1][1] = c
        else:
            out.append([c, c])
    return [tuple(r) for r in out]


def _in_ranges(c, ranges, neg=False):
    if isinstance(c, str):
        return any(a <= ord(c) <= b for a, b in ranges) != neg
    z = z3.Or(*[z3.And(c >= a, c <= b) for a, b in ranges]) if ranges else z3.BoolVal(False)
    return engine.CUR.branch(z3.Not(z) if neg else z)


def _class(items):
    neg, ranges = False, []
    for op, av in items:
        if op is K.NEGATE:
            neg = True
        elif op is K.LITERAL:
            ranges.append((av, av))
        elif op is K.RANGE:
            ranges.append(tuple(av))
        elif op is K.CATEGORY:
            ranges += _cat(av)
        else:
            raise Unsupported(op)
    return ranges, neg

def _cat(av):
    if av in _CATS:
        return _ranges_of(_CATS[av])
    inside = _ranges_of(_CATS[_NCATS[av]])
    out, lo = [], 0
    for a, b in inside:
        if lo < a:
            out.append((lo, a - 1))
        lo = b + 1
    out.append((lo, 0x10ffff))
    return out


class _Matcher:
    def __init__(self, s, flags):
        self.s, self.flags = s.cs, flags
        if flags & _re.IGNORECASE:
            raise Unsupported("IGNORECASE")

    def seq(self, ops, k, i, g, cont):
        if k == len(ops):
            return cont(i, g)
        op, av = ops[k]
        s, n = self.s, len(self.s)
        nxt = lambda i, g: self.seq(ops, k + 1, i, g, cont)
        if op is K.LITERAL:
            return nxt(i + 1, g) if i < n and _in_ranges(s[i], [(av, av)]) else None
        if op is K.NOT_LITERAL:
            return nxt(i + 1, g) if i < n and _in_ranges(s[i], [(av, av)], True) else None
        if op is K.ANY:
            if i >= n:
                return None
            if not self.flags & _re.DOTALL and not _in_ranges(s[i], [(10, 10)], True):
                return None
            return nxt(i + 1, g)
        if op is K.IN:
            return nxt(i + 1, g) if i < n and _in_ranges(s[i], *_class(av)) else None
        if op is K.SUBPATTERN:
            gid, add, rem, p = av
            def close(j, g2, i=i):
                if gid is not None:
                    g2 = {**g2, gid: (i, j)}
                return nxt(j, g2)
            return self.seq(list(p), 0, i, g, close)
        if op is K.BRANCH:
            for p in av[1]:
                r = self.seq(list(p), 0, i, g, nxt)
                if r is not None:
                    return r
            return None
        if op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, p = av
            p = list(p)
            def rep(cnt, i, g):
                def more():
                    if cnt < hi:
                        return self.seq(p, 0, i, g, lambda j, g2: rep(cnt + 1, j, g2) if j > i or cnt + 1 <= lo else None)
                    return None
                if cnt < lo:
                    return more()
                if op is K.MAX_REPEAT:
                    r = more()
                    return r if r is not None else nxt(i, g)
                r = nxt(i, g)
                return r if r is not None else more()
            return rep(0, i, g)
        if op is K.AT:
            ml = self.flags & _re.MULTILINE
            if av is K.AT_BEGINNING_STRING or (av is K.AT_BEGINNING and not ml):
                ok = i == 0
            elif av is K.AT_BEGINNING:
                ok = i == 0 or _in_ranges(s[i - 1], [(10, 10)])
            elif av is K.AT_END_STRING:
                ok = i == n
            elif av is K.AT_END:
                ok = i == n or (i == n - 1 or ml) and _in_ranges(s[i], [(10, 10)])
            elif av in (K.AT_BOUNDARY, K.AT_NON_BOUNDARY):
                w = _ranges_of(_WORD)
                a = i > 0 and _in_ranges(s[i - 1], w)
                b = i < n and _in_ranges(s[i], w)
                ok = (a != b) == (av is K.AT_BOUNDARY)
            else:
                raise Unsupported(av)
            return nxt(i, g) if ok else None
        if op in (K.ASSERT, K.ASSERT_NOT):
            direction, p = av
            if direction < 0:
                lo, hi = p.getwidth()
                r = None
                for w in range(lo, min(hi, i) + 1):
                    r = self.seq(list(p), 0, i - w, g, lambda j, g2: g2 if j == i else None)
                    if r is not None:
                        break
            else:
                r = self.seq(list(p), 0, i, g, lambda j, g2: g2)
            if op is K.ASSERT:
                return nxt(i, r) if r is not None else None
            return nxt(i, g) if r is None else None
        if op is K.GROUPREF:
            if av not in g:
                return None
            a, b = g[av]
            if i + b - a > n or not SStr(s[i:i + b - a]) == SStr(s[a:b]):
                return None
            return nxt(i + b - a, g)
        raise Unsupported(op)


class SxMatch:
    def __init__(self, pat, s, a, b, g):
        self.re, self.string, self._a, self._b, self._g = pat, s, a, b, g
    def _id(self, k):
        return self.re.groupindex.get(k, k) if isinstance(k, str) else k
    def span(self, k=0):
        k = self._id(k)
        return (self._a, self._b) if k == 0 else self._g.get(k, (-1, -1))
    def start(self, k=0): return self.span(k)[0]
    def end(self, k=0): return self.span(k)[1]
    def group(self, *ks):
        out = []
        for k in ks or (0,):
            a, b = self.span(k)
            out.append(self.string[a:b] if a >= 0 else None)
        return out[0] if len(out) == 1 else tuple(out)
    __getitem__ = group
    def groups(self, default=None):
        return tuple(self.group(k) if k in self._g else default for k in range(1, self.re.groups + 1))
    def groupdict(self, default=None):
        return {n: self.group(k) if k in self._g else default for n, k in self.re.groupindex.items()}
    def expand(self, t):
        return _template(self, t)


def _template(m, t):
    if "\\" not in t:
        return t
    out = ""
    parts = _re.split(r"\\(\d+|g<[^>]+>)", t)
    for i, p in enumerate(parts):
        if i % 2:
            k = p[2:-1] if p.startswith("g<") else p
            k = int(k) if k.isdigit() else k
            out = out + (m.group(k) or "")
        else:
            out = out + p.replace("\\n", "\n")
    return out


class SxPattern:
    def __init__(self, pat):
        self._p = pat
        self.pattern, self.flags, self.groups, self.groupindex = pat.pattern, pat.flags, pat.groups, dict(pat.groupindex)
        self._ops = None
    def _run(self, s, start, end=False):
        if self._ops is None:
            self._ops = list(_parser.parse(self.pattern, self.flags))
        m = _Matcher(s, self.flags)
        r = m.seq(self._ops, 0, start, {}, lambda j, g: (j, g) if not end or j == len(s) else None)
        return None if r is None else SxMatch(self, s, start, r[0], r[1])
    def match(self, s, *a):
        if type(s) is not SStr or a:
            return self._p.match(s, *a)
        return self._run(s, 0)
    def fullmatch(self, s, *a):
        if type(s) is not SStr or a:
            return self._p.fullmatch(s, *a)
        return self._run(s, 0, True)
    def search(self, s, *a):
        if type(s) is not SStr or a and a != (0,):
            return self._p.search(s, *a)
        return next(self._iter(s), None)
    def _iter(self, s):
        i, last = 0, -1
        while i <= len(s):
            m = self._run(s, i)
            if m is None or (m._a == m._b and m._b == last):
                i += 1
                continue
            yield m
            last = m._b
            i = m._b if m._b > m._a else m._b + 1
            if m._b == m._a:
                last = m._b
    def finditer(self, s, *a):
        if type(s) is not SStr or a:
            return self._p.finditer(s, *a)
        return self._iter(s)
    def findall(self, s, *a):
        if type(s) is not SStr or a:
            return self._p.findall(s, *a)
        return [m.group() if not self.groups else m.groups()[0] if self.groups == 1 else m.groups() for m in self._iter(s)]
    def subn(self, repl, s, count=0):
        if type(s) is not SStr:
            return self._p.subn(repl, s, count)
        out, pos, n = SStr(()), 0, 0
        for m in self._iter(s):
            out = out + s[pos:m._a] + (repl(m) if callable(repl) else _template(m, repl))
            pos = m._b
            n += 1
            if n == count:
                break
        return out + s[pos:], n
    def sub(self, repl, s, count=0):
        if type(s) is not SStr:
            return self._p.sub(repl, s, count)
        return self.subn(repl, s, count)[0]
    def split(self, s, maxsplit=0):
        if type(s) is not SStr:
            return self._p.split(s, maxsplit)
        out, pos, n = [], 0, 0
        for m in self._iter(s):
            out.append(s[pos:m._a])
            out.extend(m.groups())
            pos = m._b
            n += 1
            if n == maxsplit:
                break
        return out + [s[pos:]]


def _compile(p, flags=0):
    return p if isinstance(p, SxPattern) else SxPattern(_re.compile(p, flags))


SxRe = types.ModuleType("re")
SxRe.__dict__.update({k: v for k, v in _re.__dict__.items() if not k.startswith("__")})
SxRe.compile = _compile
SxRe.match = lambda p, s, flags=0: _compile(p, flags).match(s)
SxRe.fullmatch = lambda p, s, flags=0: _compile(p, flags).fullmatch(s)
SxRe.search = lambda p, s, flags=0: _compile(p, flags).search(s)
SxRe.sub = lambda p, r, s, count=0, flags=0: _compile(p, flags).sub(r, s, count)
SxRe.subn = lambda p, r, s, count=0, flags=0: _compile(p, flags).subn(r, s, count)
SxRe.split = lambda p, s, maxsplit=0, flags=0: _compile(p, flags).split(s, maxsplit)
SxRe.findall = lambda p, s, flags=0: _compile(p, flags).findall(s)
SxRe.finditer = lambda p, s, flags=0: _compile(p, flags).finditer(s)


def patch_module(d):
    for k, v in list(d.items()):
        if v is _re:
            d[k] = SxRe
        elif isinstance(v, _re.Pattern):
            d[k] = SxPattern(v)


def sx_fstr(*parts):
    if any(type(p) is SStr for p in parts):
        out = SStr(())
        for p in parts:
            out = out + (p if type(p) is SStr else format(p, ""))
        return out
    return "".join([p if type(p) is str else format(p, "") for p in parts])


def sx_in(x, container):
    """`x in container`, also for a symbolic string in a real one."""
    if type(x) is SStr and type(container) is str:
        n = len(x)
        alts = []
        for i in range(len(container) - n + 1):
            r = x._eqz(container[i:i + n])
            if r is True:
                return True
            if r is not False:
                alts.append(r.z)
        return engine.CUR.branch(z3.Or(*alts)) if alts else False
    return x in container


_HEX = _ranges_of("0123456789abcdefABCDEF")

def sx_int(*args, **kw):
    """`int(...)`, also for a symbolic string in base 16 (whose characters stay symbolic)."""
    if len(args) == 1 and type(args[0]) is engine.SInt:
        return args[0]
    if len(args) == 1 and type(args[0]) is engine.SFloat:
        return args[0].floor() if args[0] >= 0 else int(args[0])
    if not args or type(args[0]) is not SStr:
        return int(*args, **kw)
    base = args[1] if len(args) > 1 else kw.get("base", 10)
    s = args[0]
    if base != 16:
        return int(s.concrete(), base)
    if not len(s):
        return int("", 16)
    zs = [z3.Or(*[z3.And(c >= a, c <= b) for a, b in _HEX]) for c in s.cs if not isinstance(c, str)]
    fixed = all(_in_ranges(c, _HEX) for c in s.cs if isinstance(c, str))
    if fixed and (not zs or engine.CUR.branch(z3.And(*zs))):
        val = z3.IntVal(0)
        for c in s.cs:
            z = engine._zc(c)
            val = val * 16 + z3.If(z <= 57, z - 48, z3.If(z <= 70, z - 55, z - 87))
        return engine.SInt(val)
    # the other forms int() takes: surrounding space, sign, prefix, underscores
    SPACE, cs = _ranges_of(" \t\n\r\f\v"), list(s.cs)
    bad = ValueError("invalid literal for int() with base 16")
    while cs and _in_ranges(cs[0], SPACE):
        cs.pop(0)
    while cs and _in_ranges(cs[-1], SPACE):
        cs.pop()
    if cs and _in_ranges(cs[0], _ranges_of("+-")):
        cs.pop(0)
    if len(cs) > 1 and _in_ranges(cs[0], _ranges_of("0")) and _in_ranges(cs[1], _ranges_of("xX")):
        cs = cs[2:]
        if cs and _in_ranges(cs[0], _ranges_of("_")):
            cs.pop(0)
    if not cs:
        raise bad
    digit = False
    for c in cs:
        if _in_ranges(c, _HEX):
            digit = True
        elif digit and _in_ranges(c, _ranges_of("_")):
            digit = False
        else:
            raise bad
    if not digit:
        raise bad
    return engine.SInt(engine.CUR.int_var(f"int!{len(engine.CUR.vars)}"))      # (its value is not modeled)
