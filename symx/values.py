"""Symbolic value proxies. They stand in for bool/int/str/bytes/Enum members while the real code runs."""
import builtins
import math
import z3
from fractions import Fraction
from .engine import Engine, mk_and, mk_or, mk_not
from . import rex
from .rex import in_class, iv_pred, iv_norm, iv_union, iv_not, iv_has


def eng():
    return Engine.current


class Proxy:
    __slots__ = ()


def is_proxy(x):
    return isinstance(x, Proxy) if type(x) not in _PLAIN else False


_PLAIN = {int, str, bool, float, bytes, list, dict, tuple, set, type(None)}


def zb(x):
    """bool | SymBool -> bool | z3 Bool."""
    t = type(x)
    if t is bool:
        return x
    if t is SymBool:
        return x.e
    if isinstance(x, z3.BoolRef):
        return x
    return builtins.bool(x)


def mkbool(e):
    if e is True or e is False:
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def mkint(e):
    if isinstance(e, builtins.int):
        return e
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def zi(x):
    """int | SymInt | bool -> int | z3 Int"""
    t = type(x)
    if t is SymInt:
        return x.e
    if t is SymBool:
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if t is bool:
        return 1 if x else 0
    if t is int or isinstance(x, builtins.int):
        return builtins.int(x)
    return None


class SymBool(Proxy):
    __slots__ = ("e",)
    __class__ = property(lambda s: bool)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return eng().branch(self.e)

    def _o(self, o):
        if type(o) is SymBool:
            return o.e
        if o is True or o is False:
            return o
        return None

    def __eq__(self, o):
        x = self._o(o)
        if x is None:
            if type(o) in (int, SymInt):
                return SymInt(zi(self)) == o
            return False
        if x is True:
            return self
        if x is False:
            return mkbool(mk_not(self.e))
        return mkbool(self.e == x)

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) and type(r) is bool else mkbool(mk_not(zb(r)))

    def __and__(self, o):
        x = self._o(o)
        return NotImplemented if x is None else mkbool(mk_and([self.e, x]))

    __rand__ = __and__

    def __or__(self, o):
        x = self._o(o)
        return NotImplemented if x is None else mkbool(mk_or([self.e, x]))

    __ror__ = __or__

    def __xor__(self, o):
        return self != o

    __rxor__ = __xor__

    def __invert__(self):
        return SymInt(-1 - zi(self))

    def __add__(self, o):
        return SymInt(zi(self)) + o

    def __radd__(self, o):
        return SymInt(zi(self)) + o

    def __mul__(self, o):
        return SymInt(zi(self)) * o

    def __lt__(self, o):
        return SymInt(zi(self)) < o

    def __gt__(self, o):
        return SymInt(zi(self)) > o

    def __le__(self, o):
        return SymInt(zi(self)) <= o

    def __ge__(self, o):
        return SymInt(zi(self)) >= o

    def __index__(self):
        return 1 if self else 0

    def __int__(self):
        return 1 if self else 0

    def __hash__(self):
        return hash(builtins.bool(self))

    def __str__(self):
        return "True" if self else "False"

    __repr__ = __str__

    def __format__(self, spec):
        return format(builtins.bool(self), spec)


def _num_other(o):
    """returns ('i', expr) | ('f', float) | None"""
    x = zi(o) if not isinstance(o, builtins.float) or type(o) in (SymInt, SymBool) else None
    if x is not None:
        return "i", x
    if isinstance(o, builtins.float):
        return "f", o
    return None


class SymInt(Proxy):
    __slots__ = ("e",)
    __class__ = property(lambda s: int)

    def __init__(self, e):
        self.e = e

    def concrete(self):
        if isinstance(self.e, builtins.int):
            return self.e
        return eng().concretize([self.e], "int")[0].as_long()

    def _cmp(self, o, op):
        if type(o) is SymSel:
            return NotImplemented
        k = _num_other(o)
        if k is None:
            return NotImplemented
        kind, x = k
        if kind == "f":
            if math.isnan(x):
                return op == "ne"
            if math.isinf(x):
                pos = x > 0
                return {"lt": pos, "le": pos, "gt": not pos, "ge": not pos, "eq": False, "ne": True}[op]
            f = math.floor(x)
            if f == x:
                x = f
            else:
                return {"lt": mkbool(self.e <= f), "le": mkbool(self.e <= f), "gt": mkbool(self.e > f),
                        "ge": mkbool(self.e > f), "eq": False, "ne": True}[op]
        e = self.e
        r = {"lt": lambda: e < x, "le": lambda: e <= x, "gt": lambda: e > x, "ge": lambda: e >= x,
             "eq": lambda: e == x, "ne": lambda: e != x}[op]()
        return mkbool(r)

    def __lt__(self, o): return self._cmp(o, "lt")
    def __le__(self, o): return self._cmp(o, "le")
    def __gt__(self, o): return self._cmp(o, "gt")
    def __ge__(self, o): return self._cmp(o, "ge")

    def __eq__(self, o):
        r = self._cmp(o, "eq")
        return False if r is NotImplemented and not is_proxy(o) else r

    def __ne__(self, o):
        r = self._cmp(o, "ne")
        return True if r is NotImplemented and not is_proxy(o) else r

    def _ar(self, o, f):
        x = zi(o) if type(o) is not SymSel else None
        if x is None:
            if isinstance(o, builtins.float) or type(o) is SymSel:
                return NotImplemented
            return NotImplemented
        return mkint(f(self.e, x))

    def __add__(self, o): return self._ar(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._ar(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._ar(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, builtins.str) and type(o) is str:
            if len(o) == 1:
                n = mkint(z3.If(self.e > 0, self.e, z3.IntVal(0)))
                return SymRep("", o, n, "")
            return o * self.concrete()
        if type(o) in (list, tuple):
            return o * self.concrete()
        return self._ar(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __neg__(self): return mkint(-self.e)
    def __pos__(self): return self
    def __abs__(self): return mkint(z3.If(self.e >= 0, self.e, -self.e))

    def __floordiv__(self, o):
        x = zi(o)
        if isinstance(x, builtins.int) and x > 0:
            return mkint(self.e / z3.IntVal(x))
        return self.concrete() // o

    def __mod__(self, o):
        x = zi(o)
        if isinstance(x, builtins.int) and x > 0:
            return mkint(self.e % z3.IntVal(x))
        return self.concrete() % o

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o): return self.concrete() / o
    def __rfloordiv__(self, o): return o // self.concrete()
    def __rmod__(self, o): return o % self.concrete()
    def __pow__(self, o): return self.concrete() ** o
    def __rpow__(self, o): return o ** self.concrete()
    def __and__(self, o):
        x = zi(o)
        if isinstance(x, builtins.int) and x >= 0 and (x & (x + 1)) == 0:
            return mkint(self.e % z3.IntVal(x + 1))
        return self.concrete() & (o if isinstance(x, builtins.int) else o.concrete())
    __rand__ = __and__
    def __or__(self, o): return self.concrete() | builtins.int(o)
    __ror__ = __or__
    def __xor__(self, o): return self.concrete() ^ builtins.int(o)
    __rxor__ = __xor__
    def __rshift__(self, o):
        x = zi(o)
        if isinstance(x, builtins.int):
            return mkint(self.e / z3.IntVal(1 << x))
        return self.concrete() >> o
    def __lshift__(self, o):
        x = zi(o)
        if isinstance(x, builtins.int):
            return mkint(self.e * (1 << x))
        return self.concrete() << o
    def __invert__(self): return mkint(-1 - self.e)

    def __bool__(self):
        return eng().branch(self.e != 0)

    def __index__(self): return self.concrete()
    def __int__(self): return self.concrete()
    def __float__(self): return builtins.float(self.concrete())
    def __hash__(self): return hash(self.concrete())
    def __str__(self): return str(self.concrete())
    __repr__ = __str__
    def __format__(self, spec): return format(self.concrete(), spec)
    def bit_length(self): return self.concrete().bit_length()
    def conjugate(self): return self
    real = property(lambda s: s)


def sym_int_to_str(v):
    """str(int) with symbolic value: forks on sign and number of digits."""
    e = v.e
    neg = eng().branch(e < 0)
    a = -e if neg else e
    n = 1
    while n < 400 and eng().branch(a >= 10 ** n):
        n += 1
    ds = [(a / z3.IntVal(10 ** (n - 1 - k))) % 10 + 48 for k in range(n)]
    return SymStr(([45] if neg else []) + ds)


# --------------------------------------------------------------------------
def _chars_of(x):
    """str | SymStr -> list of int | z3 Int; None if not a string"""
    t = type(x)
    if t is str:
        return [ord(c) for c in x]
    if t is SymStr:
        return x.chars
    if t is SymRep:
        return x.materialize().chars if is_proxy(x.materialize()) else [ord(c) for c in x.materialize()]
    if t is SymSel:
        return _chars_of(x.force())
    if isinstance(x, builtins.str):
        return [ord(c) for c in builtins.str.__str__(x)]
    return None


def mkstr(chars):
    out = []
    for c in chars:
        if isinstance(c, builtins.int):
            out.append(c)
        elif z3.is_int_value(c):
            out.append(c.as_long())
        else:
            return SymStr([x.as_long() if not isinstance(x, builtins.int) and z3.is_int_value(x) else x for x in chars])
    return "".join(map(chr, out))


def ch_eq(a, b):
    if isinstance(a, builtins.int) and isinstance(b, builtins.int):
        return a == b
    return a == b


def seq_eq(a, b):
    if len(a) != len(b):
        return False
    out = []
    for x, y in zip(a, b):
        if isinstance(x, builtins.int) and isinstance(y, builtins.int):
            if x != y:
                return False
        elif not isinstance(x, builtins.int) and not isinstance(y, builtins.int) and x.eq(y):
            continue
        else:
            out.append(x == y)
    return mk_and(out)


ASCII_WS = ((9, 13), (28, 32))
DEC = None


def digit_value(c):
    """value of a Unicode decimal digit char expr (0 when it is not one)."""
    if isinstance(c, builtins.int):
        import unicodedata
        return unicodedata.decimal(chr(c), 0)
    e = z3.IntVal(0)
    for a, b in iv_pred("isdecimal"):
        # runs of decimals are unions of 10-blocks starting at a
        e = z3.If(z3.And(c >= a, c <= b), (c - a) % 10, e)
    return e


_LINE_ENDS = ((10, 13), (28, 30), (133, 133), (8232, 8233))


class SymStr(Proxy):
    __slots__ = ("_chars", "_thunk")
    __class__ = property(lambda s: str)

    def __init__(self, chars, thunk=None):
        self._chars = chars
        self._thunk = thunk

    @staticmethod
    def lazy(thunk):
        return SymStr(None, thunk)

    @property
    def chars(self):
        if self._chars is None:
            c = self._thunk()
            self._chars = c
            self._thunk = None
        return self._chars

    def concrete(self, site="str"):
        cs = self.chars
        sym = [c for c in cs if not isinstance(c, builtins.int)]
        if not sym:
            return "".join(map(chr, cs))
        vals = eng().concretize(sym, site)
        it = iter(vals)
        s = "".join(chr(c) if isinstance(c, builtins.int) else chr(next(it).as_long()) for c in cs)
        return s

    # -- basics
    def __len__(self): return len(self.chars)
    def __bool__(self): return len(self.chars) > 0
    def __hash__(self): return hash(self.concrete("hash"))
    def __str__(self): return self.concrete("str()")
    def __repr__(self): return repr(self.concrete("repr"))
    def __format__(self, spec): return format(self.concrete("format"), spec)

    def __iter__(self):
        for c in list(self.chars):
            yield mkstr([c])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkstr(self.chars[i])
        if type(i) is SymInt:
            n = len(self.chars)
            k = eng().choose([(j, mk_or([i.e == j, i.e == j - n])) for j in range(n)] +
                             [(None, z3.Or(i.e < -n, i.e >= n))])
            if k is None:
                raise IndexError("string index out of range")
            i = k
        return mkstr([self.chars[i]])

    def __add__(self, o):
        if type(o) is SymStr and (o._chars is None or self._chars is None) or type(o) is str and self._chars is None:
            return SymStr.lazy(lambda: self.chars + _chars_of(o))
        c = _chars_of(o)
        if c is None:
            return NotImplemented
        return mkstr(self.chars + c)

    def __radd__(self, o):
        if self._chars is None and type(o) is str:
            return SymStr.lazy(lambda: _chars_of(o) + self.chars)
        c = _chars_of(o)
        if c is None:
            return NotImplemented
        return mkstr(c + self.chars)

    def __mul__(self, n):
        return mkstr(self.chars * builtins.int(n))
    __rmul__ = __mul__

    def __mod__(self, o):
        return self.concrete("%") % o

    def eq_expr(self, o):
        t = type(o)
        if t is SymSel:
            return zb(o == self)
        if t is SymRep:
            return zb(o == self)
        c = _chars_of(o)
        if c is None:
            return False
        return seq_eq(self.chars, c)

    def __eq__(self, o): return mkbool(self.eq_expr(o))
    def __ne__(self, o): return mkbool(mk_not(self.eq_expr(o)))

    def _lex(self, o, strict, less):
        c = _chars_of(o)
        if c is None:
            return NotImplemented
        a, b = (self.chars, c) if less else (c, self.chars)
        # a < b (strict) or a <= b
        res = (len(a) < len(b)) if strict else (len(a) <= len(b))
        for i in range(min(len(a), len(b)) - 1, -1, -1):
            x, y = a[i], b[i]
            lt, eqq = x < y, ch_eq(x, y)
            res = mk_or([lt, mk_and([eqq, res])])
        return mkbool(res)

    def __lt__(self, o): return self._lex(o, True, True)
    def __le__(self, o): return self._lex(o, False, True)
    def __gt__(self, o): return self._lex(o, True, False)
    def __ge__(self, o): return self._lex(o, False, False)

    # -- searching
    def contains_expr(self, sub):
        s = _chars_of(sub)
        if s is None:
            raise TypeError("'in <string>' requires string as left operand")
        n, m = len(self.chars), len(s)
        return mk_or([seq_eq(self.chars[i:i + m], s) for i in range(n - m + 1)])

    def __contains__(self, sub):
        return eng().branch(self.contains_expr(sub))

    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return mkbool(mk_or([zb(self.startswith(x, start, end)) for x in p]))
        cs = self.chars[start:end]
        p = _chars_of(p)
        return mkbool(len(cs) >= len(p) and seq_eq(cs[:len(p)], p))

    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return mkbool(mk_or([zb(self.endswith(x, start, end)) for x in p]))
        cs = self.chars[start:end]
        p = _chars_of(p)
        return mkbool(len(cs) >= len(p) and seq_eq(cs[len(cs) - len(p):], p))

    def _at(self, i, p):
        return eng().branch(seq_eq(self.chars[i:i + len(p)], p))

    def find(self, sub, start=None, end=None):
        p = _chars_of(sub)
        lo, hi, _ = slice(start, end).indices(len(self.chars))
        for i in range(lo, hi - len(p) + 1):
            if self._at(i, p):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        p = _chars_of(sub)
        lo, hi, _ = slice(start, end).indices(len(self.chars))
        for i in range(hi - len(p), lo - 1, -1):
            if self._at(i, p):
                return i
        return -1

    def index(self, *a):
        r = self.find(*a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, *a):
        r = self.rfind(*a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub, start=None, end=None):
        p = _chars_of(sub)
        if len(p) == 1:
            lo, hi, _ = slice(start, end).indices(len(self.chars))
            tot = 0
            for i in range(lo, hi):
                x = ch_eq(self.chars[i], p[0])
                tot = tot + (z3.If(x, z3.IntVal(1), z3.IntVal(0)) if not isinstance(x, bool) else builtins.int(x))
            return mkint(tot)
        n = 0
        i = 0
        while True:
            i = self.find(sub, i, end)
            if i < 0:
                return n
            n += 1
            i += max(1, len(p))

    def replace(self, old, new, count=-1):
        o, nw = _chars_of(old), _chars_of(new)
        if not o:
            return self.concrete("replace").replace(old, new, count)
        out = []
        i = 0
        n = len(self.chars)
        while i < n:
            if count != 0 and i + len(o) <= n and self._at(i, o):
                out.extend(nw)
                i += len(o)
                count -= 1
            else:
                out.append(self.chars[i])
                i += 1
        return mkstr(out)

    # -- splitting
    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self._split_ws(maxsplit)
        p = _chars_of(sep)
        if not p:
            raise ValueError("empty separator")
        out = []
        cur = 0
        i = 0
        n = len(self.chars)
        while i + len(p) <= n:
            if (maxsplit < 0 or len(out) < maxsplit) and self._at(i, p):
                out.append(mkstr(self.chars[cur:i]))
                i += len(p)
                cur = i
            else:
                i += 1
        out.append(mkstr(self.chars[cur:]))
        return out

    def _split_ws(self, maxsplit):
        out = []
        cur = []
        n = len(self.chars)
        i = 0
        ws = iv_pred("isspace")
        while i < n:
            if eng().branch(in_class(self.chars[i], ws)):
                if cur:
                    out.append(mkstr(cur))
                    cur = []
                i += 1
            else:
                if not cur and maxsplit >= 0 and len(out) == maxsplit:
                    rest = mkstr(self.chars[i:])
                    out.append(rest.rstrip())
                    return out
                cur.append(self.chars[i])
                i += 1
        if cur:
            out.append(mkstr(cur))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            if maxsplit < 0:
                return self._split_ws(-1)
            return self.concrete("rsplit").rsplit(None, maxsplit)
        p = _chars_of(sep)
        out = []
        end = len(self.chars)
        i = end - len(p)
        while i >= 0:
            if (maxsplit < 0 or len(out) < maxsplit) and self._at(i, p):
                out.append(mkstr(self.chars[i + len(p):end]))
                end = i
                i -= len(p)
            else:
                i -= 1
        out.append(mkstr(self.chars[:end]))
        return out[::-1]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, "", ""
        m = len(_chars_of(sep))
        return mkstr(self.chars[:i]), sep, mkstr(self.chars[i + m:])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return "", "", self
        m = len(_chars_of(sep))
        return mkstr(self.chars[:i]), sep, mkstr(self.chars[i + m:])

    def splitlines(self, keepends=False):
        out, start, i, n = [], 0, 0, len(self.chars)
        ends = _LINE_ENDS
        while i < n:
            c = self.chars[i]
            if not eng().branch(in_class(c, ends)):
                i += 1
                continue
            j = i + 1
            if j < n and eng().branch(mk_and([ch_eq(c, 13), ch_eq(self.chars[j], 10)])):
                j += 1
            out.append(mkstr(self.chars[start:j if keepends else i]))
            start = i = j
        if start < n:
            out.append(mkstr(self.chars[start:]))
        return out

    def _stripset(self, chars):
        if chars is None:
            ws = iv_pred("isspace")
            return lambda c: in_class(c, ws)
        cs = _chars_of(chars)
        return lambda c: mk_or([ch_eq(c, x) for x in cs])

    def lstrip(self, chars=None):
        f = self._stripset(chars)
        i = 0
        while i < len(self.chars) and eng().branch(f(self.chars[i])):
            i += 1
        return mkstr(self.chars[i:])

    def rstrip(self, chars=None):
        f = self._stripset(chars)
        i = len(self.chars)
        while i > 0 and eng().branch(f(self.chars[i - 1])):
            i -= 1
        return mkstr(self.chars[:i])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def removeprefix(self, p):
        if self.startswith(p):
            return mkstr(self.chars[len(_chars_of(p)):])
        return self

    def removesuffix(self, p):
        m = len(_chars_of(p))
        if m and self.endswith(p):
            return mkstr(self.chars[:len(self.chars) - m])
        return self

    def join(self, it):
        out = []
        sep = self.chars
        for k, x in enumerate(it):
            if k:
                out.extend(sep)
            c = _chars_of(x)
            if c is None:
                raise TypeError(f"sequence item {k}: expected str instance, {type(x).__name__} found")
            out.extend(c)
        return mkstr(out)

    # -- predicates
    def _all(self, name):
        if not self.chars:
            return False
        iv = iv_pred(name)
        return mkbool(mk_and([in_class(c, iv) for c in self.chars]))

    def isdigit(self): return self._all("isdigit")
    def isdecimal(self): return self._all("isdecimal")
    def isnumeric(self): return self._all("isnumeric")
    def isalpha(self): return self._all("isalpha")
    def isalnum(self): return self._all("isalnum")
    def isspace(self): return self._all("isspace")
    def isprintable(self):
        iv = iv_pred("isprintable")
        return mkbool(mk_and([in_class(c, iv) for c in self.chars]))
    def isascii(self): return mkbool(mk_and([in_class(c, ((0, 127),)) for c in self.chars]))

    # -- case
    def _case(self, lo, hi, delta, name):
        out = []
        for c in self.chars:
            if isinstance(c, builtins.int):
                out.extend(ord(x) for x in getattr(chr(c), name)())
            elif eng().branch(c < 128):
                out.append(z3.If(z3.And(c >= lo, c <= hi), c + delta, c))
            elif eng().branch(in_class(c, _fixed(name))):
                out.append(c)
            else:
                # one character mapped to one: exact piecewise shift; the few others are enumerated
                groups, multi = _deltas(name)
                if multi and eng().branch(in_class(c, multi)):
                    v = eng().choose([(x, c == x) for a, b in multi for x in range(a, b + 1)])
                    out.extend(ord(x) for x in getattr(chr(v), name)())
                else:
                    d = z3.IntVal(0)
                    for dv, iv in groups:
                        d = z3.If(in_class(c, iv), z3.IntVal(dv), d)
                    out.append(c + d)
        return mkstr(out)

    def lower(self): return self._case(65, 90, 32, "lower")
    def upper(self): return self._case(97, 122, -32, "upper")
    def casefold(self): return self._case(65, 90, 32, "casefold")

    def capitalize(self):
        if not self.chars:
            return ""
        return mkstr(_chars_of(mk(self.chars[:1])._case(97, 122, -32, "title")) + _chars_of(mk(self.chars[1:]).lower()))

    def _cased(self, c):
        """is the character cased?"""
        return eng().branch(mk_or([in_class(c, iv_pred("islower")), in_class(c, iv_pred("istitle"))]))

    def title(self):
        out, prev = [], False
        for c in self.chars:
            x = mk([c])
            out += _chars_of(x.lower() if prev else x._case(97, 122, -32, "title"))
            prev = self._cased(c)
        return mkstr(out)

    def swapcase(self):
        out = []
        for c in self.chars:
            x = mk([c])
            if eng().branch(in_class(c, iv_pred("isupper"))):
                out += _chars_of(x.lower())
            elif eng().branch(in_class(c, iv_pred("islower"))):
                out += _chars_of(x.upper())
            else:
                out.append(c)
        return mkstr(out)

    def islower(self):
        return mkbool(mk_and([mk_or([in_class(c, iv_pred("islower")) for c in self.chars])] + [mk_not(in_class(c, iv_pred("istitle"))) for c in self.chars]))

    def isupper(self):
        up, lo, ti = iv_pred("isupper"), iv_pred("islower"), iv_pred("istitle")
        return mkbool(mk_and([mk_or([in_class(c, up) for c in self.chars])]
                             + [mk_and([mk_not(in_class(c, lo)), mk_or([in_class(c, up), mk_not(in_class(c, ti))])]) for c in self.chars]))

    def center(self, w, f=" "):
        pad = builtins.int(w) - len(self.chars)
        if pad <= 0:
            return self
        left = pad // 2 + (pad & builtins.int(w) & 1)
        return mkstr([ord(f)] * left + self.chars + [ord(f)] * (pad - left))

    def translate(self, table):
        out = []
        for c in self.chars:
            if isinstance(c, builtins.int):
                out += [ord(x) for x in chr(c).translate(table)]
                continue
            for k, r in table.items():
                if eng().branch(ch_eq(c, k)):
                    out += [] if r is None else [r] if isinstance(r, builtins.int) else [ord(x) for x in r]
                    break
            else:
                out.append(c)
        return mkstr(out)

    def zfill(self, w):
        cs = self.chars
        pad = [48] * max(0, builtins.int(w) - len(cs))
        if pad and cs and eng().branch(mk_or([ch_eq(cs[0], 43), ch_eq(cs[0], 45)])):
            return mkstr(cs[:1] + pad + cs[1:])
        return mkstr(pad + cs)

    def ljust(self, w, f=" "):
        return mkstr(self.chars + [ord(f)] * max(0, builtins.int(w) - len(self.chars)))

    def rjust(self, w, f=" "):
        return mkstr([ord(f)] * max(0, builtins.int(w) - len(self.chars)) + self.chars)

    def encode(self, encoding="utf-8", errors="strict"):
        e = encoding.lower().replace("_", "-")
        if e in ("ascii", "us-ascii", "latin-1", "iso-8859-1", "latin1"):
            lim = 128 if "ascii" in e else 256
            for i, c in enumerate(self.chars):
                if not eng().branch(in_class(c, ((0, lim - 1),))):
                    raise UnicodeEncodeError(e, "\u0100", 0, 1, "ordinal not in range")
            return SymBytes(list(self.chars))
        if e not in ("utf-8", "utf8"):
            return self.concrete("encode").encode(encoding, errors)
        out = []
        for c in self.chars:
            if isinstance(c, builtins.int):
                out.extend(chr(c).encode("utf-8", errors))
            elif eng().branch(c < 0x80):
                out.append(c)
            elif eng().branch(c < 0x800):
                out += [0xC0 + c / 64, 0x80 + c % 64]
            elif eng().branch(c < 0x10000):
                if eng().branch(z3.And(c >= 0xD800, c <= 0xDFFF)):
                    raise UnicodeEncodeError("utf-8", "\ud800", 0, 1, "surrogates not allowed")
                out += [0xE0 + c / 4096, 0x80 + (c / 64) % 64, 0x80 + c % 64]
            else:
                out += [0xF0 + c / 262144, 0x80 + (c / 4096) % 64, 0x80 + (c / 64) % 64, 0x80 + c % 64]
        return SymBytes(out)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        f = getattr(str, name)      # AttributeError for unknown names, like str

        def g(*a, **k):
            return f(self.concrete("str." + name), *a, **k)
        return g


_fix = {}


def _fixed(name):
    if name not in _fix:
        f = getattr(str, name)
        out = []
        st = None
        for c in range(0x110000):
            ok = f(chr(c)) == chr(c)
            if ok and st is None:
                st = c
            elif not ok and st is not None:
                out.append((st, c - 1))
                st = None
        if st is not None:
            out.append((st, 0x10FFFF))
        _fix[name] = tuple(out)
    return _fix[name]


_delt = {}


def _deltas(name):
    """([(delta, intervals)], intervals of characters that map to several characters); ASCII excluded"""
    if name not in _delt:
        f = getattr(str, name)
        g, multi = {}, []
        for c in range(128, 0x110000):
            r = f(chr(c))
            if r == chr(c):
                continue
            if len(r) != 1:
                multi.append((c, c))
            else:
                g.setdefault(ord(r) - c, []).append((c, c))
        from .rex import iv_norm
        _delt[name] = ([(d, iv_norm(v)) for d, v in g.items()], iv_norm(multi))
    return _delt[name]


def mk(chars):
    """like mkstr but always a SymStr"""
    return SymStr(list(chars))


class RepBytes(Proxy):
    """UTF-8 form of a SymRep: the number of bytes is symbolic, anything else needs the bytes."""
    __slots__ = ("r", "_m")
    __class__ = property(lambda s: builtins.bytes)

    def __init__(self, r):
        self.r, self._m = r, None

    def length(self):
        return self.r.n * len(self.r.ch.encode()) + (len(self.r.prefix.encode()) + len(self.r.suffix.encode()))

    def materialize(self):
        if self._m is None:
            self._m = self.r.materialize().encode()
        return self._m

    def concrete(self, site="rep"): return self.materialize()
    def __len__(self): return len(self.materialize())
    def __bool__(self): return builtins.bool(self.length() > 0)
    def __eq__(self, o): return self.materialize() == o
    def __ne__(self, o): return self.materialize() != o
    def __hash__(self): return hash(self.materialize())
    def __iter__(self): return iter(self.materialize())
    def __getitem__(self, i): return self.materialize()[i]
    def __add__(self, o): return self.materialize() + o
    def __radd__(self, o): return o + self.materialize()

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self.materialize(), n)


class SymRep(Proxy):
    """prefix + ch*count + suffix with a symbolic count: strings of every length with uniform content."""
    __slots__ = ("prefix", "ch", "n", "suffix", "_m")
    __class__ = property(lambda s: str)

    def __init__(self, prefix, ch, n, suffix):
        self.prefix, self.ch, self.n, self.suffix = prefix, ch, n, suffix
        self._m = None

    def length(self):
        return self.n + (len(self.prefix) + len(self.suffix))

    def ne(self):
        return zi(self.n)

    def materialize(self):
        if self._m is None:
            n = self.n if isinstance(self.n, builtins.int) and type(self.n) is int else self.n.concrete()
            self._m = self.prefix + self.ch * n + self.suffix
        return self._m

    concrete = lambda self, site="rep": self.materialize()

    def encode(self, encoding="utf-8", errors="strict"):
        if encoding.lower().replace("_", "-") in ("utf-8", "utf8") and not any(0xD800 <= ord(c) <= 0xDFFF for c in self.prefix + self.ch + self.suffix):
            return RepBytes(self)
        return self.materialize().encode(encoding, errors)

    def __len__(self): return len(self.materialize())

    def __bool__(self):
        return builtins.bool(self.length() > 0)

    def __eq__(self, o):
        if type(o) is str:
            k = len(o) - len(self.prefix) - len(self.suffix)
            if k < 0 or self.prefix + self.ch * k + self.suffix != o:
                return False
            return self.n == k
        if type(o) is SymRep and (o.prefix, o.ch, o.suffix) == (self.prefix, self.ch, self.suffix):
            return self.n == o.n
        if type(o) is SymSel:
            return o == self
        if isinstance(o, builtins.str):
            return self.materialize() == o
        return False

    def __ne__(self, o):
        r = self == o
        return mkbool(mk_not(zb(r)))

    def __add__(self, o):
        if type(o) is str:
            return SymRep(self.prefix, self.ch, self.n, self.suffix + o)
        return SymStr.lazy(lambda: _chars_of(self) + _chars_of(o))

    def __radd__(self, o):
        if type(o) is str:
            return SymRep(o + self.prefix, self.ch, self.n, self.suffix)
        return SymStr.lazy(lambda: _chars_of(o) + _chars_of(self))

    def __hash__(self): return hash(self.materialize())
    def __str__(self): return self.materialize()
    def __repr__(self): return repr(self.materialize())
    def __iter__(self): return iter(self.materialize())
    def __getitem__(self, i):
        if isinstance(i, builtins.int) and type(i) is int and 0 <= i < len(self.prefix):
            return self.prefix[i]
        return self.materialize()[i]
    def __contains__(self, o): return o in self.materialize()
    def __format__(self, s): return format(self.materialize(), s)
    def __lt__(self, o): return self.materialize() < o
    def __gt__(self, o): return self.materialize() > o

    def strip(self, chars=None):
        ends = (self.prefix[:1] or self.ch) + (self.suffix[-1:] or self.ch)
        if chars is None and not any(c.isspace() for c in ends):
            return self
        return self.materialize().strip(chars)

    def startswith(self, p, *a):
        if type(p) is str and not a and len(p) <= len(self.prefix):
            return self.prefix.startswith(p)
        return self.materialize().startswith(p, *a)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        getattr(str, name)
        return lambda *a, **k: getattr(self.materialize(), name)(*a, **k)


class SymBytes(Proxy):
    __slots__ = ("bs",)
    __class__ = property(lambda s: bytes)

    def __init__(self, bs):
        self.bs = bs

    def concrete(self, site="bytes"):
        sym = [c for c in self.bs if not isinstance(c, builtins.int)]
        if not sym:
            return builtins.bytes(self.bs)
        it = iter(eng().concretize(sym, site))
        return builtins.bytes(c if isinstance(c, builtins.int) else next(it).as_long() for c in self.bs)

    def __len__(self): return len(self.bs)
    def __bool__(self): return len(self.bs) > 0
    def __iter__(self): return iter([mkint(b) for b in self.bs])
    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymBytes(self.bs[i])
        return mkint(self.bs[i])

    def __eq__(self, o):
        if type(o) is SymBytes:
            return mkbool(seq_eq(self.bs, o.bs))
        if isinstance(o, (builtins.bytes, bytearray)):
            return mkbool(seq_eq(self.bs, list(o)))
        return False

    def __ne__(self, o):
        return mkbool(mk_not(zb(self == o)))

    def __add__(self, o):
        return SymBytes(self.bs + list(o.bs if type(o) is SymBytes else o))

    def __radd__(self, o):
        return SymBytes(list(o) + self.bs)

    def __hash__(self): return hash(self.concrete())

    def decode(self, encoding="utf-8", errors="strict"):
        e = encoding.lower()
        if e in ("utf-8", "utf8", "ascii", "us-ascii", "latin-1", "iso-8859-1"):
            if all(isinstance(b, builtins.int) or not eng().branch(b >= 128) for b in self.bs) and \
               all(b < 128 for b in self.bs if isinstance(b, builtins.int)):
                return mkstr(self.bs)
        return self.concrete("decode").decode(encoding, errors)

    def _strip(self, chars, left, right):
        s = mk(self.bs)
        c = None if chars is None else "".join(map(chr, chars))
        r = s
        if left:
            r = r.lstrip(c)
        if right:
            r = r.rstrip(c)
        return SymBytes(_chars_of(r))

    def strip(self, c=None): return self._strip(c, True, True)
    def lstrip(self, c=None): return self._strip(c, True, False)
    def rstrip(self, c=None): return self._strip(c, False, True)

    def replace(self, a, b, n=-1):
        return SymBytes(_chars_of(mk(self.bs).replace("".join(map(chr, a)), "".join(map(chr, b)), n)))

    def translate(self, table, *a):
        return self.concrete("translate").translate(table, *a)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        f = getattr(builtins.bytes, name)
        return lambda *a, **k: f(self.concrete("bytes." + name), *a, **k)


# --------------------------------------------------------------------------
class Raised:
    def __init__(self, exc):
        self.exc = exc


def sel(options, guards, allow_raise=True):
    """Build the simplest proxy for a guarded union."""
    pairs = [(o, g) for o, g in zip(options, guards) if g is not False]
    raised = [(o, g) for o, g in pairs if isinstance(o, Raised)]
    if raised:
        for o, g in raised:
            if eng().branch(g):
                raise o.exc
        pairs = [(o, g) for o, g in pairs if not isinstance(o, Raised)]
    if len(pairs) == 1:
        return pairs[0][0]
    first = pairs[0][0]
    if all(o is first for o, _ in pairs):
        return first
    if all(type(o) is bool or type(o) is SymBool for o, _ in pairs):
        return mkbool(mk_or([mk_and([g, zb(o)]) for o, g in pairs]))
    if all(type(o) in (int, SymInt) for o, _ in pairs):
        e = zi(pairs[-1][0])
        for o, g in reversed(pairs[:-1]):
            x = zi(o)
            if isinstance(x, builtins.int) and isinstance(e, builtins.int) and x == e:
                continue
            e = z3.If(g, x if not isinstance(x, builtins.int) else z3.IntVal(x),
                      e if not isinstance(e, builtins.int) else z3.IntVal(e))
        return mkint(e)
    # merge equal scalars
    if all(type(o) is str for o, _ in pairs):
        m = {}
        for o, g in pairs:
            m.setdefault(o, []).append(g)
        if len(m) == 1:
            return first
        return SymSel(list(m), [mk_or(g) for g in m.values()])
    return SymSel([o for o, _ in pairs], [g for _, g in pairs])


def _plain(o):
    return not is_proxy(o)


class SymSel(Proxy):
    """Guarded union of concrete alternatives (exactly one guard holds on every model of the path)."""
    __slots__ = ("_opts", "_guards", "_forced")

    def __init__(self, opts, guards):
        self._opts = opts
        self._guards = guards
        self._forced = False

    @property
    def __class__(self):
        ts = {type(o) if not is_proxy(o) else o.__class__ for o in self._opts}
        if len(ts) == 1:
            return ts.pop()
        return self.force().__class__

    def pairs(self):
        return list(zip(self._opts, self._guards))

    def force(self):
        if self._forced:
            return self._opts[0]
        # group identical guards' options
        k = eng().choose([(i, g) for i, g in enumerate(self._guards)])
        self._opts = [self._opts[k]]
        self._guards = [True]
        self._forced = True
        return self._opts[0]

    concrete = lambda self, site="sel": deep_concrete(self.force())

    def map(self, f):
        out = []
        for o in self._opts:
            try:
                out.append(f(o))
            except Exception as e:
                out.append(Raised(e))
        return sel(out, self._guards)

    def isinstance_expr(self, cls):
        return mk_or([g for o, g in self.pairs() if isinstance(o, cls)])

    def eq_expr(self, o):
        if type(o) is SymSel:
            return mk_or([mk_and([g, h, _eq(a, b)]) for a, g in self.pairs() for b, h in o.pairs()])
        return mk_or([mk_and([g, _eq(a, o)]) for a, g in self.pairs()])

    def is_expr(self, o):
        return mk_or([g for a, g in self.pairs() if a is o])

    def __eq__(self, o): return mkbool(self.eq_expr(o))
    def __ne__(self, o): return mkbool(mk_not(self.eq_expr(o)))
    def __hash__(self): return hash(self.force())
    def __bool__(self):
        r = self.map(lambda o: builtins.bool(o) if _plain(o) else (o if type(o) is SymBool else mkbool(truth_expr(o))))
        return builtins.bool(r)
    def __str__(self): return str(deep_concrete(self.force()))
    def __repr__(self): return repr(self.force())
    def __format__(self, s): return format(self.force(), s)
    def __iter__(self): return iter(self.force())
    def __len__(self): return len(self.force())
    def __contains__(self, x): return x in self.force()
    def __call__(self, *a, **k): return self.force()(*a, **k)
    def __index__(self): return self.force().__index__()
    def __int__(self): return builtins.int(self.force())

    def __getitem__(self, k):
        return self.map(lambda o: o[k])

    def __setitem__(self, k, v):
        self.force()[k] = v

    def __getattr__(self, name):
        if name.startswith("__") and name.endswith("__") and name not in ("__name__", "__doc__"):
            return getattr(self.force(), name)
        if self._forced:
            return getattr(self._opts[0], name)
        ts = {type(o) for o in self._opts}
        if len(ts) == 1:
            t = next(iter(ts))
            if t is str or t is bytes:
                def meth(*a, **k):
                    if any(is_proxy(x) for x in a) or any(is_proxy(x) for x in k.values()):
                        return self.map(lambda o: getattr(mk(map(ord, o)) if type(o) is str else o, name)(*a, **k))
                    return self.map(lambda o: getattr(o, name)(*a, **k))
                return meth
            cf = getattr(t, name, None)
            if callable(cf) and hasattr(cf, "__get__") and hasattr(cf, "__code__"):
                return cf.__get__(self, t)
        return self.map(lambda o: getattr(o, name))

    def __setattr__(self, name, v):
        if name in SymSel.__slots__:
            object.__setattr__(self, name, v)
        else:
            setattr(self.force(), name, v)


def _binop(dunder, rdunder):
    def f(self, o):
        ts = {type(x) for x in self._opts}
        if len(ts) == 1:
            cf = getattr(next(iter(ts)), dunder, None)
            if cf is not None and hasattr(cf, "__code__"):
                return cf(self, o)
        import operator
        op = getattr(operator, dunder)
        return self.map(lambda x: op(x, o))

    def r(self, o):
        import operator
        op = getattr(operator, dunder)
        return self.map(lambda x: op(o, x))
    return f, r


for _d in ("add", "sub", "mul", "or_", "and_", "xor", "mod", "floordiv"):
    _n = _d.rstrip("_")
    _f, _r = _binop(f"__{_n}__", f"__r{_n}__")
    setattr(SymSel, f"__{_n}__", _f)
    setattr(SymSel, f"__r{_n}__", _r)
for _d in ("lt", "le", "gt", "ge"):
    _f, _ = _binop(f"__{_d}__", None)
    setattr(SymSel, f"__{_d}__", _f)


def _eq(a, b):
    """equality as bool | z3 Bool"""
    r = a == b
    return zb(r)


def truth_expr(x):
    t = type(x)
    if t is SymBool:
        return x.e
    if t is SymInt:
        return x.e != 0
    if t is SymRep:
        return zb(x.length() > 0)
    if t is SymSel:
        return mk_or([mk_and([g, truth_expr(o)]) for o, g in x.pairs()])
    return builtins.bool(x)


class SymFloat(Proxy):
    """Value of a decimal literal: sign * m * 10^e (m, e symbolic ints), or +-inf / nan (concrete)."""
    __slots__ = ("m", "e", "neg")
    __class__ = property(lambda s: float)

    def __init__(self, neg, m, e):
        self.neg, self.m, self.e = neg, m, e

    def concrete(self, site="float"):
        m = mkint(self.m)
        e = mkint(self.e)
        m = m if type(m) is int else m.concrete()
        e = e if type(e) is int else e.concrete()
        return builtins.float(("-" if self.neg else "") + f"{m}e{e}")

    def trunc(self):
        """int(x), exact w.r.t. round-half-even; None if not within reach"""
        B = eng().branch
        m, e = mkint(self.m), mkint(self.e)
        if type(e) is not int:
            return None
        if e > 0:
            m, e = m * 10 ** e, 0
        if B(zb(m >= 10 ** 15)):
            if e < 0 or B(zb(m >= 2 ** 80)):
                return None
            k = 0
            while B(zb(m >= 2 ** (53 + k))):
                k += 1
            if k:
                q, r = m // 2 ** k, m % 2 ** k
                up = mk_or([zb(r > 2 ** (k - 1)), mk_and([zb(r == 2 ** (k - 1)), zb(q % 2 == 1)])])
                m = mkint(z3.If(up, zi(q) + 1, zi(q)) if not isinstance(up, builtins.bool) else zi(q) + builtins.int(up)) * 2 ** k
        else:
            m = m // 10 ** -e
        return -m if self.neg else m

    def _mag_lt(self, T, strict):
        """|x| < T (or <= T) for an exact Fraction T >= 0."""
        m, e = self.m, self.e
        if T < 0 or (T == 0 and strict):
            return False
        parts = [m == 0] if T > 0 or not strict else []
        if T == 0:
            return mk_or(parts)
        # decimal magnitude of T: 10^(d-1) <= T < 10^d
        d = 0
        while T >= Fraction(10) ** d:
            d += 1
        while T < Fraction(10) ** (d - 1):
            d -= 1
        W = 40  # m < 10^W is asserted by construction
        # m >= 1: e <= d-1-W  => m*10^e < 10^(d-1) <= T ; e >= d => m*10^e >= 10^d > T
        parts.append(e <= d - 1 - W)
        for k in range(d - W, d):
            q = T / (Fraction(10) ** k)
            if strict:
                b = math.ceil(q) - 1 if q.denominator == 1 else math.floor(q)
            else:
                b = math.floor(q)
            if b >= 1:
                parts.append(mk_and([ch_eq(e, k), m <= b]))
        return mk_or([p for p in parts])

    def _round_lt(self, B):
        """float(x) < B for a finite float B, as formula; exact w.r.t. round-half-even."""
        if B == math.inf:
            lim = Fraction(2) ** 1024 - Fraction(2) ** 970
            return True if self.neg else self._mag_lt(lim, True)
        if B == -math.inf:
            return False
        prev = math.nextafter(B, -math.inf)
        # round(x) <= prev  <=>  x < T or (x == T and T rounds to prev)
        if prev == -math.inf:
            T = -(Fraction(2) ** 1024 - Fraction(2) ** 970)
            tie_down = True
        else:
            T = (Fraction(B) + Fraction(prev)) / 2
            tie_down = builtins.float(T) <= prev
        if not self.neg:
            if T < 0:
                return False
            return self._mag_lt(T, not tie_down)
        # -mag < T  <=> mag > -T
        if T > 0:
            return True
        return mk_not(self._mag_lt(-T, tie_down))

    def _lt(self, o):
        # floats are compared with integers exactly
        if isinstance(o, builtins.int) and builtins.float(o) < o:
            return self._le(builtins.float(o))
        return self._round_lt(builtins.float(o))

    def _le(self, o):
        if isinstance(o, builtins.int) and builtins.float(o) > o:
            return self._round_lt(builtins.float(o))
        o = builtins.float(o)
        if o == math.inf:
            return True
        return self._round_lt(math.nextafter(o, math.inf))

    def __lt__(self, o): return mkbool(self._lt(o))
    def __le__(self, o): return mkbool(self._le(o))
    def __ge__(self, o): return mkbool(mk_not(self._lt(o)))
    def __gt__(self, o): return mkbool(mk_not(self._le(o)))
    def __eq__(self, o):
        if is_proxy(o):
            return self.concrete() == o
        if not isinstance(o, (int, builtins.float)):
            return False
        return mkbool(mk_and([self._le(o), mk_not(self._lt(o))]))
    def __ne__(self, o): return mkbool(mk_not(zb(self == o)))
    def __abs__(self): return SymFloat(False, self.m, self.e)
    def __neg__(self): return SymFloat(not self.neg, self.m, self.e)
    def __hash__(self): return hash(self.concrete())
    def __float__(self): return self.concrete()
    def __bool__(self): return builtins.bool(self != 0)
    def __str__(self): return str(self.concrete())
    __repr__ = __str__

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.concrete(), name)


class Opaque(Proxy):
    """Result of a modelled call whose value nobody is expected to inspect."""
    __slots__ = ("thunk", "_cls", "_v", "src")

    def __init__(self, thunk, cls, src=None):
        self.thunk, self._cls, self._v, self.src = thunk, cls, None, src

    __class__ = property(lambda s: s._cls)

    def concrete(self, site="opaque"):
        if self._v is None:
            self._v = (self.thunk(),)
        return self._v[0]

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.concrete(), name)

    def __eq__(self, o): return self.concrete() == o
    def __ne__(self, o): return self.concrete() != o
    def __lt__(self, o): return self.concrete() < o
    def __gt__(self, o): return self.concrete() > o
    def __le__(self, o): return self.concrete() <= o
    def __ge__(self, o): return self.concrete() >= o
    def __hash__(self): return hash(self.concrete())
    def __str__(self): return str(self.concrete())
    def __bool__(self): return builtins.bool(self.concrete())
    def __len__(self): return len(self.concrete())
    def __iter__(self): return iter(self.concrete())
    def __getitem__(self, i): return self.concrete()[i]


def deep_concrete(x, site="native", depth=6):
    t = type(x)
    if isinstance(x, Proxy) and t not in _PLAIN:
        if t is SymBool:
            return builtins.bool(x)
        if t is SymSel:
            return deep_concrete(x.force(), site, depth)
        return x.concrete(site) if t in (SymStr, SymRep, RepBytes, SymBytes, SymFloat, Opaque) else x.concrete()
    if depth <= 0:
        return x
    if t is list:
        return [deep_concrete(i, site, depth - 1) for i in x] if any_proxy(x) else x
    if t is tuple:
        return tuple(deep_concrete(i, site, depth - 1) for i in x) if any_proxy(x) else x
    if isinstance(x, dict) and any_proxy(x):
        return {deep_concrete(k, site, depth - 1): deep_concrete(v, site, depth - 1) for k, v in x.items()}
    if isinstance(x, (set, frozenset)) and any_proxy(x):
        return t({deep_concrete(i, site, depth - 1) for i in x}) if t in (set, frozenset) else {deep_concrete(i, site, depth - 1) for i in x}
    return x


def any_proxy(x, depth=4):
    if isinstance(x, Proxy) and type(x) not in _PLAIN:
        return True
    if depth <= 0:
        return False
    t = type(x)
    if t in (int, str, bool, float, bytes, type(None)):
        return False
    if t in (list, tuple):
        return any(any_proxy(i, depth - 1) for i in x)
    if isinstance(x, dict):
        return any(any_proxy(k, depth - 1) or any_proxy(v, depth - 1) for k, v in x.items())
    if isinstance(x, (set, frozenset)):
        return any(any_proxy(i, depth - 1) for i in x)
    return False


# -- containers that may hold symbolic keys -----------------------------------
class SxSet(set):
    """set whose membership may depend on symbolic elements."""

    def __init__(self, it=()):
        super().__init__()
        self._sym = []
        # characters of a symbolic text, as (condition, element), not yet decided which of them are distinct
        self._lazy = None
        if type(it) is SymStr and len(it.chars) > 1:
            self._lazy = [(True, mkstr([c])) for c in it.chars]
            return
        for i in it:
            self.add(i)

    def _force(self):
        if self._lazy is not None:
            pairs, self._lazy = self._lazy, None
            for g, x in pairs:
                if g is True or eng().branch(g):
                    self.add(x)

    def _filtered(self, o, keep):
        """elements that are (not) in o, without deciding which"""
        es = [(g, x, _member(x, o)) for g, x in self._lazy]
        if any(e is None for _, _, e in es):
            self._force()
            return SxSet(i for i in self if bool(sx_in(i, o)) == keep)
        r = SxSet()
        r._lazy = [(mk_and([g, e if keep else mk_not(e)]), x) for g, x, e in es]
        return r

    def contains_expr(self, x):
        if self._lazy is not None:
            return mk_or([mk_and([g, _eq(x, i)]) for g, i in self._lazy])
        if not is_proxy(x) and not self._sym:
            try:
                return set.__contains__(self, x)
            except TypeError:
                raise
        es = []
        if is_proxy(x):
            for i in set.__iter__(self):
                es.append(_eq(x, i))
        else:
            if set.__contains__(self, x):
                return True
        for i in self._sym:
            es.append(_eq(i, x))
        return mk_or(es)

    def __contains__(self, x):
        return eng().branch(self.contains_expr(x)) if eng() else set.__contains__(self, x)

    def add(self, x):
        self._force()
        if not is_proxy(x) and not self._sym:
            set.add(self, x)
            return
        if eng().branch(self.contains_expr(x)):
            return
        if is_proxy(x):
            self._sym.append(x)
        else:
            set.add(self, x)

    def update(self, *its):
        for it in its:
            for i in it:
                self.add(i)

    def discard(self, x):
        self._force()
        if not is_proxy(x) and not self._sym:
            return set.discard(self, x)
        for i in list(self):
            if eng().branch(_eq(i, x)):
                if is_proxy(i):
                    self._sym = [j for j in self._sym if j is not i]
                else:
                    set.discard(self, i)
                return

    def remove(self, x):
        if x not in self:
            raise KeyError(x)
        self.discard(x)

    def __iter__(self):
        self._force()
        yield from set.__iter__(self)
        yield from self._sym

    def __len__(self):
        self._force()
        return set.__len__(self) + len(self._sym)

    def __bool__(self):
        if self._lazy is not None:
            e = mk_or([g for g, _ in self._lazy])
            return e if isinstance(e, bool) else eng().branch(e)
        return len(self) > 0

    def copy(self):
        return SxSet(self)

    def union(self, *o):
        r = SxSet(self)
        r.update(*o)
        return r

    def __or__(self, o):
        return self.union(o)

    def __ror__(self, o):
        return SxSet(o).union(self)

    def __and__(self, o):
        if self._lazy is not None:
            return self._filtered(o, True)
        return SxSet(i for i in self if sx_in(i, o))

    def __sub__(self, o):
        if self._lazy is not None:
            return self._filtered(o, False)
        return SxSet(i for i in self if not sx_in(i, o))

    def __rand__(self, o):
        return self & o

    def __rsub__(self, o):
        return SxSet(i for i in o if not sx_in(i, self))

    def difference(self, o):
        return self - o

    def intersection(self, o):
        return self & o

    def clear(self):
        self._lazy = None
        set.clear(self)
        self._sym = []

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return False
        return all(sx_in(i, o) for i in self) and all(sx_in(i, self) for i in o)

    def __ne__(self, o):
        return not self == o

    def issubset(self, o):
        if self._lazy is not None:
            return not self - o
        return all(sx_in(i, o) for i in self)

    __le__ = issubset

    def issuperset(self, o):
        return all(sx_in(i, self) for i in o)

    __ge__ = issuperset

    def __lt__(self, o):
        return self <= o and not self == o

    def __gt__(self, o):
        return self >= o and not self == o

    def isdisjoint(self, o):
        if self._lazy is not None:
            return not self & o
        return not any(sx_in(i, self) for i in o)

    def __xor__(self, o):
        return (self - o) | SxSet(i for i in o if not sx_in(i, self))

    symmetric_difference = __xor__

    def _become(self, o):
        items = list(o)
        self.clear()
        self.update(items)
        return self

    def __ior__(self, o):
        self.update(list(o))
        return self

    def __iand__(self, o):
        return self._become(self & o)

    def __isub__(self, o):
        return self._become(self - o)

    def __ixor__(self, o):
        return self._become(self ^ o)

    def intersection_update(self, o):
        self._become(self & o)

    def difference_update(self, o):
        self._become(self - o)

    def pop(self):
        for i in self:
            self.discard(i)
            return i
        raise KeyError("pop from an empty set")

    def __hash__(self):
        raise TypeError("unhashable")


class SxFrozen(frozenset):
    """frozenset that also works together with SxSet"""


def _frozen_op(name):
    base = getattr(frozenset, name)

    def f(self, o):
        if isinstance(o, SxSet) or is_proxy(o):
            return getattr(SxSet(self), name)(o)
        return base(self, o)
    return f


for _n in ("__sub__", "__and__", "__or__", "__xor__", "__le__", "__ge__", "__lt__", "__gt__", "__eq__", "__ne__"):
    setattr(SxFrozen, _n, _frozen_op(_n))
SxFrozen.__hash__ = frozenset.__hash__


def _member(x, o):
    from . import hooks
    return hooks.in_expr(x, o)


def sx_in(x, c):
    from . import hooks
    return hooks.sx_in(x, c)


_MISSING = object()


class SxDict(dict):
    """dict whose keys may be symbolic strings; falls back to an association list."""
    default_factory = None

    def __init__(self, *a, **k):
        super().__init__()
        self._al = None
        if a:
            src = a[0]
            it = src.items() if hasattr(src, "items") else src
            for kk, v in it:
                self[kk] = v
        for kk, v in k.items():
            self[kk] = v

    def _to_al(self):
        if self._al is None:
            self._al = [[k, v] for k, v in dict.items(self)]
            dict.clear(self)
        return self._al

    def _find(self, key):
        for p in self._al:
            if eng().branch(_eq(p[0], key)):
                return p
        return None

    def contains_expr(self, key):
        if self._al is None:
            if not is_proxy(key):
                return dict.__contains__(self, key)
            return mk_or([_eq(key, k) for k in dict.keys(self)])
        return mk_or([_eq(p[0], key) for p in self._al])

    def __contains__(self, key):
        if self._al is None and not is_proxy(key):
            return dict.__contains__(self, key)
        return eng().branch(self.contains_expr(key))

    def _lookup(self, key):
        if self._al is None:
            if not is_proxy(key):
                return dict.get(self, key, _MISSING)
            from . import hooks
            try:
                return hooks.dict_lookup(self, key)
            except KeyError:
                return _MISSING
        p = self._find(key)
        return _MISSING if p is None else p[1]

    def __getitem__(self, key):
        v = self._lookup(key)
        if v is _MISSING:
            if self.default_factory is not None:
                v = self.default_factory()
                self[key] = v
                return v
            raise KeyError(key)
        return v

    def __setitem__(self, key, val):
        if self._al is None:
            if not is_proxy(key):
                dict.__setitem__(self, key, val)
                return
            self._to_al()
        p = self._find(key)
        if p is None:
            self._al.append([key, val])
        else:
            p[1] = val

    def __delitem__(self, key):
        if self._al is None and not is_proxy(key):
            return dict.__delitem__(self, key)
        self._to_al()
        p = self._find(key)
        if p is None:
            raise KeyError(key)
        self._al = [q for q in self._al if q is not p]

    def get(self, key, default=None):
        v = self._lookup(key)
        return default if v is _MISSING else v

    def setdefault(self, key, default=None):
        v = self._lookup(key)
        if v is _MISSING:
            self[key] = default
            return default
        return v

    def pop(self, key, *d):
        v = self._lookup(key)
        if v is _MISSING:
            if d:
                return d[0]
            raise KeyError(key)
        del self[key]
        return v

    def update(self, *a, **k):
        for kk, v in SxDict(*a, **k).items():
            self[kk] = v

    def keys(self):
        return dict.keys(self) if self._al is None else [p[0] for p in self._al]

    def values(self):
        return dict.values(self) if self._al is None else [p[1] for p in self._al]

    def items(self):
        return dict.items(self) if self._al is None else [(p[0], p[1]) for p in self._al]

    def __iter__(self):
        return dict.__iter__(self) if self._al is None else iter([p[0] for p in self._al])

    def __len__(self):
        return dict.__len__(self) if self._al is None else len(self._al)

    def __bool__(self):
        return len(self) > 0

    def copy(self):
        r = type(self)()
        r.default_factory = self.default_factory
        for k, v in self.items():
            r[k] = v
        return r

    def clear(self):
        dict.clear(self)
        self._al = None

    def __eq__(self, o):
        if self._al is None and not (isinstance(o, SxDict) and o._al is not None):
            return dict.__eq__(self, o)
        return deep_concrete(self) == deep_concrete(o)

    def __repr__(self):
        return repr(dict(self.items())) if self._al is None else repr(self._al)

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __ror__(self, o):
        r = SxDict(o)
        r.update(self)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def __ne__(self, o):
        return not self == o

    def __reversed__(self):
        return iter(list(self)[::-1])

    def popitem(self):
        if not len(self):
            raise KeyError("popitem(): dictionary is empty")
        k, v = list(self.items())[-1]
        del self[k]
        return k, v

    __hash__ = None
