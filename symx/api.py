"""The harness interface S. Two modes with one surface: symbolic (S values are proxies, require() is a
solver query) and concrete (S values come from a recorded assignment, require() is a plain assertion)."""
import re
import json


from . import files
from .files import PlainFiles, SymbolicFiles


class Rejected(BaseException):
    """concrete mode: an assumption does not hold for the recorded inputs"""


class Failed(BaseException):
    def __init__(self, label, detail=""):
        super().__init__(label)
        self.label = label
        self.detail = detail


XMLCHAR = ((9, 10), (13, 13), (32, 0xD7FF), (0xE000, 0xFFFD), (0x10000, 0x10FFFF))
ANY = ((0, 0xD7FF), (0xE000, 0x10FFFF))
ASCII = ((0, 127),)
PRINT = ((32, 126),)


def to_intervals(alpha):
    if alpha is None:
        return ANY
    if isinstance(alpha, str):
        cs = sorted(set(map(ord, alpha)))
        out = []
        for c in cs:
            if out and out[-1][1] == c - 1:
                out[-1] = (out[-1][0], c)
            else:
                out.append((c, c))
        return tuple(out)
    return tuple(alpha)


class Concrete(PlainFiles):
    symbolic = False

    def __init__(self, inputs):
        self.inputs = inputs
        self.covered = []
        self.n_require = 0
        self.known_seen = []

    def _get(self, name):
        if name not in self.inputs:
            raise Rejected("no input " + name)
        return self.inputs[name]

    def str(self, name, lo=None, hi=None, alpha=None):
        return self._get(name)

    def int(self, name, lo=None, hi=None):
        return self._get(name)

    def bool(self, name):
        return self._get(name)

    def choice(self, name, options):
        return options[self._get(name)]

    pick = choice

    def rep(self, name, prefix, ch, suffix, lo=0, hi=None):
        return prefix + ch * self._get(name) + suffix

    def assume(self, c):
        if not c:
            raise Rejected("assumption")

    def require(self, c, label, detail="", known=()):
        self.n_require += 1
        if not c:
            for kid, cond in known:
                if cond:
                    self.known_seen.append(kid)
                    return
            raise Failed(label, detail() if callable(detail) else detail)

    def fail(self, label, detail=""):
        raise Failed(label, detail)

    def cover(self, label):
        self.covered.append(label)

    def And(self, *xs):
        return all(bool(x) for x in xs)

    def Or(self, *xs):
        return any(bool(x) for x in xs)

    def Not(self, x):
        return not x

    def Implies(self, a, b):
        return (not a) or bool(b)

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def If(self, c, a, b):
        return a if c else b

    def match(self, pattern, s, flags=0):
        return re.fullmatch(pattern, s, flags) is not None

    def eq(self, a, b):
        return a == b

    def len(self, s):
        return len(s)

    def contains(self, s, sub):
        return sub in s

    def chars_in(self, s, alpha):
        iv = to_intervals(alpha)
        return all(any(a <= ord(c) <= b for a, b in iv) for c in s)

    def call(self, fn, *a, **k):
        """(result, None) or (None, exception)"""
        try:
            return fn(*a, **k), None
        except Exception as e:
            return None, e

    def conc(self, x):
        return x

    def count(self, xs):
        return sum(1 for x in xs if x)


def _plain(x, depth=0):
    """detail of a candidate, without symbolic values (the replay computes the concrete ones)"""
    t = type(x)
    if t in (str, int, float, bool, type(None)):
        return x
    if t in (list, tuple) and depth < 4:
        return [_plain(i, depth + 1) for i in x[:20]]
    if t is dict and depth < 4:
        return {str(k) if type(k) is str else "?": _plain(v, depth + 1) for k, v in list(x.items())[:20]}
    return f"<{t.__name__}>"


class Symbolic(SymbolicFiles):
    symbolic = True

    def __init__(self, engine, max_candidates=6):
        import z3
        from . import values, engine as en, hooks, rex
        self.z3, self.v, self.en, self.hooks, self.rex = z3, values, en, hooks, rex
        self.e = engine
        self.max_candidates = max_candidates
        self.candidates = []       # (label, inputs, detail, kind)
        self.known_hits = {}
        self.seen_labels = {}
        self.covers = {}
        self.witnesses = []
        self.reset()

    def reset(self):
        self.spec = {}             # name -> (kind, payload)
        self.covered = []
        files.PATHS.clear()
        files.ARGS.clear()

    # -- inputs
    def str(self, name, lo=None, hi=None, alpha=None):
        assert name not in self.spec, name
        if hi is None:
            hi = lo
        n = lo if lo == hi else self.e.choose([(k, True) for k in range(lo, hi + 1)])
        iv = to_intervals(alpha)
        chars = []
        for i in range(n):
            chars.append(self.z3.Int(f"{name}.{i}/{n}"))
        self.e.assume(self.en.mk_and([self.z3.And(c >= 0, c <= 0x10FFFF) for c in chars] + [self.rex.in_class(c, iv) for c in chars]))
        self.spec[name] = ("str", chars)
        return self.v.mkstr(chars)

    def int(self, name, lo=None, hi=None):
        assert name not in self.spec, name
        x = self.z3.Int(name)
        if lo is not None:
            self.e.assume(x >= lo)
        if hi is not None:
            self.e.assume(x <= hi)
        self.spec[name] = ("int", x)
        return self.v.SymInt(x)

    def bool(self, name):
        assert name not in self.spec, name
        x = self.z3.Bool(name)
        self.spec[name] = ("bool", x)
        return self.v.SymBool(x)

    def choice(self, name, options):
        assert name not in self.spec, name
        x = self.z3.Int(name)
        self.e.assume(self.z3.And(x >= 0, x < len(options)))
        self.spec[name] = ("int", x)
        if len(options) == 1:
            return options[0]
        return self.v.sel(list(options), [x == i for i in range(len(options))])

    def pick(self, name, options):
        assert name not in self.spec, name
        k = self.e.choose([(k, True) for k in range(len(options))])
        self.spec[name] = ("const", k)
        return options[k]

    def rep(self, name, prefix, ch, suffix, lo=0, hi=None):
        n = self.int(name, lo, hi)
        return self.v.SymRep(prefix, ch, n, suffix)

    # -- logic
    def _t(self, c):
        return self.v.truth_expr(c)

    def assume(self, c):
        self.e.assume(self._t(c))

    def inputs_of(self, model):
        out = {}
        for name, (kind, x) in self.spec.items():
            if kind == "str":
                out[name] = "".join(chr(model.eval(c, model_completion=True).as_long()) for c in x)
            elif kind == "int":
                out[name] = model.eval(x, model_completion=True).as_long()
            elif kind == "bool":
                out[name] = self.z3.is_true(model.eval(x, model_completion=True))
            else:
                out[name] = x
        return out

    def current_model(self):
        if self.e.model is None:
            if self.e.check() != self.z3.sat:
                return None
            self.e.model = self.e.solver.model()
        return self.e.model

    def _candidate(self, label, model, detail, kind):
        n = self.seen_labels.get(label, 0)
        self.seen_labels[label] = n + 1
        if n >= 3 or len(self.candidates) >= self.max_candidates:
            return
        self.candidates.append((label, self.inputs_of(model), _plain(detail), kind))

    def require(self, c, label, detail="", known=()):
        e = self._t(c)
        st = self.e.stats
        st.requires += 1
        self.e.alive()
        if e is True or (e is not False and self.z3.is_true(e)):
            return
        mk_and, mk_or, mk_not = self.en.mk_and, self.en.mk_or, self.en.mk_not
        neg = mk_not(e)
        kexprs = [(kid, self._t(cond)) for kid, cond in known]
        for kid, ke in kexprs:
            q = mk_and([neg, ke])
            if q is False or kid in self.known_hits:
                continue
            m = self._solve(q)
            if m is not None:
                self.known_hits[kid] = self.inputs_of(m)
        q = mk_and([neg] + [mk_not(ke) for _, ke in kexprs])
        if q is not False:
            m = self._solve(q)
            if m is not None:
                self._candidate(label, m, "" if callable(detail) else detail, "require")
        self.e.assume(mk_or([e] + [ke for _, ke in kexprs]))

    def _solve(self, q):
        st = self.e.stats
        if q is True:
            return self.current_model()
        if self.e.model is not None and self.z3.is_true(self.e.model.eval(q, model_completion=True)):
            return self.e.model
        st.require_queries += 1
        r = self.e.check(q)
        if r == self.z3.sat:
            return self.e.solver.model()
        if r != self.z3.unsat:
            self.e.mark_incomplete("unknown in require")
        return None

    def fail(self, label, detail=""):
        self.require(False, label, detail)

    def cover(self, label):
        self.e.alive()
        self.covered.append(label)
        self.covers[label] = self.covers.get(label, 0) + 1

    def And(self, *xs):
        return self.v.mkbool(self.en.mk_and([self._t(x) for x in xs]))

    def Or(self, *xs):
        return self.v.mkbool(self.en.mk_or([self._t(x) for x in xs]))

    def Not(self, x):
        return self.v.mkbool(self.en.mk_not(self._t(x)))

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def Iff(self, a, b):
        x, y = self._t(a), self._t(b)
        if x is True:
            return self.v.mkbool(y)
        if y is True:
            return self.v.mkbool(x)
        if x is False:
            return self.v.mkbool(self.en.mk_not(y))
        if y is False:
            return self.v.mkbool(self.en.mk_not(x))
        return self.v.mkbool(x == y)

    def If(self, c, a, b):
        t = self._t(c)
        if t is True:
            return a
        if t is False:
            return b
        return self.v.sel([a, b], [t, self.en.mk_not(t)])

    def match(self, pattern, s, flags=0):
        return self.v.mkbool(self.hooks.match_expr(pattern, flags, s, "fullmatch"))

    def eq(self, a, b):
        return a == b

    def len(self, s):
        return self.hooks.m_len(s)

    def contains(self, s, sub):
        return self.hooks.sx_in(sub, s)

    def chars_in(self, s, alpha):
        iv = to_intervals(alpha)
        from .values import _chars_of
        return self.v.mkbool(self.en.mk_and([self.rex.in_class(c, iv) for c in _chars_of(s)]))

    def call(self, fn, *a, **k):
        try:
            return fn(*a, **k), None
        except Exception as e:
            return None, e

    def conc(self, x):
        return self.v.deep_concrete(x, "harness")

    def count(self, xs):
        tot = 0
        for x in xs:
            t = self._t(x)
            if isinstance(t, bool):
                tot = tot + (1 if t else 0)
            else:
                tot = tot + self.z3.If(t, self.z3.IntVal(1), self.z3.IntVal(0))
        return self.v.mkint(tot)
