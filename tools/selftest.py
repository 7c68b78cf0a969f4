"""Compares the symbolic models of str operations with CPython: every path over short texts, several solver models per path.
Not part of a check; run after changing symx (python3-vt tools/selftest.py)."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from symx.engine import Engine
from symx.api import Symbolic
from symx.values import SymStr, SymBool, SymInt, SymBytes

ALPHA = "aZ09 _-+.:/\n\r\t\x1c\x85\u2028ßĲǅéÉİ²٣ａ"
OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


for name in "title swapcase islower isupper lower upper casefold capitalize strip lstrip rstrip splitlines split isdigit isdecimal isnumeric isalpha isalnum isspace isprintable isascii".split():
    OPS[name] = lambda s, name=name: getattr(s, name)()
OPS.update({
    "keepends": lambda s: s.splitlines(True),
    "center": lambda s: s.center(6, "*"),
    "center5": lambda s: s.center(5),
    "zfill": lambda s: s.zfill(5),
    "rjust": lambda s: s.rjust(5, "x"),
    "split colon": lambda s: s.split(":", 1),
    "rsplit": lambda s: s.rsplit("a"),
    "partition": lambda s: s.partition("a"),
    "rpartition": lambda s: s.rpartition("a"),
    "replace": lambda s: s.replace("aa", "b"),
    "replace1": lambda s: s.replace("a", "bc", 1),
    "count": lambda s: s.count("a"),
    "find": lambda s: s.find("a"),
    "rfind": lambda s: s.rfind("a"),
    "in": lambda s: "aa" in s,
    "lt": lambda s: s < "aZ",
    "slice": lambda s: s[::-1],
    "utf8": lambda s: s.encode(),
    "join": lambda s: s.join(["x", s, "y"]),
    "percent": lambda s: "%s|%5s" % (s, s),
    "format": lambda s: "{}|{:>5}|{!r}".format(s, s, "q"),
    "fstring": lambda s: f"{s}|{s:5}|",
})


def ev(x, m):
    if isinstance(x, (list, tuple)):
        return type(x)(ev(i, m) for i in x)
    if type(x) is SymStr:
        return "".join(chr(c if isinstance(c, int) else m.eval(c, model_completion=True).as_long()) for c in x.chars)
    if type(x) is SymBytes:
        cs = getattr(x, "bs", None) or getattr(x, "chars", None) or x.b
        return bytes(c if isinstance(c, int) else m.eval(c, model_completion=True).as_long() for c in cs)
    if type(x) is SymBool:
        return z3.is_true(m.eval(x.e, model_completion=True))
    if type(x) is SymInt:
        return m.eval(x.e, model_completion=True).as_long()
    return x


def main(names):
    bad = total = 0
    for name, f in OPS.items():
        if names and name not in names:
            continue
        for n in (0, 1, 2, 3):
            e = Engine(budget_s=120)
            S = Symbolic(e)
            alpha = None if n == 1 else ALPHA

            def body():
                nonlocal bad, total
                S.reset()
                s = S.str("s", n, alpha=alpha)
                r = f(s)
                e.solver.push()
                for k in range(12 if n == 1 else 5):
                    if e.solver.check() != z3.sat:
                        break
                    m = e.solver.model()
                    c = S.inputs_of(m)["s"]
                    c = c if isinstance(c, str) else c["str"] if isinstance(c, dict) else c
                    want, got = f(c), ev(r, m)
                    total += 1
                    if type(want) is not type(got) and not isinstance(want, type(got)) or want != got:
                        bad += 1
                        print("MISMATCH", name, ascii(c), ascii(want), ascii(got))
                    if not isinstance(s, SymStr):
                        break
                    e.solver.add(z3.Or([x != m.eval(x, model_completion=True) for x in s.chars if not isinstance(x, int)]))
                e.solver.pop()
            e.explore(body)
            if not e.complete:
                print("incomplete", name, n, e.incomplete_reasons)
    print(f"{total} comparisons, {bad} mismatches")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
