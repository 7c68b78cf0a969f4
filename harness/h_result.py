"""Report tree: severity aggregation, report contexts, serialisation, HTML."""
import io
import html
import json
import os
import sys
from contextlib import redirect_stdout
from aas_test_engines import result as R
from aas_test_engines.result import AasTestResult, Level
from harness.common import LEVELS, nodes, val, check_tree


class Exp:
    """Reference tree"""

    def __init__(self, message, level):
        self.message, self.own, self.kids = message, level, []


def exp_level(S, x):
    v = x.own
    for k in x.kids:
        kv = exp_level(S, k)
        v = S.If(kv > v, kv, v)
    return v


def same(S, got, exp, what):
    S.require(got.message == exp.message, what + ": message")
    S.require(val(got.level) == exp_level(S, exp), what + ": severity")
    S.require(len(got.sub_results) == len(exp.kids), what + ": number of findings", lambda: [len(got.sub_results), len(exp.kids)])
    for a, b in zip(got.sub_results, exp.kids):
        same(S, a, b, what)


def deep(n):
    sh = []
    for _ in range(n):
        sh = [sh]
    return sh


def wide(n):
    return [[] for _ in range(n)]


# ---- C01 -------------------------------------------------------------------------
def build(S, shape, path):
    """shape: list of child shapes. Children are complete before they are appended."""
    lv = S.int("l" + path, 0, 3)
    got = AasTestResult("m" + path, Level(lv))
    exp = Exp("m" + path, lv)
    for i, sh in enumerate(shape):
        g, e = build(S, sh, path + "." + str(i))
        got.append(g)
        exp.kids.append(e)
    return got, exp


SHAPES = [[], [[]], [[], []], [[[]]], [[], [], []], [[[], []], []], [[[[]]]], [[], [[], [[]]]], [[[], []], [[], []]],
          [[[[], []], []], [[]]], [[], [], [], [], []], [[[[[]]]]]]


def h_tree(S, shape):
    got, exp = build(S, shape, "r")
    S.cover("tree")
    same(S, got, exp, "aggregated report")
    w = exp_level(S, exp)
    S.require(S.Iff(got.ok(), w < 2), "verdict")
    check_tree(S, got)


def h_lattice(S):
    """combining severities is the maximum, in any order"""
    a, b, c = (Level(S.int(n, 0, 3)) for n in "abc")
    S.cover("lattice")
    m = a | b
    S.require(val(m) == S.If(val(a) > val(b), val(a), val(b)), "combined severity")
    S.require(val(a | b) == val(b | a), "combination is commutative")
    S.require(val((a | b) | c) == val(a | (b | c)), "combination is associative")
    r = AasTestResult("x", a)
    S.require(S.Iff(r.ok(), S.Or(val(a) == 0, val(a) == 1)), "verdict of a single finding")


def h_incremental(S, n):
    """after every append the verdict is up to date; nothing is lost or reordered"""
    r = AasTestResult("root", Level(S.int("root", 0, 3)))
    worst = val(r.level)
    kids = []
    for i in range(n):
        k = AasTestResult("k%d" % i, Level(S.int("k%d" % i, 0, 3)))
        kids.append(k)
        r.append(k)
        worst = S.If(val(k.level) > worst, val(k.level), worst)
        S.require(val(r.level) == worst, "severity after an append")
        S.require(S.Iff(r.ok(), worst < 2), "verdict after an append")
        S.require(len(r.sub_results) == i + 1, "an appended finding is missing")
    for a, b in zip(r.sub_results, kids):
        S.require(a is b, "findings are kept in order")
    S.cover("incremental")


def h_many(S, n, m):
    """one finding among many, at any position and depth"""
    k = S.pick("position", sorted({0, 1, n // 2, n - 2, n - 1} & set(range(n))))
    lv = S.int("lv", 0, 3)
    root = r = AasTestResult("root")
    up = [root]
    for i in range(m):
        r = AasTestResult("level %d" % i)
        up.append(r)
    for i in range(n):
        r.append(AasTestResult("k%d" % i, Level(lv) if i == k else Level.INFO))
    for a, b in zip(up[-2::-1], up[:0:-1]):
        a.append(b)
    S.cover("many")
    for x in up:
        S.require(S.And(val(x.level) == lv, S.Iff(x.ok(), lv < 2)), "one finding among many")
    S.require([x.message for x in r.sub_results] == ["k%d" % i for i in range(n)], "many findings")


def h_again(S):
    """the same finding appended twice, and findings that read the same"""
    r, k = AasTestResult("root"), AasTestResult("k", Level(S.int("k", 0, 3)))
    twin = AasTestResult("k", Level(S.int("twin", 0, 3)))
    order = [S.pick("o%d" % i, [k, twin]) for i in range(3)]
    for x in order:
        r.append(x)
    S.cover("again")
    S.require(len(r.sub_results) == 3, "a finding that reads like another one is lost")
    w = 0
    for a, b in zip(r.sub_results, order):
        S.require(a is b, "order of findings that read the same")
        w = S.If(val(b.level) > w, val(b.level), w)
    S.require(val(r.level) == w, "severity of findings that read the same")


def c01(tier):
    out = [("h_tree", {"shape": s}) for s in SHAPES]
    out += [("h_lattice", {}), ("h_again", {})]
    out += [("h_many", {"n": n, "m": m}) for n, m in ((12, 0), (60, 1), (130, 2), (1, 15), (3, 40)) + (() if tier == "quick" else ((1100, 0), (2, 200)))]
    out += [("h_incremental", {"n": n}) for n in range(1, 6 if tier == "quick" else 9)]
    return out


# ---- C02 -------------------------------------------------------------------------
class Foreign(Exception):
    pass


class Odd(KeyError):
    """an exception whose text cannot be made"""

    def __str__(self):
        return ""


class Falsy(Exception):
    def __bool__(self):
        return False


class Empty(Exception):
    def __len__(self):
        return 0


# exceptions test cases may end with; the last ones are no subclasses of Exception
FOREIGN = {"key": KeyError("k"), "index": IndexError(1), "value": ValueError("v"), "type": TypeError(), "attribute": AttributeError("a"), "assertion": AssertionError(), "runtime": RuntimeError("No open context"),
           "os": ConnectionError("c"), "timeout": TimeoutError(), "stop": StopIteration(3), "recursion": RecursionError("r"), "notimpl": NotImplementedError(), "unicode": UnicodeDecodeError("utf-8", b"x", 0, 1, "u"),
           "group": ExceptionGroup("g", [ValueError("v")]), "odd": Odd("x"), "falsy": Falsy("f"), "empty": Empty("e"), "exit": SystemExit(0), "interrupt": KeyboardInterrupt(), "generator": GeneratorExit()}


def h_kinds(S, kind, depth):
    """every kind of exception is foreign"""
    catch = S.pick("catch", [None] + list(range(depth)))
    own = S.int("own", 0, 3)
    e = FOREIGN[kind]
    seen, opened = [], []

    def body(i):
        if i == depth:
            R.write("before")
            raise e
        with (R.start("c%d" % i, catch_all_exceptions=True) if i == catch else R.start("c%d" % i)) as r:
            opened.append(r)
            if i == 0:
                R.write(AasTestResult("w", Level(own)))
            body(i + 1)
        seen.append(i)
        R.write("after")
    caught = None
    with R.start("top") as top:
        try:
            body(0)
        except BaseException as x:
            if x is not e:
                raise
            caught = x
        R.write("end")
    S.cover("kinds")
    S.require((caught is None) == (catch is not None), "an exception passes every context but one that catches everything", lambda: [kind, catch])
    S.require(top.sub_results[-1].message == "end", "context closed after an exception", lambda: [kind, catch])
    _, x = S.call(R.write, "x")
    S.require(isinstance(x, RuntimeError), "context left open after an exception", lambda: [kind, catch])
    if catch is not None:
        r = opened[catch]
        bad = [k for k in r.sub_results if k.message not in ("w", "before", "after")]
        S.require(len(bad) == 1 and bad[0] is r.sub_results[-1], "an unexpected exception is reported once, at the end", lambda: [kind, catch])
        S.require(S.And(val(bad[0].level) == 3, val(r.level) == 3, val(top.level) == 3), "an unexpected exception is critical", lambda: [kind, catch])
        S.require(seen == list(range(catch, -1, -1)), "the test case goes on after the context that catches everything")
        S.require(len(top.sub_results) == 3 and top.sub_results[0] is opened[0], "the context left by an exception is a finding of the context around it", lambda: [kind, catch])
    else:
        S.require(seen == [], "the test case goes on after an exception")


def h_given(S, n):
    """contexts and findings given as reports with findings of their own"""
    how = S.pick("how", ["start", "write", "abort", "catch", "write twice", "write and abort"])
    given = AasTestResult("given", Level(S.int("lv", 0, 3)))
    exp = Exp("given", val(given.level))
    for i in range(n):
        k = S.int("k%d" % i, 0, 3)
        given.append(AasTestResult("k%d" % i, Level(k)))
        exp.kids.append(Exp("k%d" % i, k))
    outer = Exp("outer", 0)
    outer.kids.append(exp)
    with R.start("outer") as top:
        if how in ("start", "catch"):
            with (R.start(given) if how == "start" else R.start(given, True)) as r:
                S.require(r is given, "a context given as a report is that report")
                R.write("w")
            exp.kids.append(Exp("w", 0))
        elif how == "write":
            R.write(given)
        elif how == "write twice":
            R.write(given)
            R.write("between")
            R.write(given)
            outer.kids += [Exp("between", 0), exp]
        elif how == "write and abort":
            R.write(given)
            outer.kids.append(exp)
            R.abort(given)
        else:
            R.abort(given)
    S.cover("given")
    same(S, top, outer, "report given as context or finding")


def h_words(S, n):
    """findings and contexts that read the same are kept apart"""
    words = ["x", "outer", ""]
    last = S.pick("last", ["none", "abort", "foreign"])
    outer = Exp("outer", 0)
    with R.start("outer", catch_all_exceptions=True) as top:
        for i in range(n):
            w, how = S.pick("w%d" % i, words), S.pick("how%d" % i, ["text", "finding", "context", "aborted"])
            k = 0
            if how == "text":
                R.write(w)
            elif how == "finding":
                k = S.int("k%d" % i, 0, 3)
                R.write(AasTestResult(w, Level(k)))
            elif how == "aborted":
                k = S.int("k%d" % i, 0, 3)
                with R.start(w):
                    R.abort(AasTestResult(w, Level(k)))
            else:
                with R.start(w):
                    R.write(w)
            outer.kids.append(Exp(w, k))
            if how == "aborted":
                outer.kids[-1].kids.append(Exp(w, k))
            if how == "context":
                outer.kids[-1].kids.append(Exp(w, 0))
        if last == "abort":
            outer.kids.append(Exp("x", 2))
            R.abort("x")
        elif last == "foreign":
            raise Foreign("x")
    if last == "foreign":
        S.require(len(top.sub_results) == n + 1, "an unexpected exception after findings that read the same")
        outer.kids.append(Exp(top.sub_results[-1].message, 3))
    S.cover("words")
    same(S, top, outer, "findings that read the same")


class Budget:
    def __init__(self, n):
        self.n = n
        self.k = 0

    def next(self, S):
        if self.k >= self.n:
            return None
        self.k += 1
        return S.int("op%d" % self.k, 0, 8)


class Abort(Exception):
    """reference control flow: an abort with a finding"""

    def __init__(self, exp):
        self.exp = exp


def run_body(S, b, exp, depth, trace):
    """Runs ops until the budget ends or an 'end' op; drives the real context API and the reference in lockstep.
    Exceptions of the real code propagate as they would in a test case."""
    while True:
        op = b.next(S)
        if op is None or op == 0:
            return
        k = b.k
        if op == 1:                       # write a message
            R.write("w%d" % k)
            exp.kids.append(Exp("w%d" % k, 0))
        elif op == 2:                     # write a finding with its own severity
            lv = S.int("lv%d" % k, 0, 3)
            R.write(AasTestResult("w%d" % k, Level(lv)))
            exp.kids.append(Exp("w%d" % k, lv))
        elif op == 3:                     # abort with a message
            trace.append(Exp("a%d" % k, 2))
            R.abort("a%d" % k)
        elif op == 4:                     # abort with a finding of its own severity
            lv = S.int("lv%d" % k, 0, 3)
            trace.append(Exp("a%d" % k, lv))
            R.abort(AasTestResult("a%d" % k, Level(lv)))
        elif op == 5:                     # an unrelated exception
            trace.append(None)
            raise Foreign("boom%d" % k)
        elif op == 6 or op == 7 or op == 8:          # nested context, 7 catches everything, 8 has a severity of its own
            if depth == 0:
                return
            nested(S, b, exp, depth - 1, op == 7, trace, k, op == 8)


def nested(S, b, exp, depth, catch_all, trace, k, own=False):
    sub = Exp("c%d" % k, S.int("own%d" % k, 0, 3) if own else 0)
    before = len(R.managers) if hasattr(R, "managers") else None
    n = len(trace)
    raised = None
    try:
        what = AasTestResult("c%d" % k, Level(sub.own)) if own else "c%d" % k
        with (R.start(what, catch_all) if catch_all else R.start(what)) as r:
            run_body(S, b, sub, depth, trace)
    except Foreign as e:
        raised = e
    if before is not None:
        S.require(len(R.managers) == before, "open contexts after leaving one")
    if len(trace) > n:
        last = trace.pop()
        if last is None:
            if catch_all:
                S.require(raised is None, "an exception escaped a context that catches everything")
                S.require(len(r.sub_results) == len(sub.kids) + 1, "an unexpected exception is reported once")
                S.require(val(r.sub_results[-1].level) == 3, "an unexpected exception is critical")
                sub.kids.append(Exp(r.sub_results[-1].message, 3))
                S.cover("foreign caught")
            else:
                S.require(raised is not None, "an unrelated exception was swallowed")
                S.cover("foreign passed on")
                same(S, r, sub, "context left by an exception")
                trace.append(None)
                raise raised
        else:
            sub.kids.append(last)
            S.cover("abort")
    S.require(raised is None, "unexpected exception from a context")
    same(S, r, sub, "context")
    exp.kids.append(sub)


def h_context(S, n, depth, catch):
    exp = Exp("outer", 0)
    b = Budget(n)
    trace = []
    holder = Exp("none", 0)
    try:
        nested(S, b, holder, depth, catch, trace, 0)
    except Foreign:
        S.cover("foreign at top")
    S.cover("done")
    # afterwards no context is open
    _, e = S.call(R.write, "x")
    S.require(isinstance(e, RuntimeError), "writing without an open context must fail")


def c02(tier):
    out = []
    for n in range(0, 5 if tier == "quick" else 7):
        for catch in (False, True):
            out.append(("h_context", {"n": n, "depth": 3, "catch": catch}, {"weight": n}))
    out += [("h_kinds", {"kind": k, "depth": d}) for k in FOREIGN for d in ((1, 2) if tier == "quick" else (1, 2, 3, 5))]
    out += [("h_words", {"n": n}) for n in range(0, 3 if tier == "quick" else 4)]
    out += [("h_given", {"n": n}) for n in range(0, 3 if tier == "quick" else 5)]
    return out


# ---- C03 -------------------------------------------------------------------------
# texts that escaping, formatting, pattern or template functions react to
TRICKY = ["&lt;b&gt;", "&amp;#39;", "&", "<!-- CONTENT -->", '</div><div class="error">', "<script>alert(1)</script>", "\\1\\g<0>\\n", "%s %d {0} {} $x ${y}", "a\nb", "a  b\t", "--><b", "'\"`",
          "\u00e9\U0001f600\u202e", "http://h/?a=1&lt=2", "x" * 700, "]]>", "\x1b[91m"]


def build_msg(S, shape, path, maxlen, only=None, text=None):
    lv = S.int("l" + path, 0, 3)
    m = S.str("m" + path, 0, maxlen) if only is None or only == path else "text " + path
    if text is not None and only == path:
        m = S.str("a" + path, 0, maxlen) + TRICKY[text] + S.str("b" + path, 0, maxlen)
    got = AasTestResult(m, Level(lv))
    exp = Exp(m, lv)
    for i, sh in enumerate(shape):
        g, e = build_msg(S, sh, path + "." + str(i), maxlen, only, text)
        got.append(g)
        exp.kids.append(e)
    return got, exp


def dict_same(S, d, exp):
    S.require(d["m"] == exp.message, "serialised message")
    S.require(d["l"] == exp_level(S, exp), "serialised severity")
    S.require(len(d["s"]) == len(exp.kids), "serialised findings")
    for a, b in zip(d["s"], exp.kids):
        dict_same(S, a, b)


def h_dict(S, shape, maxlen, only=None, text=None):
    got, exp = build_msg(S, shape, "r", maxlen, only, text)
    d = got.to_dict()
    S.require(set(d.keys()) == {"m", "l", "s"}, "keys")
    dict_same(S, d, exp)
    back = AasTestResult.from_json(d)
    same(S, back, exp, "report read back")
    S.require(S.Iff(back.ok(), got.ok()), "verdict after a round trip")
    dict_same(S, got.to_dict(), exp)
    S.cover("dict")


def preorder(exp, depth=0):
    yield exp, depth
    for k in exp.kids:
        yield from preorder(k, depth + 1)


def h_lines(S, shape, maxlen, only=None, text=None):
    got, exp = build_msg(S, shape, "r", maxlen, only, text)
    lines = list(got.to_lines())
    want = list(preorder(exp))
    S.require(len(lines) == len(want), "one line per finding")
    colors = []
    for ln, (e, depth) in zip(lines, want):
        S.require(ln.startswith("   " * depth), "indentation")
        rest = ln[3 * depth:]
        S.require(S.contains(rest, e.message) if S.symbolic or True else True, "the text of a finding is missing")
        S.require(S.Not(rest.startswith(" ")), "deeper indentation than the nesting")
        S.require(ln.endswith("\033[0m"), "the colour is not reset at the end of a line", lambda: [ln])
        colors.append((rest[:5], exp_level(S, e)))
    for a, la in colors:
        for b, lb in colors:
            S.require(S.Iff(S.eq(la, lb), S.eq(a, b)), "the colour does not identify the severity")
    S.cover("lines")


def h_long(S, n, deep):
    """large reports: one finding with a severity of its own at any position"""
    k = S.pick("position", [0, 1, n // 2, n - 1] if n < 500 else [n - 1])
    lv = S.int("lv", 0, 3)
    own = [AasTestResult("f%d" % i, Level(lv) if i == k else Level.INFO) for i in range(n)]
    root = AasTestResult("root")
    if deep:
        for a, b in reversed(list(zip([root] + own[:-1], own))):
            a.append(b)
    else:
        for x in own:
            root.append(x)
    lines = list(root.to_lines())
    S.cover("long")
    S.require(len(lines) == n + 1, "one line per finding of a large report")
    for i, ln in enumerate(lines):
        d = i if deep else min(i, 1)
        S.require(ln.startswith("   " * d), "indentation in a large report", lambda: [i, ln])
        S.require(S.Not(ln[3 * d:].startswith(" ")), "deeper indentation in a large report", lambda: [i, ln])
        S.require(S.contains(ln, "f%d" % (i - 1) if i else "root"), "finding of a large report", lambda: [i, ln])
    back = AasTestResult.from_json(root.to_dict())
    a, b = nodes(root), nodes(back)
    S.require(len(list(a)) == len(list(b)) == n + 1, "findings of a large report read back")
    for x, y in zip(nodes(root), nodes(back)):
        S.require(S.And(x.message == y.message, val(x.level) == val(y.level), len(x.sub_results) == len(y.sub_results)), "large report read back")


def h_size(S, n):
    """a message of any length is kept"""
    m = "x" * n + S.str("m", 1)
    root = AasTestResult("root")
    root.append(AasTestResult(m, Level(S.int("lv", 0, 3))))
    S.cover("size")
    d = root.to_dict()
    S.require(d["s"][0]["m"] == m, "long message in the dictionary")
    S.require(AasTestResult.from_json(d).sub_results[0].message == m, "long message read back")
    S.require(len(list(root.to_lines())[1]) >= n + 1, "long message in the text")


def h_dump(S, n, text):
    """the text output is exactly the lines"""
    r = AasTestResult(S.str("a", 0, n) + TRICKY[text] + S.str("b", 0, n), Level(S.int("lv", 0, 3)))
    r.append(AasTestResult("k"))
    out = S.capture()
    saved = sys.stdout
    try:
        sys.stdout = out
        r.dump()
    finally:
        sys.stdout = saved
    S.cover("dump")
    S.require(out.text() == "".join([x + "\n" for x in r.to_lines()]), "printed text", lambda: [out.text()])


def c03(tier):
    q = tier == "quick"
    out = [("h_dict", {"shape": s, "maxlen": 1 if len(str(s)) > 8 else 2}) for s in SHAPES[:8 if q else 12]]
    out += [("h_lines", {"shape": s, "maxlen": 1}) for s in SHAPES[:4 if q else 6]]
    for i in range(len(TRICKY)):
        out += [("h_dict", {"shape": [[]], "maxlen": 1, "only": "r.0", "text": i}), ("h_lines", {"shape": [[]], "maxlen": 1, "only": "r.0", "text": i})]
    out += [("h_long", {"n": n, "deep": d}) for n, d in ((12, True), (40, True), (25, False), (120, False), (1200, False))]
    out += [("h_size", {"n": n}) for n in (300, 5000, 70000)]
    out += [("h_dump", {"n": 1 if q else 2, "text": i}) for i in range(len(TRICKY))]
    for s in (deep(7), wide(8)) if q else (deep(7), wide(8), deep(12), wide(20)):
        out.append(("h_dict", {"shape": s, "maxlen": 0, "only": "r"}))
    for s in (deep(7), wide(4)) if q else (deep(12), wide(6)):
        out.append(("h_lines", {"shape": s, "maxlen": 0, "only": "r"}))
    return out


# ---- C04 -------------------------------------------------------------------------
ENT = {"amp": "&", "lt": "<", "gt": ">", "quot": '"', "#x27": "'", "#39": "'", "apos": "'"}
NAMES = ["info", "warning", "error", "critical"]


def tokenize(S, s):
    """Minimal HTML tokenizer: ('open', name, classes) ('close', name) ('self', name) ('text', string)"""
    i = 0
    n = len(s)
    out = []
    text = ""
    while i < n:
        c = s[i]
        if c == "<":
            if len(text):
                out.append(("text", text))
                text = ""
            j = i + 1
            quoted = False
            tag = ""
            while j < n and (quoted or s[j] != ">"):
                if s[j] == '"':
                    quoted = not quoted
                tag = tag + s[j]
                j += 1
            tag = S.conc(tag)
            i = j + 1
            if tag.startswith("!--"):
                continue
            if tag.startswith("/"):
                out.append(("close", tag[1:].strip(), []))
                continue
            kind = "self" if tag.endswith("/") else "open"
            name = tag.rstrip("/").split()[0]
            cls = ""
            if 'class="' in tag:
                cls = tag.split('class="', 1)[1].split('"', 1)[0]
            out.append((kind, name, cls.split()))
        elif c == "&":
            ent = ""
            j = i + 1
            while j < n and s[j] != ";" and j - i < 8:
                ent = ent + s[j]
                j += 1
            ent = S.conc(ent)
            ch = ENT.get(ent) or html.unescape("&" + ent + ";")
            S.require(ch != "&" + ent + ";", "a bare ampersand in the page", lambda: ent)
            text = text + ch
            i = j + 1
        else:
            text = text + c
            i += 1
    if len(text):
        out.append(("text", text))
    return out


def _template():
    try:
        with open(os.path.join(os.path.dirname(R.__file__), "data", "template.html"), encoding="utf-8") as f:
            t = f.read().split("<!-- CONTENT -->")
        return (t[0], t[1]) if len(t) == 2 else ("", "")
    except OSError:
        return ("", "")


TEMPLATE = _template()


def h_html(S, shape, maxlen, only=None, text=None):
    got, exp = build_msg(S, shape, "r", maxlen, only, text)
    page = got.to_html()
    # only the part generated from the report is tokenized; the fixed page around it is cut off
    pre, post = TEMPLATE
    if page.startswith(pre) and page.endswith(post):
        page = page[len(pre):len(page) - len(post)]
    stack = []
    texts = []
    skip = 0
    for t in tokenize(S, page):
        if t[0] == "open":
            if t[1] == "script":
                skip += 1
            stack.append(t)
        elif t[0] == "close":
            if t[1] == "script":
                skip -= 1
            if t[1] in ("html", "body") and (not stack or stack[-1][1] != t[1]):
                continue
            S.require(len(stack) > 0 and stack[-1][1] == t[1], "unbalanced markup", lambda: [t, stack])
            stack.pop()
        elif t[0] == "text" and not skip:
            sev = None
            for o in reversed(stack):
                hit = [x for x in NAMES if x in o[2]]
                if hit:
                    sev = NAMES.index(hit[0])
                    break
            if sev is not None:
                depth = len([1 for o in stack if "sub-results" in o[2]])
                texts.append((t[1], sev, depth))
    S.require(len([o for o in stack if o[1] == "div"]) == 0, "unclosed markup")
    want = [(e, d) for e, d in preorder(exp)]
    # findings with empty text produce no text node
    want = [(e, d) for e, d in want if len(e.message)]
    S.require(len(texts) == len(want), "every finding appears once", lambda: [len(texts), len(want)])
    for (txt, sev, depth), (e, d) in zip(texts, want):
        S.require(txt == e.message, "the text of a finding is altered")
        S.require(sev == exp_level(S, e), "severity class of a finding")
        S.require(depth == d, "nesting of a finding")
    S.cover("html")


def h_size_html(S, n):
    """a message of any length is on the page"""
    m = "x" * n + S.str("m", 1)
    root = AasTestResult("root")
    root.append(AasTestResult(m, Level(S.int("lv", 0, 3))))
    page = root.to_html()
    S.cover("size")
    S.require(len(page) >= len(AasTestResult("root").to_html()) + n, "long message on the page", lambda: len(page))


def h_many_html(S, n, deep_):
    """every finding of a large report is on the page"""
    k = S.pick("position", [0, n // 2, n - 1] if n < 500 else [n - 1])
    lv = S.int("lv", 0, 3)
    own = [AasTestResult("f%d." % i, Level(lv) if i == k else Level.INFO) for i in range(n)]
    root = AasTestResult("root")
    if deep_:
        for a, b in reversed(list(zip([root] + own[:-1], own))):
            a.append(b)
    else:
        for x in own:
            root.append(x)
    page = S.conc(root.to_html())
    S.cover("many")
    at = [page.find("f%d.<" % i) for i in range(n)]
    S.require(min(at) >= 0 and at == sorted(at), "findings of a large report on the page, in order", lambda: at)
    tag = page[page.rfind("<", 0, at[k]):at[k]]
    S.require(NAMES[S.conc(lv)] in tag.replace('"', " ").split(), "severity class in a large report", lambda: tag)


def c04(tier):
    q = tier == "quick"
    out = [("h_html", {"shape": [], "maxlen": 2 if q else 3}), ("h_html", {"shape": [[]], "maxlen": 1})]
    out += [("h_html", {"shape": [[], []], "maxlen": 1, "only": o}) for o in ("r", "r.0", "r.1")]
    out += [("h_html", {"shape": [[[]]], "maxlen": 1, "only": o}) for o in ("r", "r.0", "r.0.0")]
    out += [("h_html", {"shape": [], "maxlen": 1, "only": "r", "text": i}) for i in range(len(TRICKY))]
    out += [("h_html", {"shape": [[]], "maxlen": 0, "only": o, "text": i}) for i in range(len(TRICKY)) for o in ("r", "r.0")]
    out += [("h_html", {"shape": s, "maxlen": 0, "only": "r", "text": 0}) for s in ((deep(4), wide(4)) if q else (deep(6), wide(6)))]
    out += [("h_size_html", {"n": n}) for n in (300, 5000, 70000)]
    out += [("h_many_html", {"n": n, "deep_": d}, {"conc": 5}) for n, d in ((12, True), (40, True), (25, False), (150, False), (1100, False))]
    if not q:
        out += [("h_html", {"shape": [[[], []], []], "maxlen": 1, "only": "r.0.1"}), ("h_html", {"shape": [[]], "maxlen": 2})]
    return out


PROPS = {
    "C01": {"cases": c01, "bounds": "twelve tree shapes of up to 7 nodes and depth 5, all severities symbolic; up to 5 (8) successive appends; one finding among up to 130 (1100) and below up to 40 (200) levels", "assumptions": []},
    "C02": {"cases": c02, "bounds": "every program of up to 4 (6) operations (write text/finding, abort with text/finding, foreign exception, nested context with or without catch-all or with a severity of its own, leave) with nesting depth <= 4; eighteen kinds of exceptions below up to 2 (5) contexts; contexts and findings given as reports with up to 2 (4) findings",
            "must_cover": ["abort", "foreign caught", "foreign passed on", "done", "kinds", "given", "words"], "assumptions": []},
    "C03": {"cases": c03, "bounds": "trees of up to 9 (21) nodes, and of up to 1201 nodes with one free severity; messages of up to 2 arbitrary characters, also around the listed texts and after up to 70000 others; all severities", "assumptions": []},
    "C04": {"cases": c04, "bounds": "trees of up to 5 (7) nodes; messages of up to 2 (3) arbitrary characters, also around the listed texts; all severities",
            "assumptions": ["the page is read by the tokenizer of the harness (elements, class attributes, character references)"]},
}
