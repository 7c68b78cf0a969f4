"""Operation filter, HTTP requests, identifiers in URLs."""
import contextlib
import json
import requests
from aas_test_engines import api, config, http
from aas_test_engines.config import CheckApiConfig, TestCaseFilter
from aas_test_engines.data_types import base64_urlsafe
from aas_test_engines.exception import InvalidFilterException
from aas_test_engines.http import HttpClient, Request
from aas_test_engines.reflect import StringFormattedValue
from harness.common import check_tree, nodes
from harness.h_file import BLANKS


# ---- C26: filter -----------------------------------------------------------------
def cut(s, sep):
    out, cur = [], ""
    for c in s:
        if c == sep:
            out.append(cur)
            cur = ""
        else:
            cur = cur + c
    out.append(cur)
    return out


def parse_glob(p):
    """list of '*', '?', character, or ('[', negated, [(lo, hi)])"""
    out = []
    i = 0
    n = len(p)
    while i < n:
        c = p[i]
        i += 1
        if c == "*" or c == "?":
            out.append("*" if c == "*" else "?")
            continue
        if c == "[":
            j = i
            if j < n and p[j] == "!":
                j += 1
            first = j
            # a bracket in the first place is a member
            while j < n and (p[j] != "]" or j == first):
                j += 1
            if j < n:
                members = p[first:j]
                rs, k = [], 0
                while k < len(members):
                    if k + 2 < len(members) and members[k + 1] == "-":
                        rs.append((members[k], members[k + 2]))
                        k += 3
                    else:
                        rs.append((members[k], members[k]))
                        k += 1
                out.append(("[", first > i, rs))
                i = j + 1
                continue
            out.append(("c", "["))
            continue
        out.append(("c", c))
    return out


def glob(S, items, name, memo=None):
    """formula: the items match the whole name"""
    n = len(name)
    reach = [True] + [False] * n
    for it in items:
        new = [False] * (n + 1)
        if it == "*":
            for i in range(n + 1):
                new[i] = S.Or(*reach[:i + 1])
        else:
            for i in range(n):
                if it == "?":
                    ok = True
                elif it[0] == "c":
                    ok = name[i] == it[1]
                else:
                    ok = S.Or(*[S.And(lo <= name[i], name[i] <= hi) for lo, hi in it[2]])
                    if it[1]:
                        ok = S.Not(ok)
                new[i + 1] = S.And(reach[i], ok)
        reach = new
    return reach[n]


def patterns(text):
    return [parse_glob(p) for p in cut(text, ":") if p.strip() != ""]


def expected(S, text, name):
    """None if the filter is invalid"""
    parts = cut(text, "~")
    if len(parts) > 2:
        return None
    inc = patterns(parts[0])
    exc = patterns(parts[1]) if len(parts) == 2 else []
    if inc:
        S.cover("includes")
    if exc:
        S.cover("excludes")
    return S.And(S.Or(not inc, *[glob(S, p, name) for p in inc]), *[S.Not(glob(S, p, name)) for p in exc])


def make(S, text):
    f, e = S.call(TestCaseFilter, text)
    want = expected(S, text, "")
    if want is None:
        S.cover("invalid")
        S.require(isinstance(e, InvalidFilterException), "a second separator is rejected", lambda: [text, repr(e)])
        return None
    S.require(e is None, "a filter is rejected", lambda: [text, repr(e)])
    return f


WORD = "".join(chr(c) for c in range(33, 127))


def h_filter(S, pre, n, post, m, alpha, names=None):
    text = pre + S.str("f", n, alpha=alpha) + post
    name = S.str("name", m, alpha=names or (WORD if alpha != SPECIAL else SPECIAL + "aA"))
    f = make(S, text)
    if f is None:
        return
    got = f.selects(name)
    S.require(S.Iff(got, expected(S, text, name)), "selection by a filter", lambda: [text, name, got])
    S.require(S.Iff(f.selects(name), got), "the selection depends on what was asked before")


def h_order(S, n):
    """the order of the patterns does not matter, and one filter does not influence another"""
    ps = [S.str("p%d" % i, n if i else 1, alpha="ab*?" if i < 2 else "a*") for i in range(3)]
    name = S.str("name", 2, alpha="abc")
    neg = S.pick("neg", [False, True])
    pre = "a*:b*:c*~" if neg else ""
    f = TestCaseFilter(pre + ":".join(ps))
    g = TestCaseFilter(pre + ":".join([ps[2], ps[0], ps[1]]))
    a, b = f.selects(name), g.selects(name)
    S.cover("order")
    S.require(S.Iff(a, b), "selection depends on the order of patterns", lambda: [ps, name])
    S.require(S.Iff(f.selects(name), a), "a filter changes another one")


def h_many(S, n, neg, at=None):
    """filters with many patterns"""
    names = ["Op%02d" % i for i in range(n)]
    k = S.pick("position", at or list(range(n)))
    names[k] = "Op" + S.str("p", 2, alpha="0123456789xX*?")
    f = TestCaseFilter(("~" if neg else "") + ":".join(names))
    name = "Op" + S.str("name", 2, alpha="0123456789xX")
    hit = False
    for i in range(n):
        if i != k:
            hit = S.Or(hit, name == names[i])
    a, b = names[k][2], names[k][3]
    one = lambda p, c: S.Or(p == "?", p == c)
    hit = S.Or(hit, S.And(one(a, name[2]), one(b, name[3])), S.And(a == "*", S.Or(b == "*", b == "?", b == name[3])), S.And(b == "*", one(a, name[2])))
    S.cover("many")
    S.require(S.Iff(f.selects(name), S.Not(hit) if neg else hit), "filter with many patterns", lambda: [names, name])


def h_two(S, n):
    """filters side by side, asked the same names in any order"""
    a, b = S.str("a", n, alpha="ab*~:"), S.str("b", n, alpha="ab*~:")
    name = S.str("name", 1, alpha="abc")
    f, g = make(S, a), make(S, b)
    if f is None or g is None:
        return
    S.cover("two")
    order = S.pick("order", [[0, 1, 0], [1, 0, 1]])
    for k in order:
        x, text = (f, a) if k == 0 else (g, b)
        S.require(S.Iff(x.selects(name), expected(S, text, name)), "selection by one of two filters", lambda: [a, b, name, k])


SUITES = ["AssetAdministrationShellRepositoryServiceSpecification", "SubmodelRepositoryServiceSpecification",
          "AssetAdministrationShellServiceSpecification", "SubmodelServiceSpecification"]


def full_name(short):
    return "https://admin-shell.io/aas/API/3/0/" + short + "/SSP-002"


def operations(S, suite, f):
    """operations a dry run reports, in order"""
    (r, mat), e = S.call(api.execute_tests, HttpClient("http://localhost:1"), CheckApiConfig(suite=full_name(suite), dry=True, filter=f))
    S.require(e is None, "dry run raises", lambda: repr(e))
    check_tree(S, r)
    return [x.message for x in r.sub_results if x.message.startswith("Checking ")], r


def h_dry(S, suite, text, n, post, alpha):
    """with a filter, exactly the selected operations are run, in the order of the suite"""
    text = text + S.str("f", n, alpha=alpha) + post
    with Wire(S) as w:
        every, _ = operations(S, suite, None)
        S.require(len(every) > 10, "operations of a suite are missing")
        f = make(S, text)
        if f is None:
            return
        got, r = operations(S, suite, f)
        S.cover("dry run")
        S.require(len(w.sent) == 0, "a dry run sends requests")
        want = [m for m in every if expected(S, text, m[len("Checking "):])]
        S.require(got == want, "operations run with a filter", lambda: [text, got, want])
        S.require(r.ok(), "dry run fails")


def h_live(S, suite, pre, n, post):
    """a run that sends requests executes the selected operations as a run without filter does"""
    text = pre + S.str("f", n, alpha=":~ *") + post

    def run(f):
        conf = CheckApiConfig(suite=full_name(suite), filter=f)
        with Wire(S) as w:
            (r, _), e = S.call(api.execute_tests, HttpClient("http://h"), conf)
        S.require(e is None, "run raises", lambda: [text, repr(e)])
        S.require(conf.suite == full_name(suite) and conf.filter is f and not conf.dry, "a run changes its configuration", lambda: [conf])
        return [x.message[len("Checking "):] for x in r.sub_results if x.message.startswith("Checking ")], [s.url for s in w.sent], r
    f = make(S, text)
    if f is None:
        return
    every, urls, whole = run(None)
    got, sent, r = run(f)
    want = [m for m in every if expected(S, text, m)]
    S.cover("live run")
    S.require(got == want, "operations run with a filter", lambda: [text, got, want])
    if len(want) == len(every):
        S.require(sent == urls and r.to_dict() == whole.to_dict(), "a filter that selects everything changes the run", lambda: [text, len(sent), len(urls)])
    else:
        S.require(len(sent) >= 1 and set(sent) <= set(urls), "requests of a run with a filter", lambda: [text, len(sent), len(urls)])


SPECIAL = "*?[]!-:~ab "


def c26(tier):
    q = tier == "quick"
    out = []
    for m in range(0, 4):
        for n in range(0, 4 if q else 6):
            out.append(("h_filter", {"pre": "", "n": n, "post": "", "m": m, "alpha": WORD + " "}, {"weight": n + m}))
    for m in (1, 2):
        for n in (3, 4) if q else (3, 4, 5, 6):
            out.append(("h_filter", {"pre": "[", "n": n, "post": "", "m": m, "alpha": "ab]!-["}, {"weight": n + m}))
            out.append(("h_filter", {"pre": "", "n": n, "post": "", "m": m, "alpha": "*?:~ab "}, {"weight": n + m}))
    out.append(("h_filter", {"pre": "a[", "n": 2, "post": "c]*", "m": 3, "alpha": WORD}))
    out.append(("h_filter", {"pre": "a[b-", "n": 1, "post": "]*:x", "m": 3, "alpha": WORD}))
    out.append(("h_filter", {"pre": "*~", "n": 3, "post": "*", "m": 3, "alpha": WORD + " "}))
    out.append(("h_filter", {"pre": "a*:b*~*", "n": 2, "post": ":?c", "m": 3, "alpha": WORD + " "}))
    out.append(("h_filter", {"pre": "~", "n": 2, "post": "", "m": 2, "alpha": None}))
    out.append(("h_filter", {"pre": "", "n": 2, "post": "", "m": 2, "alpha": None}))
    out += [("h_many", {"n": n, "neg": g}) for n in ((2, 5, 12) if q else (2, 5, 12, 20)) for g in (False, True)]
    out += [("h_many", {"n": n, "neg": g, "at": [n - 1]}) for n in ((40,) if q else (40, 70)) for g in (False, True)]
    for n in (1, 2):
        out.append(("h_order", {"n": n}))
    out += [("h_two", {"n": n}) for n in ((1, 2) if q else (1, 2, 3))]
    # names with blanks and other characters, also equal to a pattern
    out += [("h_filter", {"pre": p, "n": n, "post": x, "m": m, "alpha": "a :~*", "names": "a b"}) for p, n, x, m in
            (("", 2, "", 1), ("~", 1, "", 1), ("*~", 2, "", 2), ("", 3, "", 2), (" :", 1, "", 1), ("a:", 1, "~ ", 1), ("a~", 1, ":a", 1))]
    out += [("h_filter", {"pre": "a~", "n": n, "post": "", "m": 1, "alpha": "ab*?[]", "names": "abA"}) for n in (1, 2)]
    out += [("h_filter", {"pre": "aa:", "n": 2, "post": "~aa:b*", "m": 2, "alpha": "ab*", "names": "abA"})]
    for s in SUITES:
        for text, n, post in (("GetAll*", 2, ""), ("Get", 1, "*"), ("Get*~*", 1, ""), ("*Get", 2, "*:GetDescription"), ("", 2, "")):
            out.append(("h_dry", {"suite": s, "text": text, "n": n, "post": post, "alpha": "ASVCalg*?:~" if n == 2 else WORD}, {"weight": 5}))
        out += [("h_live", {"suite": s, "pre": p, "n": n, "post": x}) for p, n, x in (("", 0, ""), ("", 1, ""), ("", 2, ""), ("*", 2, ""), ("GetDescription", 1, ""), ("~", 1, "GetDescription"))]
    return out


# ---- the wire: requests are recorded instead of sent --------------------------------
class Reply:
    status_code = 200
    content = b"{}"
    text = "{}"
    headers = {}

    def json(self):
        return {}


class Sent:
    def __init__(self, method, url, headers, body, verify, cookies):
        self.method, self.url, self.headers, self.body, self.verify, self.cookies = method, url, headers, body, verify, cookies


class Wire:
    """replaces the transport of requests: whatever way a request is made, it ends in Session.request"""

    def __init__(self, S, answer=None):
        self.S, self.answer = S, answer
        self.sent = []

    def __enter__(self):
        self.saved = requests.sessions.Session.request
        wire = self
        default = requests.sessions.Session()

        def request(session, method, url, params=None, data=None, headers=None, cookies=None, files=None, auth=None, timeout=None,
                    allow_redirects=True, proxies=None, hooks=None, stream=None, verify=None, cert=None, json=None):
            h = {}
            for k, v in session.headers.items():
                if k not in default.headers or default.headers[k] != v:
                    h[k] = v
            for k, v in (headers or {}).items():
                h[k] = v
            body = data
            if data is None and json is not None:
                body = dumps(json)
            if params:
                raise NotImplementedError("params")
            wire.sent.append(Sent(method, url, h, body, session.verify if verify is None else verify, cookies))
            if wire.answer is None:
                return Reply()
            return wire.answer(len(wire.sent) - 1, wire.sent[-1])
        request.__module__ = "requests.api"
        requests.sessions.Session.request = request
        return self

    def __exit__(self, *a):
        requests.sessions.Session.request = self.saved


def dumps(x):
    return json.dumps(x)


# ---- C27 -------------------------------------------------------------------------
def one(S, w, what="request"):
    S.require(len(w.sent) == 1, "exactly one " + what + " is sent", lambda: len(w.sent))
    return w.sent[0]


def utf8(S, s):
    """UTF-8 bytes of a text as numbers"""
    out = []
    for c in s:
        o = ord(c)
        if o < 0x80:
            out.append(o)
        elif o < 0x800:
            out += [0xC0 + o // 64, 0x80 + o % 64]
        elif o < 0x10000:
            out += [0xE0 + o // 4096, 0x80 + o // 64 % 64, 0x80 + o % 64]
        else:
            out += [0xF0 + o // 262144, 0x80 + o // 4096 % 64, 0x80 + o // 64 % 64, 0x80 + o % 64]
    return out


def hexval(S, c):
    o = ord(c)
    return S.If(o <= 57, o - 48, S.If(o <= 70, o - 55, o - 87))


def percent_decode(S, s):
    """bytes a percent-encoded query component stands for, or None if it is no such component"""
    out = []
    i = 0
    while i < len(s):
        c = s[i]
        if c == "%":
            if i + 3 > len(s):
                return None
            h = s[i + 1:i + 3]
            S.require(S.chars_in(h, "0123456789ABCDEFabcdef"), "percent-encoding in a query", lambda: [s])
            out.append(hexval(S, h[0]) * 16 + hexval(S, h[1]))
            i += 3
        elif c == "+":
            out.append(32)
            i += 1
        else:
            S.require(S.chars_in(c, UNRESERVED), "unencoded character in a query", lambda: [s])
            out.append(ord(c))
            i += 1
    return out


UNRESERVED = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_.~!*'(),;:@/$"


def same_bytes(S, a, b):
    return S.And(a is not None and len(a) == len(b), *[x == y for x, y in zip(a or [], b)])


def check_query(S, query, params):
    """query string stands for exactly the parameters that are not None, in order"""
    want = [(k, v) for k, v in params if v is not None]
    parts = cut(query, "&")
    S.require(len(parts) == len(want), "number of query parameters", lambda: [query, params])
    for part, (k, v) in zip(parts, want):
        kv = cut(part, "=")
        S.require(len(kv) == 2, "query parameter", lambda: [query, params])
        S.require(same_bytes(S, percent_decode(S, kv[0]), utf8(S, k)), "name of a query parameter", lambda: [query, params])
        S.require(same_bytes(S, percent_decode(S, kv[1]), utf8(S, v)), "value of a query parameter", lambda: [query, params])


class Text:
    """an argument with a text form, as the identifiers of the tests"""

    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s


def h_query(S, n, kind, extra):
    v = S.str("v", n)
    k = "limit" if kind != "key" else S.pick("name", ["a[b] &=", " a", "b ", "\u00e4\t", "", "A"] if n < 2 else ["a[b] &="])
    obj = {"str": v, "key": v, "object": Text(v)}[kind]
    drop = S.pick("none", ["first", "last", "no"])
    params = {}
    if drop == "first":
        params["level"] = None
    if extra:
        params["cursor"] = "x y/ä+&=%"
    params[k] = obj
    if drop == "last":
        params["extent"] = None
    path = "/shells/ab%2Fc"
    req = Request(path=path, query_parameters=params)
    url = req.make_url()
    S.cover("query")
    S.require(url[:len(path) + 1] == path + "?", "path and query", lambda: [url])
    check_query(S, url[len(path) + 1:], [(a, (str(b) if b is not None else None)) for a, b in params.items()])
    with Wire(S) as w:
        HttpClient("http://h").send(req)
    S.require(one(S, w).url == "http://h" + url, "URL of the request", lambda: [w.sent[0].url])


def h_noquery(S, n):
    p = S.str("p", n)
    S.cover("no query")
    for params in ({}, {"a": None}, {"a": None, "b": None}):
        S.require(Request(path=p, query_parameters=params).make_url() == p, "URL without parameters", lambda: [p, params])


def h_number(S):
    """numbers and booleans as parameters"""
    x = S.int("x", -1000, 1000)
    url = Request(path="/a", query_parameters={"limit": x}).make_url()
    S.cover("number")
    S.require(url == "/a?limit=" + str(x), "number as parameter", lambda: [url])
    S.require(Request(path="/a", query_parameters={"limit": 0}).make_url() == "/a?limit=0", "0 as parameter")
    S.require(Request(path="/a", query_parameters={"limit": ""}).make_url() == "/a?limit=", "empty text as parameter")
    S.require(Request(path="/a", query_parameters={"limit": False}).make_url() == "/a?limit=False", "False as parameter")


def h_url(S, host, nh, prefixes, n, remove, nr):
    """where a request goes: host, prefixes, path; the configured prefix is removed from the path at a segment boundary"""
    h = host + S.str("host", nh, alpha="aB./:")
    S.assume(S.Not(S.And(S.len(h) > 1, h[-2:] == "//")))
    p = S.str("p", n, alpha="abA/.")
    rp = remove + S.str("r", nr, alpha="abA/.")
    S.assume(S.Not(rp[-1:] == "/"))
    with_query = S.pick("query", [False, True])
    pre = []
    c = HttpClient(h, remove_path_prefix=rp)
    for x in prefixes:
        pre.append(x)
        c = c.descend(x)
    req = Request(path=p, query_parameters={"limit": 1} if with_query else {})
    with Wire(S) as w:
        c.send(req)
    url = one(S, w).url
    base = h[:-1] if h[-1:] == "/" else h
    path = "".join(pre) + p
    if len(rp) > 0 and (path == rp or path[:len(rp) + 1] == rp + "/"):
        S.cover("prefix removed")
        path = path[len(rp):]
    else:
        S.cover("prefix kept")
    want = base + path + ("?limit=1" if with_query else "")
    S.require(url == want, "URL of a request", lambda: [h, pre, p, rp, url, want])


def h_path(S, ns, n, query):
    """prefixes and paths of any content reach the server as they are"""
    pre = [S.str("q%d" % i, k) for i, k in enumerate(ns)]
    p = S.str("p", n)
    c = HttpClient("http://h/api")
    for x in pre:
        c = c.descend(x)
    with Wire(S) as w:
        c.send(Request(path=p, query_parameters=query))
    url = one(S, w).url
    S.cover("path")
    want = "http://h/api" + "".join(pre) + p + ("?limit=1" if query else "")
    S.require(url == want, "URL of a request with prefixes", lambda: [url, want])


def h_send(S, n):
    """method, headers, body and TLS verification of a request"""
    a, b, c = S.str("a", n), S.str("b", n), S.str("c", n)
    verify = S.pick("verify", [True, False])
    method = S.pick("method", ["get", "post", "put", "delete", "patch", "head", "options"])
    names = S.pick("names", [("X", "Y"), ("X", "X")])
    add = {names[0]: a, "Authorization": c}
    own = {names[1]: b}
    client = HttpClient("http://h", verify=verify, additional_headers=add)
    depth = S.pick("depth", [0, 1, 2])
    for i in range(depth):
        client = client.descend("/p%d" % i)
    has = S.pick("own", [True, False])
    req = Request(path="/x", method=method, headers=own if has else {})
    with Wire(S) as w:
        r = client.send(req)
    s = one(S, w)
    S.cover("send")
    S.require(isinstance(r, Reply), "the response is returned")
    S.require(s.method.lower() == method, "method", lambda: [s.method, method])
    S.require(s.verify == verify, "TLS verification", lambda: [s.verify, verify])
    S.require(not s.body, "body of a request without body", lambda: [s.body])
    want = dict(add)
    if has:
        want[names[1]] = b
    S.require(len(s.headers) == len(want), "number of headers", lambda: [s.headers, want])
    for k in want:
        S.require(k in s.headers, "a header is not sent", lambda: [k, s.headers])
        S.require(s.headers[k] == want[k], "value of a header", lambda: [k, s.headers])
    S.require(add == {names[0]: a, "Authorization": c}, "sending changes the headers of the client")
    S.require(own == {names[1]: b}, "sending changes the request")
    with Wire(S) as w:
        client.send(Request(path="/z"))
    s = one(S, w)
    S.require(s.url == "http://h" + "".join("/p%d" % i for i in range(depth)) + "/z", "URL of the next request")
    S.require(s.headers == {names[0]: a, "Authorization": c}, "headers of the next request", lambda: [s.headers])


def h_body(S, kind, n):
    v = S.str("v", n) if n else ""
    body = {"text": v, "dict": {"a": v, "b": [1, None, True]}, "list": [v, {}], "empty dict": {}, "empty list": [], "zero": 0, "false": False}[kind]
    method = S.pick("method", ["post", "get", "put", "delete", "patch"])
    params = S.pick("query", [{}, {"a": 1, "b": None}])
    req = Request(path="/x", method=method, body=body, query_parameters=params, headers={"B": "2"})
    client = HttpClient("http://h")
    with Wire(S) as w:
        client.send(req)
        client.send(req)
    S.require(len(w.sent) == 2, "a request is sent as often as asked", lambda: len(w.sent))
    s, again = w.sent
    got = s.body
    S.cover("body")
    S.require(s.method.lower() == method, "method of a request with a body", lambda: [s.method, method])
    S.require(s.url == "http://h/x" + ("?a=1" if params else ""), "URL of a request with a body", lambda: [s.url])
    S.require(s.headers == {"B": "2"}, "headers of a request with a body", lambda: [s.headers])
    S.require(s.body == again.body and s.method == again.method and s.url == again.url and s.headers == again.headers, "the same request again",
              lambda: [s.url, again.url, s.headers, again.headers])
    S.require(req.method == method and req.path == "/x" and req.query_parameters == ({"a": 1, "b": None} if params else {}) and req.headers == {"B": "2"}
              and req.body is body, "sending changes the request", lambda: [req])
    S.require(got is not None, "a body is not sent", lambda: [body])
    if isinstance(got, bytes):
        got = got.decode()
    S.require(S.Or(got == json.dumps(body), got == json.dumps(body, separators=(",", ":")), got == json.dumps(body, ensure_ascii=False)),
              "body of a request", lambda: [body, got])


def h_history(S, n):
    """any sequence of descents and requests: every client keeps its own settings"""
    clients = [(HttpClient("http://h", verify=True, remove_path_prefix="/r", additional_headers={"A": "1"}), "http://h", [], {"A": "1"}, True, "/r"),
               (HttpClient("http://g"), "http://g", [], {}, False, "")]
    reqs = [(Request(path="/r/x"), "/r/x", {}), (Request(path="/y", headers={"B": "2"}), "/y", {"B": "2"})]
    for i in range(n):
        op = S.pick("op%d" % i, ["descend", "send", "new"])
        if op == "new":
            clients.append((HttpClient("http://new"), "http://new", [], {}, False, ""))
            continue
        k = S.pick("client%d" % i, list(range(len(clients))))
        c, host, pre, headers, verify, rp = clients[k]
        if op == "descend":
            clients.append((c.descend("/p%d" % i), host, pre + ["/p%d" % i], headers, verify, rp))
            continue
        j = S.pick("req%d" % i, [0, 1])
        req, path, own = reqs[j]
        with Wire(S) as w:
            c.send(req)
        s = one(S, w)
        full = "".join(pre) + path
        if rp and (full == rp or full.startswith(rp + "/")):
            full = full[len(rp):]
        S.cover("history")
        S.require(s.url == host + full, "URL after a history", lambda: [s.url, host + full])
        S.require(s.headers == {**headers, **own}, "headers after a history", lambda: [s.headers, headers, own])
        S.require(s.verify == verify, "TLS verification after a history")
    for c, host, pre, headers, verify, rp in clients:
        with Wire(S) as w:
            c.send(Request(path="/z"))
        s = one(S, w)
        S.require(s.url == host + "".join(pre) + "/z", "URL of a client", lambda: [s.url, host, pre])
        S.require(s.headers == headers, "headers of a client", lambda: [s.headers, headers])
        S.require(s.verify == verify, "TLS verification of a client")


def h_depth(S, n):
    """any number of descents, all of them kept; the client descended from is unchanged"""
    c = HttpClient("http://h", remove_path_prefix="/r", additional_headers={"A": "1"})
    pre, all = [], [(c, "")]
    for i in range(n):
        x = "/" + S.str("q%d" % i, 1, alpha="ab/?%")
        pre.append(x)
        c = c.descend(x)
        all.append((c, "".join(pre)))
    S.cover("depth")
    for c, path in all:
        with Wire(S) as w:
            c.send(Request(path="/p", query_parameters={"limit": 1}))
        s = one(S, w)
        S.require(s.url == "http://h" + path + "/p?limit=1", "URL after descents", lambda: [s.url, path])
        S.require(s.headers == {"A": "1"}, "headers after descents")


def h_wire_error(S):
    """a failing connection is not swallowed: the caller sees it"""
    kind = S.pick("kind", [requests.exceptions.ConnectionError, requests.exceptions.Timeout, requests.exceptions.SSLError])

    def answer(i, s):
        raise kind("no")
    with Wire(S, answer) as w:
        r, e = S.call(HttpClient("http://h").send, Request(path="/x"))
    S.cover("wire error")
    S.require(isinstance(e, kind), "a failing connection", lambda: repr(e))
    one(S, w)


def c27(tier):
    q = tier == "quick"
    out = []
    for n in range(0, 4 if q else 5):
        for kind in ("str", "object", "key"):
            out.append(("h_query", {"n": n, "kind": kind, "extra": n == 1}, {"weight": n * 3}))
        out.append(("h_noquery", {"n": n}))
    out.append(("h_number", {}))
    for host, nh in (("", 1), ("http://h", 0), ("http://h", 1), ("http://h/", 0), ("http://h", 2), ("http://h/api", 1)):
        out.append(("h_url", {"host": host, "nh": nh, "prefixes": [], "n": 2, "remove": "", "nr": 0}))
    for prefixes in ([], ["/a"], ["", "/a"], ["/a/b", "/a"]):
        for n in range(0, 5 if q else 6):
            for remove, nr in (("", 1), ("", 2), ("", 3), ("/a", 1), ("/a/b", 0), ("/a/b/a", 1)) if n < 4 else (("/a", 0), ("/", 2)):
                out.append(("h_url", {"host": "http://h", "nh": 0, "prefixes": prefixes, "n": n, "remove": remove, "nr": nr}, {"weight": n}))
    for ns, n in (([1], 1), ([2], 0), ([2], 2), ([3], 1), ([2, 2], 1), ([4], 0), ([1, 1, 1], 1), ([], 5)):
        out += [("h_path", {"ns": ns, "n": n, "query": x}) for x in ({}, {"limit": 1, "cursor": None})]
    out += [("h_send", {"n": n}) for n in (0, 1, 3)]
    for kind in ("text", "dict", "list", "empty dict", "empty list", "zero", "false"):
        for n in (0, 1, 2):
            out.append(("h_body", {"kind": kind, "n": n}))
    out += [("h_history", {"n": n}) for n in ((2, 3) if q else (2, 3, 4))]
    out += [("h_depth", {"n": n}) for n in ((2, 7) if q else (2, 7, 20))]
    out.append(("h_wire_error", {}))
    return out


# ---- C28 -------------------------------------------------------------------------
URL64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"


def sextet(S, c):
    o = ord(c)
    return S.If(o >= 97, o - 71, S.If(o == 95, 63, S.If(o >= 65, o - 65, S.If(o == 45, 62, o + 4))))


def decode64(S, t):
    """bytes of unpadded base64url"""
    out = []
    v = [sextet(S, c) for c in t]
    for i in range(0, len(v), 4):
        g = v[i:i + 4]
        if len(g) > 1:
            out.append((g[0] * 4 + g[1] // 16) % 256)
        if len(g) > 2:
            out.append((g[1] % 16) * 16 + g[2] // 4)
        if len(g) > 3:
            out.append((g[2] % 4) * 64 + g[3])
    return out


class Id64(StringFormattedValue):
    base64 = True


class Plain(StringFormattedValue):
    pass


class Other(StringFormattedValue):
    max_length = 100


def h_base64(S, n, pre="", post="", hi=0x10FFFF):
    s = pre + S.str("s", n, alpha=[(0, min(hi, 0xD7FF))] + ([(0xE000, hi)] if hi > 0xE000 else [])) + post
    t = base64_urlsafe(s)
    S.cover("base64")
    for c in t:
        S.require(S.chars_in(c, URL64), "characters of an identifier in a URL", lambda: [s, t])
    want = utf8(S, s)
    S.require(len(t) == (len(want) * 4 + 2) // 3, "length of an identifier in a URL", lambda: [s, t])
    got = decode64(S, t)
    S.require(len(got) == len(want), "number of bytes of an identifier in a URL", lambda: [s, t])
    for x, y in zip(got, want):
        S.require(x == y, "identifier in a URL", lambda: [s, t])


XML1 = [(9, 10), (13, 13), (32, 0xD7FF), (0xE000, 0xFFFD), (0x10000, 0x10FFFF)]


def h_value(S, n, m):
    a, b = S.str("a", n, alpha=XML1), S.str("b", m, alpha=XML1)
    S.cover("value")
    S.require(str(Plain(a)) == a, "text of a value")
    S.require(Plain(a).raw_value == a, "raw value")
    S.require(str(Id64(a)) == base64_urlsafe(a), "text of an encoded value")
    S.require(Id64(a).raw_value == a, "raw value of an encoded value")
    S.require(S.Iff(Plain(a) == Plain(b), a == b), "equal values")
    S.require(S.Iff(Id64(a) == Id64(b), a == b), "equal encoded values")
    S.require(S.Iff(Plain(a) != Plain(b), S.Not(a == b)), "unequal values")
    S.require(S.Iff(Plain(a) == Other(b), a == b), "equal values of different types")
    S.require(S.Iff(Id64(a) == Plain(b), a == b), "equal encoded and plain values")
    S.require(S.Iff(Plain(a) == Id64(b), a == b), "equal plain and encoded values")
    S.require(f"/shells/{Id64(a)}" == "/shells/" + base64_urlsafe(a), "encoded value in a path")


def c28(tier):
    q = tier == "quick"
    out = [("h_base64", {"n": n}, {"weight": n * 4, "budget": 60 if q else 1800}) for n in range(0, 3 if q else 4)]
    out.append(("h_base64", {"n": 3, "hi": 0x7FF if q else 0x10FFFF}, {"weight": 12, "budget": 120 if q else 1800}))
    out.append(("h_base64", {"n": 4, "hi": 0x7F if q else 0x7FF}, {"weight": 12, "budget": 120 if q else 1800}))
    out += [("h_base64", {"n": n, "pre": p, "post": x}, {"weight": n}) for n in (1, 2) for p in ("https://x/", "urn:é", "a") for x in ("", "?>", "ÿ\U0010ffff")]
    # long identifiers (line lengths of MIME, buffers)
    out += [("h_base64", {"n": 1, "pre": p, "post": x}) for p, x in (("https://example.com/ids/sm/" + "0123456789_" * 3, ""), ("x" * 56, "/"), ("x" * 75, "y" * 76),
                                                                   ("urn:" + "a-" * 60, "é" * 40), ("~?>" * 350, "z"), ("é" * 2046, "ü"))]
    out += [("h_value", {"n": n, "m": m}) for n, m in ((1, 2), (2, 3), (1, 3))]
    out += [("h_value", {"n": n, "m": m}) for n in range(0, 3 if q else 4) for m in range(0, 3 if q else 4)]
    return out


PROPS = {
    "C26": {
        "cases": c26,
        "bounds": "filters of up to 3 (thorough 5) arbitrary printable characters, up to 5 (6) characters over the special ones, and the listed longer frames; names of up to 3 characters; filters of up to 40 (70) patterns, one of them free; the dry runs of the four suites with filters with up to 2 free characters",
        "assumptions": ["bracket expressions follow fnmatch: ranges low-high, '!' negates, ']' in first place is a member"],
        "must_cover": ["includes", "excludes", "invalid", "order", "many", "two", "dry run", "live run"],
    },
    "C27": {
        "cases": c27,
        "bounds": "parameter values of up to 3 (thorough 4) arbitrary characters; paths of up to 4 (5), prefixes and paths of up to 5 arbitrary characters, removed prefixes of up to 6 and hosts with up to 2 free characters; histories of up to 3 (4) operations, up to 7 (20) descents",
        "assumptions": ["the transport is requests; calls are recorded at Session.request", "removed prefixes ending in '/' and hosts ending in '//' are not specified"],
        "must_cover": ["query", "no query", "number", "prefix removed", "prefix kept", "path", "send", "body", "history", "depth", "wire error"],
    },
    "C28": {
        "cases": c28,
        "bounds": "strings of up to 2 (thorough 3) arbitrary Unicode characters, 3 characters up to U+07FF, 4 ASCII characters (thorough up to U+07FF), also inside fixed texts of up to 2047 characters",
        "assumptions": [],
        "must_cover": ["base64", "value"],
    },
}
