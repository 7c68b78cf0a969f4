"""Runs against servers: which requests are sent and which answers pass."""
import base64
import json
import requests
from aas_test_engines import api
from aas_test_engines.config import CheckApiConfig, TestCaseFilter
from aas_test_engines.exception import AasTestToolsException
from aas_test_engines.http import HttpClient
from harness import docs as D
from harness.common import nodes
from harness.h_http import Wire, Reply, SUITES, full_name

AAS_REPO, SM_REPO, AAS, SM = SUITES
B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"


def parse_query(q):
    """the values the server compares need no decoding"""
    out = {}
    for part in q.split("&") if len(q) else []:
        k, _, v = part.partition("=")
        out[k] = v
    return out


class Answer(Reply):
    def __init__(self, status, data, valid=True):
        self.status_code = status
        self.data = data
        self.valid = valid
        self.content = b"{}" if valid else b"?"

    def json(self):
        if not self.valid:
            raise requests.exceptions.JSONDecodeError("bad", "?", 0)
        return self.data


def elements():
    out = []
    for i, c in enumerate(D.SMES):
        e = D.minimal(c)
        e["idShort"] = "el%d" % i
        if c == "SubmodelElementCollection":
            e["value"] = [{"modelType": "Property", "idShort": "inner", "valueType": "xs:int"}]
        if c == "SubmodelElementList":
            e["value"] = [{"modelType": "Capability"}]
            e["typeValueListElement"] = "Capability"
        out.append(e)
    return out


def shell(i, sid):
    return {"modelType": "AssetAdministrationShell", "id": sid, "idShort": "shell%d" % i,
            "assetInformation": {"assetKind": "Instance", "globalAssetId": "urn:asset:%d" % i},
            "submodels": [{"type": "ModelReference", "keys": [{"type": "Submodel", "value": "urn:sm:%d" % i}]}]}


def submodel(i):
    return {"modelType": "Submodel", "id": "urn:sm:%d" % i, "idShort": "sm%d" % i, "submodelElements": elements()}


def b64(s):
    return base64.urlsafe_b64encode(s.encode()).decode().rstrip("=")


ERR = {"messages": [{"text": "no", "messageType": "Error"}]}


class Server:
    """a conforming server with two shells and two submodels; answers with (kind, status, data)
    kinds: ping, json (an object of the metamodel or a page), any (any JSON), binary, error"""

    def __init__(self, suite, ids=("urn:aas:0", "urn:aas:1")):
        self.suite = suite
        self.shells = [shell(i, x) for i, x in enumerate(ids)]
        self.subs = [submodel(0), submodel(1)]
        self.log = []

    def answer(self, path, query):
        bad = None
        try:
            r = self.route(path, query)
        except LookupError as e:
            r = ("error", 404, ERR)
            bad = e.args[0]
        except AssertionError as e:
            r = ("unknown", 404, ERR)
        self.log.append((path, query, r[0], bad))
        return r

    def check(self, query, **allowed):
        for k in query:
            if k not in allowed:
                raise AssertionError("parameter %s" % k)
            v = query[k]
            a = allowed[k]
            if a == "limit":
                if int(v) < 1:
                    raise LookupError(k)
            elif a == "b64":
                if not all(c in B64 for c in v):
                    raise LookupError(k)
            elif a == "bool":
                if v not in ("true", "false", "True", "False"):
                    raise LookupError(k)
            elif isinstance(a, list):
                if v not in a:
                    raise LookupError(k)

    def page(self, items, query):
        out = {"paging_metadata": {}, "result": items}
        if "limit" in query and int(query["limit"]) < len(items):
            out["result"] = items[:int(query["limit"])]
            out["paging_metadata"] = {"cursor": "next"}
        if "cursor" in query:
            out["result"] = items[1:2]
        return ("json", 200, out)

    def route(self, path, query):
        if path == "":
            return ("ping", 200, {})
        if path == "/" and self.suite == AAS:
            return ("json", 200, self.shells[0])  # see K30-root
        if path == "/description":
            self.check(query)
            return ("json", 200, {"profiles": [full_name(self.suite)]})
        if path == "/serialization" or path.endswith("/serialization"):
            self.check(query, aasIds="b64", submodelIds="b64", includeConceptDescriptions="bool")
            return ("json", 200, {"assetAdministrationShells": self.shells, "submodels": self.subs, "conceptDescriptions": [D.minimal("ConceptDescription")]})
        if self.suite == AAS_REPO:
            return self.shells_(path, query)
        if self.suite == SM_REPO:
            if path.startswith("/shells"):
                return self.shells_(path, query)
            return self.submodels_(path, query)
        if self.suite == AAS:
            assert path.startswith("/aas"), path
            if path == "/aas/shells":
                return self.shells_(path[4:], query)
            return self.shell_(self.shells[0], path[4:], query)
        assert path.startswith("/submodel"), path
        if path == "/submodel/shells":
            return self.shells_("/shells", query)
        return self.submodel_(self.subs[0], path[9:], query)

    def shells_(self, path, query):
        if path in ("/shells", "/shells/$reference"):
            self.check(query, limit="limit", cursor="any", idShort="any", assetIds="b64")
            items = [s for s in self.shells if query.get("idShort", s["idShort"]) == s["idShort"]]
            if path != "/shells":
                items = [{"type": "ModelReference", "keys": [{"type": "AssetAdministrationShell", "value": s["id"]}]} for s in items]
            return self.page(items, query)
        assert path.startswith("/shells/"), path
        key, _, rest = path[8:].partition("/")
        for s in self.shells:
            if b64(s["id"]) == key:
                return self.shell_(s, "/" + rest if rest else "", query)
        raise LookupError(key)

    def shell_(self, s, path, query):
        if path in ("", "/"):
            self.check(query)
            return ("json", 200, s)
        if path == "/$reference":
            self.check(query)
            return ("json", 200, {"type": "ModelReference", "keys": [{"type": "AssetAdministrationShell", "value": s["id"]}]})
        if path == "/asset-information":
            self.check(query)
            return ("json", 200, s["assetInformation"])
        if path == "/asset-information/thumbnail":
            self.check(query)
            return ("binary", 200, None)
        if path == "/submodel-refs":
            self.check(query, limit="limit", cursor="any")
            return self.page(s["submodels"] + [{"type": "ModelReference", "keys": [{"type": "Submodel", "value": "urn:sm:1"}]}], query)
        assert path.startswith("/submodels/"), path
        return self.submodels_(path, query)

    def submodels_(self, path, query):
        tail = {"/submodels": None, "/submodels/$metadata": "m", "/submodels/$value": "v", "/submodels/$reference": "r", "/submodels/$path": "p"}
        if path in tail:
            self.check(query, limit="limit", cursor="any")
            t = tail[path]
            items = {None: self.subs, "m": self.subs, "v": [{"a": 1}, {"b": 2}], "p": ["a", "b"],
                     "r": [{"type": "ModelReference", "keys": [{"type": "Submodel", "value": x["id"]}]} for x in self.subs]}[t]
            return self.page(items, query)
        assert path.startswith("/submodels/"), path
        key, _, rest = path[11:].partition("/")
        for s in self.subs:
            if b64(s["id"]) == key:
                return self.submodel_(s, "/" + rest if rest else "", query)
        raise LookupError(key)

    def submodel_(self, s, path, query):
        level, extent = ["core", "deep"], ["withBlobValue", "withoutBlobValue"]
        if path in ("", "/"):
            self.check(query, level=level, extent=extent)
            return ("json", 200, s)
        if path == "/$metadata":
            self.check(query)
            return ("json", 200, s)
        if path == "/$value":
            self.check(query, level=level, extent=extent)
            return ("any", 200, {"a": 1})
        if path == "/$reference":
            self.check(query)
            return ("json", 200, {"type": "ModelReference", "keys": [{"type": "Submodel", "value": s["id"]}]})
        if path == "/$path":
            self.check(query, level=level)
            return ("json", 200, ["a", "b"])
        base = "/submodel-elements"
        assert path.startswith(base), path
        els = s["submodelElements"]
        rest = path[len(base):]
        if rest in ("", "/$metadata", "/$value", "/$reference", "/$path"):
            if rest == "":
                self.check(query, level=level, extent=extent, limit="limit", cursor="any")
            elif rest in ("/$value", "/$path"):
                self.check(query, level=level, limit="limit", cursor="any")
            else:
                self.check(query, limit="limit", cursor="any")
            items = {"": els, "/$metadata": els, "/$value": [{"a": i} for i in range(3)], "/$path": ["a", "b"],
                     "/$reference": [self.ref(s, e) for e in els]}[rest]
            return self.page(items, query)
        key, _, rest = rest[1:].partition("/")
        for e in els:
            if e["idShort"] == key:
                return self.element(s, e, rest, query, level, extent)
        raise LookupError(key)

    def ref(self, s, e):
        return {"type": "ModelReference", "keys": [{"type": "Submodel", "value": s["id"]}, {"type": e["modelType"], "value": e["idShort"]}]}

    def element(self, s, e, rest, query, level, extent):
        mt = e["modelType"]
        if rest == "":
            self.check(query, level=level, extent=extent)
            return ("json", 200, e)
        if rest == "$metadata":
            self.check(query)
            if mt in ("Capability", "Operation"):
                raise LookupError(mt)
            return ("any", 200, {"a": 1})
        if rest == "$value":
            self.check(query, level=level, extent=extent)
            return ("any", 200, {"a": 1})
        if rest == "$reference":
            self.check(query)
            return ("json", 200, self.ref(s, e))
        if rest == "$path":
            self.check(query, level=level)
            if mt not in ("SubmodelElementCollection", "SubmodelElementList", "Entity"):
                raise LookupError(mt)
            return ("json", 200, ["a"])
        if rest == "attachment":
            self.check(query)
            if mt != "File":
                raise LookupError(mt)
            return ("binary", 200, None)
        raise AssertionError(rest)


def run(S, suite, op, fault=None, ids=("urn:aas:0", "urn:aas:1")):
    """one run of an operation; fault(index, kind, status, data) may replace an answer"""
    srv = Server(suite, ids)

    def answer(i, s):
        assert s.url.startswith("http://h"), s.url
        path, _, q = s.url[len("http://h"):].partition("?")
        kind, status, data = srv.answer(path, parse_query(q))
        if fault is not None:
            r = fault(i, kind, status, data)
            if r is not None:
                return r
        return Answer(status, data)
    with Wire(S, answer) as w:
        out, e = S.call(api.execute_tests, HttpClient("http://h"), CheckApiConfig(suite=full_name(suite), filter=TestCaseFilter(op)))
    return srv, out, e


# ---- C30 which requests are sent -------------------------------------------------------
LEVEL, EXTENT = ("level", ["core", "deep"]), ("extent", ["withBlobValue", "withoutBlobValue"])
PAGE = ["limit"]
# operation -> (path below its base, parameters with an invalid value, requests which must occur)
SHELLS = {
    "GetAllAssetAdministrationShells": ("/shells", ["limit", "assetIds"], ["", "limit", "idShort", "assetIds"]),
    "GetAllAssetAdministrationShells-Reference": ("/shells/$reference", ["limit", "assetIds"], ["", "limit", "idShort", "assetIds"]),
    "GetAssetAdministrationShellById": ("/shells/{aas}", ["path"], [""]),
    "GetAssetAdministrationShellById-Reference": ("/shells/{aas}/$reference", ["path"], [""]),
}
SHELL = {
    "GetAssetInformation": ("/asset-information", [], [""]),
    "GetThumbnail": ("/asset-information/thumbnail", [], [""]),
    "GetAllSubmodelReferences": ("/submodel-refs", ["limit"], ["", "limit"]),
    "GetSubmodelById": ("/submodels/{sm}", ["path", "level", "extent"], [""]),
    "GetSubmodelById-Metadata": ("/submodels/{sm}/$metadata", ["path"], [""]),
    "GetSubmodelById-ValueOnly": ("/submodels/{sm}/$value", ["path", "level", "extent"], [""]),
    "GetSubmodelById-Reference": ("/submodels/{sm}/$reference", ["path"], [""]),
    "GetSubmodelById-Path": ("/submodels/{sm}/$path", ["path", "level"], [""]),
}
BYID = [k for k in SHELL if k.startswith("GetSubmodelById")]
SUBMODELS = {"GetAllSubmodels" + k: ("/submodels" + v, ["limit"], ["", "limit"]) for k, v in
             (("", ""), ("-Metadata", "/$metadata"), ("-ValueOnly", "/$value"), ("-Reference", "/$reference"), ("-Path", "/$path"))}
COMBOS = ["level=core", "level=deep", "extent=withBlobValue", "extent=withoutBlobValue", "level=core&extent=withoutBlobValue",
          "level=deep&extent=withoutBlobValue", "level=core&extent=withBlobValue", "level=deep&extent=withBlobValue"]
ELEMENTS = {
    "GetAllSubmodelElements": ("/submodel-elements", ["limit", "level", "extent"], ["", "limit"] + COMBOS),
    "GetAllSubmodelElements-Metadata": ("/submodel-elements/$metadata", ["limit"], ["", "limit"]),
    "GetAllSubmodelElements-ValueOnly": ("/submodel-elements/$value", ["limit", "level"], ["", "limit"] + COMBOS[:2]),
    "GetAllSubmodelElements-Reference": ("/submodel-elements/$reference", ["limit"], ["", "limit"]),
    "GetAllSubmodelElements-Path": ("/submodel-elements/$path", ["limit", "level"], ["", "limit"] + COMBOS[:2]),
    "GetSubmodelElementByPath": ("/submodel-elements/{el}", ["level", "extent"], [""] + COMBOS),
    "GetSubmodelElementByPath-Metadata": ("/submodel-elements/{el}/$metadata", [], [""]),
    "GetSubmodelElementByPath-ValueOnly": ("/submodel-elements/{el}/$value", ["level", "extent"], [""] + COMBOS),
    "GetSubmodelElementByPath-Reference": ("/submodel-elements/{el}/$reference", [], [""]),
    "GetSubmodelElementByPath-Path": ("/submodel-elements/{el}/$path", ["level"], [""]),
    "GetFileByPath": ("/submodel-elements/{file}/attachment", [], [""]),
}
GLOBAL = {"GetDescription": ("/description", [], [""]),
          "GenerateSerializationByIds": ("/serialization", ["aasIds", "submodelIds", "includeConceptDescriptions"], ["", "aasIds", "submodelIds", "includeConceptDescriptions"])}
OPS = {
    AAS_REPO: {**{k: ("", v) for k, v in SHELLS.items()}, **{k: ("/shells/{aas}", v) for k, v in SHELL.items()},
               **{k: ("/shells/{aas}/submodels/{sm}", v) for k, v in ELEMENTS.items()}, **{k: ("", v) for k, v in GLOBAL.items()}},
    SM_REPO: {**{k: ("", v) for k, v in SUBMODELS.items()}, **{k: ("", SHELL[k]) for k in BYID},
              **{k: ("/submodels/{sm}", v) for k, v in ELEMENTS.items()}, **{k: ("", v) for k, v in GLOBAL.items()}},
    AAS: {"GetAssetAdministrationShell": ("/aas", ("/", [], [""])), "GetAssetAdministrationShell-Reference": ("/aas", ("/$reference", [], [""])),
          **{k: ("/aas", v) for k, v in SHELL.items()}, **{k: ("/aas/submodels/{sm}", v) for k, v in ELEMENTS.items()}, **{k: ("", v) for k, v in GLOBAL.items()}},
    SM: {**{"GetSubmodel" + k: ("/submodel", ("/" + v, [], [""])) for k, v in
            (("", ""), ("-Metadata", "$metadata"), ("-ValueOnly", "$value"), ("-Reference", "$reference"), ("-Path", "$path"))},
         **{k: ("/submodel", v) for k, v in ELEMENTS.items()}, **{k: ("", v) for k, v in GLOBAL.items()}},
}


def h_requests(S, suite, op, n):
    """the requests of an operation go to its path, with every documented variation, and a conforming server passes"""
    base, (below, invalid, must) = OPS[suite][op]
    ids = ("urn:aas:0" + (S.str("id", n, alpha=[(33, 0x7e), (0xa1, 0x2fff)]) if n else ""), "urn:aas:1")
    srv, out, e = run(S, suite, op, None, ids)
    S.require(e is None, "a run raises", lambda: repr(e))
    S.cover("requests")
    r = out[0]
    S.require(out[1].invalid_accepted == 0 and out[1].valid_rejected == 0, "a conforming server fails tests", lambda: vars(out[1]))
    S.require(r.ok(), "a conforming server fails", lambda: [n.message for n in nodes(r) if not n.sub_results and n.level.value >= 2])
    log = srv.log
    bad = [x for x in log if x[2] == "unknown"]
    S.require(not bad, "a request outside the interface", lambda: bad)
    S.require(not (suite == AAS and any(x[0] == "/" for x in log)), "the shell is requested at the root", known=[("K30-root", "{sm}/" in base + below + "/" and "submodels" in base)])
    path = (base + below).replace("{aas}", b64(srv.shells[0]["id"])).replace("{sm}", b64("urn:sm:0"))
    if op == "GenerateSerializationByIds" and suite in (AAS, SM):
        S.require(all(not x[0].endswith("/serialization") or x[0] == path for x in log), "the path of an operation", lambda: log, known=[("K30-ser", True)])
        path = base + {AAS: "/aas", SM: "/submodel"}[suite] + below
    targets = [path]
    if "{el}" in path:
        targets = [path.replace("{el}", "el%d" % i) for i in range(len(D.SMES))]
    if "{file}" in path:
        targets = [path.replace("{file}", "el%d" % D.SMES.index("File"))]
    for t in targets:
        own = [x for x in log if x[0] == t]
        for m in must:
            q = dict(x.split("=") for x in m.split("&")) if "=" in m else None
            if q is not None:
                hit = any(x[1] == q for x in own)
            elif m == "":
                hit = any(x[1] == {} for x in own)
            else:
                hit = any(m in x[1] and x[2] != "error" for x in own)
            S.require(hit, "a variation is not tested", lambda: [t, m, own], known=[("K30-combo", op == "GetAllSubmodelElements" and m == "level=core&extent=withBlobValue")])
    for p in invalid:
        if p == "path":
            head, tail = path[:path.index(b64(srv.shells[0]["id"]) if "{aas}" in below else b64("urn:sm:0"))], below[below.index("}") + 1:]
            hit = any(x[2] == "error" and x[0].startswith(head) and x[0].endswith(tail) for x in log)
        else:
            hit = any(x[2] == "error" and x[3] == p for x in log)
        S.require(hit, "an invalid value is not tested", lambda: [p, log])
    if "limit" in must:
        S.require(any(x[0] == path and x[1].get("cursor") == "next" for x in log), "the cursor is not tested", lambda: log, known=[("K30-cursor", True)])


def h_client(S, suite, op):
    """every request of a run is made by the given client: host, prefixes, headers, TLS verification, removed prefix"""
    prefixes = S.pick("prefixes", [[], ["/p"], ["/p", "/q"]])
    remove = S.pick("remove", ["", "/p", "/p/q", "/x"])
    verify = S.pick("verify", [True, False])
    value = S.str("value", 1, alpha=[(33, 0x7e)])
    client = HttpClient("http://h/", verify=verify, remove_path_prefix=remove, additional_headers={"X": value})
    for x in prefixes:
        client = client.descend(x)
    base = "".join(prefixes)
    if remove and (base + "/").startswith(remove + "/"):
        base = base[len(remove):]
    srv = Server(suite)

    def answer(i, s):
        S.require(s.url == "http://h" + base or s.url.startswith("http://h" + base + "/"), "a request does not go where the client sends it", lambda: [s.url, base])
        S.require(S.And("X" in s.headers, s.headers.get("X") == value), "a request without the headers of the client", lambda: [s.headers])
        S.require(s.verify is verify, "TLS verification of a request of a run")
        path, _, q = s.url[len("http://h" + base):].partition("?")
        kind, status, data = srv.answer(path, parse_query(q))
        return Answer(status, data)
    with Wire(S, answer) as w:
        out, e = S.call(api.execute_tests, client, CheckApiConfig(suite=full_name(suite), filter=TestCaseFilter(op)))
    S.cover("client")
    S.require(e is None, "a run with a client raises", lambda: repr(e))
    S.require(len(w.sent) > 0, "a run sends nothing")
    S.require(out[0].ok(), "a conforming server fails", lambda: out[0].to_dict())


def h_profiles(S):
    """the suites and their operations"""
    suite = S.pick("suite", SUITES)
    with Wire(S, None) as w:
        out, e = S.call(api.execute_tests, HttpClient("http://h"), CheckApiConfig(suite=full_name(suite), dry=True))
    S.require(e is None and not w.sent, "dry run", lambda: repr(e))
    text = [n.message for n in nodes(out[0])]
    S.cover("profiles")
    for op in OPS[suite]:
        S.require(any(m.endswith(" " + op) for m in text), "an operation is not part of the suite", lambda: [op, text])
    S.require(sum(1 for m in text if m.startswith("Checking ") and not m.startswith("Checking compliance")) == len(OPS[suite]), "operations of the suite", lambda: text)


def h_suite_name(S, n, around=False):
    """only the known suites and versions can be run"""
    kind = S.pick("kind", ["suite", "version"])
    k = S.pick("which", [0, 1, 2, 3])
    f = full_name(SUITES[k])
    conf = CheckApiConfig(suite=f, dry=True)
    cut = S.pick("before", list(range(n + 1))) if around else 0
    if kind == "suite":
        conf.suite = S.str("a", cut) + f + S.str("s", n - cut) if around else f[:len(f) - n] + S.str("s", n)
        ok = S.Or(*[conf.suite == full_name(x) for x in SUITES])
    else:
        conf.version = S.str("a", cut) + "3.0" + S.str("v", n - cut) if around else S.str("v", n)
        ok = S.Or(conf.version == "3.0", conf.version == "")
    with Wire(S, None) as w:
        out, e = S.call(api.execute_tests, HttpClient("http://h"), conf)
    S.cover("suite name")
    S.require(S.Iff(e is None, ok), "unknown suite or version", lambda: [conf.suite, conf.version, repr(e)])
    S.require(e is None or isinstance(e, AasTestToolsException), "kind of exception", lambda: repr(e))


def c30(tier):
    out = [("h_profiles", {})] + [("h_suite_name", {"n": n}) for n in ((0, 1, 2, 3, 4, 5) if tier == "quick" else range(9))]
    out += [("h_suite_name", {"n": n, "around": True}) for n in ((1, 2) if tier == "quick" else (1, 2, 3))]
    out += [("h_client", {"suite": s, "op": op}) for s, op in ((AAS_REPO, "GetAssetInformation"), (AAS, "GetAllSubmodelReferences"), (SM_REPO, "GetAllSubmodels"), (SM, "GetSubmodel"), (SM, "GetDescription"), (AAS, "GetThumbnail"))]
    for s in SUITES:
        for op in OPS[s]:
            for n in (0, 1, 2) if "{aas}" in OPS[s][op][0] + OPS[s][op][1][0] and "ByPath" not in op else (0, 1):
                out.append(("h_requests", {"suite": s, "op": op, "n": n}))
    return out


# ---- C29 which answers pass ---------------------------------------------------------------
def h_answer(S, suite, op, lo, hi, what):
    """one answer of an otherwise conforming server is replaced"""
    k = S.pick("request", list(range(lo, hi)))
    status = S.int("status", 100, 599) if what == "status" else None
    body = S.pick("body", [("text", False), ({"x": 1}, True), ([], True), ({}, True), ("x", True), (7, True), (None, True), ([7], True), ({"result": []}, True)]) if what == "body" else None
    seen = []

    def fault(i, kind, st, data):
        if i != k:
            return None
        seen.append((kind, st, data))
        if what == "lost":
            raise requests.exceptions.ConnectionError("refused")
        if what == "status":
            return Answer(status, data)
        if what == "empty":
            return Answer(st, {"paging_metadata": {}, "result": []} if isinstance(data, dict) and "result" in data else [] if isinstance(data, list) else data)
        return Answer(st, body[0], body[1])
    srv, out, e = run(S, suite, op, fault)
    if not seen:
        S.cover("no such request")
        return
    kind, st, data = seen[0]
    S.cover("answer " + what)
    if what == "empty":
        # whether an empty page passes depends on the test
        S.require(e is None, "a run raises", lambda: [k, srv.log[k], repr(e)], known=[("K29-empty", isinstance(e, (IndexError, StopIteration)))])
        return
    if kind == "ping":
        ok = what != "lost"
    elif what == "lost":
        ok = False
    elif what == "status":
        ok = S.And(status >= 400, status <= 499) if kind == "error" else status == 200
    elif kind == "binary":
        ok = True
    elif kind == "error":
        ok = body[1] and body[0] == {}
    elif kind == "any":
        ok = body[1] and isinstance(body[0], (dict, list))
    else:
        ok = body[1] and (body[0] == [] and isinstance(data, list) or body[0] == {} and srv.log[k][0].endswith("/serialization"))
    if e is not None:
        S.require(False, "a run raises", lambda: [k, srv.log[k], repr(e)], known=[
            ("K29-lost", what == "lost" and isinstance(e, requests.exceptions.ConnectionError))])
        return
    r = out[0]
    S.require(S.Iff(r.ok(), ok), "verdict on an answer", lambda: [k, srv.log[k], status, body, [n.message for n in nodes(r) if not n.sub_results and n.level.value >= 2]],
              known=[("K29-status", kind in ("any", "binary") and what == "status")])
    if what == "lost" and kind == "ping":
        S.require(len(srv.log) == 1, "requests to an unreachable server")


def c29(tier):
    out = []
    for s in SUITES:
        for op in OPS[s]:
            many = op in ("GetSubmodelElementByPath", "GetSubmodelElementByPath-ValueOnly")
            for what in ("status", "body", "lost", "empty"):
                spans = [(0, 18)] if not many else [(0, 8), (64, 67)] if tier == "quick" else [(i, i + 13) for i in range(0, 130, 13)]
                if tier == "quick" and s != SM and op in ELEMENTS:
                    spans = [(0, 5)]
                for lo, hi in spans:
                    out.append(("h_answer", {"suite": s, "op": op, "lo": lo, "hi": hi, "what": what}, {"weight": 9 if many else 1}))
    return out


PROPS = {
    "C29": {"cases": c29,
            "bounds": "every operation of the four suites against a conforming server with two shells and two submodels (one element of each kind); one answer (any of the first 18, of the two "
                      "operations with 130 requests a part of them; thorough: all) gets any status code from 100 to 599, one of nine other bodies or is lost",
            "assumptions": ["whether an empty page passes is left open", "the transport is requests; calls are recorded at Session.request"],
            "must_cover": ["answer status", "answer body", "answer lost", "answer empty"], "budget": {"quick": 300, "thorough": 1500}},
    "C30": {"cases": c30,
            "bounds": "every operation of the four suites; the identifier of the first shell with 0 to 2 arbitrary characters; suite names whose last up to 5 (thorough: 8) characters are arbitrary or that have up to 2 (3) additional characters, and versions of as many characters",
            "assumptions": ["which values the tool takes as invalid is left open as long as the interface does not allow them", "requests for preparation may go to any path of the interface"],
            "must_cover": ["requests", "profiles", "suite name", "client"], "budget": {"quick": 120, "thorough": 600}},
}
