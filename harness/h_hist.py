"""Histories: what was checked or sent before does not matter, and checking changes nothing but the report."""
import zipfile
from symx.files import Member, json_doc, xml_doc, raw
from aas_test_engines import file, api
from aas_test_engines.config import CheckApiConfig, TestCaseFilter
from aas_test_engines.http import HttpClient
from aas_test_engines.result import AasTestResult, Level, start, write
from harness import docs
from harness.common import check_tree
from harness.h_file import value_doc, package, ubyte, content_types, rels, ORIGIN, SPEC
from harness.h_http import Wire, full_name
from harness.h_api import Server, Answer, parse_query, AAS_REPO, SM_REPO, AAS, SM

DIGITS = "0123456789+-a"


def freeze(r):
    """(message, level, findings) of a report"""
    return (r.message, r.level, [freeze(i) for i in r.sub_results])


def same(S, a, b, what):
    S.require(len(a[2]) == len(b[2]), what + ": number of findings", lambda: [a, b])
    S.require(S.And(a[0] == b[0], a[1] == b[1]), what, lambda: [a, b])
    for x, y in zip(a[2], b[2]):
        same(S, x, y, what)


def xml_shape(x):
    return (x.tag, dict(x.attrib), x.text, x.tail, [xml_shape(i) for i in x])


def equal(S, a, b):
    """deep equality keeping formulas"""
    if isinstance(a, dict) and isinstance(b, dict):
        return S.And(list(a) == list(b), *[equal(S, a[k], b[k]) for k in a if k in b])
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return S.And(len(a) == len(b), *[equal(S, x, y) for x, y in zip(a, b)])
    if a is None or b is None:
        return a is b
    return a == b


def old_types():
    o, s = (t.replace("http://", "http://www.") for t in (ORIGIN, SPEC))
    return o, s


def deprecated(doc):
    o, s = old_types()
    return [Member("[Content_Types].xml", content_types()), Member("_rels/.rels", rels((o, "/o"))), Member("o", raw(b"")),
            Member("_rels/o.rels", rels((s, "x.json"))), Member("x.json", doc)]


class Step:
    """one check with its own symbolic document"""

    def __init__(self, S, kind, i, n):
        self.S, self.kind = S, kind
        self.s = S.str("s%d" % i, n, alpha=DIGITS)
        self.good = ubyte(S, self.s)
        self.data = self.before = None
        d = value_doc(self.s)
        if kind == "json":
            self.data, self.before = d, docs.copy(d)
            self.run = lambda: file.check_json_data(self.data)
        elif kind == "xml":
            self.data = docs.env_xml(d)
            self.before = xml_shape(self.data)
            self.run = lambda: file.check_xml_data(self.data)
        elif kind == "json file":
            self.run = lambda: file.check_json_file(S.file(json_doc(d)))
        elif kind == "xml file":
            self.run = lambda: file.check_xml_file(S.file(xml_doc(docs.env_xml(d))))
        elif kind == "package":
            self.run = lambda: file.check_aasx_file(S.zip(package([Member("x.json", json_doc(d))], ["x.json"])))
        elif kind == "same names":
            # another package with the same part names, one document twice
            self.run = lambda: file.check_aasx_file(S.zip(package([Member("x.json", json_doc({})), Member("y.xml", xml_doc(docs.env_xml(d)))], ["x.json", "y.xml", "x.json"])))
        elif kind == "old types":
            self.run = lambda: file.check_aasx_file(S.zip(deprecated(json_doc(d))))
        elif kind == "broken package":
            self.good = False
            self.run = lambda: file.check_aasx_file(S.zip([Member("[Content_Types].xml", content_types())]))
        elif kind == "no json":
            self.good = False
            self.run = lambda: file.check_json_file(S.file(raw(b"{")))
        elif kind == "no xml":
            self.good = False
            self.run = lambda: file.check_xml_file(S.file(raw(b"<a>")))
        elif kind == "list":
            items = [{"modelType": "Property", "valueType": "xs:unsignedByte", "value": self.s}, {"modelType": "Property", "valueType": "xs:unsignedByte"}]
            o = docs.env_sme({"modelType": "SubmodelElementList", "idShort": "l", "typeValueListElement": "Property", "valueTypeListElement": "xs:unsignedByte", "value": items})
            self.data, self.before = o, docs.copy(o)
            self.run = lambda: file.check_json_data(self.data)
        elif kind == "class":
            # JSON and XML objects of a class given by the caller
            self.data = {"modelType": "Property", "idShort": "a", "valueType": "xs:unsignedByte", "value": self.s}
            self.before = docs.copy(self.data)
            self.run = lambda: file.check_json_data(self.data, model_type="Property")
        elif kind == "unknown class":
            self.good = None
            self.run = lambda: file.check_json_data({}, model_type="NoSuchClass")

    def check(self, when):
        S = self.S
        r, e = S.call(self.run)
        S.cover(self.kind)
        if self.good is None:
            S.require(S.Or(e is not None, r is None or S.Not(r.ok())), "unknown class accepted " + when)
            return None
        if self.kind == "class" and e is not None:
            S.assume(self.good)        # what C25 knows about compliant objects of a class is not this property's business
        else:
            S.require(e is None, "check raises " + when, lambda: [self.kind, repr(e)])
            check_tree(S, r)
            S.require(S.Iff(r.ok(), self.good), "verdict " + when, lambda: [self.kind, self.s, r.to_dict()])
        if self.data is not None:
            now = self.data if type(self.before) is dict else xml_shape(self.data)
            S.require(equal(S, now, self.before), "the document was changed by the check " + when, lambda: [self.before, now])
        return r


KINDS = ["json", "xml", "json file", "xml file", "package", "same names", "old types", "broken package", "no json", "no xml", "list", "class", "unknown class"]


def idle(S):
    """no report context is left open"""
    _, e = S.call(lambda: write("x"))
    S.require(isinstance(e, RuntimeError), "a report context is left open", lambda: repr(e))


def h_seq(S, kinds, n):
    """verdicts of a sequence of checks; then the first document again: the same report as the first time"""
    steps = [Step(S, k, i, n) for i, k in enumerate(kinds)]
    reports = []
    for i, s in enumerate(steps):
        r = s.check("after %d checks" % i)
        idle(S)
        if r is not None:
            reports.append((r, freeze(r)))
    again = steps[0].check("when repeated")
    if again is not None:
        same(S, freeze(again), reports[0][1], "a repeated check gives another report")
    for r, f in reports:
        same(S, freeze(r), f, "a finished report changed")
    idle(S)


def h_edit(S, kind, n):
    """a document the caller changes between two checks is judged as it is now"""
    a, b = S.str("a", n, alpha=DIGITS), S.str("b", n, alpha=DIGITS)
    d = value_doc(a)
    if kind == "xml":
        x = docs.env_xml(d)
        hit = [e for e in x.iter() if e.tag.endswith("}value") and not len(e)]
        assert len(hit) == 1
        run = lambda: file.check_xml_data(x)

        def put(s):
            hit[0].text = s
    else:
        run = lambda: file.check_json_data(d)

        def put(s):
            d["submodels"][0]["submodelElements"][0]["value"] = s
    for s in (a, b, a):
        put(s)
        r, e = S.call(run)
        S.cover("edit")
        S.require(e is None, "check of a changed document raises", lambda: repr(e))
        check_tree(S, r)
        S.require(S.Iff(r.ok(), ubyte(S, s)), "verdict on a changed document", lambda: [a, b, s, r.to_dict()])


def h_reuse(S, kind, n):
    """the same open file or package, checked again"""
    s = S.str("s", n, alpha=DIGITS)
    d = value_doc(s)
    if kind == "json":
        f = S.file(json_doc(d))
        run = lambda: file.check_json_file(f)
    elif kind == "xml":
        f = S.file(xml_doc(docs.env_xml(d)))
        run = lambda: file.check_xml_file(f)
    else:
        f = S.zip(package([Member("x.json", json_doc(d)), Member("y.xml", xml_doc(docs.env_xml(d)))], ["x.json", "y.xml"]))
        if kind == "package":
            run = lambda: file.check_aasx_file(f)
        else:
            z = zipfile.ZipFile(f)
            run = lambda: file.check_aasx_data(z)
    reports = []
    for i in range(3):
        if kind != "zip":
            f.seek(0)
        r, e = S.call(run)
        S.cover("reuse")
        S.require(e is None, "check of the same file raises", lambda: [i, repr(e)])
        check_tree(S, r)
        S.require(S.Iff(r.ok(), ubyte(S, s)), "verdict on the same file", lambda: [i, s, r.to_dict()])
        reports.append(freeze(r))
    same(S, reports[0], reports[1], "another report for the same file")
    same(S, reports[0], reports[2], "another report for the same file")


def h_inside(S, kind, n):
    """a check inside a report context of the caller: same verdict, and the caller's context stays usable"""
    st = Step(S, kind, 0, n)
    ctx = AasTestResult("outer")
    with start(ctx):
        write("before")
        r = st.check("inside a context")
        write("after")
    own = [x for x in ctx.sub_results if x is not r or r is None]
    S.require(len(own) == 2, "findings of the caller", lambda: ctx.to_dict())
    S.require(own[0].message == "before", "first finding of the caller", lambda: ctx.to_dict())
    S.require(own[1].message == "after", "last finding of the caller", lambda: ctx.to_dict())
    idle(S)


def sent(w):
    return [(s.method, s.url, s.headers, s.verify) for s in w.sent]


def h_server(S, suite, ops, later):
    """runs one after the other with the same client and configuration; a server failing in an earlier run"""
    client = HttpClient("http://h", verify=True, additional_headers={"X": "1"})
    confs = {op: CheckApiConfig(suite=full_name(suite), filter=TestCaseFilter(op)) for op in ops + [later]}
    bad = S.int("failing answer", 0, 12)
    status = S.choice("status", [500, 404, 302])
    runs = []
    for k, op in enumerate([later] + ops + [later]):
        srv = Server(suite, ("urn:aas:0", "urn:aas:1"))
        last = k in (0, len(ops) + 1)

        def answer(i, s):
            path, _, q = s.url[len("http://h"):].partition("?")
            kind, st, data = srv.answer(path, parse_query(q))
            if not last and i == bad:
                return Answer(status, {})
            return Answer(st, data)
        with Wire(S, answer) as w:
            out, e = S.call(api.execute_tests, client, confs[op])
        idle(S)
        if last:
            S.require(e is None, "run raises", lambda: repr(e))
            S.require(out[0].ok(), "a conforming server fails " + ("at first" if k == 0 else "after other runs"), lambda: out[0].to_dict())
            runs.append((sent(w), freeze(out[0]), out[0]))
    S.cover("server")
    (a, fa, ra), (b, fb, rb) = runs
    S.require(len(a) == len(b), "number of requests of a repeated run", lambda: [a, b])
    for x, y in zip(a, b):
        S.require(x == y, "requests of a repeated run", lambda: [x, y])
    same(S, fb, fa, "report of a repeated run")
    same(S, freeze(ra), fa, "a finished report changed")


def c21(tier):
    q = tier == "quick"
    out = []
    for a in KINDS:
        for b in KINDS:
            if a == "unknown class" and b == a:
                continue
            out.append(("h_seq", {"kinds": [a, b], "n": 1 if q else 3}))
    for a, b, c in (("json", "xml", "package"), ("package", "same names", "json"), ("same names", "broken package", "old types"), ("list", "unknown class", "list"),
                    ("old types", "old types", "package"), ("no json", "json file", "no xml"), ("xml", "unknown class", "xml file"), ("package", "package", "package")):
        out.append(("h_seq", {"kinds": [a, b, c], "n": 1 if q else 2}))
    if not q:
        for a in KINDS[:7]:
            for b in KINDS:
                for c in KINDS[:7:3]:
                    out.append(("h_seq", {"kinds": [a, b, c], "n": 1}))
    out += [("h_edit", {"kind": k, "n": n}) for k in ("json", "xml") for n in (1, 2)]
    out += [("h_reuse", {"kind": k, "n": n}) for k in ("json", "xml", "package", "zip") for n in (1, 2)]
    out += [("h_inside", {"kind": k, "n": 1 if q else 3}) for k in KINDS if k != "unknown class"]
    for suite, ops, later in ((SM, ["GetSubmodelElementByPath"], "GetSubmodel"), (AAS, ["GetSubmodelById"], "GetAllSubmodelReferences"),
                              (AAS_REPO, ["GetAllAssetAdministrationShells"], "GetAssetAdministrationShellById"), (SM_REPO, ["GetAllSubmodels"], "GetSubmodelById")):
        out.append(("h_server", {"suite": suite, "ops": ops, "later": later}))
        if not q:
            out.append(("h_server", {"suite": suite, "ops": ops + [later], "later": ops[0]}))
    return out


PROPS = {
    "C21": {
        "cases": c21,
        "bounds": "sequences of two and three checks of thirteen kinds (the first one repeated at the end) with values of 1 (thorough: up to 3) symbolic characters; documents changed between checks and files checked three times; four server runs with one failing answer between two equal runs",
        "assumptions": ["state outside the Python process is not part of a history", "checks run in one thread"],
        "must_cover": KINDS + ["edit", "reuse", "server"],
        "budget": {"quick": 300, "thorough": 1500},
    },
}
