"""Command line."""
import ast
import json
import sys
import requests
from symx.files import Member, json_doc, xml_doc, raw
from aas_test_engines import __main__ as cli
from aas_test_engines import api, file
from aas_test_engines.config import CheckApiConfig, TestCaseFilter
from aas_test_engines.http import HttpClient
from harness import docs
from harness.h_file import package, ubyte, value_doc, TXT, BADJSON, BADXML, BLANKS
from harness.h_http import Wire, Reply, SUITES, WORD, full_name, patterns


def as_script():
    """what an installed entry point does"""
    sys.exit(cli.main())


def as_module():
    """what 'python -m aas_test_engines' does"""
    with open(cli.__file__) as f:
        tree = ast.parse(f.read())
    last = [x for x in tree.body if isinstance(x, ast.If) and any(isinstance(n, ast.Constant) and n.value == "__main__" for n in ast.walk(x.test))]
    for x in last:
        exec(compile(ast.Module(x.body, []), cli.__file__, "exec"), cli.__dict__)


class Run:
    """one invocation of the command line"""

    def __init__(self, S, argv, answer=None, main=as_script, encoding=None):
        out, err = S.capture(encoding), S.capture(encoding)
        saved = sys.argv, sys.stdout, sys.stderr
        self.code, self.error = 0, None
        with Wire(S, answer) as w:
            try:
                sys.argv, sys.stdout, sys.stderr = ["aas_test_engines"] + argv, out, err
                try:
                    main()
                except SystemExit as e:
                    c = e.code
                    # the operating system keeps eight bits
                    self.code = 0 if c is None else c % 256 if isinstance(c, int) else 1
                except Exception as e:
                    self.code, self.error = 1, e
            finally:
                sys.argv, sys.stdout, sys.stderr = saved
        self.sent = w.sent
        self.out, self.err = out.text(), err.text()


def json_is(S, text, value):
    if S.symbolic:
        return S.Or(text == json.dumps(value) + "\n", text == json.dumps(value, ensure_ascii=False) + "\n")
    try:
        return json.loads(text) == value
    except ValueError:
        return False


def shows(S, out, fmt, r):
    """the printed report is the report"""
    if fmt == "json":
        return json_is(S, out, r.to_dict())
    if fmt == "html":
        return out == r.to_html() + "\n"
    return out == "".join([line + "\n" for line in r.to_lines()])


def opts(form, **kw):
    out = []
    for k, v in kw.items():
        if v is None:
            continue
        out += ["--" + k + "=" + v] if form == "joined" else ["--" + k, v]
    return out


# ---- commands ----------------------------------------------------------------------
def h_command(S, n):
    c = S.str("c", n)
    S.assume(S.Not(c == "generate_files"))
    run = Run(S, [c])
    S.cover("command")
    S.require(run.code != 0, "unknown or incomplete command succeeds", lambda: [c, run.code])
    S.require(run.error is None, "unknown command raises", lambda: repr(run.error))
    S.require(len(run.sent) == 0, "requests of an unknown command")


def h_near(S, n, pre, post):
    """only the commands themselves run: an unknown command fails whatever follows it"""
    c = pre + S.str("c", n) + post
    S.assume(S.And(*[S.Not(c == x) for x in ("check_file", "check_server", "generate_files")]))
    rest = S.pick("rest", [["F", "--format", "json"], ["http://h", SUITES[0], "--dry"]])
    run = Run(S, [c] + [S.path(json_doc({})) if x == "F" else x for x in rest])
    S.cover("near command")
    S.require(run.error is None and run.code != 0, "unknown command succeeds", lambda: [c, rest, run.code])
    S.require(len(run.sent) == 0, "requests of an unknown command")


def h_nothing(S):
    run = Run(S, [])
    S.cover("no command")
    S.require(run.error is None and run.code != 0, "no command given")


# ---- check_file ---------------------------------------------------------------------
def h_file(S, fmt, out, n, form):
    """verdict of the file as exit status, report on standard output"""
    s = S.str("s", n, alpha=TXT)
    d = value_doc(s)
    good = ubyte(S, s)
    first = S.pick("order", [True, False])
    if fmt == "json":
        path, r = S.path(json_doc(d)), file.check_json_file(S.file(json_doc(d)))
    elif fmt == "xml":
        x = lambda: xml_doc(docs.env_xml(d))
        path, r = S.path(x()), file.check_xml_file(S.file(x()))
    else:
        p = lambda: package([Member("x.json", json_doc(d))], ["x.json"])
        path, r = S.zippath(p()), file.check_aasx_file(S.zip(p()))
    o = opts(form, format=None if fmt == "default" else fmt, output=None if out == "default" else out)
    run = Run(S, ["check_file"] + (o + [path] if first else [path] + o))
    S.cover("file " + fmt)
    S.cover("output " + out)
    S.require(run.error is None, "check_file raises", lambda: repr(run.error))
    S.require(S.Iff(run.code == 0, good), "exit status of check_file", lambda: [s, run.code])
    S.require(S.Iff(r.ok(), good), "verdict of the function")
    S.require(shows(S, run.out, out, r), "output of check_file", lambda: [run.out[:500], r.to_dict()])


WARN = {"conceptDescriptions": [{"modelType": "ConceptDescription", "id": "urn:a", "embeddedDataSpecifications": [
    {"dataSpecification": {"type": "ExternalReference", "keys": [{"type": "GlobalReference", "value": "urn:x"}]},
     "dataSpecificationContent": {"modelType": "DataSpecificationIec61360", "preferredName": [{"language": "en", "text": "a"}]}}]}]}


def h_levels(S, out):
    """warnings are no failure"""
    names = S.pick("specs", [["x.json"], ["x.txt"], []])
    p = lambda: package([Member("x.json", json_doc({})), Member("x.txt", raw(b"a"))], names)
    r = file.check_aasx_file(S.zip(p()))
    run = Run(S, ["check_file", S.zippath(p())] + opts("joined", output=out))
    S.cover("levels")
    S.require(r.level.value == (0 if names == ["x.json"] else 1), "severity of the report")
    S.require(run.error is None and run.code == 0, "a warning fails check_file", lambda: [run.code])
    S.require(shows(S, run.out, out, r), "output with warnings")


def h_named(S, fmt, kind, form):
    """the format is the one asked for, whatever the name and content of the file are"""
    suffix = S.pick("suffix", [".json", ".xml", ".aasx", ".JSON", ".zip", ".txt"])
    d = value_doc(S.str("s", 1, alpha="17a"))
    good = ubyte(S, d["submodels"][0]["submodelElements"][0]["value"])
    if kind == "json":
        path = S.path(json_doc(d), suffix)
    elif kind == "xml":
        path = S.path(xml_doc(docs.env_xml(d)), suffix)
    elif fmt in ("json", "xml"):
        path = S.path(raw(b"PK\x05\x06" + bytes(18)), suffix)
    else:
        path = S.zippath(package([Member("x.json", json_doc(d))], ["x.json"]), suffix)
    main = S.pick("main", [as_script, as_module])
    run = Run(S, ["check_file", path] + opts(form, format=None if fmt == "default" else fmt), main=main)
    S.cover("named")
    S.require(run.error is None, "check_file raises", lambda: [suffix, repr(run.error)])
    S.require(S.Iff(run.code == 0, good if kind == {"default": "aasx"}.get(fmt, fmt) else False), "exit status of check_file", lambda: [suffix, fmt, kind, run.code])


TARGETS = [(0x61, 0x7a), (0xc0, 0xff), (0x400, 0x44f), (0x20ac, 0x20ac), (0x1f600, 0x1f64f)]


def h_terminal(S, fmt, out, encoding):
    """the verdict and the report do not depend on what the terminal can show"""
    c = S.str("c", 1, alpha=[(0, 0x10ffff)] if fmt == "json" else TARGETS)
    main = S.pick("main", [as_script, as_module])
    if fmt == "json":
        d = docs.env_sme({"modelType": "Prop" + c, "idShort": "a", "valueType": "xs:int"})
        path, r = S.path(json_doc(d)), file.check_json_file(S.file(json_doc(d)))
    else:
        p = lambda: package([Member("x" + c + ".json", json_doc({}))], ["x" + c + ".json"])
        path, r = S.zippath(p()), file.check_aasx_file(S.zip(p()))
    run = Run(S, ["check_file", path] + opts("split", format=fmt, output=out), main=main, encoding=encoding)
    S.cover("terminal")
    S.require(run.error is None, "check_file raises", lambda: [c, encoding, repr(run.error)])
    S.require(S.Iff(run.code == 0, r.ok()), "exit status of check_file", lambda: [c, encoding, run.code])
    S.require(S.Iff(r.ok(), fmt == "aasx"), "verdict of the function")
    if encoding == "utf-8" and S.chars_in(c, [(0, 0xd7ff), (0xe000, 0x10ffff)]):
        S.require(shows(S, run.out, out, r), "output of check_file", lambda: [c, run.out[:500]])
    else:
        S.require(len(run.out) >= len(r.message), "no report", lambda: [c, encoding])


def h_errors(S, fmt, out):
    """any number of errors is a failure"""
    n = S.pick("n", [1, 2, 64, 127, 128, 254, 255, 256, 257, 512, 768])
    k = S.pick("at", ["value", "category"])
    e = {"modelType": "Property", "valueType": "xs:int", "value": "x"} if k == "value" else {"modelType": "Property", "valueType": "xs:int", "category": "x"}
    d = docs.env_sme(*[dict(e, idShort="a%d" % i) for i in range(n)])
    main = S.pick("main", [as_script, as_module])
    run = Run(S, ["check_file", S.path(json_doc(d) if fmt == "json" else xml_doc(docs.env_xml(d)))] + opts("joined", format=fmt, output=out), main=main)
    S.cover("errors")
    S.require(run.error is None, "check_file raises", lambda: repr(run.error))
    S.require(run.code != 0, "exit status with many errors", lambda: [n, run.code])


def h_bad_file(S, fmt, out):
    """files that are no document at all"""
    b = S.pick("raw", [x for x in BADJSON if x[:1] != b"\xef"] if fmt == "json" else BADXML)
    run = Run(S, ["check_file", S.path(raw(b))] + opts("split", format=fmt, output=out))
    S.cover("bad file")
    S.require(run.error is None, "check_file raises", lambda: [b, repr(run.error)])
    S.require(run.code != 0, "malformed file accepted", lambda: [b])
    S.require(len(run.out) > 0, "no report for a malformed file")


def h_misuse(S):
    """wrong usage never counts as compliance"""
    good = S.path(json_doc({}))
    argv = S.pick("argv", [["check_file"], ["check_file", "/verif-does-not-exist/x"], ["check_file", "G", "--format", "yaml"], ["check_file", "G", "--format=JSON"],
                           ["check_file", "G", "--output", "pdf"], ["check_file", "G", "G"], ["check_file", "G", "--unknown"], ["check_file", "G", "--format=json", "--model_type="], ["check_file", "G", "--format=json", "--model_type=Nothing"],
                           ["check_file", "G", "--format=json", "--model_type=environment"], ["check_file", "G", "--format=xml", "--model_type="], ["check_file", "--format", "json"],
                           ["check_server"], ["check_server", "http://h"], ["check_server", "http://h", SUITES[0], "--output", "pdf"], ["check_server", "--dry"],
                           ["check_server", "http://h", SUITES[0], "--unknown"], ["check_server", "http://h", SUITES[0], "--header", "novalue"],
                           ["check_server", "http://h", SUITES[0], "--filter=a~b~c"]])
    run = Run(S, [good if a == "G" else a for a in argv])
    S.cover("misuse")
    S.require(run.code != 0, "wrong usage succeeds", lambda: [argv])
    S.require(len(run.sent) == 0, "wrong usage sends requests", lambda: [argv])


def h_package_type(S, form):
    """a package is not accepted unchecked, whatever model type is asked for"""
    t = S.pick("type", ["Submodel", "Property", "environment", "Nothing", "", "AssetAdministrationShell"])
    bad = S.pick("doc", ["value", "json", "zip"])
    if bad == "zip":
        path = S.path(raw(b"no archive"))
    else:
        path = S.zippath(package([Member("x.json", json_doc(value_doc("x")) if bad == "value" else raw(b"{"))], ["x.json"]))
    run = Run(S, ["check_file", path] + opts(form, model_type=t))
    S.cover("package type")
    S.require(run.code != 0, "a bad package is accepted if a model type is given", lambda: [t, bad])


def h_type(S, fmt, t):
    """--model_type reaches the check"""
    d = S.pick("doc", ["Submodel", "Property", "Environment"])
    broken = S.bool("broken")
    o = docs.minimal(d) if d != "Environment" else {}
    if fmt == "json":
        if broken:
            o["surplus"] = 1
        path = S.path(json_doc(o))
    else:
        x = docs.to_xml(docs.lower_first(d), d, o)
        if broken:
            x.append(docs.el("surplus", "1"))
        path = S.path(xml_doc(x))
    run = Run(S, ["check_file", path, "--format", fmt] + (["--model_type", t] if t else []))
    want = t or "Environment"
    S.cover("type")
    fits = S.And(d == want, S.Not(broken))
    known = [("K05-type", S.And(want != "Environment", fits, isinstance(run.error, AttributeError)))]
    S.require(S.Implies(fits, run.code == 0), "compliant object rejected", lambda: [d, t, repr(run.error)], known=known)
    S.require(S.Implies(broken, run.code != 0), "unknown attribute accepted", lambda: [d, t])
    if fmt == "json":
        S.require(S.Implies(d != want, run.code != 0), "object of another class accepted", lambda: [d, t])


# ---- check_server -------------------------------------------------------------------
def h_suite(S, pre, n, post):
    """the suite is the one whose name contains the text, if there is exactly one"""
    t = pre + S.str("t", n, alpha=TXT) + post
    S.assume(S.Not(t[:1] == "-"))
    run = Run(S, ["check_server", "http://h", S.arg(t), "--dry"])
    S.require(run.error is None, "check_server raises", lambda: repr(run.error))
    S.require(len(run.sent) == 0, "dry run sends requests")
    hits = [full_name(x) for x in SUITES if t in full_name(x)]
    if len(hits) == 1:
        S.cover("unique suite")
        r, _ = api.execute_tests(HttpClient("http://h"), CheckApiConfig(suite=hits[0], dry=True))
        S.require(run.code == 0, "dry run fails", lambda: [t])
        S.require(shows(S, run.out, "text", r), "dry run of another suite", lambda: [t, run.out[:200]])
    else:
        S.cover("no suite" if not hits else "several suites")
        S.require(run.code != 0, "no unique suite, but success", lambda: [t, hits])
        S.require(S.And(*[S.contains(run.out + run.err, x) for x in hits or [full_name(y) for y in SUITES]]), "the possible suites are not named", lambda: [t, hits, run.err])


def h_version(S, n):
    v = S.str("v", n, alpha=TXT)
    run = Run(S, ["check_server", "http://h", SUITES[0], "--dry", "--version=" + S.arg(v)] if not S.symbolic else ["check_server", "http://h", SUITES[0], "--dry", "--version", S.arg(v)]) \
        if S.symbolic or v[:1] != "-" else Run(S, ["check_server", "http://h", SUITES[0], "--dry", "--version=" + v])
    S.cover("version")
    S.require(run.error is None, "check_server raises", lambda: repr(run.error))
    S.require(S.Iff(run.code == 0, v == "3.0"), "unknown version", lambda: [v, run.code])


def lost(i, s):
    raise requests.exceptions.ConnectionError("refused")


def h_header(S, n, pre, form):
    """headers of the command line are sent: name and value around the first colon, without surrounding blanks"""
    t = pre + S.str("t", n, alpha=TXT)
    if form == "many":
        S.assume(S.Not(t[:1] == "-"))
        argv = ["--header", "A: 1", S.arg(t), "Z:9"]
    else:
        S.assume(S.Not(t[:1] == "-"))
        argv = ["--header", S.arg(t)]
    run = Run(S, ["check_server", "http://h", SUITES[3]] + argv, lost)
    S.require(run.error is None, "check_server raises", lambda: repr(run.error))
    S.require(run.code != 0, "unreachable server passes")
    if ":" not in t:
        S.cover("no header")
        S.require(len(run.sent) == 0, "request in spite of a malformed header", lambda: [t])
        return
    k = t.index(":")
    name, value = t[:k].strip(), t[k + 1:].strip()
    S.cover("header")
    S.require(len(run.sent) == 1, "number of requests to an unreachable server", lambda: len(run.sent))
    h = run.sent[0].headers
    want = [("A", "1"), (name, value), ("Z", "9")] if form == "many" else [(name, value)]
    S.assume(S.And(name != "A", name != "Z") if form == "many" else True)
    S.require(len(h) == len(want), "number of headers", lambda: [h])
    for (a, b), (c, d) in zip(h.items(), want):
        S.require(S.And(a == c, b == d), "header of the command line", lambda: [t, h])


HOSTS = "abcdefghijklmnopqrstuvwxyzAZ.:/019"


def h_options(S, n):
    """server address and TLS option reach the requests; an unreachable server is a failure"""
    pre = S.pick("scheme", ["http://", "https://", "", "https://localhost", "http://127.0.0.1", "https://10.0.0."])
    host = pre + S.str("host", n, alpha=HOSTS)
    S.assume(S.Not(S.contains(host[len(pre) - 1:], "//")) if pre and pre[-1] != "/" else S.Not(S.contains(host[len(pre):], "//")))
    noverify = S.pick("noverify", [True, False])
    out = S.pick("out", ["default", "text", "json", "html"])
    run = Run(S, ["check_server", S.arg(host), SUITES[3]] + (["--no-verify"] if noverify else []) + opts("joined", output=None if out == "default" else out), lost)
    S.cover("options")
    S.require(run.error is None, "check_server raises", lambda: repr(run.error))
    S.require(run.code != 0, "unreachable server passes")
    S.require(len(run.sent) == 1, "number of requests to an unreachable server")
    s = run.sent[0]
    S.require(s.url == (host[:-1] if host[-1:] == "/" else host), "address", lambda: [host, s.url])
    S.require(s.verify == (not noverify), "TLS verification", lambda: [noverify, s.verify])
    with Wire(S, lost):
        r, _ = api.execute_tests(HttpClient(host), CheckApiConfig(suite=full_name(SUITES[3])))
    S.require(S.Not(r.ok()), "unreachable server passes")
    S.require(shows(S, run.out, out, r), "output for an unreachable server", lambda: [out, run.out[:300]])


class Answer(Reply):
    def __init__(self, status, data):
        self.status_code = status
        self.data = data
        self.content = b"{}"

    def json(self):
        return self.data


PROFILES = {"profiles": ["https://admin-shell.io/aas/API/3/0/SubmodelServiceSpecification/SSP-002"]}


def h_outcome(S, out, n):
    """exit status and output are those of the test run"""
    status = S.int("status", 100, 599)
    word = S.str("word", n, alpha=TXT)
    data = S.pick("data", [PROFILES, {"profiles": []}, {}, {"profiles": [1]}, {"profiles": PROFILES["profiles"], "x": 1}])
    if n:
        data = {"profiles": [word]}

    def answer(i, s):
        return Answer(status, data)
    run = Run(S, ["check_server", "http://h", SUITES[3], "--filter=GetSelfDescription:GetDescription"] + opts("joined", output=None if out == "default" else out), answer)
    with Wire(S, answer) as w:
        (r, _), e = S.call(api.execute_tests, HttpClient("http://h"), CheckApiConfig(suite=full_name(SUITES[3]), filter=TestCaseFilter("GetSelfDescription:GetDescription")))
    S.require(run.error is None and e is None, "check_server raises", lambda: [repr(run.error), repr(e)])
    S.cover("passed" if r.ok() else "failed")
    S.require(S.Iff(run.code == 0, r.ok()), "exit status of check_server", lambda: [run.code, r.to_dict()])
    S.require(shows(S, run.out, out, r), "output of check_server", lambda: [run.out[:500], r.to_dict()])
    S.require(len(run.sent) == len(w.sent), "requests of check_server")


def h_prefix(S, n, suite, filt):
    """--remove-path-prefix removes the prefix from every request"""
    p = "/" + S.str("p", n, alpha="asubmodelhr/") if n else ""

    def answer(i, s):
        if i == 0:
            return Answer(200, {})
        raise requests.exceptions.ConnectionError("refused")
    base = ["check_server", "http://h", suite, "--filter=" + filt]
    a = Run(S, base, answer)
    b = Run(S, base + (["--remove-path-prefix", S.arg(p)] if n else []), answer)
    S.cover("prefix")
    S.require(len(a.sent) == len(b.sent), "number of requests")
    S.require(len(a.sent) > 1, "no requests")
    for x, y in zip(a.sent, b.sent):
        u = x.url[len("http://h"):]
        path = u.split("?")[0]
        if n and (path == p or path[:len(p) + 1] == p + "/"):
            S.cover("removed")
            u = u[len(p):]
        S.require(y.url == "http://h" + u, "path prefix", lambda: [p, x.url, y.url])


def h_filter_opt(S, n, out, pre="Get"):
    """--filter and --dry: the report is that of the same dry run through the module"""
    t = pre + S.str("t", n, alpha="AS*?:")
    run = Run(S, ["check_server", "http://h", SUITES[1], "--dry", "--filter", S.arg(t)] + opts("joined", output=out))
    r, _ = api.execute_tests(HttpClient("http://h"), CheckApiConfig(suite=full_name(SUITES[1]), dry=True, filter=TestCaseFilter(t)))
    S.cover("filter")
    S.require(run.error is None and run.code == 0, "dry run fails", lambda: [t, run.code, repr(run.error)])
    S.require(len(run.sent) == 0, "dry run sends requests")
    S.require(shows(S, run.out, out, r), "output of a filtered dry run", lambda: [t, run.out[:300]])


def c05(tier):
    q = tier == "quick"
    out = [("h_nothing", {}), ("h_misuse", {})]
    out += [("h_command", {"n": n}) for n in (0, 1, 3, 9, 10, 11, 12, 13, 14)]
    for fmt in ("json", "xml", "aasx", "default"):
        for o in ("default", "text", "html", "json"):
            out.append(("h_file", {"fmt": fmt, "out": o, "n": 1, "form": "joined" if o == "json" else "split"}))
        out.append(("h_file", {"fmt": fmt, "out": "text", "n": 3 if q else 4, "form": "joined"}, {"weight": 9}))
        out.append(("h_file", {"fmt": fmt, "out": "text", "n": 0, "form": "joined"}))
    for o in ("text", "html", "json"):
        out.append(("h_levels", {"out": o}))
        for fmt in ("json", "xml", "aasx"):
            out.append(("h_bad_file", {"fmt": fmt, "out": o}))
    for fmt in ("default", "json", "xml", "aasx"):
        for kind in ("json", "xml", "aasx"):
            out.append(("h_named", {"fmt": fmt, "kind": kind, "form": "joined"}))
    out += [("h_terminal", {"fmt": fmt, "out": o, "encoding": e}) for fmt in ("json", "aasx") for o in ("text", "html", "json") for e in ("utf-8", "ascii", "latin-1")]
    out += [("h_package_type", {"form": f}) for f in ("joined", "split")]
    out += [("h_errors", {"fmt": fmt, "out": o}) for fmt, o in (("json", "text"), ("xml", "json"))]
    for fmt in ("json", "xml"):
        for t in (None, "Environment", "Submodel", "Property"):
            out.append(("h_type", {"fmt": fmt, "t": t}))
    for pre, n, post in (("", 0, ""), ("", 1, ""), ("", 2, ""), ("", 3 if q else 5, ""), ("Submodel", 1, ""), ("Submodel", 2, ""), ("/", 1, ""), ("/Asset", 1, ""), ("", 1, "Repository"),
                         ("", 2, "RepositoryService"), ("ShellService", 1, ""), ("AssetAdministrationShell", 2, ""), (full_name(SUITES[0])[:-1], 1, ""), (full_name(SUITES[3]), 1, ""),
                         ("https://admin-shell.io/aas/API/3/0/", 1, ""), ("", 1, full_name(SUITES[2])[1:])):
        out.append(("h_suite", {"pre": pre, "n": n, "post": post}))
    out += [("h_version", {"n": n}) for n in range(1, 5)]
    for n in range(0, 5 if q else 7):
        out.append(("h_header", {"n": n, "pre": "", "form": "one"}, {"weight": n}))
    for n in (1, 2, 3):
        out.append(("h_header", {"n": n, "pre": "X", "form": "many"}, {"weight": n}))
        out.append(("h_header", {"n": n, "pre": "Authorization: Basic ", "form": "one"}))
    out += [("h_options", {"n": n}) for n in (1, 3)]
    for o in ("default", "text", "json", "html"):
        out.append(("h_outcome", {"out": o, "n": 0}))
    out.append(("h_outcome", {"out": "html", "n": 2}))
    out.append(("h_outcome", {"out": "json", "n": 2}))
    for n in range(0, 5 if q else 7):
        out.append(("h_prefix", {"n": n, "suite": SUITES[2], "filt": "GetAssetAdministrationShell*"}, {"weight": n}))
        out.append(("h_prefix", {"n": n, "suite": SUITES[0], "filt": "*"}, {"weight": n}))
    for o in ("text", "json", "html"):
        out.append(("h_filter_opt", {"n": 2, "out": o}))
        out.append(("h_filter_opt", {"n": 2, "out": o, "pre": "~Get"}))
        out.append(("h_filter_opt", {"n": 1, "out": o, "pre": "*~*"}))
    out.append(("h_filter_opt", {"n": 1, "out": "text", "pre": "*Shells~"}))
    out.append(("h_filter_opt", {"n": 1, "out": "text", "pre": "~"}))
    for pre, n, post in (("check", 1, "file"), ("check", 1, "server"), ("", 1, "heck_file"), ("check_file", 1, ""), ("", 1, "check_file"), ("check_fil", 1, ""), ("", 1, "heck_server"), ("check_server", 1, "")):
        out.append(("h_near", {"n": n, "pre": pre, "post": post}))
    return out


PROPS = {
    "C05": {
        "cases": c05,
        "bounds": "every command name of the listed lengths; documents with a value of up to 3 (thorough 4) printable characters in each format and output; suite texts of up to 3 (5) printable characters and in the listed frames; headers of up to 4 (6) characters; hosts and prefixes of up to 4 (6) characters; any status code for one operation; started as module and as script, exit codes modulo 256; file names of the listed endings; terminals in UTF-8, ASCII and Latin-1 with any character in the report",
        "assumptions": ["argparse itself is executed unmodelled: symbolic arguments pass through it as opaque values (not starting with '-' where a separate word)", "requests are recorded at Session.request"],
        "must_cover": ["named", "errors", "terminal", "package type", "command", "near command", "no command", "file json", "file xml", "file aasx", "file default", "output default", "output text", "output html", "output json", "levels",
                       "bad file", "misuse", "type", "unique suite", "no suite", "several suites", "version", "header", "no header", "options", "passed", "failed", "prefix", "removed", "filter"],
    },
}
