"""Package paths, package structure, package contents and the file functions."""
import io
import json
import zipfile
from xml.etree import ElementTree
from xml.etree.ElementTree import Element
from symx.files import Member, json_doc, xml_doc, raw
from aas_test_engines import file
from aas_test_engines.opc import normpath, splitpath
from aas_test_engines.result import AasTestResult
from harness import docs
from harness.common import check_tree, errors, nodes

BLANKS = "\t\n\x0b\x0c\r\x1c\x1d\x1e\x1f \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000"


# ---- C23 -------------------------------------------------------------------------
def resolve(p):
    """segments of a path from the right: '..' swallows the next segment to the left"""
    out = []
    skip = 0
    for seg in reversed(p.split("/")):
        if seg == "" or seg == ".":
            continue
        if seg == "..":
            skip += 1
        elif skip:
            skip -= 1
        else:
            out.insert(0, seg)
    return out


def h_norm(S, n, prefix=""):
    s = prefix + S.str("s", n, alpha=NONBLANK)
    got = normpath(s)
    segs = resolve(s)
    absolute = s[:1] == "/"
    S.cover("absolute" if absolute else "relative")
    if len(segs) == 0:
        S.cover("nothing left")
    S.require(got == ("/" if absolute else "") + "/".join(segs), "normalised path", lambda: [s, got])
    S.require(normpath(got) == got, "normalising twice changes the path", lambda: [s, got])


def h_norm_blank(S, n, a, b):
    """surrounding blanks and blank segments do not count"""
    s = S.str("s", n, alpha=NONBLANK)
    S.assume(S.Not(S.contains(s, "..")))
    S.cover("blank")
    S.require(normpath(a + s + b) == normpath(s), "blanks around a path", lambda: [a + s + b])
    S.require(normpath("x/" + a + "/" + s) == normpath("x/" + s), "blank segment", lambda: [s])


def h_norm_inner(S, n):
    """blanks inside a path: blank segments do not count, other segments are kept as they are"""
    s = S.str("s", n, alpha="ab./ \t\u00a0")
    S.assume(S.And(S.Not(S.chars_in(s[0], BLANKS)), S.Not(S.chars_in(s[-1], BLANKS))))
    segs, skip = [], 0
    for seg in reversed(s.split("/")):
        if seg.strip() == "" or seg == ".":
            continue
        if seg == "..":
            skip += 1
        elif skip:
            skip -= 1
        else:
            segs.insert(0, seg)
    S.cover("inner blank")
    got = normpath(s)
    S.require(got == ("/" if s[:1] == "/" else "") + "/".join(segs), "normalised path with blanks", lambda: [s, got])


def h_split(S, n):
    s = S.str("s", n)
    head, tail = splitpath(s)
    S.require(S.Not(S.contains(tail, "/")), "the last part of a path contains a slash", lambda: [s])
    if "/" in s:
        S.cover("folder")
        S.require(head + "/" + tail == s, "split path", lambda: [s, head, tail])
    else:
        S.cover("plain")
        S.require(S.And(head == "", tail == s), "split path without folder", lambda: [s, head, tail])


def _complement(chars):
    iv, lo = [], 0
    for c in sorted(set(map(ord, chars))):
        if c > lo:
            iv.append((lo, c - 1))
        lo = c + 1
    iv.append((lo, 0x10FFFF))
    return iv


NONBLANK = _complement(BLANKS)


def c23(tier):
    q = tier == "quick"
    out = [("h_norm", {"n": n}) for n in range(0, 9 if q else 10)]
    out += [("h_norm", {"n": n, "prefix": p}) for n in range(1, 6 if q else 8) for p in ("a/b/../", "/../", "//x/./")]
    out += [("h_norm_inner", {"n": n}) for n in range(2, 6 if q else 8)]
    out += [("h_split", {"n": n}) for n in range(0, 8 if q else 12)]
    out += [("h_norm_blank", {"n": n, "a": a, "b": b}) for n in (1, 3) for a in (" ", "\t\n", "\u00a0") for b in ("", " ", "\r")]
    return out


def SubElement(parent, tag, attrib):
    e = Element(tag)
    for k, v in attrib.items():
        e.set(k, v)
    parent.append(e)
    return e


# ---- packages --------------------------------------------------------------------
CT = "{http://schemas.openxmlformats.org/package/2006/content-types}"
RE = "{http://schemas.openxmlformats.org/package/2006/relationships}"
ORIGIN = "http://admin-shell.io/aasx/relationships/aasx-origin"
SPEC = "http://admin-shell.io/aasx/relationships/aas-spec"
SUPPL = "http://admin-shell.io/aasx/relationships/aas-suppl"
OLD = {"http://www.admin-shell.io/aasx/relationships/aasx-origin": ORIGIN,
       "http://www.admin-shell.io/aasx/relationships/aas-spec": SPEC,
       "http://www.admin-shell.io/aasx/relationships/aas-suppl": SUPPL}
THUMB = "http://schemas.openxmlformats.org/package/2006/relationships/metadata/thumbnail"
TYPES = [ORIGIN, SPEC, SUPPL] + list(OLD) + [THUMB, "urn:other"]


def content_types():
    e = Element(CT + "Types")
    SubElement(e, CT + "Default", {"Extension": "rels", "ContentType": "application/vnd.openxmlformats-package.relationships+xml"})
    return xml_doc(e)


def rels(*rs):
    e = Element(RE + "Relationships")
    for i, (t, target) in enumerate(rs):
        SubElement(e, RE + "Relationship", {"Type": t, "Target": target, "Id": "r%d" % i})
    return xml_doc(e)


def rels_name(part):
    if part == "":
        return "_rels/.rels"
    if "/" in part:
        d, f = part.rsplit("/", 1)
        return d + "/_rels/" + f + ".rels"
    return "_rels/" + part + ".rels"


def judge(S, members, via="file"):
    if via == "file":
        r, e = S.call(file.check_aasx_file, S.zip(members))
    else:
        r, e = S.call(lambda: file.check_aasx_data(zipfile.ZipFile(S.zip(members))))
    S.require(e is None, "check of a package raises", lambda: repr(e))
    S.require(isinstance(r, AasTestResult), "no report")
    check_tree(S, r)
    return r


GOOD = {"submodels": [{"modelType": "Submodel", "id": "urn:a"}]}
BAD = {"submodels": [{"modelType": "Submodel", "id": ""}]}


def spec_doc(kind, good):
    d = GOOD if good else BAD
    return json_doc(d) if kind == "json" else xml_doc(docs.env_xml(d))


# ---- C24: structure ----------------------------------------------------------------
TARGET = "".join(chr(c) for c in range(0x21, 0x7f) if chr(c) not in "%#?:\\\"<>&'") + "äß"


def h_target(S, n, base, prefix, suffix="", typ=SPEC, leaf="a.json", folders=False):
    """one relationship with an arbitrary target, from the part base"""
    t = prefix + S.str("t", n, alpha=TARGET) + suffix
    S.assume(S.Not(t[:2] == "//"))
    good = S.bool("good")
    parts = [base, leaf, "x/" + leaf, "x/y/" + leaf]
    ms = [Member("[Content_Types].xml", content_types())]
    ms.append(Member(rels_name(""), rels((ORIGIN, "/" + base))))
    ms.append(Member(rels_name(base), rels((typ, t))))
    for p in parts:
        ms.append(Member(p, json_doc(GOOD) if p == base else Opt(S, good)))
    if folders:
        # entries of folders are no parts
        ms += [Member("x/", raw(b"")), Member("x/y/", raw(b"")), Member("y/", raw(b""))]
    r = judge(S, ms)
    full = t if t[:1] == "/" else (base.rsplit("/", 1)[0] + "/" if "/" in base else "") + t
    name = "/".join(resolve(full))
    if name in [p for p in parts if p != base]:
        S.cover("reached")
        if typ == SPEC:
            S.require(S.Iff(r.ok(), good), "verdict on the document a target points to", lambda: [t, name, r.to_dict()])
        else:
            S.require(r.ok(), "supplementary document", lambda: [t, name, r.to_dict()])
    elif name == base:
        S.cover("itself")
        S.require(r.ok(), "target is the part itself", lambda: [t, name])
    else:
        S.cover("missing")
        S.require(S.Not(r.ok()), "missing target accepted", lambda: [t, name])


def h_attributes(S, at):
    """attributes other than Type and Target do not matter"""
    good, there = S.bool("good"), S.pick("there", [True, False])
    extra = S.pick("extra", [{}, {"Id": "r"}, {"TargetMode": "External"}, {"TargetMode": "Internal"}, {"TargetMode": "external", "Id": ""}, {"type": "x", "target": "y"}, {"{urn:x}Target": "/gone", "{urn:x}Type": "urn:t"},
                             {"Id": "r0", "x": "1"}])
    one = Element(RE + "Relationships")
    SubElement(one, RE + "Relationship", {**extra, "Type": "urn:x" if at == "other" else SPEC, "Target": "/a.json" if there else "/gone.json"})
    if at == "other":
        SubElement(one, RE + "Relationship", {"Type": SPEC, "Target": "/a.json", "Id": "r0"})
    ms = [Member("[Content_Types].xml", content_types()), Member(rels_name(""), rels((ORIGIN, "/o"))), Member("o", raw(b"")), Member(rels_name("o"), xml_doc(one)), Member("a.json", Opt(S, good))]
    r = judge(S, ms, S.pick("via", ["file", "data"]))
    S.cover("attributes")
    S.require(S.Iff(r.ok(), S.And(good, there)), "other attributes of a relationship", lambda: [extra, there, r.to_dict()])
    S.require(S.Implies(r.ok(), r.level.value == 0), "severity with other attributes of a relationship", lambda: [extra, there, r.to_dict()])


def h_type(S, at, pre, n, post):
    """relationship types are compared as a whole"""
    t = pre + S.str("t", n, alpha=TYPECHARS) + post
    good = S.bool("good")
    ms = [Member("[Content_Types].xml", content_types()), Member(rels_name(""), rels((t if at == "origin" else ORIGIN, "/o"))), Member("o", raw(b"")),
          Member(rels_name("o"), rels((t if at == "spec" else SPEC, "/a.json"))), Member("a.json", Opt(S, good))]
    r = judge(S, ms, "data")
    want = ORIGIN if at == "origin" else SPEC
    old = [k for k, v in OLD.items() if v == want][0]
    if t == want:
        S.cover("type new")
        S.require(S.And(S.Iff(r.ok(), good), S.Implies(good, r.level.value == 0)), "relationship of the type", lambda: [t, r.to_dict()])
    elif t == old:
        S.cover("type old")
        S.require(S.And(S.Iff(r.ok(), good), S.Implies(good, r.level.value == 1)), "relationship of the old type", lambda: [t, r.to_dict()])
    else:
        S.cover("type other")
        S.require(r.level.value == 1, "relationship of another type", lambda: [t, r.to_dict()])


TYPECHARS = [(33, 37), (39, 126)]


class Opt:
    """a JSON document that is compliant or not"""
    kind = "json"

    def __init__(self, S, good):
        self.S, self.good = S, good

    @property
    def value(self):
        return {"submodels": [{"modelType": "Submodel", "id": "urn:a" if self.good else ""}]}

    def to_bytes(self):
        return json_doc(self.value).to_bytes()


PARTS = ["aasx/origin", "aasx/a.json", "b.xml", "aasx/c.txt"]


def model(S, rs, good):
    """reference interpretation of a package. rs: part -> list of (type, target part or None)"""
    errors, warnings = [], []
    seen, order = [], []
    revisited = []

    def scan(part):
        for t, target in rs.get(part, []):
            if t in OLD:
                warnings.append("old")
                t = OLD[t]
            if part == "":
                order.append((t, target))
            if target is None:
                errors.append("missing")
                continue
            if target in seen:
                if part == "" and t == ORIGIN:
                    revisited.append(target)
                continue
            seen.append(target)
            scan(target)
    scan("")
    origins = [x for t, x in order if t == ORIGIN]
    if len(origins) != 1:
        warnings.append("origins")
    checked, hidden = [], []
    done = []
    for o in origins:
        specs = [x for t, x in rs.get(o, []) if OLD.get(t, t) == SPEC]
        (hidden if o in revisited and o not in done else checked).extend(specs)
        done.append(o)
        if not specs:
            warnings.append("specs")
    for x in checked + hidden:
        if x is not None and not (x.endswith(".xml") or x.endswith(".json")):
            warnings.append("type")
    return errors, warnings, checked, hidden


def h_graph(S, free, via):
    """relationships of the parts in free are arbitrary (type and target), the others as in an ordinary package"""
    ordinary = {"": [(ORIGIN, "aasx/origin")], "aasx/origin": [(SPEC, "aasx/a.json"), (SPEC, "b.xml")], "aasx/a.json": [], "b.xml": [(SUPPL, "aasx/c.txt")]}
    rs = {}
    for p in ordinary:
        if p in free:
            rs[p] = []
            for i in range(free[p]):
                t = S.pick(f"type.{p}.{i}", TYPES)
                x = S.pick(f"target.{p}.{i}", PARTS + [None])
                rs[p].append((t, x))
        else:
            rs[p] = ordinary[p]
    g = {"aasx/a.json": S.bool("good.a"), "b.xml": S.bool("good.b")}
    ms = [Member("[Content_Types].xml", content_types())]
    for p, l in rs.items():
        if l or p == "":
            ms.append(Member(rels_name(p), rels(*[(t, "/" + (x or "gone")) for t, x in l])))
    ms.append(Member("aasx/origin", raw(b"")))
    ms.append(Member("aasx/a.json", Opt(S, g["aasx/a.json"])))
    ms.append(Member("b.xml", OptXml(S, g["b.xml"])))
    ms.append(Member("aasx/c.txt", raw(b"text")))
    r = judge(S, ms, via)
    errors, warnings, checked, hidden = model(S, rs, g)
    S.cover("errors" if errors else "warnings" if warnings else "clean")
    if checked:
        S.cover("checked")
    ok = S.And(not errors, *[g[x] for x in checked if x in g])
    known = [("K24-revisit", S.And(not errors, r.ok(), S.Or(*[S.Not(g[x]) for x in hidden if x in g])))] if hidden else []
    S.require(S.Iff(r.ok(), S.And(ok, *[g[x] for x in hidden if x in g])), "verdict on the package", lambda: [rs, r.to_dict()], known=known)
    if not errors and not hidden:
        S.require(S.Implies(ok, r.level.value == (1 if warnings else 0)), "severity of an accepted package", lambda: [rs, warnings, r.to_dict()])


def h_origins(S, n):
    """exactly one origin, each with a document, or a warning"""
    has = [S.pick("specs%d" % i, [0, 1, 2]) for i in range(n)]
    good = S.bool("good")
    root = [(ORIGIN, "/o%d" % i) for i in range(n)] + [(THUMB, "/t")]
    ms = [Member("[Content_Types].xml", content_types()), Member(rels_name(""), rels(*root)), Member("t", raw(b""))]
    for i, k in enumerate(has):
        ms.append(Member("o%d" % i, raw(b"")))
        if k:
            ms.append(Member(rels_name("o%d" % i), rels(*[(SPEC, "/d/%d%d.json" % (i, j)) for j in range(k)])))
        ms += [Member("d/%d%d.json" % (i, j), Opt(S, good)) for j in range(k)]
    r = judge(S, ms, "data")
    S.cover("origins")
    S.require(S.Iff(r.ok(), S.Or(good, sum(has) == 0)), "verdict on a package with several origins", lambda: [has, r.to_dict()])
    S.require(S.Implies(r.ok(), r.level.value == (0 if n == 1 and has[0] else 1)), "severity of a package by its origins", lambda: [has, r.to_dict()])
    # each of them has its own finding
    warned = sum(1 for x in nodes(r) if not x.sub_results and x.level.value == 1)
    S.require(warned >= (n != 1) + has.count(0), "a warning for each origin without a document", lambda: [has, r.to_dict()])


class OptXml:
    kind = "xml"

    def __init__(self, S, good):
        self.S, self.good = S, good

    @property
    def value(self):
        return docs.env_xml(GOOD if self.good else BAD)

    def to_bytes(self):
        return xml_doc(self.value).to_bytes()


def h_cycle(S, n, style="p%d"):
    """chains of n parts that lead back to any of them: the check ends and still sees the document"""
    names = [style % i for i in range(n)]
    good = S.bool("good")
    back = S.pick("back", names)
    ms = [Member("[Content_Types].xml", content_types()), Member(rels_name(""), rels((ORIGIN, "/" + names[0])))]
    for i, p in enumerate(names):
        ms.append(Member(p, raw(b"")))
        nxt = names[i + 1] if i + 1 < n else back
        l = [("urn:next", "/" + nxt)]
        if i == 0:
            l.append((SPEC, "/a.json"))
        ms.append(Member(rels_name(p), rels(*l)))
    ms.append(Member("a.json", Opt(S, good)))
    r = judge(S, ms)
    S.cover("cycle")
    S.require(S.Iff(r.ok(), good), "verdict on a package with a cycle")


def h_comment(S, via):
    """what the archive says about itself does not matter"""
    good = S.bool("good")
    c = S.pick("comment", [b"", b"x", b"AASX", b"x" * 300, b"\0\xff"])
    ms = package([Member("a.json", Opt(S, good))], ["a.json"])
    z = S.zip(ms, comment=c)
    r, e = S.call(file.check_aasx_file, z) if via == "file" else S.call(lambda: file.check_aasx_data(zipfile.ZipFile(z)))
    S.cover("comment")
    S.require(e is None, "check of a package with a comment raises", lambda: repr(e))
    S.require(S.Iff(r.ok(), good), "verdict on a package with a comment", lambda: [c, r.to_dict()])


def h_diamond(S, n):
    """n layers of two parts, each related to both parts of the next layer: every part is looked at once"""
    good = S.bool("good")
    at = S.pick("at", list(range(n)))
    defect = S.pick("defect", [False, True])
    ms = [Member("[Content_Types].xml", content_types()), Member(rels_name(""), rels((ORIGIN, "/o"))), Member("o", raw(b"")),
          Member(rels_name("o"), rels((SPEC, "/a.json"), ("urn:next", "l0a"), ("urn:next", "l0b"))), Member("a.json", Opt(S, good))]
    for i in range(n):
        for x in "ab":
            p = "l%d%s" % (i, x)
            ms.append(Member(p, raw(b"")))
            l = [("urn:next", "l%da" % (i + 1)), ("urn:next", "l%db" % (i + 1))] if i + 1 < n else []
            if i == at and x == "b" and defect:
                l.append(("urn:x", "gone"))
            if l:
                ms.append(Member(rels_name(p), rels(*l)))
    r = judge(S, ms)
    S.cover("diamond")
    S.require(S.Iff(r.ok(), S.And(good, not defect)), "verdict on a package with parts related twice", lambda: [at, defect])
    # a part looked at anew for every way to reach it would make the report grow with the number of ways
    S.require(sum(1 for _ in nodes(r)) < 40 + 40 * n, "size of the report on a package with parts related twice", lambda: sum(1 for _ in nodes(r)))


def h_far(S, n, shape):
    """a chain of n parts in nested folders: a defect is found however far from the root"""
    names, d = [], ""
    for i in range(n):
        names.append(d + "p%d" % i)
        if shape == "down":
            d += "d%d/" % i
        elif shape == "rels":
            d += "d%d_rels/" % i
        elif shape == "zigzag":
            d = "x/y/" if i % 2 == 0 else ""
    at = S.pick("at", list(range(n)))
    defect = S.pick("defect", ["none", "missing", "attribute", "tag", "no xml", "old"])
    ms = [Member("[Content_Types].xml", content_types()), Member(rels_name(""), rels((ORIGIN, "/" + names[0])))]
    for i, p in enumerate(names):
        ms.append(Member(p, raw(b"")))
        here = p.rsplit("/", 1)[0] + "/" if "/" in p else ""
        l = []
        if i + 1 < n:
            nxt = names[i + 1]
            l.append(("urn:next", nxt[len(here):] if nxt.startswith(here) else "../" * here.count("/") + nxt))
        if i == 0:
            l.append((SPEC, "/a.json"))
        if i == at and defect == "missing":
            l.insert(0, ("urn:x", "gone"))
        if i == at and defect == "old":
            l.append((list(OLD)[2], "/a.json"))
        e = Element(RE + "Relationships")
        for k, (t, x) in enumerate(l):
            SubElement(e, RE + "Relationship", {"Type": t, "Target": x, "Id": "r%d" % k, "TargetMode": "Internal"})
        if i == at and defect == "attribute":
            SubElement(e, RE + "Relationship", {"Type": SUPPL})
        if i == at and defect == "tag":
            SubElement(e, RE + "Other", {"Type": SUPPL, "Target": "/a.json"})
        if l or i == at:
            ms.append(Member(rels_name(p), raw(b"<") if i == at and defect == "no xml" else xml_doc(e)))
    good = S.bool("good")
    ms.append(Member("a.json", Opt(S, good)))
    r = judge(S, ms)
    S.cover("far " + defect)
    S.require(S.Iff(r.ok(), S.And(good, defect in ("none", "old"))), "verdict on a package with a long chain", lambda: [at, defect, r.to_dict()])
    S.require(S.Implies(r.ok(), r.level.value == (1 if defect == "old" else 0)), "severity of a package with a long chain", lambda: [at, defect, r.to_dict()])


def h_broken(S, what, n, via):
    """damage of the package metadata is an error; deviating tags up to the bound"""
    ct, root, sub = content_types(), rels((ORIGIN, "/aasx/origin")), rels((SPEC, "/aasx/a.json"))
    tag = S.str("tag", n, alpha=NAMECHARS)
    expect = False
    if what == "ct-missing":
        ct = None
    elif what == "ct-tag":
        ct = xml_doc(Element(CT + tag))
        expect = tag == "Types"
    elif what == "ct-ns":
        ct = xml_doc(Element("{" + CT[1:-1] + tag + "}Types"))
        expect = S.len(tag) == 0
    elif what == "ct-json":
        ct = json_doc({"a": 1})
    elif what == "ct-raw":
        ct = raw(S.pick("raw", RAW))
    elif what == "root-missing":
        root = None
    elif what == "root-tag":
        e = Element(RE + tag)
        SubElement(e, RE + "Relationship", {"Type": ORIGIN, "Target": "/aasx/origin"})
        root = xml_doc(e)
        expect = tag == "Relationships"
    elif what in ("root-ns", "rel-ns"):
        ns = "{" + RE[1:-1] + tag + "}"
        e = Element((ns if what == "root-ns" else RE) + "Relationships")
        SubElement(e, RE + "Relationship", {"Type": ORIGIN, "Target": "/aasx/origin"})
        SubElement(e, (ns if what == "rel-ns" else RE) + "Relationship", {"Type": THUMB, "Target": "/aasx/a.json"})
        root = xml_doc(e)
        expect = S.len(tag) == 0
    elif what in ("root-plain", "rel-plain", "ct-plain"):
        e = Element(("" if what == "root-plain" else RE) + "Relationships")
        SubElement(e, RE + "Relationship", {"Type": ORIGIN, "Target": "/aasx/origin"})
        SubElement(e, ("" if what == "rel-plain" else RE) + "Relationship", {"Type": THUMB, "Target": "/aasx/a.json"})
        root = xml_doc(e)
        if what == "ct-plain":
            ct = xml_doc(Element("Types"))
    elif what == "root-raw":
        root = raw(S.pick("raw", RAW))
    elif what == "rel-tag":
        e = Element(RE + "Relationships")
        SubElement(e, RE + "Relationship", {"Type": ORIGIN, "Target": "/aasx/origin"})
        SubElement(e, RE + tag, {"Type": THUMB, "Target": "/aasx/a.json"})
        root = xml_doc(e)
        expect = tag == "Relationship"
    elif what in ("rel-attr", "sub-attr"):
        e = Element(RE + "Relationships")
        which = S.pick("which", ["Type", "Target", "both", "none"])
        a = {"Type": THUMB, "Target": "/aasx/a.json"}
        if which in ("Type", "both"):
            del a["Type"]
        if which in ("Target", "both"):
            del a["Target"]
        a["X"] = tag
        SubElement(e, RE + "Relationship", a)
        SubElement(e, RE + "Relationship", {"Type": ORIGIN if what == "rel-attr" else SPEC, "Target": "/aasx/origin" if what == "rel-attr" else "/aasx/a.json"})
        if what == "rel-attr":
            root = xml_doc(e)
        else:
            sub = xml_doc(e)
        expect = which == "none"
    elif what == "sub-tag":
        e = Element(RE + tag)
        SubElement(e, RE + "Relationship", {"Type": SPEC, "Target": "/aasx/a.json"})
        sub = xml_doc(e)
        expect = tag == "Relationships"
    elif what in ("sub-rel-tag", "sub-rel-ns"):
        e = Element(RE + "Relationships")
        SubElement(e, RE + "Relationship", {"Type": SPEC, "Target": "/aasx/a.json"})
        SubElement(e, RE + tag if what == "sub-rel-tag" else "{" + tag + RE[1:-1] + "}Relationship", {"Type": SUPPL, "Target": "/aasx/a.json"})
        sub = xml_doc(e)
        expect = tag == "Relationship" if what == "sub-rel-tag" else S.len(tag) == 0
    elif what == "sub-raw":
        sub = raw(S.pick("raw", RAW))
    elif what == "sub-missing":
        sub = None
        expect = True
    ms = []
    if ct is not None:
        ms.append(Member("[Content_Types].xml", ct))
    if root is not None:
        ms.append(Member("_rels/.rels", root))
    if sub is not None:
        ms.append(Member("aasx/_rels/origin.rels", sub))
    ms += [Member("aasx/origin", raw(b"")), Member("aasx/a.json", json_doc(GOOD))]
    r = judge(S, ms, via)
    S.cover(what)
    S.require(S.Iff(r.ok(), expect), "package metadata: " + what, lambda: [tag, r.to_dict()])


NAMECHARS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"
RAW = [b"", b"<", b"<a>", b"<a></b>", b"\xff\xfe", b"{}", b'<?xml version="1.0" encoding="foo"?><a/>',
       b'<?xml version="1.0" encoding="shift_jis"?><a/>', b"<a>\xff</a>", b"<a/><b/>"]


def h_fault(S, fault, via, extra=0):
    """an unreadable member of the package is reported, whichever it is"""
    names = ["[Content_Types].xml", "_rels/.rels", "aasx/_rels/origin.rels", "aasx/a.json", "b.xml", "extra.bin"]
    which = S.pick("which", names)
    d = {"[Content_Types].xml": content_types(), "_rels/.rels": rels((ORIGIN, "/aasx/origin")),
         "aasx/_rels/origin.rels": rels((SPEC, "/aasx/a.json"), (SPEC, "/b.xml")), "aasx/a.json": json_doc(GOOD),
         "b.xml": xml_doc(docs.env_xml(GOOD)), "extra.bin": raw(b"abcdefgh")}
    ms = [Member("x/%d.bin" % i, raw(b"abcdefgh")) for i in range(extra)] + [Member(n, d[n], fault if n == which else "none") for n in names] + [Member("aasx/origin", raw(b"x"))]
    r = judge(S, ms, via)
    S.cover(fault)
    if which != "extra.bin":
        S.require(S.Not(r.ok()), "unreadable member accepted", lambda: [which, fault])


def c24(tier):
    q = tier == "quick"
    out = []
    for n in range(0, 5 if q else 7):
        out.append(("h_target", {"n": n, "base": "x/o", "prefix": ""}, {"weight": n}))
        out.append(("h_target", {"n": n, "base": "o", "prefix": ""}, {"weight": n}))
        out.append(("h_target", {"n": n, "base": "x/o", "prefix": "", "suffix": "a.json"}, {"weight": n}))
        out.append(("h_target", {"n": n, "base": "x/y/o", "prefix": "../", "suffix": "/a.json", "typ": SUPPL}, {"weight": n}))
        out.append(("h_target", {"n": n, "base": "x/y/o", "prefix": "/x/", "suffix": "a.json"}, {"weight": n}))
    out.append(("h_target", {"n": 1, "base": "x/o", "prefix": "y/../../x/", "suffix": "/a.json"}))
    for at, w in (("origin", ORIGIN), ("spec", SPEC)):
        for n in (0, 1, 2):
            out += [("h_type", {"at": at, "pre": p, "n": n, "post": x}) for p, x in ((w, ""), ("", w), (w[:-n] if n else w, ""), (w[:7], w[7 + n:]), (w[:7], w[7:]), (w[:20], w[20 + n:]))]
        out += [("h_type", {"at": at, "pre": "http://", "n": 4, "post": w[7:]}), ("h_type", {"at": at, "pre": "", "n": n, "post": w[n:]}) ]
    for via in ("file", "data"):
        out.append(("h_graph", {"free": {"": 1}, "via": via}))
        out.append(("h_graph", {"free": {"aasx/origin": 1}, "via": via}))
        out.append(("h_graph", {"free": {"aasx/a.json": 1}, "via": via}))
    out.append(("h_graph", {"free": {"": 2}, "via": "data"}, {"weight": 20}))
    out.append(("h_graph", {"free": {"aasx/origin": 2}, "via": "data"}, {"weight": 20}))
    out.append(("h_graph", {"free": {"": 1, "aasx/origin": 1}, "via": "data"}, {"weight": 20}))
    if not q:
        out.append(("h_graph", {"free": {"": 1, "aasx/origin": 1, "b.xml": 1}, "via": "data"}, {"weight": 90, "budget": 1500}))
        out.append(("h_graph", {"free": {"": 2, "aasx/origin": 1}, "via": "data"}, {"weight": 90, "budget": 1500}))
    out += [("h_origins", {"n": n}) for n in (0, 1, 2, 3)]
    out += [("h_cycle", {"n": n}) for n in (1, 2, 3, 4, 8, 20)]
    out += [("h_cycle", {"n": n, "style": x}) for n in (1, 2, 3) for x in ("Part%d.BIN", "A/b%d/C", "x_rels/%d", ".%d", "%d.rels")]
    out += [("h_comment", {"via": v}) for v in ("file", "data")]
    out += [("h_far", {"n": n, "shape": s}) for s in ("flat", "down", "zigzag", "rels") for n in ((2, 4, 7, 12) if q else (2, 4, 7, 12, 25, 60))]
    for via in ("file", "data"):
        for w in ("ct-missing", "ct-json", "ct-raw", "root-missing", "root-raw", "rel-attr", "sub-attr", "sub-raw", "sub-missing", "ct-plain", "root-plain", "rel-plain"):
            out.append(("h_broken", {"what": w, "n": 1, "via": via}))
    for w, k in (("ct-tag", 5), ("ct-ns", 1), ("root-tag", 13), ("rel-tag", 12), ("sub-tag", 13), ("root-ns", 1), ("rel-ns", 1), ("sub-rel-tag", 12), ("sub-rel-ns", 1)):
        for n in sorted({0, 1, k, k + 1} - ({0} if not w.endswith("-ns") else set())):
            out.append(("h_broken", {"what": w, "n": n, "via": "file"}))
    out += [("h_attributes", {"at": a}) for a in ("spec", "other")]
    out += [("h_target", {"n": n, "base": b, "prefix": p, "folders": True, "typ": t}) for t in (SPEC, SUPPL) for b in ("x/o", "o") for n, p in ((0, "y"), (1, ""), (2, ""), (1, "/x"), (1, "x/"), (1, "/x/y"), (3, ""))]
    out += [("h_fault", {"fault": f, "via": v}) for v in ("file", "data") for f in ("crc", "deflate", "bzip2", "lzma", "encrypted", "strong", "method", "short", "header")]
    out += [("h_fault", {"fault": f, "via": "file", "extra": k}) for f in ("crc", "deflate") for k in ((70, 300) if q else (70, 300, 2000))]
    out += [("h_target", {"n": 1, "base": "x/o", "prefix": "", "suffix": l, "leaf": l}) for l in (".a.json", "..a.json", "a..json", "a b.json", "[a].json", "a+b,c.json", "\u00e4.json", "o.rels.json", "A.json", "a" * 200 + ".json")]
    out += [("h_target", {"n": 0, "base": b, "prefix": "/x/", "suffix": "y/a.json"}) for b in (".o", "x/.o", ".x/y/o", "x.y/o.p", "a b/c d", "x/..o")]
    out += [("h_diamond", {"n": n}) for n in ((1, 3, 9) if q else (1, 3, 9, 14))]
    return out


# ---- C25: contents -----------------------------------------------------------------
def value_doc(s):
    """compliant iff s is a literal of xs:unsignedByte"""
    return docs.env_sme({"modelType": "Property", "idShort": "a", "valueType": "xs:unsignedByte", "value": s})


def package(members, specs, name="aasx/origin"):
    return [Member("[Content_Types].xml", content_types()), Member("_rels/.rels", rels((ORIGIN, "/" + name))), Member(name, raw(b"")),
            Member(rels_name(name), rels(*[(SPEC, "/" + n) for n in specs]))] + members


def ubyte(S, s):
    return S.match("[+]?0*([0-9]|[1-9][0-9]|1[0-9][0-9]|2[0-4][0-9]|25[0-5])|-0+", s)


TXT = "".join(chr(c) for c in range(0x20, 0x7f))


def h_same(S, fmt, n):
    """the verdict on a document depends on its content only, not on how it is handed over"""
    s = S.str("s", n, alpha=TXT)
    d = value_doc(s)
    good = ubyte(S, s)
    if fmt == "json":
        fd, ff, doc, data = file.check_json_data, file.check_json_file, json_doc(d), docs.copy(d)
    else:
        fd, ff, doc, data = file.check_xml_data, file.check_xml_file, xml_doc(docs.env_xml(d)), docs.env_xml(d)
    S.cover(fmt)
    rs = [("data", lambda: fd(data)), ("binary file", lambda: ff(S.file(doc))), ("text file", lambda: ff(S.file(doc, text=True))),
          ("package", lambda: file.check_aasx_file(S.zip(package([Member("x." + fmt, doc)], ["x." + fmt])))),
          ("version", lambda: ff(S.file(doc), "3.0", "Environment"))]
    for what, f in rs:
        r, e = S.call(f)
        S.require(e is None, f"check of a {fmt} document raises ({what})", lambda: repr(e))
        check_tree(S, r)
        S.require(S.Iff(r.ok(), good), f"verdict on a {fmt} document ({what})", lambda: [s, r.to_dict()])


ENCODINGS = {"json": ["utf-8", "utf-16", "utf-16-le", "utf-16-be", "utf-32"], "xml": ["utf-8", "utf-8-sig", "utf-16", "iso-8859-1", "us-ascii"]}


def h_encoding(S, fmt, n):
    """the encoding of a file does not matter, as long as the format allows it"""
    s = S.str("s", n, alpha=TXT)
    good = ubyte(S, s)
    S.cover("good" if good else "bad")
    enc = S.pick("encoding", ENCODINGS[fmt])
    d = value_doc(s)
    d["submodels"][0]["displayName"] = [{"language": "de", "text": "Gr\u00f6\u00dfe" if enc != "us-ascii" else "Size"}]
    doc = json_doc(d, enc) if fmt == "json" else xml_doc(docs.env_xml(d), enc)
    ff = file.check_json_file if fmt == "json" else file.check_xml_file
    S.cover("encoding")
    how = S.pick("how", ["file", "package"])
    if how == "file":
        r, e = S.call(lambda: ff(S.file(doc)))
    else:
        r, e = S.call(lambda: file.check_aasx_file(S.zip(package([Member("x." + fmt, doc)], ["x." + fmt]))))
    S.require(e is None, f"check of a {fmt} file in another encoding raises", lambda: [enc, repr(e)])
    check_tree(S, r)
    S.require(S.Iff(r.ok(), good), f"verdict on a {fmt} file in another encoding", lambda: [enc, s, r.to_dict()])


def h_big(S, fmt, how):
    """large files: the document follows after many blanks (JSON) or a long comment (XML)"""
    s = S.str("s", 2, alpha=TXT)
    good = ubyte(S, s)
    S.cover("good" if good else "bad")
    pad = S.pick("pad", [100, 5000, 70000, 3000000])
    d = value_doc(s)
    doc = json_doc(d) if fmt == "json" else xml_doc(docs.env_xml(d))
    doc.pad = pad
    S.cover("big")
    if how == "file":
        r, e = S.call(lambda: (file.check_json_file if fmt == "json" else file.check_xml_file)(S.file(doc)))
    else:
        r, e = S.call(lambda: file.check_aasx_file(S.zip(package([Member("x." + fmt, doc)], ["x." + fmt]))))
    S.require(e is None, f"check of a large {fmt} file raises", lambda: [pad, repr(e)])
    check_tree(S, r)
    S.require(S.Iff(r.ok(), good), f"verdict on a large {fmt} file", lambda: [pad, s, r.to_dict()])


def h_name(S, n, suffix):
    """the file type of a part follows from its name"""
    name = "aasx/" + S.str("n", n, alpha=TARGET.replace("/", "")) + suffix
    S.assume(S.Not(S.Or(name == "aasx/.", name == "aasx/..", name == "aasx/origin")))
    kind = S.pick("content", ["json", "xml"])
    good = S.bool("good")
    doc = Opt(S, good) if kind == "json" else OptXml(S, good)
    r = judge(S, package([Member(name, doc)], [name]))
    if name.endswith(".json"):
        S.cover("json name")
        S.require(S.Iff(r.ok(), S.And(good, kind == "json")), "verdict on a part with the suffix json", lambda: [name, r.to_dict()])
    elif name.endswith(".xml"):
        S.cover("xml name")
        S.require(S.Iff(r.ok(), S.And(good, kind == "xml")), "verdict on a part with the suffix xml", lambda: [name, r.to_dict()])
    else:
        S.cover("other name")
        S.require(r.level.value == 1, "part of unknown type is a warning", lambda: [name, r.to_dict()])


def h_specs(S, n, origins, style="aasx/p%d.%s"):
    """every document of the package is checked, whatever the others are"""
    goods = [S.bool("g%d" % i) for i in range(n)]
    ms, names = [], []
    for i, g in enumerate(goods):
        k = "json" if i % 2 == 0 else "xml"
        names.append(style % (i, k) if "%" in style else "aasx/" + style[:i // 2] + style[i // 2].upper() + style[i // 2 + 1:] + "." + k)
        ms.append(Member(names[-1], Opt(S, g) if k == "json" else OptXml(S, g)))
    if origins == 1:
        pk = package(ms, names)
    else:
        pk = [Member("[Content_Types].xml", content_types()), Member("_rels/.rels", rels((ORIGIN, "/o0"), (ORIGIN, "/o1"))),
              Member("o0", raw(b"")), Member("o1", raw(b"")),
              Member("_rels/o0.rels", rels(*[(SPEC, "/" + x) for x in names[:1]])),
              Member("_rels/o1.rels", rels(*[(SPEC, "/" + x) for x in names[1:]]))] + ms
    r = judge(S, pk, "data")
    S.cover("several")
    S.require(S.Iff(r.ok(), S.And(*goods)), "verdict on a package with several documents", lambda: [goods, r.to_dict()])
    S.require(S.Implies(r.ok(), r.level.value == origins - 1), "severity of a package with several documents", lambda: [goods, r.to_dict()])
    # every bad document has its findings in the report
    bad = sum(len(errors(file.check_json_data(BAD) if i % 2 == 0 else file.check_xml_data(docs.env_xml(BAD)))) for i, g in enumerate(goods) if not g)
    S.require(len(errors(r)) == bad, "findings on each of several documents", lambda: [goods, r.to_dict()])


BADJSON = [b"", b"{", b"[1,", b"\xff\xfe\x00", b"{'a': 1}", b"<a/>", b"nul", b"{} {}", b'{"a": "\xff"}', b"\xef\xbb\xbf{}",
           b'{"submodels": [{"modelType": "Submodel", "id": "a\tb"}]}', b'{"submodels": [{"modelType": "Submodel", "id": "a\nb"}]}', b'{"submodels": [{"modelType": "Submodel", "id": "a"},]}',
           b'{"submodels": [{"modelType": "Submodel", "id": "a",}]}', b'{"submodels": [{"modelType": "Submodel", "id": "a"}]', b'{"submodels": [{"modelType": "Submodel", "id": "a"}]}}',
           b'{"submodels": [{"modelType": "Submodel", "id": "a"}]} x', b'{"submodels": [{"modelType": "Submodel", "id": "a}]}', b'{submodels: [{"modelType": "Submodel", "id": "a"}]}',
           b'// c\n{"submodels": [{"modelType": "Submodel", "id": "a"}]}', b'{"submodels": [{"modelType": "Submodel", "id": "a\\x"}]}', b'{"submodels": [{"modelType": "Submodel" "id": "a"}]}',
           b'{"submodels": [{"modelType": "Submodel", "id": "\xe4"}]}']
GOODXML = b'<environment xmlns="https://admin-shell.io/aas/3/0"><submodels><submodel><id>urn:a</id></submodel></submodels></environment>'
BADXML = RAW + [b" <?xml version='1.0'?>" + GOODXML, b"\n<?xml version='1.0'?>" + GOODXML, GOODXML + b"x", GOODXML + GOODXML, GOODXML[:-1], b"x" + GOODXML, GOODXML.replace(b"urn", b"&foo;"),
                GOODXML.replace(b"urn", b"&#0;"), GOODXML.replace(b"urn", b"\x01"), GOODXML.replace(b"urn", b"\xe4"), GOODXML.replace(b"urn", b"a & b"), GOODXML.replace(b"<id>", b"<id a=1>"),
                GOODXML.replace(b"<id>", b"<id a='1' a='2'>"), GOODXML.replace(b"</id>", b"</ID>"), GOODXML.replace(b"<id>", b"<x:id>").replace(b"</id>", b"</x:id>"), b"<!--" + GOODXML, b"<?xml version='1.0'?>",
                GOODXML.replace(b"urn", b"<b>"), GOODXML.replace(b"</id>", b"")] + [b"<environment>", b'<?xml version="1.0" encoding="utf-16"?><a/>']
OTHERJSON = [b'[{"submodels": [{"modelType": "Submodel", "id": "a"}]}]', b'{"submodels": [{"modelType": "Submodel", "id": NaN}]}', b'{"submodels": [{"modelType": "Submodel", "id": -Infinity}]}',
             b'{"submodels": [{"modelType": "Submodel", "id": 1}]}', b'{"submodels": [{"modelType": "Submodel", "id": 1.5}]}', b'{"submodels": [{"modelType": "Submodel", "id": true}]}', b'"{}"', b'[{}]', b'[[]]', b"0", b"false", b"-1.5", b'""',
             b"null", b"1", b'"a"', b"[]", b"true", b"1e999", b"NaN", b'{"submodels": null}', b'[{"submodels": []}]']


def h_malformed(S, fmt, how):
    """anything that is no document at all is an error in the report, never an exception"""
    if fmt == "json":
        b = S.pick("raw", BADJSON + OTHERJSON)
        f = file.check_json_file
    else:
        b = S.pick("raw", BADXML)
        f = file.check_xml_file
    if how == "package":
        g = lambda: file.check_aasx_file(S.zip(package([Member("x." + fmt, raw(b))], ["x." + fmt])))
    elif how == "zip":
        g = lambda: file.check_aasx_file(S.file(raw(b)))
    else:
        g = lambda: f(S.file(raw(b)))
    r, e = S.call(g)
    S.cover("malformed")
    S.require(e is None, "check of a malformed file raises", lambda: [b, repr(e)])
    check_tree(S, r)
    if b != b"\xef\xbb\xbf{}":
        S.require(S.Not(r.ok()), "malformed file accepted", lambda: [b])


SM = b'{"submodels": [{"modelType": "Submodel", "id": "urn:a"}]}'
RAWJSON = [SM, SM.replace(b'"id"', b'" id"'), SM.replace(b'"id"', b'"id "'), SM.replace(b'"submodels"', b'"submodels\\n"'), SM.replace(b'"id"', b'"Id"'), SM.replace(b'"id"', b'"i\\u0064"'),
           SM.replace(b"urn:a", b" urn:a "), SM.replace(b"urn:a", b"\\ud83d\\ude00"), SM.replace(b"urn:a", b"\\ud800"), SM.replace(b"urn:a", b"\\u0000"), SM.replace(b"urn:a", b"\\t"), SM.replace(b"urn:a", b"\\b"),
           SM.replace(b"urn:a", "\u00e9\u4e2d\U0001f600".encode()), SM.replace(b"urn:a", b"x" * 2000), SM.replace(b"urn:a", b"x" * 2001), SM.replace(b'"urn:a"', b"1"), SM.replace(b'"urn:a"', b"null"), SM.replace(b'"urn:a"', b"true"),
           SM.replace(b'"urn:a"', b"1e5"), SM.replace(b'"urn:a"', b"NaN"), SM.replace(b'"urn:a"', b"[]"), SM.replace(b'"urn:a"', b"{}"), SM.replace(b'"urn:a"', b'"urn:a", "id": "urn:b"'), SM.replace(b'"urn:a"', b'"urn:a", "id": ""'), SM.replace(b'"urn:a"', b'"", "id": "urn:a"'),
           b"{}", b'{"submodels": []}', b'{"": 1}', b'{"submodels": [[]]}', b'{"submodels": ' + b"[" * 90 + b"]" * 90 + b"}", b"\n\t" + SM + b"\r\n ", SM.replace(b" ", b""), SM.replace(b" ", b"\n"),
           SM.replace(b'"Submodel"', b'"Submodel", "kind": "Instance"'), SM.replace(b'"Submodel"', b'"Submodel", "kind": "instance"'), SM.replace(b'"Submodel"', b'" Submodel"'), SM.replace(b'"Submodel"', b'"submodel"'),
           SM.replace(b"]", b', {"modelType": "Submodel", "id": "urn:b"}]'), SM.replace(b"]", b", {}]"), SM.replace(b"]", b", null]")]
RAWXML = [GOODXML, b'<?xml version="1.0"?>' + GOODXML, b'<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n' + GOODXML + b"\n", b"<!-- a -->" + GOODXML + b"<!-- b -->", GOODXML.replace(b"urn:a", b"<![CDATA[urn:a]]>"),
          GOODXML.replace(b"urn:a", b"u<!-- c -->rn:a"), GOODXML.replace(b"<id>", b"<!-- c --><id>"), GOODXML.replace(b"<id>", b"<?pi x?><id>"), GOODXML.replace(b"urn:a", b"&#117;rn:a"), GOODXML.replace(b"urn:a", b"&amp;&lt;"),
          GOODXML.replace(b"urn:a", b" urn:a "), GOODXML.replace(b"urn:a", b"\r\n"), GOODXML.replace(b"urn:a", b""), GOODXML.replace(b"<id>urn:a</id>", b"<id/>"), GOODXML.replace(b"<id>", b"\n  <id>"), GOODXML.replace(b"<id>", b"x<id>"),
          GOODXML.replace(b"</id>", b"</id>x"), GOODXML.replace(b"<id>", b'<id a="1">'), GOODXML.replace(b"<id>urn:a</id>", b"<id>urn:a</id><id>urn:b</id>"), GOODXML.replace(b"<id>urn:a</id>", b""), GOODXML.replace(b"<id>urn:a</id>", b"<Id>urn:a</Id>"),
          GOODXML.replace(b"<environment ", b'<environment xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xsi:schemaLocation="https://admin-shell.io/aas/3/0 AAS.xsd" '), GOODXML.replace(b"/3/0", b"/3/1"), GOODXML.replace(b"https", b"http"),
          GOODXML.replace(b' xmlns="', b' xmlns:aas="').replace(b"<", b"<aas:").replace(b"<aas:/", b"</aas:"), b'<!DOCTYPE environment [<!ENTITY e "urn:b">]>' + GOODXML.replace(b"urn:a", b"&e;"), GOODXML.replace(b' xmlns="https://admin-shell.io/aas/3/0"', b""),
          GOODXML.replace(b"urn:a", b"x" * 2000), GOODXML.replace(b"urn:a", b"x" * 2001), GOODXML.replace(b"environment", b"Environment"), GOODXML.replace(b"environment", b"submodel"), GOODXML.replace(b"<submodels>", b"<submodels><submodel><id/></submodel>"),
          GOODXML.replace(b"urn:a", "\u00e9\u4e2d\U0001f600".encode()), b"\xef\xbb\xbf" + GOODXML]


def h_raw(S, fmt, how):
    """a file is judged as the data a parser makes of it"""
    b = S.pick("raw", RAWJSON if fmt == "json" else RAWXML)
    if fmt == "json":
        want, e = S.call(lambda: file.check_json_data(json.loads(b)))
        ff = file.check_json_file
    else:
        want, e = S.call(lambda: file.check_xml_data(ElementTree.fromstring(b)))
        ff = file.check_xml_file
    S.require(e is None, "check of data raises", lambda: [b, repr(e)])
    if how == "package":
        r, e = S.call(lambda: file.check_aasx_file(S.zip(package([Member("x." + fmt, raw(b))], ["x." + fmt]))))
    elif how == "text":
        r, e = S.call(lambda: ff(io.StringIO(b.decode("utf-8-sig"))))
    else:
        r, e = S.call(lambda: ff(S.file(raw(b))))
    S.cover("raw good" if want.ok() else "raw bad")
    S.require(e is None, "check of a file raises", lambda: [b, repr(e)])
    check_tree(S, r)
    S.require(r.ok() is want.ok(), "verdict on a file and on its data", lambda: [b, r.to_dict(), want.to_dict()])


TYPE_DOCS = ["Submodel", "AssetAdministrationShell", "ConceptDescription", "Property", "Reference", "Environment"]


def h_model_type(S, t, via):
    """with a model type given, a document is judged as an object of that class"""
    d = S.pick("doc", TYPE_DOCS)
    broken = S.bool("broken")
    o = docs.minimal(d) if d != "Environment" else {}
    if d not in ("Property", "Submodel", "AssetAdministrationShell", "ConceptDescription"):
        o = {k: v for k, v in o.items() if k != "modelType"}
    if broken:
        o["surplus"] = 1
    if via == "data":
        r, e = S.call(lambda: file.check_json_data(o, model_type=t))
    else:
        r, e = S.call(lambda: file.check_json_file(S.file(json_doc(o)), model_type=t))
    fits = S.And(d == t, S.Not(broken))
    S.cover("fits" if d == t else "does not fit")
    if e is not None:
        S.require(False, "check with a model type raises", lambda: repr(e), known=[("K25-type", S.And(t != "Environment", isinstance(e, AttributeError), fits))])
        return
    S.require(S.Iff(r.ok(), fits), "verdict for the model type", lambda: [t, o, r.to_dict()])


def h_model_type_xml(S, t):
    d = S.pick("doc", TYPE_DOCS)
    broken = S.bool("broken")
    o = docs.minimal(d) if d != "Environment" else {}
    x = docs.to_xml(docs.lower_first(d), d, o)
    if broken:
        x.append(docs.el("surplus", "1"))
    r, e = S.call(lambda: file.check_xml_file(S.file(xml_doc(x)), model_type=t))
    # elements carry no class: compare by the attributes a class has
    S.cover("xml type")
    fits = S.And(d == t, S.Not(broken))
    if e is not None:
        S.require(False, "check with a model type raises", lambda: repr(e), known=[("K25-type", S.And(t != "Environment", isinstance(e, AttributeError), S.Not(broken)))])
        return
    S.require(S.Implies(broken, S.Not(r.ok())), "unknown element accepted for the model type", lambda: [t, d])
    S.require(S.Implies(fits, r.ok()), "verdict for the model type", lambda: [t, r.to_dict()])


def c25(tier):
    q = tier == "quick"
    out = [("h_same", {"fmt": f, "n": n}) for f in ("json", "xml") for n in range(0, 5 if q else 7)]
    out += [("h_name", {"n": n, "suffix": x}) for n in ((1, 4, 5, 6) if q else (1, 2, 3, 4, 5, 6, 7)) for x in ("", ".xml", ".json", ".", ".XML", "xml", ".jsonx")]
    out += [("h_specs", {"n": n, "origins": o}) for n in ((2, 3, 4, 6) if q else (2, 3, 4, 5, 6, 7, 8)) for o in (1, 2)]
    out += [("h_specs", {"n": n, "origins": o, "style": x}) for x in ("document", "d%d/x.%s", "p/%d.json.%s", "%d.xml/a.%s") for n, o in ((2, 1), (4, 1), (5, 2))]
    out += [("h_raw", {"fmt": f, "how": h}) for f in ("json", "xml") for h in ("file", "text", "package")]
    out += [("h_encoding", {"fmt": f, "n": n}) for f in ("json", "xml") for n in (1, 2, 3)]
    out += [("h_big", {"fmt": f, "how": h}) for f in ("json", "xml") for h in ("file", "package")]
    out += [("h_malformed", {"fmt": f, "how": h}) for f in ("json", "xml") for h in ("file", "package", "zip")]
    out += [("h_model_type", {"t": t, "via": v}) for t in TYPE_DOCS for v in ("data", "file")]
    out += [("h_model_type_xml", {"t": t}) for t in TYPE_DOCS]
    return out


PROPS = {
    "C23": {
        "cases": c23,
        "bounds": "paths of up to 7 (thorough 9) arbitrary characters, and after prefixes with '..', '//' and '.'; blanks only at the ends and inside one segment; split: up to 7 (11) characters",
        "assumptions": [],
        "must_cover": ["absolute", "relative", "nothing left", "folder", "plain", "blank", "inner blank"],
    },
    "C24": {
        "cases": c24,
        "bounds": "targets of up to 4 (thorough 6) arbitrary characters between fixed prefixes and suffixes; packages of 4 parts with up to 2 free relationships (type among 8, target among 5); cycles up to 20 parts; relationship types with up to 4 free characters; chains of up to 12 (60) parts in nested folders with one defect anywhere; tags of the listed lengths; parts reached over up to several ways; one damaged member, as file and as data; attributes of relationships in the listed order and number",
        "assumptions": ["the ZIP container and the XML parser are modelled by their results (a described member yields its content, a fault its exception); replays use real archives",
                        "percent-encoding, fragments, schemes and targets starting with '//' are not specified"],
        "must_cover": ["origins", "type new", "type old", "type other", "reached", "itself", "missing", "errors", "warnings", "clean", "checked", "cycle", "far none", "far missing", "far attribute", "far tag", "far no xml", "far old", "crc", "deflate", "bzip2", "lzma", "encrypted", "strong", "method", "short", "header", "diamond", "attributes", "comment"],
    },
    "C25": {
        "cases": c25,
        "bounds": "documents with a value of up to 4 (thorough 6) printable characters; part names of up to 6 arbitrary characters before the suffix; up to 6 (8) documents in 1 or 2 origins; the listed malformed files and encodings; files of up to 3 MB of padding; 6 model types; raw JSON and XML texts of the listed forms around the free value",
        "assumptions": ["JSON and XML parsing itself is modelled by its result; replays use real files"],
        "must_cover": ["json", "xml", "encoding", "json name", "xml name", "other name", "several", "malformed", "fits", "does not fit", "xml type", "big", "raw good", "raw bad"],
    },
}
