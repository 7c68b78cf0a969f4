"""Rules apply wherever an element lies; submodel templates."""
import re

from aas_test_engines import file
from harness import docs as D
from harness.common import nodes
from harness.h_constr import verdict, ref_ok

# ---- C20 depth ---------------------------------------------------------------------
CONTAINERS = ["collection", "list", "entity", "input", "output", "inoutput"]
OPVARS = {"input": "inputVariables", "output": "outputVariables", "inoutput": "inoutputVariables"}


def filler(i, like):
    """a valid sibling"""
    if like is not None and like.get("modelType") == "Property":
        return {"modelType": "Property", "idShort": "fill%d" % i, "valueType": like["valueType"]}
    if like is not None:
        out = D.minimal(like["modelType"])
        out["idShort"] = "fill%d" % i
        return out
    return {"modelType": "Capability", "idShort": "fill%d" % i}


def wrap(kind, child, pos, count, level):
    """a container holding child at position pos among count elements; returns it and the numbers of the path to the child"""
    sid = "c%d" % level
    if kind == "list":
        items = [filler(i, child) for i in range(count)]
        items[pos] = child
        items = [{k: v for k, v in x.items() if k != "idShort"} for x in items]
        out = {"modelType": "SubmodelElementList", "idShort": sid, "typeValueListElement": child["modelType"], "value": items}
        if child["modelType"] in ("Property", "Range"):
            out["valueTypeListElement"] = child["valueType"]
        return out
    items = [filler(i, None) for i in range(count)]
    items[pos] = child
    if kind == "collection":
        return {"modelType": "SubmodelElementCollection", "idShort": sid, "value": items}
    if kind == "entity":
        return {"modelType": "Entity", "idShort": sid, "entityType": "CoManagedEntity", "statements": items}
    return {"modelType": "Operation", "idShort": sid, OPVARS[kind]: [{"value": x} for x in items]}


def document(S, leaf, depth, kinds=None, sub=None):
    """the leaf below a chain of containers of any kind, at any position; returns the document and the positions from the outside"""
    path = []
    for level in range(depth):
        kind = S.pick("kind%d" % level, [k for k in kinds or CONTAINERS if level == 0 or k not in ("output", "inoutput")])
        count = 2 if depth > 1 else 3
        pos = S.pick("pos%d" % level, list(range(count))) if level == 0 or depth < 3 else level % 2
        leaf = wrap(kind, leaf, pos, count, level)
        path.insert(0, pos)
    count = 2
    pos = S.pick("element", [0, 1]) if depth < 2 else 1
    items = [filler(i, None) for i in range(count)]
    items[pos] = leaf
    path.insert(0, pos)
    sm = S.pick("submodel", [0, 1]) if depth < 2 else 1
    subs = [D.submodel(filler(0, None), id="urn:x:%d" % i) for i in range(2)]
    subs[sm] = D.submodel(*items, id="urn:x:%d" % sm)
    path.insert(0, sm)
    return {"assetAdministrationShells": [D.minimal("AssetAdministrationShell")], "submodels": subs,
            "conceptDescriptions": [D.minimal("ConceptDescription")]}, path


def leaf_value(S, depth):
    v = S.str("value", 4 if depth < 2 else 3)
    return ({"modelType": "Property", "idShort": "leaf", "valueType": "xs:byte", "value": v},
            S.match("[+-]?0*([0-9]{1,2}|1[01][0-9]|12[0-7])|-128", v))


def leaf_id(S, depth):
    v = S.str("sid", 2)
    return {"modelType": "Capability", "idShort": v}, S.match("[a-zA-Z][a-zA-Z0-9_]*", v)


def leaf_ref(S, depth):
    rtype = S.choice("rtype", ["ExternalReference", "ModelReference"])
    kt = D.KEYTYPES if depth < 2 else D.KEYTYPES[::3] + ["GlobalReference", "Submodel"]
    types = [S.choice("t%d" % i, kt) for i in range(2)]
    values = ["urn:x", "7"]
    r = {"type": rtype, "keys": [{"type": t, "value": v} for t, v in zip(types, values)]}
    return {"modelType": "ReferenceElement", "idShort": "leaf", "value": r}, ref_ok(S, rtype, types, values)


def leaf_attr(S, depth):
    key = S.pick("key", ["value", "IdShort", "idshort", "x", "statements"])
    return {"modelType": "Capability", "idShort": "leaf", key: "x"}, False


def leaf_type(S, depth):
    mt = S.choice("mt", ["Capability", "Operation", "ReferenceElement", "Qualifier", "capability", "DataElement", "SubmodelElement", "Submodel", "", "MultiLanguageProperty", None, 7])
    return {"modelType": mt, "idShort": "leaf"}, S.Or(*[mt == x for x in ("Capability", "Operation", "ReferenceElement", "MultiLanguageProperty")])


def leaf_unique(S, depth):
    a = S.str("a", 2, alpha="abc")
    return {"modelType": "SubmodelElementCollection", "idShort": "leaf", "value": [
        {"modelType": "Capability", "idShort": "ab"}, {"modelType": "Capability", "idShort": a}]}, a != "ab"


LEAVES = {"value": leaf_value, "id": leaf_id, "ref": leaf_ref, "attr": leaf_attr, "type": leaf_type, "unique": leaf_unique}


def h_deep(S, leaf, depth, fmt, kinds=None):
    obj, ok = LEAVES[leaf](S, depth)
    doc, _ = document(S, obj, depth, kinds)
    S.cover("deep " + leaf)
    S.require(S.Iff(verdict(S, doc, fmt), ok), "an element deep inside is judged differently", lambda: S.conc(obj))


BAD = [
    {"modelType": "Property", "idShort": "leaf", "valueType": "xs:byte", "value": "128"},
    {"modelType": "Property", "idShort": "leaf"},
    {"modelType": "Capability", "idShort": "leaf", "value": "x"},
    {"modelType": "Range", "idShort": "leaf", "valueType": "xs:int", "min": "x"},
    {"modelType": "ReferenceElement", "idShort": "leaf", "value": {"type": "ExternalReference", "keys": [{"type": "Submodel", "value": "x"}]}},
    {"modelType": "Capability", "idShort": "leaf", "category": 7},
    {"modelType": "Nothing", "idShort": "leaf"},
    {"modelType": "MultiLanguageProperty", "idShort": "leaf", "value": [{"language": "?", "text": "x"}]},
    {"modelType": "Capability", "idShort": "1"},
]


def numbers(message):
    """the positions in the path a finding names"""
    return [int(x) for x in re.findall(r"/([0-9]+)(?=/|$|\s)", message.rsplit("@", 1)[-1].strip())]


def h_where(S, bad, depth, fmt, kinds=None):
    """a single violated rule: every finding points into the offending element"""
    doc, path = document(S, D.copy(BAD[bad]), depth, kinds or ["collection", "entity", "input"])
    fn, arg = (file.check_json_data, doc) if fmt == "json" else (file.check_xml_data, D.env_xml(doc))
    r, e = S.call(fn, arg)
    S.require(e is None, "checking raised", lambda: repr(e))
    found = [n.message for n in nodes(r) if not n.sub_results and n.level.value >= 2]
    S.cover("where")
    S.require(len(found) > 0, "a violation deep inside is not reported", lambda: (BAD[bad], path))
    S.require(all("@" in m and numbers(m)[:len(path)] == path for m in found), "a finding does not name the place of the violation", lambda: (found, path))


def h_two(S, a, b, depth):
    """two violations at different places are both reported"""
    la, lb = D.copy(BAD[a]), D.copy(BAD[b])
    da, pa = document(S, la, depth, ["collection", "entity"])
    db = D.submodel({"modelType": "SubmodelElementCollection", "idShort": "z", "value": [filler(0, None), lb]}, id="urn:x:z")
    doc = dict(da, submodels=da["submodels"] + [db])
    pb = [2, 0, 1]
    r, e = S.call(file.check_json_data, doc)
    S.require(e is None, "checking raised", lambda: repr(e))
    found = [numbers(n.message) for n in nodes(r) if not n.sub_results and n.level.value >= 2]
    S.cover("two")
    for p in (pa, pb):
        S.require(any(f[:len(p)] == p for f in found), "one of two violations is not reported", lambda: (found, p))


def phase(bad):
    """violations of attributes are found before constraints are looked at"""
    return "constraint" if bad in (0, 3, 4, 7, 8) else "structure"


def deep_cases(tier):
    deep = tier != "quick"
    out = []
    for leaf in LEAVES:
        for d in (0, 1, 2) + ((3,) if deep else ()):
            for fmt in ("json",) if leaf in ("attr", "type") else ("json", "xml"):
                ks = [k for k in CONTAINERS if not (leaf in ("id",) and d and k == "list") and not (leaf == "type" and k == "list")]
                if d == 3:
                    for k in ks:
                        out.append(("h_deep", {"leaf": leaf, "depth": d, "fmt": fmt, "kinds": [k]}, {"weight": 3}))
                    continue
                out.append(("h_deep", {"leaf": leaf, "depth": d, "fmt": fmt, "kinds": ks}, {"weight": d + 1}))
    for b in range(len(BAD)):
        for d in (0, 1, 2) + ((3,) if deep else ()):
            for fmt in ("json", "xml"):
                if fmt == "xml" and b in (5,):
                    continue
                out.append(("h_where", {"bad": b, "depth": d, "fmt": fmt}))
    for a in range(len(BAD)):
        for b in range(len(BAD)):
            if phase(a) == phase(b):
                out.append(("h_two", {"a": a, "b": b, "depth": 1}))
    return out



# ---- C22 submodel templates ----------------------------------------------------------
CI = "https://admin-shell.io/zvei/nameplate/1/0/ContactInformations"
NP = "https://admin-shell.io/zvei/nameplate/2/0/Nameplate"
PHONE_TYPES = ["0173-1#07-AAS75%d#001" % i for i in (4, 5, 6, 7, 8, 9)]
MLP_FIELDS = ["0173-1#02-AAO134#002", "0173-1#02-AAO132#002", "0173-1#02-AAW001#001", "0173-1#02-AAO127#003", "0173-1#02-AAO128#002",
              "0173-1#02-AAO129#002", "0173-1#02-AAO130#002", "0173-1#02-AAO131#002", "0173-1#02-AAO133#002", "0173-1#02-AAO205#002",
              "0173-1#02-AAO206#002", "0173-1#02-AAO207#002", "0173-1#02-AAO208#003", "0173-1#02-AAO209#003", "0173-1#02-AAO210#002"]
# class -> [(semantic id, kind, at least, at most)]; kind: string, mlp, date, a list of values, or the name of a class; no limit: 0 as "at most"
TEMPLATES = {
    "ContactInformations": [(CI + "/ContactInformation", "ContactInformation", 1, 0)],
    "ContactInformation": [(x, "mlp", 0, 1) for x in MLP_FIELDS] + [
        ("0173-1#02-AAO204#003", ["0173-1#07-AAS9%s#001" % i for i in ("27", "28", "29", "30", "31")], 0, 1),
        (CI + "/ContactInformation/Language", "string", 0, 0),
        (CI + "/ContactInformation/TimeZone", "string", 0, 1),
        (CI + "/ContactInformation/Phone", "Phone", 0, 1),
        ("0173-1#02-AAQ834#005", "Fax", 0, 1),
        ("0173-1#02-AAQ836#005", "Email", 0, 1),
        (CI + "/ContactInformation/IPCommunication", "IPCommunication", 0, 0),
        ("0173-1#02-AAQ326#002", "string", 0, 1),
    ],
    "Phone": [("0173-1#02-AAO136#002", "mlp", 1, 1), ("0173-1#02-AAO137#003", PHONE_TYPES, 0, 1), (CI + "/ContactInformation/AvailableTime/", "mlp", 0, 1)],
    "Fax": [("0173-1#02-AAO195#002", "mlp", 1, 1), ("0173-1#02-AAO196#003", [PHONE_TYPES[i] for i in (0, 2, 4)], 0, 1)],
    "Email": [("0173-1#02-AAO198#002", "string", 1, 1), ("0173-1#02-AAO200#002", "mlp", 0, 1),
              ("0173-1#02-AAO199#003", [PHONE_TYPES[i] for i in (0, 2, 3, 4)], 0, 1), ("0173-1#02-AAO201#002", "mlp", 0, 1)],
    "IPCommunication": [("0173-1#02-AAQ326#002", "string", 1, 1), (CI + "/ContactInformation/IPCommunication/TypeOfCommunication", "string", 0, 1),
                        (CI + "/ContactInformation/AvailableTime/", "string", 0, 1)],
    "Nameplate": [
        ("0173-1#02-AAY811#001", "string", 1, 1), ("0173-1#02-AAO677#002", "mlp", 1, 1), ("0173-1#02-AAW338#001", "mlp", 1, 1),
        (CI + "/ContactInformation", "ContactInformation", 1, 1), ("0173-1#02-AAU732#001", "mlp", 0, 1), ("0173-1#02-AAU731#001", "mlp", 0, 1),
        ("0173-1#02-AAO057#002", "mlp", 0, 1), ("0173-1#02-AAO227#002", "mlp", 0, 1), ("0173-1#02-AAO676#003", "mlp", 0, 1),
        ("0173-1#02-AAM556#002", "string", 0, 1), ("0173-1#02-AAP906#001", "string", 1, 1), ("0173-1#02-AAR972#002", "date", 0, 1),
        ("0173-1#02-AAN270#002", "mlp", 0, 1), ("0173-1#02-AAM985#002", "mlp", 0, 1), ("0173-1#02-AAM737#002", "mlp", 0, 1),
        ("0173-1#02-AAO259#004", "string", 0, 1)],
}
SIDS = {CI: "ContactInformations", NP: "Nameplate"}
FAMILY, TYPE = "0173-1#02-AAU731#001", "0173-1#02-AAO057#002"


def good(kind, sid, name):
    base = {"idShort": name, "semanticId": D.ref(sid)}
    if kind == "mlp":
        return {"modelType": "MultiLanguageProperty", **base, "value": [{"language": "en", "text": "x"}]}
    if kind == "string":
        return {"modelType": "Property", **base, "valueType": "xs:string", "value": "x"}
    if kind == "date":
        return {"modelType": "Property", **base, "valueType": "xs:date", "value": "2024-02-29"}
    if isinstance(kind, list):
        return {"modelType": "Property", **base, "valueType": "xs:string", "value": kind[-1]}
    return {"modelType": "SubmodelElementCollection", **base, "value": content(kind) or [{"modelType": "Capability", "idShort": "nothing"}]}


def content(cls, skip=()):
    """the smallest valid content"""
    out = [good(k, sid, "e%d" % i) for i, (sid, k, lo, _) in enumerate(TEMPLATES[cls]) if lo and sid not in skip]
    if cls == "Nameplate" and TYPE not in skip:
        out.append(good("mlp", TYPE, "type"))
    return out


VARIANTS = ["good", "no value", "other element", "wrong value type", "no semantic id"]


def variant(S, kind, sid, name, v):
    """an element which deviates in one respect; is it valid, does it count"""
    e = good(kind, sid, name)
    if v == "no semantic id":
        del e["semanticId"]
        return e, True, 0
    if v == "no value":
        del e["value"]
        return e, False, 1
    if v == "other element":
        if e["modelType"] == "SubmodelElementCollection":
            return {"modelType": "Capability", "idShort": name, "semanticId": D.ref(sid)}, False, 1
        return {"modelType": "SubmodelElementCollection", "idShort": name, "semanticId": D.ref(sid),
                "value": [{"modelType": "Capability", "idShort": "cap"}]}, False, 1
    if v == "wrong value type":
        if e["modelType"] != "Property":
            return e, True, 1
        return dict(e, valueType="xs:anyURI" if kind != "date" else "xs:string"), False, 1
    return e, True, 1


PATHS = {
    "ContactInformations": [("ContactInformations", None)],
    "Nameplate": [("Nameplate", None)],
    "ContactInformation": [("ContactInformations", [CI + "/ContactInformation"]), ("Nameplate", [CI + "/ContactInformation"])],
}
for _c, _s in (("Phone", CI + "/ContactInformation/Phone"), ("Fax", "0173-1#02-AAQ834#005"), ("Email", "0173-1#02-AAQ836#005"),
               ("IPCommunication", CI + "/ContactInformation/IPCommunication")):
    PATHS[_c] = [("ContactInformations", [CI + "/ContactInformation", _s])]


def templ_doc(cls, elements, where=0, sid=None):
    """a document whose submodel contains the elements as content of the class"""
    root, path = PATHS[cls][where]
    for i, s in reversed(list(enumerate(path or []))):
        elements = [{"modelType": "SubmodelElementCollection", "idShort": "p%d" % i, "semanticId": D.ref(s), "value": elements}]
        if i == 0:
            elements = elements + content(root, skip=(s,))
    if sid is None:
        sid = [k for k in SIDS if SIDS[k] == root][0]
    return D.submodel(*elements, semanticId=D.ref(sid))


def judge(S, subs, fmt, none=False, kind=False, date=False):
    return verdict(S, {"submodels": subs}, fmt, crash=[("K22-none", TypeError, none), ("K22-kind", AttributeError, kind), ("K22-date", ValueError, date)])


def h_field(S, cls, field, fmt, where=0):
    """0 to 3 elements with the semantic id of a field, each right or wrong in one respect"""
    sid, kind, lo, hi = TEMPLATES[cls][field]
    n = S.pick("n", [0, 1, 2, 3])
    els, ok, count, crash = [], True, 0, False
    for i in range(n):
        v = S.pick("v%d" % i, VARIANTS if i == 0 else VARIANTS[:3] if i == 1 else ["good"])
        e, fine, counts = variant(S, kind, sid, "v%d" % i, v)
        els.append(e)
        ok = ok and fine
        count += counts
        crash = crash or (v == "other element" and isinstance(kind, str) and kind in TEMPLATES)
    ok = ok and count >= lo and (not hi or count <= hi)
    rest = content(cls, skip=(sid,))
    if cls == "Nameplate" and sid == TYPE and count == 0:
        ok = False
    els = els + rest if S.pick("first", [True, False]) else rest + els
    if not els:
        els = [{"modelType": "Capability", "idShort": "filler"}]
    S.cover("field")
    got = judge(S, [templ_doc(cls, els, where)], fmt, kind=crash)
    S.require(S.Iff(got, ok), f"{cls}: elements for {sid}", lambda: S.conc(els))


def h_enum(S, cls, field, n, fmt):
    """a field with a list of values accepts these only"""
    sid, kind, _, _ = TEMPLATES[cls][field]
    v = kind[0][:12] + S.str("v", n) + kind[0][12 + n:]
    e = good(kind, sid, "val")
    e["value"] = v
    S.cover("enum")
    got = judge(S, [templ_doc(cls, content(cls, skip=(sid,)) + [e])], fmt)
    S.require(S.Iff(got, S.Or(*[v == k for k in kind])), f"{cls}: value of {sid}", lambda: S.conc(v))


def h_string(S, fmt):
    """any non-empty text is a valid value of a string field"""
    v = S.str("v", 1, 2, alpha=[(32, 0x7e), (0xa0, 0x10ff)])
    e = good("string", "0173-1#02-AAM556#002", "val")
    e["value"] = v
    S.cover("string")
    S.require(judge(S, [templ_doc("Nameplate", content("Nameplate") + [e])], fmt), "a text is rejected", lambda: S.conc(v))


DATES = [("2024-02-29", False), ("1999-12-31", False), ("2024-02-29Z", True), ("2024-01-01+01:00", True), ("12024-01-01", True), ("-0044-03-15", True)]


def h_template_date(S, fmt):
    d, odd = S.pick("date", DATES)
    e = good("date", "0173-1#02-AAR972#002", "val")
    e["value"] = d
    S.cover("date")
    S.require(judge(S, [templ_doc("Nameplate", content("Nameplate") + [e])], fmt, date=odd), "a date is rejected", lambda: d, known=[("K22-date", odd)])


def h_sid(S, root, n, fmt):
    """only submodels with the semantic id of a template are judged by it, at any position"""
    sid = [k for k in SIDS if SIDS[k] == root][0]
    cut = S.pick("cut", [0, len(sid) - n])
    s = sid[:cut] + S.str("s", n, alpha=[(33, 0x7e)]) + sid[cut + n:]
    pos = S.pick("pos", [0, 1])
    bad = D.submodel({"modelType": "Capability", "idShort": "cap"}, semanticId=D.ref(s))
    subs = [D.submodel(id="urn:other"), D.submodel(id="urn:other2", semanticId=D.ref("urn:unknown"))]
    subs.insert(pos, bad)
    S.cover("sid")
    got = judge(S, subs, fmt)
    S.require(S.Iff(got, s != sid), "semantic id of a template", lambda: S.conc(s))


def h_key(S, fmt):
    """the semantic id of an element decides which field it is"""
    sid = "0173-1#02-AAM556#002"
    s = sid[:15] + S.str("s", 3, alpha=[(33, 0x7e)]) + sid[18:]
    e = {"modelType": "Property", "idShort": "val", "valueType": "xs:int", "value": "7", "semanticId": D.ref(s)}
    S.cover("key")
    got = judge(S, [templ_doc("Nameplate", content("Nameplate") + [e])], fmt)
    others = [x for x, _, _, _ in TEMPLATES["Nameplate"]]
    S.require(S.Iff(got, S.And(*[s != x for x in others])), "semantic id of an element", lambda: S.conc(s))


def h_family(S, fmt):
    """a nameplate needs a product family or a product type"""
    els = content("Nameplate", skip=(TYPE,))
    a, b = S.pick("family", [0, 1]), S.pick("type", [0, 1])
    if a:
        els.append(good("mlp", FAMILY, "family"))
    if b:
        els.append(good("mlp", TYPE, "type"))
    S.cover("family")
    S.require(S.Iff(judge(S, [templ_doc("Nameplate", els)], fmt), bool(a or b)), "product family or product type")


def h_empty(S, root, fmt):
    """a submodel without elements lacks the mandatory ones"""
    sid = [k for k in SIDS if SIDS[k] == root][0]
    S.cover("empty")
    S.require(S.Not(judge(S, [D.submodel(semanticId=D.ref(sid))], fmt, none=True)), "a submodel without elements is accepted")


def h_many(S, n, fmt):
    """several submodels with templates: one bad is enough"""
    subs, ok = [], True
    for i in range(n):
        cls = S.pick("t%d" % i, ["ContactInformations", "Nameplate"])
        good_ = S.pick("g%d" % i, [True, False])
        els = content(cls, skip=() if good_ else (CI + "/ContactInformation",)) or [{"modelType": "Capability", "idShort": "x"}]
        subs.append(dict(templ_doc(cls, els), id="urn:x:%d" % i))
        ok = ok and good_
    S.cover("many")
    S.require(S.Iff(judge(S, subs, fmt), ok), "several templates")


def templ_cases(tier):
    deep = tier != "quick"
    out = []
    for fmt in ("json", "xml"):
        for cls in TEMPLATES:
            for where in range(len(PATHS[cls])):
                for f in range(len(TEMPLATES[cls])):
                    if fmt == "xml" and not deep and TEMPLATES[cls][f][1] == "mlp" and f > 1:
                        continue
                    out.append(("h_field", {"cls": cls, "field": f, "fmt": fmt, "where": where}))
                    if isinstance(TEMPLATES[cls][f][1], list) and where == 0:
                        for n in (1, 3) + ((5,) if deep else ()):
                            out.append(("h_enum", {"cls": cls, "field": f, "n": n, "fmt": fmt}))
        out += [("h_string", {"fmt": fmt}), ("h_template_date", {"fmt": fmt}), ("h_key", {"fmt": fmt}), ("h_family", {"fmt": fmt}), ("h_many", {"n": 3 if deep else 2, "fmt": fmt})]
        for root in ("ContactInformations", "Nameplate"):
            out.append(("h_empty", {"root": root, "fmt": fmt}))
            for n in (1, 3) + ((6,) if deep else ()):
                out.append(("h_sid", {"root": root, "n": n, "fmt": fmt}))
    return out


PROPS = {
    "C20": {"cases": deep_cases,
            "bounds": "chains of 0 to 2 (thorough: 3) containers out of collections, lists, entities and operation variables in any order, the element at any of "
                      "2 or 3 positions in each, in either of two submodels; the element: a property of type xs:byte with any value of 4 (deeper: 3) characters, "
                      "an idShort of any 2 characters, a reference of two keys of any types, an unknown attribute, a model type out of 12, a collection with a second "
                      "idShort of 2 characters; nine single violations for the place a finding names, 41 pairs of violations",
            "assumptions": ["only the numbers in the path of a finding are compared, the names between them are left open",
                            "constraints are not looked at while the structure is wrong, so pairs of violations are taken from the same kind"],
            "must_cover": ["deep value", "deep id", "deep ref", "deep attr", "deep type", "deep unique", "where", "two"],
            "budget": {"quick": 120, "thorough": 900}},
    "C22": {"cases": templ_cases,
            "bounds": "for every field of the two templates and of the collections inside them 0 to 3 elements with its semantic id, right or wrong in one respect "
                      "(no value, another kind of element, another value type, no semantic id), before or after the other elements; any 1 or 3 (thorough: 5) characters inside the value of "
                      "a field with a list of values; texts of 1 or 2 characters; any 1 or 3 (thorough: 6) characters at the start or end of the submodel's semantic id and 3 inside that "
                      "of an element; 2 (thorough: 3) submodels with templates; JSON and XML",
            "assumptions": ["the tables of fields are those of the templates Contact Information 1.0 and Digital Nameplate 2.0 as far as the tool supports them (no markings, no company logo, no asset specific properties)",
                            "semantic ids with several keys are left open"],
            "must_cover": ["field", "enum", "string", "date", "sid", "key", "family", "empty", "many"],
            "budget": {"quick": 120, "thorough": 900}},
}
