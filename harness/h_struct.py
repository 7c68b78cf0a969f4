"""Structure of documents: attributes, types, model types, string attributes; JSON and XML."""
from aas_test_engines import file
from harness import docs as D
from harness.common import check_tree, errors

CASES = [(c, n) for c in D.CLASSES for n, _, _ in D.CLASSES[c]]


def _judge(S, fn, doc, tree, crash):
    r, e = S.call(fn, doc)
    if e is not None:
        S.require(False, "checking raised", lambda: repr(e), known=[(k, c) for k, t, c in crash if isinstance(e, t)])
        return False
    if tree:
        check_tree(S, r)
    return r.ok()


def verdict_json(S, doc, tree=True, crash=()):
    """crash: recorded findings (id, exception type, condition); a crash counts as 'not accepted'"""
    return _judge(S, file.check_json_data, doc, tree, crash)


def verdict_xml(S, x, tree=True, crash=()):
    return _judge(S, file.check_xml_data, x, tree, crash)


def is_list(t):
    return isinstance(t, tuple) and t[0] == "list"


def is_enum(t):
    return isinstance(t, tuple) and t[0] == "enum"


def wrong_kinds(cls, attr, t):
    """JSON values of the wrong shape for the attribute"""
    good = D.sample(t, cls, attr)
    if t == "bool":
        return [None, "true", 1, 0, 1.5, [], {}, [True], {"a": True}]
    if is_list(t):
        out = [None, True, 7, 1.5, "x", {}, [], [None], [7], [[]], good + [None], good + [good], [None] + good, {"0": good[0]}]
        if isinstance(good[0], dict):
            out += [["x"], good[0]]
        return out
    if is_enum(t) or t in D.ATOMS:
        return [None, True, False, 7, 1.5, [], {}, [good], {"a": good}, {"value": good}]
    out = [None, True, 7, 1.5, "x", [], [good], ["x"]]
    if t in D.ABSTRACT or any(r for _, _, r in D.CLASSES[t] if t in D.CLASSES):
        out += [{}]
    return out


def h_attr(S, cls, attr):
    """one attribute absent, valid or of a wrong shape"""
    t, req = D.attrs(cls)[attr] if attr != "modelReference" else None
    state = S.pick("state", ["absent", "valid", "wrong"])
    obj = D.minimal(cls)
    base = D.embed(cls, obj)
    if state == "absent":
        if not req and attr in obj:
            return
        obj.pop(attr, None)
        exp = not req
    elif state == "valid":
        obj.update(D.companion(cls, attr))
        obj[attr] = D.sample(t, cls, attr)
        exp = True
    else:
        if t == "ModelReference":
            t = "Reference"
        obj.update(D.companion(cls, attr))
        obj[attr] = S.choice("value", wrong_kinds(cls, attr, t))
        exp = False
    S.cover(state)
    doc = D.embed(cls, obj)
    got = verdict_json(S, doc)
    S.require(S.Iff(got, exp), f"{cls}.{attr} {state}", lambda: S.conc(obj))


def h_pair(S, cls, a, b):
    """two attributes of an object in independent states: one violation is enough to reject"""
    obj = D.minimal(cls)
    ok = True
    for x in (a, b):
        t, req = D.attrs(cls)[x]
        st = S.pick("st_" + x, ["valid", "wrong"])
        if st == "valid":
            obj.update(D.companion(cls, x))
            obj[x] = D.sample(t, cls, x)
        else:
            obj[x] = S.choice("w_" + x, [{"q": 1}, 7, None])
            ok = False
    S.cover("pair")
    if not ok:
        got = verdict_json(S, D.embed(cls, obj))
        S.require(S.Not(got), f"{cls}: {a} and {b}")


def h_unknown(S, cls, n, prefix=""):
    """an attribute the class does not have"""
    key = S.str("key", n)
    if prefix:
        key = prefix + key
    known = [x for x in D.attrs(cls)] + ["modelType"]
    S.assume(S.And(*[key != k for k in known]))
    obj = D.minimal(cls)
    obj = {**obj, key: S.choice("val", ["x", True, None, [], {}])}
    S.cover("unknown")
    got = verdict_json(S, D.embed(cls, obj))
    S.require(S.Not(got), f"{cls}: unknown attribute accepted")


def h_model_type(S, cls, n):
    """the model type decides which class is checked"""
    obj = D.minimal(cls)
    mt = S.str("mt", n)
    obj["modelType"] = mt
    got = verdict_json(S, D.embed(cls, obj))
    if cls == "Capability":
        free = ["Capability", "MultiLanguageProperty", "Operation", "ReferenceElement", "SubmodelElementCollection"]
        S.require(S.Iff(got, S.Or(*[mt == x for x in free])), "model type of a submodel element", known=[("K12-event", mt == "EventElement")])
    else:
        S.require(S.Iff(got, mt == cls), "model type of " + cls)
    S.cover("model type")


def h_model_type_kind(S, cls):
    obj = D.minimal(cls)
    if S.pick("state", ["absent", "wrong"]) == "absent":
        del obj["modelType"]
    else:
        obj["modelType"] = S.choice("v", [None, True, 1, [], {}, [cls], {"a": 1}])
    S.cover("model type kind")
    got = verdict_json(S, D.embed(cls, obj))
    S.require(S.Not(got), cls + " without a valid model type accepted")


AAS_SME_KEYS = ["AnnotatedRelationshipElement", "BasicEventElement", "Blob", "Capability", "DataElement", "Entity", "EventElement", "File",
                "MultiLanguageProperty", "Operation", "Property", "Range", "ReferenceElement", "RelationshipElement", "SubmodelElement",
                "SubmodelElementCollection", "SubmodelElementList"]
# (class, attribute) -> the literals that are valid in the document used, when constraints restrict them further
ENUM_VALID = {("Key", "type"): ["GlobalReference"], ("Reference", "type"): ["ExternalReference"],
              ("SubmodelElementList", "typeValueListElement"): AAS_SME_KEYS, ("Entity", "entityType"): ["CoManagedEntity"]}
ENUMS = [(c, n) for c, n in CASES if is_enum(D.attrs(c)[n][0])]


def h_enum(S, cls, attr, n):
    t, req = D.attrs(cls)[attr]
    obj = D.minimal(cls)
    if cls == "SubmodelElementList":
        obj["valueTypeListElement"] = "xs:string"
    if cls == "DataSpecificationIec61360":
        obj["unit"] = "m"
    s = S.str("s", n)
    obj[attr] = s
    got = verdict_json(S, D.embed(cls, obj), False)
    good = ENUM_VALID.get((cls, attr)) or t[1]
    S.require(S.Iff(got, S.Or(*[s == x for x in good])), f"literals of {cls}.{attr}")
    S.cover("enum")


def lens(names):
    ls = set()
    for x in names:
        ls |= {len(x)}
    return sorted(ls | {0, 1})


def c12(tier):
    q = tier == "quick"
    out = []
    for cls, attr in CASES:
        out.append(("h_attr", {"cls": cls, "attr": attr}))
    for cls in D.CLASSES:
        names = [n for n in D.attrs(cls)]
        for i in range(len(names) if not q else min(len(names), 4)):
            a, b = names[-1 - i], names[(len(names) - 2 - i) % len(names)]
            if a != b:
                out.append(("h_pair", {"cls": cls, "a": a, "b": b}))
        for n in range(0, 3 if q else 5):
            out.append(("h_unknown", {"cls": cls, "n": n}))
        for p in (names[:2] if q else names):
            out.append(("h_unknown", {"cls": cls, "n": 1, "prefix": p}))
    for cls in D.WITH_MODEL_TYPE:
        out.append(("h_model_type_kind", {"cls": cls}))
        if cls in ("AssetAdministrationShell", "Submodel", "ConceptDescription", "DataSpecificationIec61360", "Capability"):
            for n in lens(D.SMES + D.WITH_MODEL_TYPE + ["EventElement", "DataElement", "SubmodelElement"]):
                out.append(("h_model_type", {"cls": cls, "n": n}))
    for cls, attr in ENUMS:
        for n in lens(D.attrs(cls)[attr][0][1]):
            out.append(("h_enum", {"cls": cls, "attr": attr, "n": n}))
    return out


# ---- C11 string attributes -------------------------------------------------------
XMLC = r"[\x09\x0a\x0d\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]*"
TOKEN = r"[!#$%&'*+\-.^_`|~0-9a-zA-Z]+"
CT = TOKEN + "/" + TOKEN + r"([ \t]*;[ \t]*" + TOKEN + "=(" + TOKEN + r'|"([\t !#-\[\]-~\x80-\xff]|\\[\t !-~\x80-\xff])*"))*'
LIMITS = {"name": (1, 128), "idShort": (1, 128), "identifier": (1, 2000), "label": (1, 64), "path": (1, 2000), "contentType": (1, 100),
          "version": (1, 4), "value": (0, None), "nonEmpty": (1, None), "topic": (1, 255)}
TEXT_LIMITS = {"LangText": 1023, "LangName": 128, "LangPreferred": 255, "LangShort": 18, "LangDefinition": 1023}
# filler characters for the length checks, as (prefix, character, suffix)
FILL = {"path": ("", "a", ""), "contentType": ("a/", "b", ""), "version": ("", "1", ""), "idShort": ("a", "_", "")}
STR_ATTRS = [(c, n) for c, n in CASES if D.attrs(c)[n][0] in LIMITS or n == "text"]


def put(cls, attr, v):
    obj = D.minimal(cls)
    obj.update(D.companion(cls, attr))
    obj[attr] = v
    return D.embed(cls, obj)


def h_length(S, cls, attr, fill=None):
    """every length of a string attribute; characters count, not bytes"""
    t = D.attrs(cls)[attr][0]
    lo, hi = LIMITS[t] if t in LIMITS else (1, TEXT_LIMITS[cls])
    pre, ch, post = FILL.get(t, ("", fill or "x", ""))
    s = S.rep("n", pre, ch, post, 1 if t == "contentType" else 0, 1000000)
    n = S.len(s)
    if hi is not None:
        for k in (hi // 4, hi):
            if n <= k:
                break
    got = verdict_json(S, put(cls, attr, s), False)
    exp = S.And(n >= lo, True if hi is None else n <= hi)
    if not pre and not post:
        S.cover("length")
    S.require(S.Iff(got, exp), f"length of {cls}.{attr}")


def h_chars(S, cls, attr, n, prefix=""):
    """every character in a string attribute"""
    t = D.attrs(cls)[attr][0]
    v = S.str("s", n)
    s = prefix + v
    got = verdict_json(S, put(cls, attr, s), False)
    exp = S.match(XMLC, s)
    lo = LIMITS[t][0] if t in LIMITS else 1
    if lo and n == 0 and not prefix:
        exp = False
    if t == "idShort":
        exp = S.match("[a-zA-Z][a-zA-Z0-9_]*", s)
    elif t == "contentType":
        exp = S.match(CT, s)
    elif t == "version":
        exp = S.match("0|[1-9][0-9]{0,3}", s)
    elif t == "path":
        exp = S.match(r"[a-zA-Z0-9\-._~!$&'()*+,;=@]+", s)   # path characters without escapes; the URI grammar itself is C09
        S.assume(S.chars_in(s, "abcXYZ019-._~!$&'()*+,;=@\"<>\\^`{|} \n\x00"))
    elif attr == "category" and cls in D.ABSTRACT["DataElement"]:
        exp = S.Or(*[s == x for x in ("CONSTANT", "PARAMETER", "VARIABLE")])
    if t == "value":
        exp = S.match(XMLC, s)
    S.cover("chars")
    S.require(S.Iff(got, exp), f"characters of {cls}.{attr}", known=[("K11-text", S.Not(S.match(XMLC, s)))] if attr == "text" else [])


def c11(tier):
    q = tier == "quick"
    out = []
    for cls, attr in STR_ATTRS:
        t = D.attrs(cls)[attr][0]
        if not (cls in D.ABSTRACT["DataElement"] and attr == "category"):
            out.append(("h_length", {"cls": cls, "attr": attr}))
            if t not in FILL:
                out += [("h_length", {"cls": cls, "attr": attr, "fill": f}) for f in ("é", "\U0001f600", " ", "e\u0301"[1])]
        for n in range(0, (3 if q else 4)):
            out.append(("h_chars", {"cls": cls, "attr": attr, "n": n}))
        if t == "contentType":
            for p in ("a/b;", "a/b;c=", 'a/b; c="', "a/b;c=d;", "x"):
                for n in range(0, 3 if q else 4):
                    out.append(("h_chars", {"cls": cls, "attr": attr, "n": n, "prefix": p}))
        if t == "idShort":
            out.append(("h_chars", {"cls": cls, "attr": attr, "n": 2, "prefix": "a"}))
        if t == "version":
            for n in (3, 4, 5):
                out.append(("h_chars", {"cls": cls, "attr": attr, "n": n}))
    return out


# ---- C13 XML ---------------------------------------------------------------------
def xml_with(cls, attr, value):
    return D.env_xml(put(cls, attr, value))


def find(x, path):
    """element by tag names, '*' is the first child"""
    for p in path:
        for c in x:
            if p == "*" or c.tag == D.NS + p:
                x = c
                break
        else:
            raise Exception("no " + p)
    return x


def mark(doc, cls, obj):
    """the XML element of obj inside doc"""
    root = D.env_xml(doc)
    return root


def xml_of(cls, obj):
    """(document, element of obj)"""
    obj["__probe__"] = "1"
    root = D.env_xml(D.embed(cls, obj))
    del obj["__probe__"]
    for e in root.iter():
        for c in e:
            if c.tag == D.NS + "__probe__":
                e.remove(c)
                return root, e
    raise Exception("no probe")


def child(e, name):
    for c in e:
        if c.tag == D.NS + name:
            return c
    return None


def h_xml_attr(S, cls, attr):
    t, req = D.attrs(cls)[attr]
    obj = D.minimal(cls)
    state = S.pick("state", ["absent", "valid", "twice", "foreign", "nonamespace", "noise", "empty", "nested"])
    if state == "absent":
        if not req and attr in obj:
            return
        obj.pop(attr, None)
    else:
        obj.update(D.companion(cls, attr))
        obj[attr] = D.sample(t, cls, attr)
    root, e = xml_of(cls, obj)
    c = child(e, attr)
    simple = not is_list(t) and (is_enum(t) or t in D.ATOMS)
    exp = False
    known = []
    if state == "absent":
        exp = not req
    elif state == "valid":
        exp = True
    elif state == "twice":
        e.append(D.el(attr, "x") if S.bool("blank") else D.fill(D.el(attr), t, D.sample(t, cls, attr)))
    elif state == "foreign":
        c.tag = "{http://example.org}" + attr
    elif state == "nonamespace":
        c.tag = attr
    elif state == "noise":
        if simple:
            return
        c.text = S.str("txt", 1, alpha=[(33, 126)])
    elif state == "empty":
        if not is_list(t):
            return
        for k in list(c):
            c.remove(k)
    elif state == "nested":
        if not simple:
            return
        k = D.el(S.pick("tag", [attr, "value", "x"]))
        c.append(k)
        if S.pick("inner", [False, True]):
            k.append(D.el("x"))
        elif S.pick("filled", [False, True]):
            k.text = "t"
            known.append(("K13-child", True))
        else:
            known.append(("K13-child", True))
    S.cover(state)
    if state == "twice":
        known.append(("K13-twice", True))
    elif state == "noise" and is_list(t):
        known.append(("K13-listtext", True))
    elif state == "noise" and (cls, attr) in (("OperationVariable", "value"), ("EmbeddedDataSpecification", "dataSpecificationContent")):
        known.append(("K13-wraptext", True))
    got = verdict_xml(S, root)
    S.require(S.Iff(got, exp), f"XML {cls}.{attr} {state}", known=known)


def h_xml_unknown(S, cls, n, prefix=""):
    tag = S.str("tag", n)
    if prefix:
        tag = prefix + tag
    S.assume(S.And(*[tag != k for k in D.attrs(cls)]))
    root, e = xml_of(cls, D.minimal(cls))
    x = D.el("x")
    x.tag = D.NS + tag
    if S.bool("first"):
        e.insert(0, x)
    else:
        e.append(x)
    S.cover("unknown")
    got = verdict_xml(S, root, False)
    S.require(S.Not(got), f"XML {cls}: unknown element accepted")


def h_xml_ns(S, cls, n):
    """the namespace of an object's element"""
    root, e = xml_of(cls, D.minimal(cls))
    ns = S.str("ns", n)
    if n:
        S.assume(ns[:len(D.NS)] != D.NS)      # names of items and of the root are left open
    local = e.tag[len(D.NS):]
    e.tag = ns + local
    S.cover("ns")
    # recorded: element names no longer than the namespace crash where the name selects the class
    got = verdict_xml(S, root, False, [("K13-short", IndexError, len(e.tag) <= len(D.NS))])
    known = [("K13-dsns", True)] if cls == "DataSpecificationIec61360" and n == len(D.NS) else []
    S.require(S.Not(got), "an element outside the AAS namespace is accepted", known=known)


def h_xml_bool(S, cls, attr, n):
    root, e = xml_of(cls, D.minimal(cls))
    c = child(e, attr)
    if c is None:
        c = D.el(attr)
        e.append(c)
    s = S.str("s", n)
    c.text = s
    S.cover("bool")
    lit = S.Or(s == "true", s == "false", s == "0", s == "1")
    S.require(S.Iff(verdict_xml(S, root, False), lit), "XML boolean", known=[("K13-bool", S.Not(lit))])


def h_xml_tag(S, n):
    """the element name of a submodel element selects its class"""
    root, e = xml_of("Capability", D.minimal("Capability"))
    t = S.str("t", n)
    e.tag = D.NS + t
    free = ["capability", "multiLanguageProperty", "operation", "referenceElement", "submodelElementCollection"]
    got = verdict_xml(S, root, False, [("K13-short", IndexError, n == 0)])
    # element names are case-sensitive; only the first character is left open
    lenient = S.Or(*[t[1:] == x[1:] for x in free])
    S.require(S.Implies(S.Or(*[t == x for x in free]), got), "XML element name rejected")
    S.require(S.Implies(got, lenient), "XML element name accepted", known=[("K12-event", t[1:] == "ventElement")])
    S.cover("tag")


def h_agree(S, cls, attr, n):
    """the same content gets the same verdict in both formats"""
    s = S.str("s", n, alpha=[(9, 10), (13, 13), (32, 0xd7ff), (0xe000, 0xfffd), (0x10000, 0x10ffff)])
    doc = put(cls, attr, s)
    a = verdict_json(S, doc, False)
    b = verdict_xml(S, D.env_xml(put(cls, attr, s)), False)
    S.cover("agree")
    S.require(S.Iff(a, b), f"JSON and XML disagree on {cls}.{attr}")


def c13(tier):
    q = tier == "quick"
    out = []
    for cls, attr in CASES:
        out.append(("h_xml_attr", {"cls": cls, "attr": attr}))
        t = D.attrs(cls)[attr][0]
        if is_enum(t) or t in D.ATOMS and t != "bool":
            for n in ((0, 1) if q else (0, 1, 2, 3)):
                out.append(("h_agree", {"cls": cls, "attr": attr, "n": n}))
        if t == "bool":
            for n in range(0, 7):
                out.append(("h_xml_bool", {"cls": cls, "attr": attr, "n": n}))
    for cls in D.CLASSES:
        for n in range(1, 3 if q else 4):
            out.append(("h_xml_unknown", {"cls": cls, "n": n}))
        names = list(D.attrs(cls))
        for p in (names[:2] if q else names):
            out.append(("h_xml_unknown", {"cls": cls, "n": 1, "prefix": p}))
        if cls not in ("LangText",):
            for n in (0, 1, 31, 32, 33):
                out.append(("h_xml_ns", {"cls": cls, "n": n}))
    for n in lens(D.SMES + ["EventElement", "DataElement"]):
        out.append(("h_xml_tag", {"n": n}))
    return out


PROPS = {
    "C11": {"cases": c11, "bounds": "every string attribute of every class; all lengths up to 1000000 of one filler character; all strings of up to 2 (3) characters, "
            "content types of up to 3 characters after five prefixes, versions of up to 5 characters", "assumptions": ["documents are checked in JSON form"]},
    "C12": {"cases": c12, "bounds": "every attribute of every class (one or two of them deviating per document) in a minimal document; unknown attribute names of up to 2 (4) "
            "characters and known names extended by one character; every enumeration literal and model type of the lengths that occur", "assumptions": []},
    "C13": {"cases": c13, "bounds": "every attribute of every class in a minimal document; unknown element names of up to 2 (3) characters; foreign namespaces of the same length or up to 1 character; strings of up to 1 (3) characters for the agreement of both formats",
            "assumptions": ["documents are given as parsed element trees; names of list item elements and of the root element are not part of the property"]},
}
