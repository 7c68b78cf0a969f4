"""Constraints of the metamodel (AASd, AASc), each against a formula over the symbolic document."""
from aas_test_engines import file
from harness import docs as D
from harness.common import errors
from harness.h_struct import verdict_json, verdict_xml, XMLC
from harness import h_types as T


def verdict(S, doc, fmt, crash=()):
    if fmt == "json":
        return verdict_json(S, doc, False, crash)
    return verdict_xml(S, D.env_xml(doc), False, crash)


def isin(S, x, options):
    return S.Or(*[x == o for o in options])


# ---- C14 references ----------------------------------------------------------------
AAS_SME = ["AnnotatedRelationshipElement", "BasicEventElement", "Blob", "Capability", "DataElement", "Entity", "EventElement", "File",
           "MultiLanguageProperty", "Operation", "Property", "Range", "ReferenceElement", "RelationshipElement", "SubmodelElement",
           "SubmodelElementCollection", "SubmodelElementList"]
AAS_ID = ["AssetAdministrationShell", "ConceptDescription", "Identifiable", "Submodel"]


def ref_ok(S, rtype, types, values):
    """AASd-121 to AASd-128 for a reference; a key value after a list must be digits (signed numbers are left open)"""
    n = len(types)
    ext = rtype == "ExternalReference"
    frag = [t == "FragmentReference" for t in types]
    e = [types[0] == "GlobalReference", S.Or(types[-1] == "GlobalReference", frag[-1])]
    m = [isin(S, types[0], AAS_ID)]
    for i in range(1, n):
        m.append(S.Or(frag[i], isin(S, types[i], AAS_SME)))
        if i < n - 1:
            m.append(S.Not(frag[i]))
        m.append(S.Implies(frag[i], S.Or(types[i - 1] == "File", types[i - 1] == "Blob")))
        m.append(S.Implies(types[i - 1] == "SubmodelElementList", S.match("[0-9]+", values[i])))
    return S.If(ext, S.And(*e), S.And(*m))


def h_ref(S, n, where, fmt):
    rtype = S.choice("rtype", ["ExternalReference", "ModelReference"])
    types = [S.choice("t%d" % i, D.KEYTYPES) for i in range(n)]
    values = ["urn:x:%d" % i if S.bool("text%d" % i) else "7" for i in range(n)] if n > 1 else ["urn:x:1"]
    r = {"type": rtype, "keys": [{"type": t, "value": v} for t, v in zip(types, values)]}
    doc = place_ref(where, r)
    S.cover("reference")
    got = verdict(S, doc, fmt)
    S.require(S.Iff(got, ref_ok(S, rtype, types, values)), "verdict on a reference", lambda: S.conc(r))


def place_ref(where, r):
    if where == "semanticId":
        return {"submodels": [D.submodel(semanticId=r)]}
    if where == "value":
        return D.env_sme({"modelType": "ReferenceElement", "idShort": "r", "value": r})
    if where == "isCaseOf":
        return {"conceptDescriptions": [{"modelType": "ConceptDescription", "id": "urn:c", "isCaseOf": [r]}]}
    if where == "first":
        return D.env_sme({"modelType": "RelationshipElement", "idShort": "r", "first": r, "second": D.ref()})
    if where == "referredSemanticId":
        return {"submodels": [D.submodel(semanticId=dict(D.ref(), referredSemanticId=r))]}
    raise Exception(where)


def h_ref_index(S, n, fmt, pos):
    """the key after a SubmodelElementList key is the position in the list"""
    s = S.str("v", n)
    keys = [{"type": "Submodel", "value": "urn:x"}]
    if pos:
        keys.append({"type": "SubmodelElementCollection", "value": "c"})
    keys += [{"type": "SubmodelElementList", "value": "l"}, {"type": S.choice("t", ["Property", "SubmodelElementList", "File"]), "value": s}]
    r = {"type": "ModelReference", "keys": keys}
    if fmt == "xml":
        S.assume(S.match(XMLC, s))
    got = verdict(S, place_ref("value", r), fmt)
    S.assume(S.Not(S.match("[+-][0-9]+", s)))
    S.cover("index")
    S.require(S.Iff(got, S.match("[0-9]+", s)), "position in a list")


def c14(tier):
    q = tier == "quick"
    out = []
    for fmt in ("json", "xml"):
        for w in ("semanticId", "value", "isCaseOf", "first", "referredSemanticId"):
            for n in (1, 2, 3) if q else (1, 2, 3, 4):
                if n >= 3 and w not in ("value", "semanticId"):
                    continue
                if n >= 4 and (fmt == "xml" or w != "value"):
                    continue
                out.append(("h_ref", {"n": n, "where": w, "fmt": fmt}, {"weight": n}))
        for n in range(0, 4 if q else 7):
            for pos in (0, 1):
                out.append(("h_ref_index", {"n": n, "fmt": fmt, "pos": pos}))
    return out


# ---- C15 lists ---------------------------------------------------------------------
VARIANT = {"BasicEventElement": 0}


def element(cls, id_short=None):
    o = D.minimal(cls)
    if id_short is None:
        o.pop("idShort", None)
    else:
        o["idShort"] = id_short
    return o


def sml(items, type_="Capability", **kw):
    o = {"modelType": "SubmodelElementList", "idShort": "list", "typeValueListElement": type_}
    if items:
        o["value"] = items
    o.update(kw)
    return o


def nested(o, how):
    """the element at several places"""
    if how == "top":
        return D.env_sme(o)
    if how == "collection":
        return D.env_sme({"modelType": "SubmodelElementCollection", "idShort": "c", "value": [o]})
    if how == "entity":
        return D.env_sme({"modelType": "Entity", "idShort": "e", "entityType": "CoManagedEntity", "statements": [D.minimal("Capability", "x"), o]})
    if how == "operation":
        return D.env_sme({"modelType": "Operation", "idShort": "op", "outputVariables": [{"value": o}]})
    if how == "list":
        o = {k: v for k, v in o.items() if k != "idShort"}
        kw = {"valueTypeListElement": o["valueType"]} if "valueType" in o else {}
        return D.env_sme(sml([o], o["modelType"], **kw))
    if how == "second":
        return {"submodels": [D.submodel(D.minimal("Capability")), dict(D.submodel(D.minimal("Capability", "first"), o), id="urn:x:other")]}
    raise Exception(how)


PLACES = ["top", "collection", "entity", "operation", "list", "second"]


def h_list_type(S, n, how, fmt):
    """AASd-108 and AASd-120: all items have the declared type and no idShort"""
    tv = S.choice("tv", D.SMES)
    kinds = [S.pick("k%d" % i, D.SMES) if n == 1 else S.pick("k%d" % i, ["Capability", "Property", "Operation"]) for i in range(n)]
    named = [S.bool("named%d" % i) for i in range(n)]
    items = []
    for i in range(n):
        items.append(element(kinds[i], "x%d" % i if named[i] else None))
    doc = nested(sml(items, tv, valueTypeListElement="xs:string"), how)
    got = verdict(S, doc, fmt)
    S.cover("list")
    exp = S.And(*[tv == k for k in kinds], *[S.Not(x) for x in named])
    S.require(S.Iff(got, exp), "type or idShort of list items", lambda: kinds)


def h_list_decl(S, how, fmt):
    """the declared item type is a submodel element type; Property and Range need a value type"""
    tv = S.choice("tv", D.KEYTYPES)
    o = sml(None, tv)
    has = S.bool("has")
    if has:
        o["valueTypeListElement"] = S.choice("vt", D.XSD)
    got = verdict(S, nested(o, how), fmt)
    S.cover("declaration")
    S.require(S.Iff(got, S.And(isin(S, tv, AAS_SME), S.Implies(isin(S, tv, ["Property", "Range"]), has))), "declared item type",
              known=[("K15-empty", S.And(isin(S, tv, ["Property", "Range"]), S.Not(has)))])


def h_list_valuetype(S, cls, n, how, fmt):
    """AASd-109: value types of properties and ranges equal the declared one"""
    vts = [S.choice("v%d" % i, D.XSD) for i in range(n)]
    items = []
    for v in vts:
        o = element(cls)
        o["valueType"] = v
        items.append(o)
    o = sml(items, cls)
    has = S.bool("has")
    exp = has
    if has:
        d = S.choice("decl", D.XSD)
        o["valueTypeListElement"] = d
        exp = S.And(*[v == d for v in vts])
    got = verdict(S, nested(o, how), fmt)
    S.cover("value type")
    S.require(S.Iff(got, exp), "value types of list items")


def sym_ref(S, name):
    """references that differ in type, number of keys, key types or key values"""
    k = S.choice(name, list(range(7)))
    ext = S.Not(S.Or(k == 3, k == 4))
    t = S.If(ext, "ExternalReference", "ModelReference")
    two = S.If(k == 2, True, False)
    v = S.If(k == 1, "urn:s:2", S.If(k == 5, "urn:S:1", S.If(k == 6, "urn:s:1 ", "urn:s:1")))
    kt = S.If(ext, "GlobalReference", S.If(k == 3, "Submodel", "ConceptDescription"))
    keys = [{"type": kt, "value": v}]
    if two:
        keys = keys + [{"type": "GlobalReference", "value": "urn:s:2"}]
    return {"type": t, "keys": keys}, k


def h_list_semantics(S, n, how, fmt):
    """AASd-107 and AASd-114"""
    o_items, ks, has = [], [], []
    for i in range(n):
        e = element("Capability")
        h = S.pick("has%d" % i, [False, True])
        if h:
            r, k = sym_ref(S, "r%d" % i)
            e["semanticId"] = r
            ks.append(k)
        o_items.append(e)
    o = sml(o_items)
    lh = S.pick("lhas", [False, True])
    exp = []
    if lh:
        r, k = sym_ref(S, "lr")
        o["semanticIdListElement"] = r
        exp += [x == k for x in ks]
    for a, b in zip(ks, ks[1:]):
        exp.append(a == b)
    got = verdict(S, nested(o, how), fmt)
    S.cover("semantics")
    S.require(S.Iff(got, S.And(*exp)), "semantic ids of list items")


def h_list_semvalue(S, n, m, decl, fmt):
    """semantic ids with arbitrary key values: equal only if the values are"""
    a, b = S.str("a", n), S.str("b", m)
    S.assume(S.And(S.match(XMLC, a), S.match(XMLC, b)))
    ref = lambda v: {"type": "ExternalReference", "keys": [{"type": "GlobalReference", "value": v}]}
    x, y = element("Capability"), element("Capability")
    x["semanticId"] = ref(a)
    o = sml([x, y])
    if decl:
        o["semanticIdListElement"] = ref(b)
    else:
        y["semanticId"] = ref(b)
    got = verdict(S, nested(o, "top"), fmt)
    S.cover("semantic value")
    S.require(S.Iff(got, a == b), "semantic ids of list items with other values", lambda: [a, b])


def c15(tier):
    q = tier == "quick"
    out = [("h_list_semvalue", {"n": n, "m": m, "decl": d, "fmt": f}) for n, m in ((1, 1), (2, 2), (1, 2), (2, 1)) + (() if q else ((3, 3), (4, 4), (2, 3))) for d in (False, True) for f in ("json", "xml")]
    for fmt in ("json", "xml"):
        places = ["top", "list"] if q and fmt == "xml" else PLACES
        for how in places:
            for n in (1, 2) if q else (1, 2, 3):
                out.append(("h_list_type", {"n": n, "how": how, "fmt": fmt}))
            if how != "list":
                out.append(("h_list_decl", {"how": how, "fmt": fmt}))
            for cls in ("Property", "Range"):
                for n in (1, 2, 3) if how == "top" and not q else (1, 2):
                    out.append(("h_list_valuetype", {"cls": cls, "n": n, "how": how, "fmt": fmt}))
            for n in (1, 2, 3) if how == "top" else (2,):
                out.append(("h_list_semantics", {"n": n, "how": how, "fmt": fmt}))
    return out


# ---- C16 idShorts ------------------------------------------------------------------
ID_ALPHA = "aAbBzZ09_"
FIRST = "[a-zA-Z]"
SPACES = ["submodel", "collection", "entity", "annotations", "input", "output", "inoutput", "mixed", "variables3", "inlist"]


def namespace(kind, items):
    """a document in which items share one name space"""
    c = lambda: items
    if kind == "submodel":
        return D.env_sme(*items)
    if kind == "collection":
        return D.env_sme({"modelType": "SubmodelElementCollection", "idShort": "c", "value": items})
    if kind == "entity":
        return D.env_sme({"modelType": "Entity", "idShort": "c", "entityType": "CoManagedEntity", "statements": items})
    if kind == "annotations":
        return D.env_sme({"modelType": "AnnotatedRelationshipElement", "idShort": "c", "first": D.ref(), "second": D.ref(), "annotations": items})
    if kind == "inlist":
        return D.env_sme(sml([{"modelType": "SubmodelElementCollection", "value": items}], "SubmodelElementCollection"))
    op = {"modelType": "Operation", "idShort": "op"}
    vs = [{"value": i} for i in items]
    if kind == "input":
        op["inputVariables"] = vs
    elif kind == "output":
        op["outputVariables"] = vs
    elif kind == "inoutput":
        op["inoutputVariables"] = vs
    elif kind == "mixed":
        op["inputVariables"] = vs[:1]
        op["outputVariables"] = vs[1:]
    elif kind == "variables3":
        op["inoutputVariables"] = vs[:1]
        op["inputVariables"] = vs[1:2]
        if vs[2:]:
            op["outputVariables"] = vs[2:]
    return D.env_sme(op)


def h_ids(S, kind, n, k, fmt):
    """AASd-117, AASd-022/134 and AASd-002 together"""
    cls = "Property" if kind == "annotations" else "Capability"
    items, ids, exp = [], [], []
    for i in range(n):
        o = element(cls)
        if S.pick("has%d" % i, [True, False]):
            s = S.str("id%d" % i, k, alpha=None if n == 1 else [(0x30, 0x39), (0x41, 0x5a), (0x5f, 0x5f), (0x61, 0x7a)])
            if fmt == "xml":
                S.assume(S.match(XMLC, s))
            o["idShort"] = s
            ids.append(s)
            exp.append(S.match("[a-zA-Z][a-zA-Z0-9_]*", s))
        else:
            exp.append(False)
        items.append(o)
    uniq = [ids[i] != ids[j] for i in range(len(ids)) for j in range(i)]
    crash, known = [], []
    if kind in ("input", "output", "inoutput", "mixed", "variables3"):
        crash = [("K16-opvar", AttributeError, len(ids) < n)]
    if kind in ("entity", "annotations"):
        known = [("K16-unique", S.And(*exp, S.Not(S.And(*uniq))))]
    got = verdict(S, namespace(kind, items), fmt, crash)
    S.cover("name space")
    S.require(S.Iff(got, S.And(*exp, *uniq)), "idShorts in a name space: " + kind, known=known)


def h_ids_apart(S, a, fmt):
    """equal idShorts in different name spaces are fine; only direct siblings collide"""
    x, y, z = (S.str(c, 1, alpha="abAB") for c in "xyz")
    inner = [element("Capability", y), element("Capability", z)]
    if a == "entity":
        cont = {"modelType": "Entity", "idShort": x, "entityType": "CoManagedEntity", "statements": inner}
    elif a == "operation":
        cont = {"modelType": "Operation", "idShort": x, "inputVariables": [{"value": inner[0]}], "outputVariables": [{"value": inner[1]}]}
    elif a == "annotations":
        cont = {"modelType": "AnnotatedRelationshipElement", "idShort": x, "first": D.ref(), "second": D.ref(),
                "annotations": [element("Property", y), element("Property", z)]}
    else:
        cont = {"modelType": "SubmodelElementCollection", "idShort": x, "value": inner}
    w = S.str("w", 1, alpha="abAB")
    doc = D.env_sme(cont, element("Capability", w))
    got = verdict(S, doc, fmt)
    S.cover("apart")
    known = [("K16-unique", S.And(x != w, y == z))] if a in ("entity", "annotations") else []
    S.require(S.Iff(got, S.And(x != w, y != z)), "idShorts of different name spaces", known=known)


def h_ids_identifiable(S, n, fmt):
    """shells, submodels and concept descriptions may share or omit their idShort, but it has to be well-formed"""
    ids, objs = [], []
    for i, cls in enumerate(["AssetAdministrationShell", "Submodel", "ConceptDescription"]):
        o = D.minimal(cls)
        if S.pick("has%d" % i, [False, True]):
            s = S.str("s%d" % i, n)
            if fmt == "xml":
                S.assume(S.match(XMLC, s))
            o["idShort"] = s
            ids.append(s)
        objs.append(o)
    doc = {"assetAdministrationShells": [objs[0]], "submodels": [objs[1]], "conceptDescriptions": [objs[2]]}
    got = verdict(S, doc, fmt)
    S.cover("identifiable")
    S.require(S.Iff(got, S.And(*[S.match("[a-zA-Z][a-zA-Z0-9_]*", s) for s in ids])), "idShort of an identifiable")


def c16(tier):
    q = tier == "quick"
    out = []
    for fmt in ("json", "xml"):
        for kind in SPACES:
            for n, k in ([(1, 1), (2, 1), (2, 2), (3, 1)] if q else [(1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (3, 1), (3, 2), (4, 1)]):
                if kind in ("mixed", "variables3") and n == 1:
                    continue
                if q and fmt == "xml" and (n, k) not in ((2, 1),):
                    continue
                out.append(("h_ids", {"kind": kind, "n": n, "k": k, "fmt": fmt}, {"weight": n}))
        for a in ("entity", "operation", "annotations", "collection"):
            out.append(("h_ids_apart", {"a": a, "fmt": fmt}))
        out.append(("h_ids_identifiable", {"n": 1, "fmt": fmt}))
        if not q:
            out.append(("h_ids_identifiable", {"n": 2, "fmt": fmt}))
    return out


# ---- C17 other AASd constraints ------------------------------------------------------
def maybe(S, name, o, key, value):
    """symbolically present attribute"""
    h = S.pick("has_" + name, [False, True])
    if h:
        o[key] = value() if callable(value) else value
    return h


def h_005(S, where, fmt):
    adm = {}
    v = maybe(S, "version", adm, "version", "1")
    r = maybe(S, "revision", adm, "revision", "2")
    maybe(S, "template", adm, "templateId", "urn:t")
    maybe(S, "creator", adm, "creator", D.ref)
    o = D.minimal(where)
    o["administration"] = adm
    if fmt == "xml" and not adm:
        return
    got = verdict(S, D.embed(where, o), fmt)
    S.cover("005")
    S.require(S.Iff(got, S.Implies(r, v)), "revision without version")


def h_014(S, fmt):
    et = S.choice("et", ["SelfManagedEntity", "CoManagedEntity"])
    o = {"modelType": "Entity", "idShort": "e", "entityType": et}
    g = maybe(S, "global", o, "globalAssetId", "urn:g")
    s = maybe(S, "specific", o, "specificAssetIds", lambda: [{"name": "n", "value": "v"}])
    got = verdict(S, nested(o, S.pick("how", PLACES)), fmt)
    S.cover("014")
    self_ = et == "SelfManagedEntity"
    S.require(S.Implies(self_, S.Iff(got, g or s)), "identification of a self-managed entity")
    S.require(S.Implies(S.Not(self_), S.Iff(got, not (g or s))), "identification of a co-managed entity")


def h_116(S, n, fmt, k):
    """reserved name, in any of the specific asset ids"""
    names = []
    for i in range(k):
        s = S.str("n%d" % i, n, alpha=[(0x20, 0x7e)])
        names.append(s)
    o = D.minimal("AssetInformation")
    o["specificAssetIds"] = [{"name": x, "value": "v"} for x in names]
    got = verdict(S, D.embed("AssetInformation", o), fmt)
    S.cover("116")
    res = [S.match("(?i:globalassetid)", x) for x in names]
    S.require(S.Iff(got, S.Not(S.Or(*res))), "reserved name of a specific asset id",
              known=[("K17-case", S.And(S.Or(*res), *[x != "globalAssetId" for x in names]))])


def h_131(S, fmt):
    o = {"assetKind": S.choice("kind", ["Instance", "NotApplicable", "Type"])}
    g = maybe(S, "global", o, "globalAssetId", "urn:g")
    s = maybe(S, "specific", o, "specificAssetIds", lambda: [{"name": "n", "value": "v"}, {"name": "m", "value": "v"}])
    maybe(S, "type", o, "assetType", "urn:t")
    maybe(S, "thumb", o, "defaultThumbnail", lambda: {"path": "/a.png"})
    got = verdict(S, D.embed("AssetInformation", o), fmt)
    S.cover("131")
    S.require(S.Iff(got, g or s), "identification of an asset")


HAS_SEM = [c for c in D.CLASSES if "supplementalSemanticIds" in D.attrs(c)]


def h_118(S, cls, fmt):
    o = D.minimal(cls)
    a = maybe(S, "main", o, "semanticId", D.ref)
    b = maybe(S, "suppl", o, "supplementalSemanticIds", lambda: [D.ref("urn:1"), D.ref("urn:2")])
    got = verdict(S, D.embed(cls, o), fmt)
    S.cover("118")
    S.require(S.Iff(got, S.Implies(b, a)), cls + ": supplemental semantic id without a main one")


QKINDS = ["ConceptQualifier", "TemplateQualifier", "ValueQualifier", None]


def qualifiers(S, name, n):
    out, tmpl = [], []
    for i in range(n):
        q = {"type": "q%d" % i, "valueType": "xs:string"}
        if S.pick(f"{name}has{i}", [True, False]):
            q["kind"] = S.choice(f"{name}{i}", QKINDS[:3])
            tmpl.append(q["kind"] == "TemplateQualifier")
        out.append(q)
    return out, S.Or(*tmpl) if tmpl else False


def h_119(S, n, fmt):
    """template qualifiers only in templates: on the submodel itself and on elements inside collections and lists"""
    sm = D.submodel()
    kind = S.pick("kind", [None, "sym"])
    if kind:
        kind = S.choice("k", ["Instance", "Template"])
        sm["kind"] = kind
    is_t = kind == "Template" if kind is not None else False
    where = S.pick("where", ["submodel", "element", "second", "collection", "list", "deep"])
    qs, t = qualifiers(S, "q", n)
    e = element("Capability", "x")
    if where == "submodel":
        sm["qualifiers"] = qs
    else:
        e["qualifiers"] = qs
        items = [e]
        if where == "second":
            items = [element("Capability", "y"), e]
        elif where == "collection":
            items = [{"modelType": "SubmodelElementCollection", "idShort": "c", "value": [e]}]
        elif where == "list":
            e.pop("idShort")
            items = [sml([e])]
        elif where == "deep":
            items = [{"modelType": "SubmodelElementCollection", "idShort": "c",
                      "value": [sml([{"modelType": "SubmodelElementCollection", "value": [e]}], "SubmodelElementCollection")]}]
        sm["submodelElements"] = items
    got = verdict(S, {"submodels": [D.submodel(), dict(sm, id="urn:2")]}, fmt)
    S.cover("119")
    known = [("K17-129", S.And(t, S.Not(is_t)))] if where in ("collection", "list", "deep") else []
    S.require(S.Iff(got, S.Implies(t, is_t)), "template qualifier " + where, known=known)


def mref(kt):
    return {"type": "ModelReference", "keys": [{"type": kt, "value": "urn:m"}]}


def h_reftype(S, which, fmt):
    """attributes that admit only one kind of reference"""
    model = S.bool("model")
    r = mref("Submodel") if model else D.ref()
    crash = []
    if which == "externalSubjectId":
        o = D.minimal("SpecificAssetId")
        o[which] = r
        doc, exp = D.embed("SpecificAssetId", o), S.Not(model)
    elif which in ("observed", "messageBroker"):
        o = D.minimal("BasicEventElement")
        o[which] = r
        doc, exp = nested(o, S.pick("how", PLACES)), model
    elif which == "derivedFrom":
        o = D.minimal("AssetAdministrationShell")
        o[which] = mref("AssetAdministrationShell") if model else D.ref()
        doc, exp = D.embed("AssetAdministrationShell", o), model
        crash = [("K17-aas", AttributeError, S.Not(exp))]
    elif which == "submodels":
        o = D.minimal("AssetAdministrationShell")
        m2 = S.bool("model2")
        o[which] = [r, mref("Submodel") if m2 else D.ref()]
        doc, exp = D.embed("AssetAdministrationShell", o), S.And(model, m2)
        crash = [("K17-aas", AttributeError, S.Not(exp))]
    elif which == "entity":
        o = {"modelType": "Entity", "idShort": "e", "entityType": "SelfManagedEntity",
             "specificAssetIds": [{"name": "a", "value": "b"}, {"name": "n", "value": "v", "externalSubjectId": r}]}
        doc, exp = nested(o, S.pick("how", PLACES)), S.Not(model)
    got = verdict(S, doc, fmt, crash)
    S.cover("reftype")
    S.require(S.Iff(got, exp), "kind of reference in " + which)


def h_090(S, cls, how, fmt):
    """category of data elements"""
    o = D.minimal(cls)
    cat = S.str("cat", S.pick("len", [8, 9]), alpha=[(32, 126)])
    o["category"] = cat
    got = verdict(S, nested(o, how), fmt)
    S.cover("090")
    exp = isin(S, cat, ["CONSTANT", "PARAMETER", "VARIABLE"]) if cls in D.ABSTRACT["DataElement"] else True
    S.require(S.Iff(got, exp), "category of " + cls)


def c17(tier):
    q = tier == "quick"
    out = []
    for fmt in ("json", "xml"):
        for w in ("AssetAdministrationShell", "Submodel", "ConceptDescription"):
            out.append(("h_005", {"where": w, "fmt": fmt}))
        out += [("h_014", {"fmt": fmt}), ("h_131", {"fmt": fmt})]
        for n in (1, 12, 13, 14) if q else range(1, 16):
            for k in (1, 2):
                out.append(("h_116", {"n": n, "fmt": fmt, "k": k}))
        for c in HAS_SEM:
            out.append(("h_118", {"cls": c, "fmt": fmt}))
        for n in (1, 2) if q else (1, 2, 3):
            out.append(("h_119", {"n": n, "fmt": fmt}))
        for w in ("externalSubjectId", "observed", "messageBroker", "derivedFrom", "submodels", "entity"):
            out.append(("h_reftype", {"which": w, "fmt": fmt}))
        for c in D.SMES:
            for how in ("top", "collection", "list") if q else PLACES:
                if not (c == "SubmodelElementList" and how == "list"):
                    out.append(("h_090", {"cls": c, "how": how, "fmt": fmt}))
    return out


# ---- C18 IEC 61360 -------------------------------------------------------------------
VALUE_TYPES = ["DATE", "STRING", "STRING_TRANSLATABLE", "INTEGER_MEASURE", "INTEGER_COUNT", "INTEGER_CURRENCY", "REAL_MEASURE",
               "REAL_COUNT", "REAL_CURRENCY", "BOOLEAN", "RATIONAL", "RATIONAL_MEASURE", "TIME", "TIMESTAMP"]
UNIT_TYPES = ["INTEGER_MEASURE", "REAL_MEASURE", "RATIONAL_MEASURE", "INTEGER_CURRENCY", "REAL_CURRENCY"]


def langs(S, name, n, lens=(2,), opts=("en", "de", "EN", "en-GB", "eng", "fr")):
    ls = [S.choice(f"{name}{i}", list(opts)) for i in range(n)]
    return [{"language": x, "text": "t"} for x in ls], S.Or(*[isin(S, x, ["en", "EN", "en-GB"]) for x in ls])


def wrap_iec(iec):
    return [{"dataSpecification": D.ref(D.IEC_REF), "dataSpecificationContent": iec}]


def h_iec(S, where, nl, fmt, second=False):
    """AASc-3a-002, 009, 010 anywhere; 004 to 008 in concept descriptions"""
    pn, pn_en = langs(S, "p", nl)
    iec = {"modelType": "DataSpecificationIec61360", "preferredName": pn}
    dt = None
    if S.pick("has_dt", [True, False]):
        dt = S.choice("dt", D.IEC_TYPES)
        iec["dataType"] = dt
    unit = maybe(S, "unit", iec, "unit", "m")
    uid = maybe(S, "unitId", iec, "unitId", D.ref)
    val = maybe(S, "value", iec, "value", "v")
    vl = maybe(S, "list", iec, "valueList", lambda: {"valueReferencePairs": [{"value": "a", "valueId": D.ref()}]})
    d_en = False
    hd = S.pick("has_def", [True, False])
    if hd:
        iec["definition"], d_en = langs(S, "d", nl)
    exp = [pn_en, not (val and vl)]
    if dt is not None:
        exp.append(S.Implies(isin(S, dt, UNIT_TYPES), unit or uid))
    ds = wrap_iec(iec)
    if second:
        other = D.minimal("DataSpecificationIec61360")
        other["definition"] = [{"language": "en", "text": "x"}]
        other["dataType"] = "STRING"
        ds = wrap_iec(other) + ds
    if where == "ConceptDescription":
        cd = {"modelType": "ConceptDescription", "id": "urn:cd", "embeddedDataSpecifications": ds}
        exp.append(S.Or(val, d_en))
        docs = {"conceptDescriptions": [cd]}
    elif where == "element":
        o = element("Capability", "x")
        o["embeddedDataSpecifications"] = ds
        docs = nested(o, "collection")
    elif where == "administration":
        docs = {"submodels": [D.submodel(administration={"embeddedDataSpecifications": ds})]}
    else:
        o = D.minimal(where)
        o["embeddedDataSpecifications"] = ds
        docs = D.embed(where, o)
    got = verdict(S, docs, fmt)
    S.cover("iec")
    S.require(S.Iff(got, S.And(*exp)), "data specification " + where, lambda: S.conc(iec))


def h_iec_cat(S, fmt, second):
    """category of a concept description restricts the data type"""
    iec = {"modelType": "DataSpecificationIec61360", "preferredName": [{"language": "en", "text": "t"}],
           "definition": [{"language": "en", "text": "t"}], "unit": "m"}
    dt = None
    if S.pick("has_dt", [True, False]):
        dt = S.choice("dt", D.IEC_TYPES)
        iec["dataType"] = dt
    cd = {"modelType": "ConceptDescription", "id": "urn:cd", "embeddedDataSpecifications": wrap_iec(iec)}
    if second:
        other = D.copy(iec)
        other["dataType"] = "STRING"
        cd["embeddedDataSpecifications"] = wrap_iec(other) + cd["embeddedDataSpecifications"]
    cat = None
    if S.pick("has_cat", [True, False]):
        cat = S.choice("cat", ["PROPERTY", "VALUE", "REFERENCE", "DOCUMENT", "QUALIFIER_TYPE", "FUNCTION", "property", "X"])
        cd["category"] = cat
    exp = [True]
    if cat is not None:
        def dtin(xs):
            return isin(S, dt, xs) if dt is not None else False
        pv = isin(S, cat, ["PROPERTY", "VALUE"])
        exp.append(S.Implies(pv, dtin(VALUE_TYPES)))
        # a missing data type is a violation only where the constraint calls it mandatory; for REFERENCE and DOCUMENT it is left open
        if dt is None:
            S.assume(S.Not(isin(S, cat, ["REFERENCE", "DOCUMENT"])))
        else:
            exp.append(S.Implies(cat == "REFERENCE", dtin(["STRING", "IRI", "IRDI"])))
            exp.append(S.Implies(cat == "DOCUMENT", dtin(["FILE", "BLOB", "HTML"])))
        exp.append(S.Implies(cat == "QUALIFIER_TYPE", dt is not None))
        if second:
            exp.append(cat != "DOCUMENT")
    got = verdict(S, {"conceptDescriptions": [cd]}, fmt)
    S.cover("category")
    ok = S.And(*exp)
    known = [] if cat is None else [("K18-types", S.And(ok, isin(S, cat, ["PROPERTY", "VALUE", "REFERENCE", "DOCUMENT"])))]
    S.require(S.Iff(got, ok), "data type and category of a concept description", known=known)


def h_iec_ref(S, fmt):
    """an unexpected data specification reference is a warning, not an error"""
    eds = D.minimal("EmbeddedDataSpecification")
    v = S.choice("v", [D.IEC_REF, "http://example.org", D.IEC_REF + "/0", "https://adminshell.io/DataSpecificationTemplates/DataSpecificationIec61360/3/0"])
    keys = [{"type": "GlobalReference", "value": v}]
    if S.pick("two", [False, True]):
        keys.append({"type": "GlobalReference", "value": "b"})
    eds["dataSpecification"] = {"type": "ExternalReference", "keys": keys}
    got = verdict(S, {"submodels": [D.submodel(embeddedDataSpecifications=[eds])]}, fmt)
    S.cover("iecref")
    S.require(got, "foreign data specification reference rejected")


def h_iec_lang(S, which, n, fmt, pre=""):
    """what counts as English: any well-formed tag whose first subtag is en or EN"""
    s = pre + S.str("l", n, alpha="enENdGBx-1")
    iec = {"modelType": "DataSpecificationIec61360", "preferredName": [{"language": "en", "text": "t"}], "definition": [{"language": "en", "text": "t"}]}
    iec[which] = [{"language": "de", "text": "u"}, {"language": s, "text": "t"}]
    got = verdict(S, {"conceptDescriptions": [{"modelType": "ConceptDescription", "id": "urn:cd", "embeddedDataSpecifications": wrap_iec(iec)}]}, fmt)
    S.cover("english")
    S.require(S.Iff(got, S.And(S.match(T.langtag(), s), S.match("(en|EN)(-.*)?", s))), "English " + which, lambda: s)


def h_lang_el(S, cls, n, fmt):
    """language tags of language strings"""
    o = D.minimal(cls)
    s = S.str("l", n, alpha=None if fmt == "json" else [(33, 0xd7ff)])
    o["language"] = s
    got = verdict(S, D.embed(cls, o), fmt)
    S.assume(S.Not(S.And(S.match("(?i:%s)" % "|".join(T.GRANDFATHERED), s), S.Not(S.match("|".join(T.GRANDFATHERED), s)))))
    S.cover("language")
    S.require(S.Iff(got, S.match(T.langtag(), s)), cls + " language")


def c18(tier):
    q = tier == "quick"
    out = []
    for fmt in ("json", "xml"):
        for w in ("ConceptDescription", "Submodel", "AssetAdministrationShell", "element", "administration"):
            for nl in (1, 2) if q else (1, 2, 3):
                out.append(("h_iec", {"where": w, "nl": nl, "fmt": fmt}))
        out.append(("h_iec", {"where": "ConceptDescription", "nl": 1, "fmt": fmt, "second": True}))
        for second in (False, True):
            out.append(("h_iec_cat", {"fmt": fmt, "second": second}))
        out.append(("h_iec_ref", {"fmt": fmt}))
        for w in ("preferredName", "definition"):
            for n in range(1, 7 if q else 10):
                out.append(("h_iec_lang", {"which": w, "n": n, "fmt": fmt}))
            for pre in ("en-Latn-", "en-GB-x-", "EN-1", "x-en-"):
                for n in (1, 2, 3, 4):
                    out.append(("h_iec_lang", {"which": w, "n": n, "fmt": fmt, "pre": pre}))
        for cls in ("LangText", "LangName", "LangPreferred", "LangShort", "LangDefinition"):
            for n in range(0, 5 if q else 8):
                out.append(("h_lang_el", {"cls": cls, "n": n, "fmt": fmt}))
    return out


# ---- C19 typed values ----------------------------------------------------------------
def typed_ok(S, t, s):
    """(accepted, left open)"""
    if t in T.INT_BOUNDS:
        lo, hi = T.INT_BOUNDS[t]
        if not S.match("[-+]?[0-9]+", s):
            return False, False
        v = int(s)
        return S.And(True if lo is None else v >= lo, True if hi is None else v <= hi), False
    if t in ("float", "double"):
        lit = S.match(r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([Ee][+-]?[0-9]+)?", s)
        return S.Or(lit, S.match("INF|-INF|NaN", s)), S.Or(s == "+INF", S.match(r".*[Ee].*[1-9][0-9]+", s))
    if t in ("date", "dateTime"):
        # calendar rules are C07; here the shape of short strings, which are never literals below 10 characters
        return False, S.match(r"-?[0-9]{4,}-[0-9]{2}-[0-9]{2}.*", s)
    if t == "anyURI":
        return S.match(T.iri_reference(), s), False
    dont = T.GRAMMAR[t][1]
    return T.in_language(S, t, s), (S.match("(?s:%s)" % dont, s) if dont else False)


HOLDERS = ["Property", "Range.min", "Range.max", "Qualifier", "Extension", "QualifierOfElement", "PropertyInList"]


def hold(holder, t, s):
    vt = "xs:" + t
    if holder == "Property":
        return D.env_sme({"modelType": "Property", "idShort": "p", "valueType": vt, "value": s})
    if holder == "Range.min":
        return D.env_sme({"modelType": "Range", "idShort": "p", "valueType": vt, "min": s})
    if holder == "Range.max":
        return D.env_sme({"modelType": "Range", "idShort": "p", "valueType": vt, "max": s})
    if holder == "Qualifier":
        return {"submodels": [D.submodel(qualifiers=[{"type": "q", "valueType": vt, "value": s}])]}
    if holder == "QualifierOfElement":
        o = element("Capability", "x")
        o["qualifiers"] = [{"type": "a", "valueType": "xs:string"}, {"type": "q", "valueType": vt, "value": s}]
        return nested(o, "collection")
    if holder == "Extension":
        return {"submodels": [D.submodel(extensions=[{"name": "q", "valueType": vt, "value": s}])]}
    if holder == "PropertyInList":
        return D.env_sme(sml([{"modelType": "Property", "valueType": vt, "value": s}], "Property", valueTypeListElement=vt))


def h_typed(S, holder, t, n, fmt):
    s = S.str("s", n)
    S.assume(S.match(XMLC, s))
    got = verdict(S, hold(holder, t, s), fmt)
    ok, left = typed_ok(S, t, s)
    S.assume(S.Not(left))
    S.cover("typed")
    S.require(S.Iff(got, ok), f"{holder} value of type {t}")


LITERALS = {"boolean": ["true", "1"], "decimal": ["-1.5"], "double": ["1e5", "INF"], "float": ["1.5"], "duration": ["P1DT2H"], "gDay": ["---01"],
            "gMonth": ["--12"], "gMonthDay": ["--12-31"], "gYear": ["2020"], "gYearMonth": ["2020-01"], "date": ["2020-02-29"], "time": ["12:00:00Z"],
            "dateTime": ["2020-02-29T12:00:00"], "hexBinary": ["AF"], "base64Binary": ["QUI="], "anyURI": ["urn:a"], "string": ["x y"],
            "byte": ["-128"], "short": ["32767"], "int": ["1"], "long": ["1"], "integer": ["99999999999999999999"], "unsignedByte": ["255"],
            "unsignedShort": ["1"], "unsignedInt": ["1"], "unsignedLong": ["1"], "positiveInteger": ["1"], "nonNegativeInteger": ["0"],
            "negativeInteger": ["-1"], "nonPositiveInteger": ["0"]}
WRONG = {"string": None, "anyURI": "%", "hexBinary": "A", "base64Binary": "A"}


def h_typed_pair(S, holder, fmt):
    """value type and value vary independently: a valid literal of the declared type is accepted, text of no type is not"""
    t = S.pick("t", sorted(LITERALS))
    lit = S.pick("l", [0, 1])
    s = LITERALS[t][0] if lit == 0 else WRONG.get(t, "no literal!")
    if s is None:
        return
    got = verdict(S, hold(holder, t, s), fmt)
    S.cover("pair")
    S.require(S.Iff(got, lit == 0), f"{holder}: literal of {t}")


EDGE = {"byte": (["127", "-128", "+127", "0127"], ["128", "-129", "1.0"]), "short": (["32767", "-32768"], ["32768", "-32769"]), "int": (["2147483647", "-2147483648"], ["2147483648", "-2147483649"]),
        "long": (["9223372036854775807", "-9223372036854775808"], ["9223372036854775808", "-9223372036854775809"]), "unsignedByte": (["255", "-0"], ["256", "-1"]),
        "unsignedShort": (["65535"], ["65536", "-1"]), "unsignedInt": (["4294967295"], ["4294967296", "-1"]), "unsignedLong": (["18446744073709551615"], ["18446744073709551616", "-1"]),
        "positiveInteger": (["1", "18446744073709551616"], ["0", "-1"]), "negativeInteger": (["-1", "-18446744073709551616"], ["0", "1"]), "nonNegativeInteger": (["0", "-0"], ["-1"]), "nonPositiveInteger": (["0", "+0"], ["1"]),
        "float": (["3.4e38", "-3.4E+38", "1e-50", "NaN"], ["3.5e38", "-1e39", "nan", "Infinity"]), "double": (["1.7e308", "3.5e38", "1e-400", "-INF"], ["1.8e308", "-1e309", "inf", "1e"]),
        "decimal": (["0.10", "-12345678901234567890.5"], ["1e5", "INF", "1,5"]), "boolean": (["0", "false"], ["TRUE", "2", "yes"]),
        "date": (["2024-02-29", "2000-02-29Z", "-0005-02-29", "12345-12-31+14:00"], ["2023-02-29", "1900-02-29", "2024-04-31", "2024-13-01", "2024-01-01+14:01", "24-01-01"]),
        "dateTime": (["2024-02-29T23:59:59.999Z", "2024-12-31T24:00:00"], ["2023-02-29T00:00:00", "2024-01-01T24:00:01", "2024-01-01 00:00:00", "2024-01-01T00:00", "2024-01-01"]),
        "time": (["24:00:00", "23:59:59.5-13:59"], ["24:00:01", "23:60:00", "23:59"]), "gYear": (["12024", "-0044Z"], ["024", "02024", "2024-01"]), "gYearMonth": (["2024-12+01:00"], ["2024-13", "2024-1"]),
        "gMonth": (["--01Z"], ["--13", "--1", "01"]), "gMonthDay": (["--02-29"], ["--02-30", "--04-31", "-02-29"]), "gDay": (["---31"], ["---32", "---00", "--01"]),
        "duration": (["-P1Y2M3DT4H5M6.7S", "PT0S"], ["P", "P1YT", "PT1.5M", "P1S", "1Y"]), "hexBinary": (["", "0aFf"], ["0", "0g", "0x00"]),
        "base64Binary": (["", "QQ==", "QUI=", "QUJD", "Q U J D"], ["QQ=", "QR==", "QUJ=", "Q", "QQ", "QU-D"]), "anyURI": (["", "http://[::ffff:255.255.255.255]:80/a?b#c", "a%20b"], ["%zz", "http://[::g]", "a b", "#a#b"]),
        "integer": (["-99999999999999999999", "+0"], ["1.0", "1e5", ""]), "string": (["", " \t"], [])}


def h_edge(S, holder, fmt):
    """literals at the edges of the types, just inside and just outside"""
    t = S.pick("t", sorted(EDGE))
    good = S.pick("good", [True, False])
    if not EDGE[t][0 if good else 1]:
        return
    s = S.pick("s", EDGE[t][0 if good else 1])
    if s == "" and (holder != "Property" or fmt == "xml"):
        return        # an empty text may count as a missing value
    got = verdict(S, hold(holder, t, s), fmt)
    S.cover("edge")
    S.require(S.Iff(got, good), f"{holder}: edge literal of {t}", lambda: [t, s])


def h_range_both(S, t, n, fmt):
    """each bound of a range is checked on its own"""
    a, b = S.str("a", n), S.str("b", n)
    S.assume(S.And(S.match(XMLC, a), S.match(XMLC, b)))
    o = {"modelType": "Range", "idShort": "r", "valueType": "xs:" + t, "min": a, "max": b}
    got = verdict(S, D.env_sme(o), fmt)
    ok = []
    for s in (a, b):
        x, left = typed_ok(S, t, s)
        S.assume(S.Not(left))
        ok.append(x)
    S.cover("range")
    S.require(S.Iff(got, S.And(*ok)), "bounds of a range")


def c19(tier):
    q = tier == "quick"
    out = []
    for fmt in ("json", "xml"):
        for h in HOLDERS:
            for t in LITERALS:
                for n in ((1, 3) if h == "Property" else (2,)) if q else ((0, 1, 2, 3, 4, 5) if h == "Property" else (0, 1, 2, 3)):
                    if q and fmt == "xml" and h not in ("Property", "Extension", "Range.max"):
                        continue
                    out.append(("h_typed", {"holder": h, "t": t, "n": n, "fmt": fmt}))
            out.append(("h_typed_pair", {"holder": h, "fmt": fmt}))
            out.append(("h_edge", {"holder": h, "fmt": fmt}, {"weight": 5}))
        for t in ("int", "boolean", "decimal", "unsignedByte", "hexBinary"):
            out.append(("h_range_both", {"t": t, "n": 2, "fmt": fmt}))
    return out


PROPS = {
    "C14": {"cases": c14, "bounds": "references of 1..3 (4) keys with every key type and both kinds, at five places, JSON and XML; positions in lists: all strings of up to 3 (6) characters", "assumptions": ["signed numbers as positions are left open"]},
    "C15": {"cases": c15, "bounds": "lists of up to 2 (3) items at six places, every declared type, every pair of value types, semantic ids from a family of seven references and with key values of up to 2 (4) arbitrary characters; JSON and XML", "assumptions": ["abstract item types with items are left open", "referredSemanticId is not compared"]},
    "C16": {"cases": c16, "bounds": "name spaces of up to 3 (4) elements with idShorts of up to 2 (3) characters, ten kinds of name space, JSON and XML", "assumptions": []},
    "C17": {"cases": c17, "bounds": "one deviating object per document, every combination of the attributes a constraint mentions, JSON and XML; reserved names of 1, 12..14 (1..15) printable characters", "assumptions": ["both identifications of a self-managed entity at once are accepted", "template qualifiers on children of entities, operations and annotated relationships are left open"]},
    "C18": {"cases": c18, "bounds": "data specifications with every data type, all combinations of unit, unitId, value, valueList, definition, up to 2 (3) language strings; language tags of up to 4 (7) characters in every kind of language string; English tags of up to 6 (9) characters over a small alphabet, also after longer prefixes; JSON and XML", "assumptions": ["REFERENCE and DOCUMENT concept descriptions without data type are left open"]},
    "C19": {"cases": c19, "bounds": "all strings of up to 3 (5) characters for each of the 30 value types in seven places that hold typed values; literals just inside and outside the edges of each type; JSON and XML", "assumptions": ["all literals of greater length: decided by C06 to C09, on the same validators"]},
}
