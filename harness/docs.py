"""The AAS metamodel V3.0 as a frozen table (written from the specification, independent of /repo), and builders of
JSON and XML documents from it."""
from xml.etree.ElementTree import Element

NS = "{https://admin-shell.io/aas/3/0}"

REF, TEXT, NAME = "Reference", "LangText", "LangName"


def L(t):
    return ("list", t)


def E(*names):
    return ("enum", tuple(names))


def A(name, type, req=False):
    return (name, type, req)


XSD = ["xs:anyURI", "xs:base64Binary", "xs:boolean", "xs:byte", "xs:date", "xs:dateTime", "xs:decimal", "xs:double",
       "xs:duration", "xs:float", "xs:gDay", "xs:gMonth", "xs:gMonthDay", "xs:gYear", "xs:gYearMonth", "xs:hexBinary",
       "xs:int", "xs:integer", "xs:long", "xs:negativeInteger", "xs:nonNegativeInteger", "xs:nonPositiveInteger",
       "xs:positiveInteger", "xs:short", "xs:string", "xs:time", "xs:unsignedByte", "xs:unsignedInt", "xs:unsignedLong",
       "xs:unsignedShort"]
KEYTYPES = ["AnnotatedRelationshipElement", "AssetAdministrationShell", "BasicEventElement", "Blob", "Capability",
            "ConceptDescription", "DataElement", "Entity", "EventElement", "File", "FragmentReference", "GlobalReference",
            "Identifiable", "MultiLanguageProperty", "Operation", "Property", "Range", "Referable", "ReferenceElement",
            "RelationshipElement", "Submodel", "SubmodelElement", "SubmodelElementCollection", "SubmodelElementList"]
IEC_TYPES = ["BLOB", "BOOLEAN", "DATE", "FILE", "HTML", "INTEGER_COUNT", "INTEGER_CURRENCY", "INTEGER_MEASURE", "IRDI", "IRI",
             "RATIONAL", "RATIONAL_MEASURE", "REAL_COUNT", "REAL_CURRENCY", "REAL_MEASURE", "STRING", "STRING_TRANSLATABLE",
             "TIME", "TIMESTAMP"]

SEM = [A("semanticId", REF), A("supplementalSemanticIds", L(REF))]
EXT = [A("extensions", L("Extension"))]
REFERABLE = EXT + [A("category", "name"), A("idShort", "idShort"), A("displayName", L(NAME)), A("description", L(TEXT))]
QUAL = [A("qualifiers", L("Qualifier"))]
DS = [A("embeddedDataSpecifications", L("EmbeddedDataSpecification"))]
IDENT = REFERABLE + [A("administration", "AdministrativeInformation"), A("id", "identifier", True)]
SME = REFERABLE + SEM + QUAL + DS

CLASSES = {
    "Environment": [A("assetAdministrationShells", L("AssetAdministrationShell")), A("submodels", L("Submodel")),
                    A("conceptDescriptions", L("ConceptDescription"))],
    "AssetAdministrationShell": IDENT + DS + [A("derivedFrom", REF), A("assetInformation", "AssetInformation", True),
                                              A("submodels", L(REF))],
    "Submodel": IDENT + [A("kind", E("Instance", "Template"))] + SEM + QUAL + DS + [A("submodelElements", L("SubmodelElement"))],
    "ConceptDescription": IDENT + DS + [A("isCaseOf", L(REF))],
    "AssetInformation": [A("assetKind", E("Instance", "NotApplicable", "Type"), True), A("globalAssetId", "identifier"),
                         A("specificAssetIds", L("SpecificAssetId")), A("assetType", "identifier"), A("defaultThumbnail", "Resource")],
    "SpecificAssetId": SEM + [A("name", "label", True), A("value", "identifier", True), A("externalSubjectId", REF)],
    "Resource": [A("path", "path", True), A("contentType", "contentType")],
    "AdministrativeInformation": DS + [A("version", "version"), A("revision", "version"), A("creator", REF), A("templateId", "identifier")],
    "Extension": SEM + [A("name", "name", True), A("valueType", E(*XSD)), A("value", "value"), A("refersTo", L(REF))],
    "Qualifier": SEM + [A("kind", E("ConceptQualifier", "TemplateQualifier", "ValueQualifier")), A("type", "name", True),
                        A("valueType", E(*XSD), True), A("value", "value"), A("valueId", REF)],
    "Reference": [A("type", E("ExternalReference", "ModelReference"), True), A("referredSemanticId", REF), A("keys", L("Key"), True)],
    "Key": [A("type", E(*KEYTYPES), True), A("value", "identifier", True)],
    "LangText": [A("language", "language", True), A("text", "text", True)],
    "LangName": [A("language", "language", True), A("text", "text", True)],
    "LangPreferred": [A("language", "language", True), A("text", "text", True)],
    "LangShort": [A("language", "language", True), A("text", "text", True)],
    "LangDefinition": [A("language", "language", True), A("text", "text", True)],
    "EmbeddedDataSpecification": [A("dataSpecification", REF, True), A("dataSpecificationContent", "DataSpecificationContent", True)],
    "DataSpecificationIec61360": [A("preferredName", L("LangPreferred"), True), A("shortName", L("LangShort")), A("unit", "nonEmpty"),
                                  A("unitId", REF), A("sourceOfDefinition", "nonEmpty"), A("symbol", "nonEmpty"), A("dataType", E(*IEC_TYPES)),
                                  A("definition", L("LangDefinition")), A("valueFormat", "nonEmpty"), A("valueList", "ValueList"),
                                  A("value", "identifier"), A("levelType", "LevelType")],
    "ValueList": [A("valueReferencePairs", L("ValueReferencePair"), True)],
    "ValueReferencePair": [A("value", "identifier", True), A("valueId", REF, True)],
    "LevelType": [A("min", "bool", True), A("nom", "bool", True), A("typ", "bool", True), A("max", "bool", True)],
    "AnnotatedRelationshipElement": SME + [A("first", REF, True), A("second", REF, True), A("annotations", L("DataElement"))],
    "BasicEventElement": SME + [A("observed", "ModelReference", True), A("direction", E("input", "output"), True), A("state", E("off", "on"), True),
                                A("messageTopic", "topic"), A("messageBroker", "ModelReference"), A("lastUpdate", "dateTime"),
                                A("minInterval", "duration"), A("maxInterval", "duration")],
    "Blob": SME + [A("value", "nonEmpty"), A("contentType", "contentType", True)],
    "Capability": SME,
    "Entity": SME + [A("statements", L("SubmodelElement")), A("entityType", E("CoManagedEntity", "SelfManagedEntity"), True),
                     A("globalAssetId", "identifier"), A("specificAssetIds", L("SpecificAssetId"))],
    "File": SME + [A("value", "path"), A("contentType", "contentType", True)],
    "MultiLanguageProperty": SME + [A("value", L(TEXT)), A("valueId", REF)],
    "Operation": SME + [A("inputVariables", L("OperationVariable")), A("outputVariables", L("OperationVariable")),
                        A("inoutputVariables", L("OperationVariable"))],
    "OperationVariable": [A("value", "SubmodelElement", True)],
    "Property": SME + [A("valueType", E(*XSD), True), A("value", "value"), A("valueId", REF)],
    "Range": SME + [A("valueType", E(*XSD), True), A("min", "value"), A("max", "value")],
    "ReferenceElement": SME + [A("value", REF)],
    "RelationshipElement": SME + [A("first", REF, True), A("second", REF, True)],
    "SubmodelElementCollection": SME + [A("value", L("SubmodelElement"))],
    "SubmodelElementList": SME + [A("orderRelevant", "bool"), A("semanticIdListElement", REF), A("typeValueListElement", E(*KEYTYPES), True),
                                  A("valueTypeListElement", E(*XSD)), A("value", L("SubmodelElement"))],
}
ABSTRACT = {
    "SubmodelElement": ["AnnotatedRelationshipElement", "BasicEventElement", "Blob", "Capability", "Entity", "File", "MultiLanguageProperty",
                        "Operation", "Property", "Range", "ReferenceElement", "RelationshipElement", "SubmodelElementCollection",
                        "SubmodelElementList"],
    "DataElement": ["Blob", "File", "MultiLanguageProperty", "Property", "Range", "ReferenceElement"],
    "DataSpecificationContent": ["DataSpecificationIec61360"],
}
SMES = ABSTRACT["SubmodelElement"]
# classes whose JSON serialisation carries modelType
WITH_MODEL_TYPE = SMES + ["AssetAdministrationShell", "Submodel", "ConceptDescription", "DataSpecificationIec61360"]

ATOMS = {
    "name": "abc", "idShort": "abc", "identifier": "urn:x:1", "label": "lbl", "path": "file:/a.txt", "contentType": "text/plain",
    "version": "1", "value": "v", "language": "en", "text": "hello", "nonEmpty": "n", "topic": "t", "dateTime": "2020-01-01T00:00:00Z",
    "duration": "P1Y", "bool": True,
}
IEC_REF = "https://admin-shell.io/DataSpecificationTemplates/DataSpecificationIec61360/3"
# values that satisfy the constraints where the default of the type does not
SPECIAL = {
    ("Submodel", "submodelElements"): [{"modelType": "Capability", "idShort": "cap"}],
    ("AssetAdministrationShell", "derivedFrom"): {"type": "ModelReference", "keys": [{"type": "AssetAdministrationShell", "value": "urn:x:2"}]},
    ("AssetAdministrationShell", "submodels"): [{"type": "ModelReference", "keys": [{"type": "Submodel", "value": "urn:x:2"}]}],
    ("Property", "valueType"): "xs:string", ("Range", "valueType"): "xs:string", ("Qualifier", "valueType"): "xs:string",
    ("Extension", "valueType"): "xs:string", ("SubmodelElementList", "valueTypeListElement"): "xs:string",
    ("SubmodelElementList", "typeValueListElement"): "Capability",
    ("SubmodelElementList", "value"): [{"modelType": "Capability"}],
    ("AnnotatedRelationshipElement", "annotations"): [{"modelType": "Property", "idShort": "ann", "valueType": "xs:string"}],
    ("Entity", "entityType"): "CoManagedEntity", ("Key", "type"): "GlobalReference",
    ("ConceptDescription", "embeddedDataSpecifications"): [{
        "dataSpecification": {"type": "ExternalReference", "keys": [{"type": "GlobalReference", "value": IEC_REF}]},
        "dataSpecificationContent": {"modelType": "DataSpecificationIec61360", "preferredName": [{"language": "en", "text": "hello"}],
                                     "definition": [{"language": "en", "text": "hello"}]}}],
    ("DataSpecificationIec61360", "dataType"): "STRING",
    ("EmbeddedDataSpecification", "dataSpecification"): {"type": "ExternalReference", "keys": [{"type": "GlobalReference", "value": IEC_REF}]},
}
CATEGORY_OF_DATA_ELEMENT = "CONSTANT"
# attributes that may only be present together with others
COMPANION = {
    "supplementalSemanticIds": {"semanticId": {"type": "ExternalReference", "keys": [{"type": "GlobalReference", "value": "urn:s:1"}]}},
    "revision": {"version": "1"},
    ("Entity", "globalAssetId"): {"entityType": "SelfManagedEntity"},
    ("Entity", "specificAssetIds"): {"entityType": "SelfManagedEntity"},
}


def companion(cls, attr):
    return copy(COMPANION.get((cls, attr)) or COMPANION.get(attr) or {})


def ref(value="urn:s:1"):
    return {"type": "ExternalReference", "keys": [{"type": "GlobalReference", "value": value}]}


def sample(t, cls=None, attr=None, sid="abc"):
    """a fresh valid JSON value of a type"""
    if (cls, attr) in SPECIAL:
        return copy(SPECIAL[cls, attr])
    if attr == "category" and cls in ABSTRACT["DataElement"]:
        return CATEGORY_OF_DATA_ELEMENT
    if isinstance(t, tuple):
        if t[0] == "enum":
            return t[1][0]
        return [sample(t[1], cls, attr + "[]" if attr else None)]
    if t in ATOMS:
        return ATOMS[t]
    if t == "Reference":
        return ref()
    if t == "ModelReference":
        return {"type": "ModelReference", "keys": [{"type": "Submodel", "value": "urn:x:1"}]}
    if t == "SubmodelElement":
        return minimal("Capability")
    if t == "DataElement":
        return minimal("Property")
    if t == "DataSpecificationContent":
        return minimal("DataSpecificationIec61360")
    return minimal(t)


def copy(v):
    if isinstance(v, dict):
        return {k: copy(x) for k, x in v.items()}
    if isinstance(v, list):
        return [copy(x) for x in v]
    return v


def minimal(cls, id_short="abc"):
    out = {}
    if cls in WITH_MODEL_TYPE:
        out["modelType"] = cls
    for name, t, req in CLASSES[cls]:
        if req:
            out[name] = sample(t, cls, name)
    if cls in SMES:
        out["idShort"] = id_short
    if cls == "AssetInformation":
        out["globalAssetId"] = "urn:x:asset"
    if cls == "Key":
        out["type"] = "GlobalReference"
    return out


def attrs(cls):
    return {n: (t, r) for n, t, r in CLASSES[cls]}


def submodel(*elements, **kw):
    out = {"modelType": "Submodel", "id": "urn:x:sm"}
    if elements:
        out["submodelElements"] = list(elements)
    out.update(kw)
    return out


def env(**kw):
    return {k: v for k, v in kw.items() if v is not None}


def env_sme(*elements):
    return {"submodels": [submodel(*elements)]}


def embed(cls, obj):
    """an environment containing obj at a place where cls is expected"""
    if cls == "Environment":
        return obj
    if cls == "AssetAdministrationShell":
        return {"assetAdministrationShells": [obj]}
    if cls == "Submodel":
        return {"submodels": [obj]}
    if cls == "ConceptDescription":
        return {"conceptDescriptions": [obj]}
    if cls in SMES:
        return env_sme(obj)
    aas = minimal("AssetAdministrationShell")
    if cls == "AssetInformation":
        aas["assetInformation"] = obj
        return {"assetAdministrationShells": [aas]}
    if cls == "SpecificAssetId":
        aas["assetInformation"]["specificAssetIds"] = [obj]
        return {"assetAdministrationShells": [aas]}
    if cls == "Resource":
        aas["assetInformation"]["defaultThumbnail"] = obj
        return {"assetAdministrationShells": [aas]}
    if cls == "AdministrativeInformation":
        return {"submodels": [submodel(administration=obj)]}
    if cls == "Extension":
        return {"submodels": [submodel(extensions=[obj])]}
    if cls == "Qualifier":
        return {"submodels": [submodel(qualifiers=[obj], kind="Template")]}
    if cls == "Reference":
        return {"submodels": [submodel(semanticId=obj)]}
    if cls == "Key":
        return {"submodels": [submodel(semanticId={"type": "ExternalReference", "keys": [obj]})]}
    if cls == "LangText":
        return {"submodels": [submodel(description=[obj])]}
    if cls == "LangName":
        return {"submodels": [submodel(displayName=[obj])]}
    if cls == "OperationVariable":
        return env_sme({"modelType": "Operation", "idShort": "op", "inputVariables": [obj]})
    eds = minimal("EmbeddedDataSpecification")
    iec = eds["dataSpecificationContent"]
    if cls == "EmbeddedDataSpecification":
        eds = obj
    elif cls == "DataSpecificationIec61360":
        eds["dataSpecificationContent"] = obj
    elif cls == "LangPreferred":
        iec["preferredName"] = [minimal("LangPreferred"), obj]
    elif cls == "LangShort":
        iec["shortName"] = [obj]
    elif cls == "LangDefinition":
        iec["definition"] = [obj]
    elif cls == "ValueList":
        iec["valueList"] = obj
    elif cls == "ValueReferencePair":
        iec["valueList"] = {"valueReferencePairs": [obj]}
    elif cls == "LevelType":
        iec["levelType"] = obj
    else:
        raise Exception(cls)
    return {"submodels": [submodel(embeddedDataSpecifications=[eds])]}


# ---- XML -------------------------------------------------------------------------
ITEM_TAG = {"Reference": "reference", "Key": "key", "LangText": "langStringTextType", "LangName": "langStringNameType",
            "LangPreferred": "langStringPreferredNameTypeIec61360", "LangShort": "langStringShortNameTypeIec61360",
            "LangDefinition": "langStringDefinitionTypeIec61360", "Extension": "extension", "Qualifier": "qualifier",
            "SpecificAssetId": "specificAssetId", "EmbeddedDataSpecification": "embeddedDataSpecification",
            "ValueReferencePair": "valueReferencePair", "OperationVariable": "operationVariable", "ModelReference": "reference"}


def lower_first(s):
    return s[0].lower() + s[1:]


def el(tag, text=None):
    e = Element(NS + tag)
    if text is not None:
        e.text = text
    return e


def concrete_class(t, value):
    if t in ABSTRACT:
        return value.get("modelType")
    if t == "ModelReference":
        return "Reference"
    return t


def fill(e, t, value):
    """XML form of a JSON value of type t below element e. Values of an unexpected shape become text."""
    if isinstance(t, tuple) and t[0] == "list" and isinstance(value, list):
        for v in value:
            it = t[1]
            c = concrete_class(it, v) if isinstance(v, dict) else None
            e.append(to_xml(ITEM_TAG.get(it) or lower_first(c or it), it, v))
    elif isinstance(value, dict) and not isinstance(t, tuple):
        c = concrete_class(t, value)
        table = attrs(c) if c in CLASSES else {}
        body = e
        if t == "DataSpecificationContent":
            body = el(lower_first(c))
            e.append(body)
        for k, v in value.items():
            if k == "modelType":
                continue
            if c == "OperationVariable" and k == "value":
                w = el("value")
                w.append(to_xml(lower_first(v["modelType"]), "SubmodelElement", v))
                body.append(w)
            else:
                body.append(to_xml(k, table.get(k, (None, False))[0], v))
    elif value is True or value is False:
        e.text = "true" if value else "false"
    else:
        e.text = value
    return e


def to_xml(tag, t, value):
    return fill(el(tag), t, value)


def env_xml(doc):
    return to_xml("environment", "Environment", doc)
