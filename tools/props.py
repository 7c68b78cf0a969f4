"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py writes both."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    p = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe:
        p["anchors"]["observe_at"] = observe
    P.append(p)


A = "aas_test_engines/"
V = A + "test_cases/v3_0/"

prop("C01", "A report is as severe as its worst finding and nothing is lost",
     "Combining severities yields the maximum of the ordering info < warning < error < critical, and a report built by appending finished sub-reports always has the maximum of its own severity and that of every finding below it. ok() is true if and only if that maximum is at most a warning, after every single append. Appended findings are all kept, in order.",
     ["inputs", "histories"], "every assignment of severities to trees up to the bound, and every sequence of appends",
     "The verdict depends on the combination of all severities in the tree; tests build one or two trees.",
     [A + "result.py"], [("aggregation", A + "result.py:AasTestResult.append"), ("maximum", A + "result.py:Level.__or__"), ("verdict", A + "result.py:AasTestResult.ok")])
prop("C02", "Report contexts collect every finding, whatever ends them",
     "Findings written inside nested report contexts end up in the innermost open context in order, and a finished context becomes one finding of the context around it. An abort ends exactly the innermost context and becomes its last finding; any other exception passes through, except that a catch-all context turns it into one critical finding. However a context is left, it is closed afterwards, and writing without an open context fails.",
     ["inputs", "histories", "fault_sequences"], "every sequence of write, abort, foreign exception, open and leave operations up to the bound",
     "Needs all interleavings of nesting, aborts and exceptions, not the few a test writes down.",
     [A + "result.py"], [("context", A + "result.py:ContextManager.__exit__"), ("write", A + "result.py:write"), ("abort", A + "result.py:abort"), ("start", A + "result.py:start")])
prop("C03", "Reports survive serialisation and the text output shows every finding",
     "to_dict followed by from_json gives a report with the same messages, severities, structure and verdict for every report, and to_dict does not alter the report. The text output has one line per finding in document order, indented by nesting depth, containing the message, and its colour identifies the severity.",
     ["inputs"], "every report tree up to the bound with arbitrary messages and severities",
     "Messages contain arbitrary document content; tests use fixed texts.",
     [A + "result.py"], [("serialise", A + "result.py:AasTestResult.to_dict"), ("read back", A + "result.py:AasTestResult.from_json"), ("text", A + "result.py:AasTestResult.to_lines")])
prop("C04", "The HTML report shows exactly the findings, with their text escaped",
     "The HTML page contains each finding of the report exactly once, in order, at its nesting depth, with the class of its severity, and its text reads exactly as the message. No message, whatever characters it contains, can add markup or break the structure of the page.",
     ["inputs"], "every report tree up to the bound with arbitrary messages and severities",
     "Messages quote untrusted documents and server responses; a test cannot try every character sequence in every place.",
     [A + "result.py"], [("rendering", A + "result.py:AasTestResult._to_html"), ("page", A + "result.py:AasTestResult.to_html")])
prop("C05", "The command line's exit status is the verdict and its output the report",
     "check_file exits with 0 if and only if the file (format json, xml or aasx, the latter by default) is accepted, and prints exactly the report of the check in the chosen output (text by default, json, html); warnings are no failure. check_server runs the one suite whose name contains the given text, with the given version, headers (name and value around the first colon), TLS, prefix, filter and dry options applied, and exits with 0 if and only if the run's report is ok. Unknown or incomplete commands and options, no or several matching suites, unknown versions, malformed files and unreachable servers never exit with 0; if no or several suites match, the possible ones are named.",
     ["inputs", "configurations", "fault_sequences"], "every command name, suite text, header, prefix, filter and document value up to the bound, every combination of format and output",
     "Pipelines rely on the exit status for every document and option combination; the tests never run the command line.",
     [A + "__main__.py"], [("files", A + "__main__.py:run_file_test"), ("servers", A + "__main__.py:run_api_test"), ("headers", A + "__main__.py:_parse_header_value"), ("dispatch", A + "__main__.py:main")])
prop("C06", "Integer value types accept exactly the literals of their XSD range",
     "A value declared with one of the thirteen XSD integer types (byte, short, int, long, their unsigned forms, integer and its sign-restricted forms) is accepted if and only if it is an optional sign followed by ASCII digits whose number lies in the range of that type. Every other string (whitespace, underscores, other digit scripts, out of range by one) is rejected, and the check never raises.",
     ["inputs"], "every string up to the length bound, for each of the thirteen types",
     "Boundary values and look-alike literals are a vanishing part of the string space; the tests use a few literals per type.",
     [A + "data_types.py"], [("bounded integer check", A + "data_types.py:_is_bounded_integer"), ("type table", A + "data_types.py:validators")])
prop("C07", "Date and time value types accept exactly the calendar-valid XSD literals",
     "A value declared as date, dateTime, UTC dateTime, time, gYear, gYearMonth, gMonth, gMonthDay or gDay is accepted if and only if it is a literal of that XSD type: fixed-width fields in range, optional sign and fraction, time zone within 14:00, 24:00:00 only as end of day, and a day that exists in that month of that year (leap years included, year -n counting as astronomical year 1-n). Year 0000 is left open, nothing may follow the literal, and the check never raises.",
     ["inputs"], "every string up to the length bound, for each of the nine types",
     "Leap-year, time-zone and end-of-day cases combine multiplicatively; tests sample a few of them.",
     [A + "data_types.py"], [("date check", A + "data_types.py:is_xs_date"), ("dateTime", A + "data_types.py:is_xs_date_time"), ("UTC", A + "data_types.py:is_xs_date_time_utc"), ("gMonthDay", A + "data_types.py:is_xs_g_month_day"), ("others", A + "data_types.py:validators")])
prop("C08", "Decimal, float, double, boolean and duration accept exactly their literals",
     "A value declared as decimal, float, double, boolean or duration is accepted if and only if it is a literal of that XSD type; for float and double the literal is a decimal number with optional exponent inside the finite range of the type, or INF, -INF or NaN. A trailing point in a decimal, +INF and float literals between the largest float and its rounding threshold are left open; string values are always accepted.",
     ["inputs"], "every string up to the length bound, and decimal mantissas around the range limits with up to 18 fraction digits",
     "The limits sit at single values of an astronomically large range, and the language runtime accepts many look-alikes (underscores, Infinity, spaces).",
     [A + "data_types.py"], [("decimal", A + "data_types.py:is_decimal"), ("bounded double", A + "data_types.py:_is_bounded_double"), ("type table", A + "data_types.py:validators")])
prop("C09", "Binary and URI values are accepted exactly when lexically valid",
     "A hexBinary value is accepted if and only if it is an even number of hexadecimal digits, a base64Binary value if and only if it matches the XSD base64 grammar (complete quadruples, correct padding and padding bits, at most single spaces between characters), and an anyURI value if and only if it is an RFC 3987 IRI reference (including compressed IPv6 hosts).",
     ["inputs"], "every string up to the length bound, alone and embedded in URI templates",
     "Lenient decoders accept stray characters in positions no sample covers.",
     [A + "data_types.py"], [("hex", A + "data_types.py:is_hex_binary"), ("base64", A + "data_types.py:is_base64_binary"), ("uri", A + "data_types.py:is_any_uri")])
prop("C10", "Language tags and version strings are accepted exactly when well formed",
     "A language tag is accepted if and only if it is well formed under RFC 5646 (language, extended language, script, region, variants, extensions, private use) or a registered grandfathered tag; a well-formed tag counts as English if and only if its first subtag is 'en' or 'EN'. A version or revision string is accepted if and only if it is '0' or a decimal number without leading zeros.",
     ["inputs"], "every string up to the length bound, also after longer tag prefixes",
     "The grammar has many optional parts whose combinations tests do not enumerate.",
     [A + "data_types.py"], [("language tag", A + "data_types.py:is_bcp_lang_string"), ("english", A + "data_types.py:is_bcp_47_for_english"), ("version", A + "data_types.py:is_version_string")])
prop("C11", "String attributes obey the length and character rules of their type",
     "For every string attribute of every metamodel class, a document is accepted if and only if the string has a length within the limits of its type (for example 1 to 128 for names, 1 to 2000 for identifiers, up to 1023, 128, 255 or 18 for language texts), consists of XML characters only (AASd-130) and matches the pattern of its type (idShort, content type, version, revision, path, category of data elements).",
     ["inputs"], "every string attribute of the metamodel, every length, and all strings up to the character bound",
     "The limits sit at single lengths per attribute and the patterns admit look-alike characters; tests cover a few attributes.",
     [V + "model.py", A + "reflect.py", V + "parse.py"], [("string types", A + "reflect.py:StringFormattedValue"), ("language strings", V + "model.py:LangStringSet"), ("parsing", V + "parse.py:parse_string_formatted_value")])
prop("C12", "A JSON document is accepted exactly when its structure follows the metamodel",
     "For each class of the AAS V3.0 metamodel, a JSON document is rejected if a mandatory attribute is missing, an attribute has a value of the wrong JSON kind (including null, empty lists, wrong items), an attribute is unknown, an enumeration literal is not defined, or modelType is missing, of the wrong kind or not an admissible class at that place. With all attributes present, or all optional ones absent, it is accepted.",
     ["inputs"], "every attribute of every class in its absent, valid and deviating forms, every unknown attribute name and enumeration string up to the bound",
     "The metamodel has several hundred (class, attribute) pairs with several ways to deviate each; the tests check a handful.",
     [V + "parse.py", V + "adapter.py", V + "model.py", A + "reflect.py"], [("parser", V + "parse.py:parse_concrete_object"), ("abstract classes", V + "parse.py:parse_abstract_object"), ("JSON access", V + "adapter.py:JsonAdapter"), ("metamodel", V + "model.py"), ("reflection", A + "reflect.py:_reflect_class")])
prop("C13", "An XML document is judged by the same rules as its JSON equivalent",
     "For each class and attribute, an XML document is rejected if a mandatory element is missing, an element is unknown, duplicated, outside the AAS namespace or in none, a text element has child elements, a structured or list element has text, a list is empty, or a boolean is not true, false, 1 or 0. For string content, the verdicts on the JSON and the XML form of the same environment are equal.",
     ["inputs"], "every attribute of every class in its deviating forms, every unknown element name and string content up to the bound",
     "The XML access layer has special cases (data specification contents, operation variables, namespaces) which tests exercise with few documents.",
     [V + "adapter.py", V + "parse.py"], [("XML access", V + "adapter.py:XmlAdapter"), ("parser", V + "parse.py:parse")])
prop("C14", "References are accepted exactly when they satisfy AASd-121 to AASd-128",
     "A reference is accepted if and only if its key types satisfy the constraints of its kind: an external reference starts with GlobalReference and ends with GlobalReference or FragmentReference; a model reference starts with an identifiable, continues with fragment keys only, has FragmentReference only as last key after File or Blob, and a key after SubmodelElementList is a position number. This holds at every place a reference may occur and in JSON and XML alike.",
     ["inputs"], "every combination of reference kind and key types up to the key bound, every position string up to the length bound",
     "24 key types to the power of the number of keys; tests list a few chains.",
     [V + "model.py"], [("constraints", V + "model.py:Reference"), ("key classes", V + "model.py:GloballyIdentifiables")])
prop("C15", "Submodel element lists are accepted exactly when their items are uniform",
     "A SubmodelElementList is accepted if and only if its declared item type is a submodel element type, every item has that type and no idShort, Property and Range lists declare a value type that all items share, and all semantic ids of items are equal to each other and to the declared one, where references are equal only if kind, key types and key values all agree. This holds wherever the list is nested.",
     ["inputs"], "every declared type, item type, value type and semantic id combination up to the item bound",
     "The checks relate several items and attributes; tests vary one at a time.",
     [V + "model.py"], [("AASd-107", V + "model.py:SubmodelElementList.check_aasd_107"), ("AASd-108", V + "model.py:SubmodelElementList.check_aasd_108"), ("AASd-109", V + "model.py:SubmodelElementList.check_aasd_109"), ("AASd-114", V + "model.py:SubmodelElementList.check_aasd_114"), ("AASd-120", V + "model.py:SubmodelElementList.check_aasd_120"), ("reference equality", V + "model.py:Reference.__eq__")])
prop("C16", "idShorts are present, well formed and unique within their name space",
     "In a submodel, collection, entity, annotated relationship and operation (inputs, outputs and in-outputs together), a document is accepted if and only if every direct child has an idShort of the form letter, then letters, digits or underscore, and no two direct children have the same one (case-sensitive). Equal idShorts in different name spaces are accepted, and identifiables may omit theirs.",
     ["inputs"], "every assignment of idShort strings up to the length bound to name spaces up to the size bound",
     "Needs all pairs of positions and strings; tests use one duplicate.",
     [V + "model.py"], [("AASd-022", V + "model.py:ensure_unique_id_shorts"), ("AASd-117", V + "model.py:ensure_have_id_shorts"), ("AASd-134", V + "model.py:Operation.check_aasd_134"), ("AASd-002", V + "model.py:Referable.check_constraint_aasd_002")])
prop("C17", "Asset, qualifier, semantics and administration constraints are enforced exactly",
     "A document is accepted if and only if: a revision has a version (AASd-005); self-managed entities and only they are identified (014); data element categories are CONSTANT, PARAMETER or VARIABLE (090); no specific asset id is named globalAssetId in any case (116); supplemental semantic ids have a main one (118); template qualifiers on a submodel or on elements in it occur only in templates (119, 129); assets are identified (131); and externalSubjectId, observed, messageBroker, derivedFrom and submodels have the prescribed kind of reference (133).",
     ["inputs"], "every combination of the attributes each constraint mentions, for every class that has them",
     "Each constraint is a relation between optional attributes at many places; tests check single combinations.",
     [V + "model.py"], [("AASd-014", V + "model.py:Entity.check_aasd_014"), ("AASd-116", V + "model.py:AssetInformation.check_aasd_116"), ("AASd-118", V + "model.py:HasSemantics.check_aasd_118"), ("AASd-119/129", V + "model.py:Submodel.check_aasd_129"), ("AASd-090", V + "model.py:DataElement.check_aasd_090"), ("reference kinds", V + "model.py:AssetAdministrationShell.check_submodels")])
prop("C18", "IEC 61360 data specifications are judged by AASc-3a-002 and 004 to 010",
     "A data specification is accepted if and only if its preferred names include English (first subtag en or EN), measure and currency types have a unit or unitId, and value and valueList are not both given; in a concept description, also, the category restricts the data type as prescribed and a definition in English exists unless a value is given. Every language string has a well-formed language tag. A foreign data specification reference is a warning, not an error.",
     ["inputs"], "every combination of the attributes involved, every data type and category, language tags up to the length bound",
     "Data type, category, unit, value, valueList and languages combine to thousands of cases.",
     [V + "model.py"], [("concept descriptions", V + "model.py:ConceptDescription"), ("data specification", V + "model.py:DataSpecificationIec61360"), ("language strings", V + "model.py:LangStringSet")])
prop("C19", "Typed values anywhere in a document must be literals of their value type",
     "The value of a Property, each bound of a Range, the value of a Qualifier and the value of an Extension with a value type are accepted if and only if they are literals of the declared XSD type; a missing value is accepted. The verdict is the same wherever the element is nested and in JSON and XML.",
     ["inputs"], "each of the 30 value types with every string up to the length bound, at each place that holds a typed value",
     "30 types times every string times several places; a validator wired to the wrong type or attribute shows only for particular strings.",
     [V + "model.py", A + "data_types.py"], [("validate", V + "model.py:validate"), ("Property", V + "model.py:Property.check_value_type"), ("Range", V + "model.py:Range.check_value_type_min"), ("Qualifier", V + "model.py:Qualifier.check_value_type"), ("Extension", V + "model.py:Extension.check_value_type"), ("type table", A + "data_types.py:validators")])
prop("C20", "A violated rule is found and located wherever the element lies",
     "The verdict on a submodel element (its value, idShort, references, attributes, model type, the uniqueness inside it) is the same below any chain of collections, lists, entities and operation variables, at any position, in any of several submodels, in JSON and XML. If a document has a single violation, there is an error, and each error names the path of the offending element: the positions in it are those of the submodel, the element and the containers in between. Two violations of the same kind at different places are both reported.",
     ["inputs"], "every chain of containers and every position up to the bound, with every content of the element up to the bound",
     "Depth, kinds of containers, positions and content combine; the sample documents have each defect at one place.",
     [V + "parse.py", V + "adapter.py", A + "reflect.py"], [("parse", V + "parse.py:parse"), ("constraints", V + "parse.py:check_constraints"), ("path", V + "adapter.py:AdapterPath.__add__"), ("subclasses", A + "reflect.py:_collect_subclasses")])
prop("C21", "What was checked before does not matter, and checking changes only the report",
     "In every sequence of checks of JSON, XML and AASX documents, as data and as files, good, bad and unreadable, each verdict is the one the document gets on its own, and checking the same document again gives the same report. Reports already returned and documents handed over as data are not changed by a check, no report context is left open after one, whatever its outcome, and a check within a report context of the caller leaves that context as it was. A server run with the same client and configuration sends the same requests and gives the same report, also after runs in which the server failed.",
     ["histories", "inputs"], "every sequence of checks up to the bound with every value up to the bound; every position of a failing answer in an earlier run",
     "State kept between checks (caches, tables, contexts) shows only for particular sequences; each test checks one document.",
     [A + "file.py", A + "opc.py", A + "result.py", A + "api.py", A + "http.py"], [("packages", A + "opc.py:_scan_relationships"), ("documents", A + "file.py:check_json_data"), ("contexts", A + "result.py:start"), ("runs", A + "api.py:execute_tests")])
prop("C22", "Submodels of a known template are judged by that template",
     "A submodel whose semantic id is that of Contact Information 1.0 or Digital Nameplate 2.0 is accepted if and only if, besides the metamodel, each field of the template (and of the collections inside it: contact information, phone, fax, email, IP communication), found by the semantic id of the elements, occurs as often as allowed, is of the right kind (text: xs:string property; language text: multi language property; date: xs:date property; fixed lists of values; collections) and has a value, and a nameplate names a product family or a product type. Other elements do not matter, submodels with other semantic ids are not judged by a template, and one bad submodel makes the document non-compliant.",
     ["inputs"], "every field with every number and kind of elements up to the bound, every value and semantic id up to the bound",
     "Forty fields times number, kind and value of elements at several depths; the tests have one document per template.",
     [V + "submodel_templates.py", V + "parse_submodel.py"], [("fields", V + "parse_submodel.py:_parse_elements"), ("templates", V + "submodel_templates.py:parse_submodel_templates"), ("nameplate", V + "submodel_templates.py:DigitalNameplate")])
prop("C23", "Package paths are resolved like Unix paths, without escaping the root",
     "normpath turns any path into its segments with '.' and empty segments dropped and '..' removing the segment before it (never climbing above the root), joined by single slashes and keeping a leading slash; normalising twice changes nothing, and blanks around the path do not count. splitpath cuts at the last slash, so that folder, slash and name give the path again.",
     ["inputs"], "every path string up to the length bound, also after prefixes with '..', '.' and '//'",
     "Every sequence of dots, slashes and names is a path; tests list a dozen.",
     [A + "opc.py"], [("normalise", A + "opc.py:normpath"), ("split", A + "opc.py:splitpath")])
prop("C24", "An AASX package is followed relationship by relationship and judged as a whole",
     "For every AASX package: [Content_Types].xml and the root relationships must exist and be well-formed XML with the right root tag; every child of it must be a Relationship and needs Type and Target; a target is resolved relative to the folder of its part (absolute if it starts with a slash) and must exist; the old relationship types count as the new ones with a warning. A violation of any of these is an error at any depth. A number of origins other than one and an origin without a specification are warnings. Cycles end, parts reached over several ways are followed once, and damaged ZIP members (checksum, compression, encryption) are reported. check_aasx_file and check_aasx_data report instead of raising.",
     ["inputs", "fault_sequences"], "every relationship graph over the parts up to the bound, every target string up to the length bound, every damaged member",
     "Relationship types, targets, depth and damage combine; the tests use a few packages with the defect at one place.",
     [A + "opc.py", A + "file.py"], [("relationships", A + "opc.py:_scan_relationships"), ("content types", A + "opc.py:_check_content_type"), ("package", A + "file.py:check_aasx_data"), ("container", A + "file.py:check_aasx_file")])
prop("C25", "A document gets the same verdict however it is handed over",
     "A JSON or XML document gets the same verdict as data, as binary or text file and inside an AASX package (where the part name decides the format: '.json' or '.xml', any other name is a warning). A package is accepted only if every one of its documents, in whatever order, is, and its report has the errors of each of them. With a model type given, exactly the objects of that class are accepted. Files that are not well-formed JSON, XML or ZIP are an error in the report, never an exception.",
     ["inputs"], "every value string and part name up to the bound, every combination of good and bad documents, the listed malformed files, each model type",
     "The combination of container, format, position and content is not covered by single sample files.",
     [A + "file.py"], [("JSON", A + "file.py:check_json_file"), ("XML", A + "file.py:check_xml_file"), ("package contents", A + "file.py:_check_files"), ("package", A + "file.py:check_aasx_data")])
prop("C26", "A test filter selects exactly the operations its patterns describe",
     "A filter is a list of includes, optionally followed by '~' and a list of excludes, each separated by ':'. An operation is selected if and only if its whole name matches one of the includes (any name if there are none) and none of the excludes, where '*' stands for any text, '?' for one character and [..] or [!..] for a set; case counts and blank patterns do not. A second '~' is rejected with InvalidFilterException. The order of the patterns and earlier questions do not matter, and a run with a filter executes exactly the selected operations of the suite in their usual order.",
     ["inputs", "configurations"], "every filter text and operation name up to the bound",
     "Filters are free text combining wildcards, separators and both lists; tests use about ten.",
     [A + "config.py", V + "api.py"], [("filter", A + "config.py:TestCaseFilter"), ("selection", A + "config.py:TestCaseFilter.selects"), ("run", V + "api.py:execute_tests")])
prop("C27", "Every request is sent where and how the user configured it",
     "A request goes to the host (without a trailing slash), followed by the prefixes the client descended to, the path and the query. The query holds exactly the parameters that are not None, in order, percent-encoded as UTF-8. The path prefix to be removed is removed once, only at the beginning and only where a path segment, the query or the URL ends there. Each request carries the method, the JSON body (also an empty or false one), the user's headers overridden by its own, and the TLS setting. Descending and sending change no other client, and connection errors reach the caller.",
     ["inputs", "histories", "fault_sequences"], "every parameter value, host, path and prefix up to the bound, and every history of descents and requests up to the bound",
     "Parameter contents, prefixes and histories combine without limit; no unit test looks at the URL that is sent.",
     [A + "http.py"], [("URL", A + "http.py:Request.make_url"), ("send", A + "http.py:HttpClient.send"), ("prefixes", A + "http.py:HttpClient.descend")])
prop("C28", "Identifiers in URLs are the unpadded base64url form of their UTF-8 text",
     "For every string, base64_urlsafe gives exactly the base64url encoding of its UTF-8 bytes without padding, so decoding gives the string back, and it never contains a character with a meaning in a URL. A string value marked as base64 renders this way wherever it is put into a path or parameter and any other string value renders as itself; both keep the raw value, and two values are equal if and only if their texts are.",
     ["inputs"], "every Unicode string up to the length bound, also inside longer texts",
     "Whether '+', '/' or padding appears depends on the exact bytes of the identifier; tests use ASCII samples.",
     [A + "data_types.py", A + "reflect.py"], [("encoding", A + "data_types.py:base64_urlsafe"), ("rendering", A + "reflect.py:StringFormattedValue.__str__"), ("equality", A + "reflect.py:StringFormattedValue.__eq__")])
prop("C29", "A server passes exactly when each of its answers is acceptable",
     "In a run against an otherwise conforming server, for every operation of the four suites: the run's report is ok if and only if each answer is acceptable, whichever single answer deviates: a valid request must be answered with status 200 and a body of the right kind (an object of the metamodel, a page, any JSON for value-only, any bytes for files), an invalid request with a status from 400 to 499 and an error result. A status of 500 or above, no JSON, another structure or a lost connection makes the report not ok, and no answer makes the run end with an exception. If the server cannot be reached at all, the run ends after that first request with a failure.",
     ["inputs", "fault_sequences"], "every position of the deviating answer with every status code and the listed bodies, for every operation of every suite",
     "91 operations times positions times statuses and bodies; the tests only use dry runs and one public server.",
     [A + "api.py", V + "api.py", V + "interfaces/shared.py"], [("run", V + "api.py:execute_tests"), ("answers", V + "interfaces/shared.py:invoke_and_decode"), ("report", A + "result.py:start")])
prop("C30", "A server run sends the requests of the suite's operations",
     "Each suite consists of exactly its operations. A run asks only paths and parameters of the interface, below the base path of the profile and with identifiers in base64url form; it requests the path of every selected operation plainly and with each documented variation (limit and cursor, idShort, assetIds, level, extent and their combinations, every kind of submodel element), and with an invalid value for each restricted parameter. A conforming server passes, whatever the identifier of its shell. Only the known suites and version 3.0 (the default) can be run, anything else is rejected with AasTestToolsException.",
     ["inputs", "configurations"], "every operation of every suite with every identifier, suite name and version up to the bound",
     "What is sent depends on the profile, the operation and the server's data; the tests never look at the requests.",
     [A + "api.py", A + "http.py", V + "api.py", V + "generate.py"], [("suites", V + "api.py:available_suites"), ("versions", A + "api.py:execute_tests"), ("invalid values", V + "generate.py:generate_calls"), ("requests", A + "http.py:HttpClient.send")])
prop("C33", "Class definitions are understood exactly: attributes, subclasses, names",
     "For every class definition built from the supported annotations, reflection yields its attributes in order, each required if and only if it is not Optional, with its type (lists that may or may not be empty, enums, formatted strings, classes, also through forward references and cycles), without the fixed attributes, which every constructed object carries. A class knows exactly its non-abstract descendants, and being abstract is not inherited. A class is found by exactly its simple name if it is the only one of that name, any other name is a ValueError. Unsupported definitions are rejected. Documents read against the class are accepted if and only if they fit it, and formatted strings if and only if length, characters and pattern (as a whole) fit.",
     ["inputs", "programs"], "every class definition, class tree and name up to the bound; every limit, pattern choice and string up to the bound",
     "The metamodel is only one class tree; optional, renamed, fixed and recursive attributes combine and tests define a class for each.",
     [A + "reflect.py"], [("attributes", A + "reflect.py:_reflect_class"), ("types", A + "reflect.py:_reflect_unsafe"), ("subclasses", A + "reflect.py:_collect_subclasses"), ("names", A + "reflect.py:SymbolTable.lookup"), ("functions", A + "reflect.py:reflect_function"), ("strings", A + "reflect.py:StringFormattedValue.__init__")])

NOT_APPLICABLE = []

if __name__ == "__main__":
    reg = json.load(open(os.path.join(HERE, "harness", "registry.json")))
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    na_ids = {x["property"] for x in NOT_APPLICABLE}
    checks = []
    for p in P:
        if p["id"] in na_ids:
            continue
        assert p["id"] in reg, p["id"]
        checks.append({
            "property": p["id"],
            "quick_cmd": f"python3-vt /verif/check.py {p['id']} --tier quick",
            "thorough_cmd": f"python3-vt /verif/check.py {p['id']} --tier thorough",
            "technique": "solver-based checking: symbolic execution of the real Python source (z3) over all inputs within the stated bounds, counterexamples replayed on the plain code",
            "level": "model_checking",
            "level_note": "bounded; bounds and assumptions are in the evidence file and DESIGN.md; no claim outside the bounds",
            "evidence_file": f"evidence/{p['id']}.json",
        })
    m = {"version": 1, "setup_cmd": "python3-vt /verif/tools/setup_check.py", "checks": checks, "not_applicable": NOT_APPLICABLE,
         "notes": "No hooks in /repo: the checks instrument the source at import time from /repo's working tree."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties,", len(checks), "checks")
