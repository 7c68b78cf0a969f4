HOW = {
"C01": "`AasTestResult.append`, `ok`, `Level.__or__` on fixed tree shapes whose severities are all symbolic. Oracle: the numeric maximum over the subtree, after every single append, and the list of appended findings.",
"C02": "`start`, `write`, `abort` and the context manager run programs whose operations are symbolic choices. Oracle: a short reference interpreter of the same program that keeps an explicit stack.",
"C03": "`to_dict`, `from_json`, `to_lines`, `dump` on trees with symbolic messages and severities. Oracle: structural equality after the round trip; the lines are recomputed from depth, message and the colour table.",
"C04": "`to_html` with symbolic messages. Oracle: a tokenizer in the harness reads the page back (elements, classes, character references) under the path condition, and the findings read must be those of the report, wherever the template puts them.",
"C05": "`__main__.main` with `sys.argv` containing symbolic arguments (opaque placeholders through the real argparse), standard output captured symbolically, requests recorded at `Session.request`. Oracle: verdict and serialisations of the module functions, which C01-C04, C24-C27 judge on their own; exit status 0 iff ok.",
"C06": "`data_types.validators[...]` for the thirteen integer types on every Unicode string. Oracle: regular expression plus the number's value as an integer term compared with the limits.",
"C07": "the nine date and time validators on every Unicode string. Oracle: independent grammar and calendar arithmetic (leap years with astronomical numbering) as formulas over the characters.",
"C08": "decimal, float, double, boolean, duration validators. Oracle: grammar as a regular expression; range by exact rational comparison of the mantissa against the limits of IEEE 754.",
"C09": "hexBinary, base64Binary, anyURI. Oracle: XSD lexical grammar and the RFC 3987 grammar written from the RFC as regular expressions (IPv6 by counting groups).",
"C10": "language tags and versions. Oracle: the RFC 5646 ABNF written as one regular expression.",
"C11": "`check_json_data` on documents in which one string attribute is symbolic (all lengths as a run with symbolic length; all short strings). Oracle: the length, character and pattern table of the specification in `docs.py`.",
"C12": "`check_json_data` on a document per class and attribute with symbolic state (absent, valid, each wrong shape), symbolic unknown keys, symbolic enumeration and modelType strings. Oracle: the frozen metamodel table.",
"C13": "`check_xml_data` on the same documents as element trees, with symbolic tags, namespaces, texts and duplications. Oracle: the frozen table; for strings, equality with the verdict on the JSON form.",
"C14": "`check_json_data`/`check_xml_data` with symbolic key types, kinds and positions. Oracle: the constraints as formulas over the key list.",
"C15": "documents with a list whose items, declared types, value types and semantic ids are symbolic. Oracle: the constraints AASd-107/108/109/114/120 as formulas.",
"C16": "documents with symbolic idShorts in ten kinds of name space. Oracle: pattern and pairwise inequality.",
"C17": "documents with symbolic presence and values of the attributes each constraint mentions. Oracle: one formula per constraint.",
"C18": "documents with data specifications, all parts symbolic. Oracle: one formula per constraint, the language grammar of C10.",
"C19": "documents with typed values (Property, Range, Qualifier, Extension) at seven places. Oracle: the lexical grammars of C06-C09 restated in the harness.",
"C23": "`normpath`, `splitpath` on every string. Oracle: segment list semantics and idempotence as formulas.",
"C24": "`check_aasx_file`/`check_aasx_data` on packages whose relationship graph, targets, tags, attributes and member faults are symbolic. Oracle: an independent reachability computation over the described package.",
"C25": "`check_json_file`, `check_xml_file`, `check_aasx_file`, `check_*_data` on the same document with a symbolic value. Oracle: equality of verdicts and the value's own rule.",
"C20": "`check_json_data` and `check_xml_data` on documents assembled from symbolic choices of containers and positions with symbolic leaf content. Oracle: the formula for the leaf alone; the chosen positions for the path of the findings.",
"C21": "sequences of two and three checks (`check_json_data`, `check_xml_file`, `check_aasx_file`, ...) each with its own symbolic value, and server runs with a failing answer at a symbolic position. Oracle: the rule for each value alone, and equality of reports, documents and requests before and after.",
"C22": "`check_json_data` and `check_xml_data` on submodels assembled field by field from a frozen table of the templates (semantic id, kind, minimum, maximum), with symbolic values and semantic ids. Oracle: counting and the table.",
"C26": "`TestCaseFilter` on symbolic filter texts and names, and dry runs of the four suites. Oracle: an independent parser of the filter syntax and a matching formula.",
"C27": "`Request.make_url`, `HttpClient.send`/`descend` with symbolic hosts, paths, prefixes, parameters, headers, bodies and histories. Oracle: URL semantics recomputed, the query decoded again byte by byte.",
"C28": "`base64_urlsafe` and `StringFormattedValue` on every Unicode string. Oracle: UTF-8 and base64 decoding as arithmetic over the characters.",
"C29": "`api.execute_tests` against a conforming server written in the harness, reached through a replaced transport; the position of the deviating answer is a choice, its status a symbolic number. Oracle: what the harness' server knows about the request (valid, invalid, kind of body).",
"C30": "`api.execute_tests` against the same server, which records every request, with a symbolic shell identifier, suite name and version. Oracle: a frozen table of operations, paths, parameters and variations.",
"C33": "`reflect`, `reflect_function`, `SymbolTable.lookup`, `StringFormattedValue` on class definitions assembled from symbolic choices, symbolic names, limits and strings. Oracle: the choices themselves; documents for the class are judged by `parse_and_check_json`.",
}
