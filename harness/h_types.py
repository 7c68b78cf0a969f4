"""XML-schema data types and lexical checks: the verdict on every string up to the bound."""
from aas_test_engines import data_types
from aas_test_engines.data_types import validators, DataTypeDefXsd

INT_BOUNDS = {
    "byte": (-128, 127), "short": (-32768, 32767), "int": (-2147483648, 2147483647),
    "long": (-9223372036854775808, 9223372036854775807), "unsignedByte": (0, 255), "unsignedShort": (0, 65535),
    "unsignedInt": (0, 4294967295), "unsignedLong": (0, 18446744073709551615), "integer": (None, None),
    "positiveInteger": (1, None), "nonNegativeInteger": (0, None), "negativeInteger": (None, -1),
    "nonPositiveInteger": (None, 0),
}


def verdict(name, s):
    return validators[DataTypeDefXsd("xs:" + name)](s)


def h_int(S, t, n):
    s = S.str("s", n)
    lo, hi = INT_BOUNDS[t]
    got = verdict(t, s)
    if S.match("[-+]?[0-9]+", s):
        v = int(s)
        conds = []
        if lo is not None:
            conds.append(v >= lo)
        if hi is not None:
            conds.append(v <= hi)
        S.cover("literal")
        S.require(S.Iff(got, S.And(*conds)), f"xs:{t} range", lambda: [got, v])
    else:
        S.cover("non-literal")
        S.require(S.Not(got), f"xs:{t} accepts a non-integer literal")


def h_zeros(S, t, sign, digits):
    """any number of leading zeros"""
    s = S.rep("n", sign, "0", digits, 0 if digits else 1, 9000)
    lo, hi = INT_BOUNDS[t]
    v = int(sign + "0" + digits)
    got = verdict(t, s)
    S.cover("zeros")
    S.require(S.Iff(got, (lo is None or v >= lo) and (hi is None or v <= hi)), f"xs:{t} with leading zeros")


def h_digits(S, t, sign, k, n):
    """integers of thousands of digits"""
    s = sign + "7" * k + S.str("s", n, alpha=[(32, 126)])
    got = verdict(t, s)
    lo, hi = INT_BOUNDS[t]
    fits = lo is None if sign == "-" else hi is None
    S.cover("digits")
    S.require(S.Iff(got, S.And(fits, S.match("[0-9]*", s[len(sign) + k:]))), f"xs:{t} with thousands of digits")


def c_int(tier):
    out = [("h_digits", {"t": t, "sign": sign, "k": k, "n": n}) for t in INT_BOUNDS for sign in ("", "-", "+") for k, n in ((4299, 2), (4999, 1))]
    for t, (lo, hi) in INT_BOUNDS.items():
        for v in {0, 1, -1} | {b + d for b in (lo, hi) if b is not None for d in (-1, 0, 1)}:
            for sign in ("-",) if v < 0 else ("", "+"):
                out.append(("h_zeros", {"t": t, "sign": sign, "digits": str(abs(v))}))
        out.append(("h_zeros", {"t": t, "sign": "-", "digits": ""}))
    for t, (lo, hi) in INT_BOUNDS.items():
        m = max(len(str(x)) for x in (lo, hi) if x is not None) if (lo is not None or hi is not None) else 3
        top = (m + 3 if tier == "quick" else max(m + 5, 24))
        for n in range(0, top + 1):
            out.append(("h_int", {"t": t, "n": n}))
        # longer literals: leading zeros, numbers beyond machine words
        for n in (24, 33, 50) if tier == "quick" else (33, 50, 75, 130, 300):
            if n > top:
                out.append(("h_int", {"t": t, "n": n}))
    return out


# ---- types decided by a grammar --------------------------------------------------
TZ = r"(Z|[+-](0[0-9]|1[0-3]):[0-5][0-9]|[+-]14:00)?"
YEAR = r"-?([1-9][0-9]{4,}|[0-9]{4})"
TIME = r"(([01][0-9]|2[0-3]):[0-5][0-9]:[0-5][0-9](\.[0-9]+)?|24:00:00(\.0+)?)"
B64 = "[A-Za-z0-9+/]"
B64S = B64 + " ?"
UNSPACED = [(0x21, 0x10FFFF)]
HEXD = "[0-9A-Fa-f]"

# name -> (accepted language, strings on which the property takes no position)
GRAMMAR = {
    "boolean": (r"true|false|0|1", None),
    "decimal": (r"[+-]?([0-9]+(\.[0-9]+)?|\.[0-9]+)", r"[+-]?[0-9]+\."),
    "gYear": (YEAR + TZ, r"-?0000.*"),
    "gYearMonth": (YEAR + "-(0[1-9]|1[0-2])" + TZ, r"-?0000.*"),
    "gMonth": ("--(0[1-9]|1[0-2])" + TZ, None),
    "gDay": ("---(0[1-9]|[12][0-9]|3[01])" + TZ, None),
    "gMonthDay": ("--((0[13578]|1[02])-(0[1-9]|[12][0-9]|3[01])|(0[469]|11)-(0[1-9]|[12][0-9]|30)|02-(0[1-9]|[12][0-9]))" + TZ, None),
    "time": (TIME + TZ, None),
    "duration": (None, None),
    "hexBinary": (f"({HEXD}{HEXD})*", None),
    "base64Binary": (f"(({B64S}){{4}})*(({B64S}){{3}}{B64}|({B64S}){{2}}[AEIMQUYcgkosw048] ?=|{B64S}[AQgw] ?= ?=)|", None),
    "string": (None, None),
}


def in_language(S, t, s):
    if t == "duration":
        num = "[0-9]+"
        whole = S.match(rf"-?P({num}Y)?({num}M)?({num}D)?(T({num}H)?({num}M)?({num}(\.{num})?S)?)?", s)
        return S.And(whole, S.Not(S.match("-?P", s)), S.Not(S.match("(?s:.*)T", s)))
    if t == "string":
        return True
    return S.match(GRAMMAR[t][0], s)


def h_grammar(S, t, n, alpha=None):
    s = S.str("s", n, alpha=alpha)
    got = verdict(t, s)
    ok = in_language(S, t, s)
    dont = GRAMMAR[t][1]
    if dont is not None:
        S.assume(S.Not(S.match("(?s:%s)" % dont, s)))
    S.cover("accepted" if got else "rejected")
    S.require(S.Iff(got, ok), f"xs:{t}")


def h_run(S, t, pre, ch, post, lo=1):
    """literals with a run of one character of any length up to 9000"""
    s = S.rep("n", pre, ch, post, lo, 9000)
    for k in (30, 130, 1100, 4400):
        if len(s) <= k:
            break
    got = verdict(t, s)
    S.cover("run")
    S.require(S.Iff(got, in_language(S, t, s) if t != "anyURI" else S.match(iri_reference(), s)), f"xs:{t} with a run of characters")


RUNS = {"decimal": [("", "0", ".5"), ("1.", "3", ""), ("-", "9", ""), ("1", "0", "x"), ("", "0", ""), (".", "0", "1")], "boolean": [("", "1", ""), ("true", " ", ""), ("", "0", "1")],
        "duration": [("P", "0", "Y"), ("-P", "9", "D"), ("PT1.", "5", "S"), ("PT", "1", "H2M"), ("P1Y", "2", "M3DT4H"), ("P", "1", "")], "string": [("", "x", ""), ("", "\n", "")],
        "gYear": [("", "9", "Z"), ("-1", "0", ""), ("", "1", "-14:00"), ("0", "1", "")], "gYearMonth": [("", "9", "-12"), ("-1", "0", "-01Z"), ("", "1", "-13")],
        "time": [("12:00:00.", "0", ""), ("24:00:00.", "0", "Z"), ("24:00:00.", "0", "1"), ("23:59:59.", "9", "+14:00"), ("12:00:0", "0", "")],
        "gDay": [("---", "1", ""), ("---0", "1", "Z")], "gMonth": [("--", "1", ""), ("--12", "Z", "")], "hexBinary": [("", "a", ""), ("", "0", ""), ("F0", "0", "0F"), ("0", "F", ""), ("", "0", "g"), ("00", "1", "1")],
        "anyURI": [("http://h/", "a", ""), ("//h:", "9", ""), ("http://h/?", "?", ""), ("a#", "/", ""), ("", "a", ":"), ("", "1", ":"), ("//", "@", "h"), ("urn:", "%", "41"), ("//1.2.3.", "4", "")]}


def c_runs(types):
    return [("h_run", {"t": t, "pre": a, "ch": b, "post": c}) for t in types for a, b, c in RUNS[t]]


def c_grammar(types, top):
    def f(tier):
        out = []
        for t in types:
            q, th = top[t]
            for n in range(0, (q if tier == "quick" else th) + 1):
                out.append(("h_grammar", {"t": t, "n": n}))
        return out
    return f


# ---- dates ---------------------------------------------------------------------
def days_ok(S, y, m, d):
    """day d exists in month m of year y (y != 0; year -n is astronomical year 1-n)"""
    a = S.If(y < 0, -y - 1, y)
    leap = S.And(a % 4 == 0, S.Or(a % 100 != 0, a % 400 == 0))
    return S.And(d >= 1, S.Or(
        S.And(S.Or(m == 1, m == 3, m == 5, m == 7, m == 8, m == 10, m == 12), d <= 31),
        S.And(S.Or(m == 4, m == 6, m == 9, m == 11), d <= 30),
        S.And(m == 2, S.Or(d <= 28, S.And(d == 29, leap)))))


def h_date(S, t, n):
    """positions of the fields are fixed by the sign and the number of year digits"""
    s = S.str("s", n)
    if t == "dateTimeUtc":
        got = data_types.is_xs_date_time_utc(s)
    else:
        got = verdict(t, s)
    rest = {"date": TZ, "dateTime": "T" + TIME + TZ, "dateTimeUtc": "T" + TIME + r"(Z|[+-]00:00)"}[t]
    if not S.match(YEAR + r"-(0[1-9]|1[0-2])-[0-3][0-9]" + rest, s):
        S.cover("malformed")
        S.require(S.Not(got), f"xs:{t} accepts a malformed literal")
        return
    neg = 1 if s[0] == "-" else 0
    k = 4
    while s[neg + k] != "-":
        k += 1
    y = int(s[neg:neg + k])
    if neg:
        y = -y
    m = int(s[neg + k + 1:neg + k + 3])
    d = int(s[neg + k + 4:neg + k + 6])
    S.assume(y != 0)
    S.cover("well-formed")
    S.require(S.Iff(got, days_ok(S, y, m, d)), f"xs:{t} calendar")


def h_far_date(S, t, sign, k, n):
    """years of many digits"""
    tail = S.str("tail", n, alpha="0123456789")
    m, d = S.pick("month", ["02", "04", "12"]), "3" + S.str("d", 1, alpha="0123456789") if n < 4 else "29"
    s = sign + "1" * k + tail + "-" + m + "-" + d + {"date": "", "dateTime": "T23:59:59Z", "dateTimeUtc": "T00:00:00Z"}[t]
    got = data_types.is_xs_date_time_utc(s) if t == "dateTimeUtc" else verdict(t, s)
    # the calendar has a period of 400 years
    y = int("1" * 4 + tail)
    if n < 4:
        y = y + 10000 * 1111
    S.cover("far")
    S.require(S.Iff(got, days_ok(S, -y if sign else y, int(m), int(d))), f"xs:{t} with a year of many digits")


def c_date(tier):
    out = [("h_far_date", {"t": t, "sign": sign, "k": k, "n": n}) for t in ("date", "dateTime", "dateTimeUtc") for sign in ("", "-") for k, n in ((8, 4), (100, 4), (4000, 4), (5000, 4), (5000, 1))]
    for t, q, th in (("date", 22, 26), ("dateTime", 31, 40), ("dateTimeUtc", 31, 40)):
        for n in range(0, (q if tier == "quick" else th) + 1):
            out.append(("h_date", {"t": t, "n": n}))
    types = ["gYear", "gYearMonth", "gMonth", "gDay", "gMonthDay", "time"]
    out += c_grammar(types, {"gYear": (18, 24), "gYearMonth": (20, 26), "gMonth": (14, 18), "gDay": (14, 18), "gMonthDay": (16, 20), "time": (26, 40)})(tier)
    out += c_runs(["gYear", "gYearMonth", "gMonth", "gDay", "time"])
    return out


# ---- floats --------------------------------------------------------------------
FLT_MAX = 3.4028234663852886e38
FLT_OVER = 3.4028235677973366e38      # FLT_MAX + half an ulp: from here on a literal does not denote a finite xs:float
DBL_MAX = 1.7976931348623157e308


def h_float(S, t, n, alpha):
    s = S.str("s", n, alpha=alpha)
    got = verdict(t, s)
    if S.match(r"INF|-INF|NaN", s):
        S.cover("special")
        S.require(got, f"xs:{t} rejects a special value")
        return
    S.assume(S.Not(s == "+INF"))
    if not S.match(r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([Ee][+-]?[0-9]+)?", s):
        S.cover("non-literal")
        S.require(S.Not(got), f"xs:{t} accepts a non-literal")
        return
    v = float(s)
    S.cover("literal")
    if t == "double":
        S.require(S.Iff(got, S.And(v <= DBL_MAX, v >= -DBL_MAX)), "xs:double range")
    else:
        S.require(S.Implies(S.And(v <= FLT_MAX, v >= -FLT_MAX), got), "xs:float rejects a value in range")
        S.require(S.Implies(S.Or(v >= FLT_OVER, v <= -FLT_OVER), S.Not(got)), "xs:float accepts a value out of range")


FLOAT_RUNS = [("0e", "9", "", lambda t, n: True), ("-1e-", "9", "", lambda t, n: True), ("1e", "0", "1", lambda t, n: True), ("1.", "0", "", lambda t, n: True), ("-0.", "0", "1", lambda t, n: True),
              ("-", "0", "1", lambda t, n: True), ("1", "0", "", lambda t, n: n <= (38 if t == "float" else 308)), ("1e", "9", "", lambda t, n: n <= (1 if t == "float" else 2)),
              (".", "3", "e+1", lambda t, n: True), ("0.", "0", "1e5", lambda t, n: True), ("-1", "0", "e-5000", lambda t, n: True)]


def h_float_run(S, t):
    """floats with runs of one digit"""
    pre, ch, post, ok = FLOAT_RUNS[S.pick("form", list(range(len(FLOAT_RUNS))))]
    n = S.pick("n", [1, 2, 3, 4, 6, 7, 10, 18, 19, 37, 38, 39, 100, 307, 308, 309, 400, 1100, 4400])
    sign = S.pick("sign", ["", "+"]) if pre[0] != "-" else ""
    S.cover("float run")
    S.require(S.Iff(verdict(t, sign + pre + ch * n + post), ok(t, n)), f"xs:{t} with a run of digits", lambda: [sign, pre, ch, n, post])


def h_float_limit(S, t):
    """mantissa digits and exponent around the limits of the type"""
    sign = S.pick("sign", ["", "-", "+"])
    exp = S.choice("exp", ["37", "38", "39", "+38", "-45"] if t == "float" else ["307", "308", "309", "+308", "-324"])
    d = S.str("d", 1, alpha="0123456789")
    frac = S.str("frac", 3, 18, alpha="0123456789") if t else ""
    s = sign + d + "." + frac + S.pick("e", ["e", "E"]) + exp
    got = verdict(t, s)
    v = float(s)
    S.cover("limit")
    if t == "double":
        S.require(S.Iff(got, S.And(v <= DBL_MAX, v >= -DBL_MAX)), "xs:double range")
    else:
        S.require(S.Implies(S.And(v <= FLT_MAX, v >= -FLT_MAX), got), "xs:float rejects a value in range")
        S.require(S.Implies(S.Or(v >= FLT_OVER, v <= -FLT_OVER), S.Not(got)), "xs:float accepts a value out of range")


def c_num(tier):
    out = []
    types = ["decimal", "boolean", "duration", "string"]
    out += c_grammar(types, {"decimal": (12, 18), "boolean": (8, 12), "duration": (22, 34), "string": (3, 6)})(tier)
    out += [("h_grammar", {"t": t, "n": n}) for t, n in (("decimal", 30), ("decimal", 45), ("duration", 40), ("duration", 60))]
    out += c_runs(["decimal", "boolean", "duration", "string"])
    for t in ("float", "double"):
        for n in range(0, 6 if tier == "quick" else 9):
            out.append(("h_float", {"t": t, "n": n, "alpha": None}))
        for n in range(6 if tier == "quick" else 9, 9 if tier == "quick" else 12):
            out.append(("h_float", {"t": t, "n": n, "alpha": "0123456789+-.eE"}))
        out.append(("h_float_limit", {"t": t}))
        out.append(("h_float_run", {"t": t}))
    return out


# ---- anyURI --------------------------------------------------------------------
def iri_reference():
    """RFC 3987 section 2.2, transcribed rule by rule"""
    ucs = "\\u00A0-\\uD7FF\\uF900-\\uFDCF\\uFDF0-\\uFFEF" + "".join(f"\\U{p:04X}0000-\\U{p:04X}FFFD" for p in range(1, 14)) + "\\U000E1000-\\U000EFFFD"
    unres = "a-zA-Z0-9._~\\-"
    subd = "!$&'()*+,;="
    pct = "%[0-9A-Fa-f]{2}"
    pchar = f"(?:[{unres}{ucs}{subd}:@]|{pct})"
    seg, seg_nz = f"{pchar}*", f"{pchar}+"
    seg_nz_nc = f"(?:[{unres}{ucs}{subd}@]|{pct})+"
    octet = "(?:25[0-5]|2[0-4][0-9]|1[0-9][0-9]|[1-9]?[0-9])"
    ipv4 = rf"{octet}(?:\.{octet}){{3}}"
    h16 = "[0-9A-Fa-f]{1,4}"
    ls32 = f"(?:{h16}:{h16}|{ipv4})"
    v6 = [f"(?:{h16}:){{6}}{ls32}", f"::(?:{h16}:){{5}}{ls32}"]
    for k, tail in enumerate([f"(?:{h16}:){{4}}{ls32}", f"(?:{h16}:){{3}}{ls32}", f"(?:{h16}:){{2}}{ls32}", f"{h16}:{ls32}", ls32, h16, ""]):
        v6.append(f"(?:(?:{h16}:){{0,{k}}}{h16})?::{tail}")
    vf = f"[vV][0-9A-Fa-f]+\\.[{unres}{subd}:]+"
    host = f"(?:\\[(?:{'|'.join(v6)}|{vf})\\]|(?:[{unres}{ucs}{subd}]|{pct})*)"
    auth = f"(?:(?:[{unres}{ucs}{subd}:]|{pct})*@)?{host}(?::[0-9]*)?"
    abempty = f"(?:/{seg})*"
    absolute = f"/(?:{seg_nz}(?:/{seg})*)?"
    query = "(?:\\?(?:" + pchar + "|[/?\\uE000-\\uF8FF\\U000F0000-\\U000FFFFD\\U00100000-\\U0010FFFD])*)?"
    frag = f"(?:#(?:{pchar}|[/?])*)?"
    hier = f"(?://{auth}{abempty}|{absolute}|{seg_nz}(?:/{seg})*|)"
    rel = f"(?://{auth}{abempty}|{absolute}|{seg_nz_nc}(?:/{seg})*|)"
    return f"(?:[a-zA-Z][a-zA-Z0-9+.\\-]*:{hier}|{rel}){query}{frag}"


def h_uri(S, n, pre, post):
    s = pre + S.str("s", n) + post
    got = verdict("anyURI", s)
    S.cover("accepted" if got else "rejected")
    S.require(S.Iff(got, S.match(iri_reference(), s)), "xs:anyURI")


def h_uri6(S, n):
    s = "//[" + S.str("s", n, alpha="0aF:.v12") + "]"
    got = verdict("anyURI", s)
    S.cover("accepted" if got else "rejected")
    S.require(S.Iff(got, S.match(iri_reference(), s)), "xs:anyURI")


def h_uri4(S, n, pre, post):
    """dotted quads as part of an IPv6 host and as a host"""
    s = pre + S.str("s", n, alpha="0123456789.") + post
    got = verdict("anyURI", s)
    S.cover("accepted" if got else "rejected")
    S.require(S.Iff(got, S.match(iri_reference(), s)), "xs:anyURI")


def c_bin(tier):
    out = c_grammar(["hexBinary", "base64Binary"], {"hexBinary": (16, 24), "base64Binary": (15, 20)})(tier)
    out += [("h_grammar", {"t": "hexBinary", "n": n}) for n in (40, 41, 80)]
    out += c_runs(["hexBinary", "anyURI"])
    out += [("h_uri", {"n": n, "pre": p, "post": x}) for n in (1, 2, 3) for p, x in (("//[", "1.a]"), ("//[v", ".a]"), ("//[vF.", "]:"), ("//[V1", "]/"), ("http://[", "1.~:]/p"))]
    out += [("h_grammar", {"t": "base64Binary", "n": n, "alpha": UNSPACED}) for n in (22, 39, 40, 41, 80)]
    for n in range(0, 7 if tier == "quick" else 11):
        out.append(("h_uri", {"n": n, "pre": "", "post": ""}))
    for pre, post in (("http://", ""), ("//", "/p"), ("urn:", "#f"), ("a?", ""), ("a://u@", ":80"), ("http://h:", "/"), ("//h/a%", ""), ("#", ""), ("a/b/../", "?q"), ("//[::1", "]")):
        for n in range(0, 5 if tier == "quick" else 8):
            out.append(("h_uri", {"n": n, "pre": pre, "post": post}))
    for n in (2, 5, 7, 10, 16, 21) if tier == "quick" else range(0, 40):
        out.append(("h_uri6", {"n": n}))
    out += [("h_uri4", {"n": n, "pre": p, "post": x}) for n in (range(7, 16) if tier == "quick" else range(0, 20)) for p, x in (("//[::", "]"), ("//[1:2:3:4:5:6:", "]:1"), ("//", ""))]
    return out


# ---- language tags, versions -----------------------------------------------------
GRANDFATHERED = ("en-GB-oed i-ami i-bnn i-default i-enochian i-hak i-klingon i-lux i-mingo i-navajo i-pwn i-tao i-tay i-tsu "
                 "sgn-BE-FR sgn-BE-NL sgn-CH-DE art-lojban cel-gaulish no-bok no-nyn zh-guoyu zh-hakka zh-min zh-min-nan zh-xiang").split()


def langtag():
    """RFC 5646 section 2.1"""
    a, an = "[A-Za-z]", "[A-Za-z0-9]"
    lang = f"(?:{a}{{2,3}}(?:-{a}{{3}}){{0,3}}|{a}{{4,8}})"
    variant = f"(?:{an}{{5,8}}|[0-9]{an}{{3}})"
    priv = f"[xX](?:-{an}{{1,8}})+"
    tag = f"{lang}(?:-{a}{{4}})?(?:-(?:{a}{{2}}|[0-9]{{3}}))?(?:-{variant})*(?:-[0-9A-WYZa-wyz](?:-{an}{{2,8}})+)*(?:-{priv})?"
    return f"(?:{tag}|{priv}|{'|'.join(GRANDFATHERED)})"


def h_lang(S, n, pre=""):
    s = pre + S.str("s", n)
    got = data_types.is_bcp_lang_string(s)
    # registered tags are compared case-insensitively by the RFC; other spellings than the registered one are left open
    if n + len(pre) in (5, 6, 7, 8, 9, 10):
        S.assume(S.Not(S.And(S.match("(?i:%s)" % "|".join(GRANDFATHERED), s), S.Not(S.match("|".join(GRANDFATHERED), s)))))
    S.cover("accepted" if got else "rejected")
    S.require(S.Iff(got, S.match(langtag(), s)), "language tag")


def h_english(S, n):
    s = S.str("s", n)
    got = data_types.is_bcp_47_for_english(s)
    S.assume(S.match(langtag(), s))
    S.assume(S.Not(S.match("(En|eN)(-.*)?", s)))
    S.cover("accepted" if got else "rejected")
    S.require(S.Iff(got, S.match("(en|EN)(-.*)?", s)), "english language tag")


def h_version(S, n):
    s = S.str("s", n)
    got = data_types.is_version_string(s)
    S.cover("accepted" if got else "rejected")
    S.require(S.Iff(got, S.match("0|[1-9][0-9]*", s)), "version")


def c_lang(tier):
    q = tier == "quick"
    out = [("h_lang", {"n": n}) for n in list(range(0, 14 if q else 24)) + ([18, 25, 40] if q else [30, 40, 60, 90])]
    out += [("h_lang", {"n": n, "pre": p}) for p in ("de-Latn-DE-", "en-a-bb-", "x-", "zh-min-", "sl-rozaj-biske-1994-", "de-x-", "zh-cmn-Hans-CN-", "i-", "sgn-", "en-a-bbb-x-a-b-", "abcdefgh-") for n in range(0, 10 if q else 14)]
    out += [("h_english", {"n": n}) for n in list(range(2, 9 if q else 13)) + [20, 40]]
    out += [("h_version", {"n": n}) for n in list(range(0, 13 if q else 20)) + [33, 70, 260]]
    return out


PROPS = {
    "C06": {"cases": c_int, "bounds": "every Unicode string of length 0..len(limit)+3 per type and of 24, 33 and 50 characters (thorough: up to 24, and up to 300); the limits with up to 9000 leading zeros; integers of 4300 to 5000 digits, up to two of them free", "assumptions": [],
            "must_cover": ["literal", "non-literal", "zeros", "digits"]},
    "C07": {"cases": c_date, "bounds": "every Unicode string up to 22 (date), 31 (dateTime), 14..26 (g*, time) characters; thorough 26/40/18..40; runs of one character up to 9000, dates with years of up to 5004 digits",
            "assumptions": ["year 0000 is left open (XSD 1.0 and 1.1 disagree)"],
            "must_cover": ["well-formed", "malformed", "accepted", "rejected", "far"]},
    "C08": {"cases": c_num, "bounds": "every Unicode string: decimal <= 12 (and of 30 and 45), boolean <= 8, duration <= 22 (and of 40 and 60), float/double <= 5 characters and <= 8 over '0-9+-.eE', plus d.ddd..e(limit) with up to 18 fraction digits; runs of one digit of the listed lengths in float and double, of up to 9000 in decimal and duration",
            "assumptions": ["'1.' as xs:decimal and '+INF' are left open", "xs:float literals between FLT_MAX and the overflow threshold are left open"],
            "must_cover": ["literal", "non-literal", "special", "limit", "float run", "accepted", "rejected"]},
    "C09": {"cases": c_bin, "bounds": "every Unicode string: hexBinary <= 16 (24), base64Binary <= 15 (20), also of 22 to 80 characters (base64 without blanks), anyURI <= 6 (10) characters and inside ten URI templates <= 4 (7); IPv6 hosts up to 21 (39) characters over '0aF:.v12'; dotted quads",
            "assumptions": [], "must_cover": ["accepted", "rejected"]},
    "C10": {"cases": c_lang, "bounds": "every Unicode string: language tags <= 13 characters (and <= 9 after eleven longer prefixes, and of 18, 25 and 40), versions <= 12 (and of 33, 70 and 260)",
            "assumptions": ["case variants of registered grandfathered tags and 'En'/'eN' are left open"], "must_cover": ["accepted", "rejected"]},
}
