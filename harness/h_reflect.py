"""Reflection of class definitions."""
import re
from dataclasses import dataclass, field, make_dataclass
from enum import Enum
from typing import ForwardRef, List, Optional, Union
from aas_test_engines import file
from aas_test_engines import reflect as R
from aas_test_engines.reflect import NonEmptyList, StringFormattedValue, abstract, reflect, reflect_function
from aas_test_engines.test_cases.v3_0.parse import parse_and_check_json
from harness import docs
from harness.common import check_tree


class Colour(Enum):
    RED = "red"
    GREEN = "green"


class Only(Enum):
    ONE = "one"


class Short(StringFormattedValue):
    min_length = 1
    max_length = 2


@dataclass
class Part:
    id: str
    note: Optional[str]


@dataclass
class Later:
    next: Optional["Later"]


SCOPE = {"Later": Later, "Part": Part}
# kind -> (annotation, kind of reflected type, item)
KINDS = {
    "str": (str, "StringType"), "bool": (bool, "BoolType"), "any": (any, "AnyType"), "enum": (Colour, "EnumType"), "single": (Only, "EnumType"), "format": (Short, "StringFormattedValueType"),
    "class": (Part, "ClassType"), "forward": (ForwardRef("Later"), "ClassType"),
    "list str": (List[str], "ListType"), "list class": (List[Part], "ListType"), "list forward": (List[ForwardRef("Later")], "ListType"),
    "some str": (NonEmptyList[str], "ListType"), "some class": (NonEmptyList[Part], "ListType"), "list format": (List[Short], "ListType"), "some enum": (NonEmptyList[Colour], "ListType"), "some forward": (NonEmptyList[ForwardRef("Later")], "ListType"), "list enum": (List[Colour], "ListType"),
    "int": (int, "NumberType"), "bytes": (bytes, "BytesType"),
}
CLS = {"class": Part, "forward": Later, "enum": Colour, "single": Only, "format": Short}
ITEM = {"str": "StringType", "class": "ClassType", "forward": "ClassType", "format": "StringFormattedValueType", "enum": "EnumType"}
NAMES = ["alpha", "beta_gamma", "c", "delta_d_x"]
CAMEL = {"alpha": "alpha", "beta_gamma": "betaGamma", "c": "c", "delta_d_x": "deltaDX"}


def is_kind(S, t, kind):
    S.require(isinstance(t, getattr(R, KINDS[kind][1])), "type of an attribute", lambda: [kind, type(t)])
    if kind in CLS:
        S.require(t.cls is CLS[kind], "class of an attribute", lambda: [kind, t.cls])
    if " " in kind:
        empty, item = kind.split(" ")
        S.require(t.allow_empty is (empty == "list"), "empty lists", lambda: [kind, t.allow_empty])
        S.require(isinstance(t.item_type, getattr(R, ITEM[item])), "type of list items", lambda: [kind, type(t.item_type)])
        if item in CLS:
            S.require(t.item_type.cls is CLS[item], "class of list items", lambda: [kind])


ODD_NAMES = ["_alpha", "beta_", "C", "__d"]


def definition(S, kinds, name="Foo", fixed_names=False, NAMES=NAMES):
    """a class with the given attributes, each required, optional, renamed or fixed; and what is expected of it"""
    spec, want, fixed = [], [], {}
    for i, k in enumerate(kinds):
        opt = S.pick("opt%d" % i, [False, True])
        how = S.pick("how%d" % i, ["plain", "force", "fixed"])
        ann = KINDS[k][0]
        if opt:
            ann = Optional[ann]
        meta = {}
        forced = None
        if how == "force":
            forced = meta["force_name"] = "x%d_Y" % i if fixed_names else S.str("force%d" % i, 2, alpha="abAB_")
        if how == "fixed":
            meta["exclude_as"] = fixed[NAMES[i]] = S.pick("fix%d" % i, [None, 42, False, "x"])
        else:
            want.append((NAMES[i], k, not opt, forced))
        spec.append((NAMES[i], ann, field(metadata=meta)))
    cls = make_dataclass(name, spec)
    cls.__module__ = "verif.model"
    return cls, want, fixed


def h_fields(S, kinds, odd=False):
    cls, want, fixed = definition(S, kinds, NAMES=ODD_NAMES if odd else NAMES)
    t, table = reflect(cls, SCOPE, {})
    S.cover("fields")
    S.require(isinstance(t, R.ClassType) and t.cls is cls, "a class is reflected")
    S.require([a.name for a in t.attrs] == [w[0] for w in want], "attributes", lambda: [[a.name for a in t.attrs], want])
    for a, (name, kind, required, forced) in zip(t.attrs, want):
        S.require(a.required is required, "required attribute", lambda: [name, kind, a.required])
        is_kind(S, a.type, kind)
    S.require(t.subclasses == [] and t.is_abstract() is False, "no subclasses")
    vals = {w[0]: S.str("v" + w[0], 1) for w in want}
    o = t.construct(dict(vals))
    S.require(type(o) is cls, "constructed object")
    for n, v in list(vals.items()) + list(fixed.items()):
        S.require(getattr(o, n) == v, "attribute of a constructed object", lambda: [n, getattr(o, n), v])
    # a fixed attribute cannot be given another value
    o = t.construct({**vals, **{n: "other" for n in fixed}})
    for n, v in list(vals.items()) + list(fixed.items()):
        S.require(getattr(o, n) == v, "fixed attribute of a constructed object", lambda: [n, getattr(o, n), v])
    S.require(table.lookup("Foo") is t, "a class is found by its name")
    for k, c in (("class", Part), ("forward", Later)):
        used = any(k in w[1].split(" ") for w in want)
        got, e = S.call(table.lookup, c.__name__)
        S.require(got is not None and got.cls is c if used else isinstance(e, ValueError), "classes of the attributes", lambda: [k, used, repr(e)])


GOOD = {"str": "x", "bool": True, "any": [1], "enum": "red", "single": "one", "format": "ab", "class": {"id": "i"}, "forward": {"next": {"next": {}}}, "list str": [], "list class": [{"id": "i"}, {"id": "j", "note": "n"}],
        "list forward": [{}], "some str": ["a"], "some class": [{"id": "i"}], "list format": ["a", "b"], "some enum": ["red", "green"], "some forward": [{}, {"next": {}}], "list enum": []}
BAD = {"str": [None, 1, {}], "bool": [None, "true", 1], "any": [], "enum": [None, "Red", "RED", 1], "single": [None, "ONE", "two"], "format": [None, "", "abc", 5], "class": [None, {}, {"id": 1}, {"id": "a", "x": 1}, "i"],
       "forward": [None, {"next": None}, {"next": {"next": 1}}, {"other": {}}], "list str": [None, [1], "a"], "list class": [None, [{}], [{"id": "i"}, {"note": "n"}]], "list forward": [None, [{"next": []}], {}],
       "some str": [None, [], [None]], "some class": [None, [], [{"id": "i"}, {}]], "list format": [None, ["ab", "abc"], [""]], "some enum": [None, [], ["red", "blue"]], "some forward": [None, [], [{"next": 1}]], "list enum": [None, ["blue"], "red"]}


def h_parse(S, kinds):
    """a document fits a class if and only if every attribute present fits, every required one is present and there is no other"""
    cls, want, fixed = definition(S, kinds, fixed_names=True)
    doc, good = {}, True
    keys = [CAMEL[name] if forced is None else forced for name, kind, required, forced in want]
    for key, (name, kind, required, forced) in zip(keys, want):
        state = S.pick("doc" + name, ["absent", "good"] + list(range(len(BAD[kind]))))
        if state == "absent":
            good = good and not required
        elif state == "good":
            doc[key] = GOOD[kind]
        else:
            doc[key] = BAD[kind][state]
            good = False
    extra = S.pick("extra", [None] + list(fixed) + [n for n, _, _, f in want if f is not None])
    if extra is not None and CAMEL[extra] not in doc and CAMEL[extra] not in keys:
        doc[CAMEL[extra]] = "x"
        good = False
    t, table = reflect(cls, SCOPE, {})
    ro, e = S.call(parse_and_check_json, t, doc)
    S.cover("fits" if good else "does not fit")
    S.require(e is None, "reading a document raises", lambda: [doc, repr(e)])
    r = ro[0]
    S.require(r.ok() is good, "verdict on a document for a class", lambda: [doc, want, r.to_dict()])
    check_tree(S, r)


def h_values(S, n):
    """values of formatted strings inside a class"""
    lo, hi = S.int("lo", 0, 4), S.int("hi", 0, 4)
    use = S.pick("use", ["both", "min", "max", "none"])

    class Limited(StringFormattedValue):
        pass
    if use in ("both", "min"):
        Limited.min_length = lo
    if use in ("both", "max"):
        Limited.max_length = hi
    Limited.pattern = S.pick("pattern", [None, r"[a-b]*c?", r"a|ab", r".*", r"a.", r"^a?.$", re.compile(r"[^a].?")])
    s = S.str("s", n, alpha=[(0, 0x10FFFF)])
    if n and S.chars_in(s, [(0x10000, 0x10FFFF)]):
        S.cover("astral")
    o, e = S.call(Limited, s)
    good = S.And(S.Or(use in ("max", "none"), S.len(s) >= lo), S.Or(use in ("min", "none"), S.len(s) <= hi),
                 S.chars_in(s, [(9, 10), (13, 13), (32, 0xD7FF), (0xE000, 0xFFFD), (0x10000, 0x10FFFF)]))
    if Limited.pattern is not None:
        good = S.And(good, S.match(getattr(Limited.pattern, "pattern", Limited.pattern), s))
    S.cover("accepted" if e is None else "rejected")
    S.require(e is None or isinstance(e, ValueError), "rejected with another exception", lambda: repr(e))
    S.require(S.Iff(e is None, good), "limits of a formatted string", lambda: [s, lo, hi, use, Limited.pattern, repr(e)])
    if e is None:
        S.require(o.raw_value == s, "raw value")


TREE = ["Animal", "Bird", "Cat", "Duck", "Eel"]


def h_subclasses(S, n, second, twins=False):
    """a class knows exactly its non-abstract descendants; being abstract is not inherited"""
    parents, flags, classes = [], [], []
    names = list(TREE[:n])
    if twins:
        for i in range(1, n):
            names[i] = S.pick("name%d" % i, [TREE[i], names[i - 1]])
    for i in range(n):
        p = None if i == 0 else S.pick("parent%d" % i, [None] + list(range(i)) if i > 1 else [0])
        q = None
        if second and i == n - 1 and p is not None:
            q = S.pick("second", [None] + [j for j in range(i) if j != p])
        ab = S.pick("abstract%d" % i, [False, True])
        bases = tuple(classes[x] for x in (p, q) if x is not None)
        try:
            c = make_dataclass(names[i], [("a%d" % i, str)], bases=bases)
        except TypeError:
            return        # no consistent method resolution order
        c.__module__ = "verif.tree%d" % i
        if ab:
            c = abstract(c)
        classes.append(c)
        parents.append({x for x in (p, q) if x is not None})
        flags.append(ab)

    def below(i, j):
        return i in parents[j] or any(below(i, k) for k in parents[j])
    root = S.pick("root", list(range(n)))
    t, table = reflect(classes[root])
    S.cover("subclasses")
    todo, seen = [(root, t)], set()
    while todo:
        i, x = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        S.require(x.cls is classes[i] and x.is_abstract() is flags[i], "abstract class", lambda: [i, flags])
        got = [y.cls for y in x.subclasses]
        want = [j for j in range(n) if below(i, j) and not flags[j]]
        S.require(all(isinstance(y, R.ClassType) for y in x.subclasses), "subclasses are reflected")
        S.require(set(got) == {classes[j] for j in want}, "subclasses", lambda: [i, parents, flags, got])
        if not second:
            S.require(len(got) == len(want), "a subclass occurs twice", lambda: [i, parents, got])
        fs = [a.name for a in x.attrs]
        S.require(set(fs) == {"a%d" % j for j in range(n) if j == i or below(j, i)}, "inherited attributes", lambda: [i, fs])
        for y in x.subclasses:
            todo.append((classes.index(y.cls), y))
    for j in range(n):
        found, e = S.call(table.lookup, names[j])
        if len([i for i in seen if names[i] == names[j]]) == 1:
            S.require(found is not None and found.cls is classes[[i for i in seen if names[i] == names[j]][0]], "a class of the tree is found", lambda: [j, repr(e)])
        else:
            S.require(isinstance(e, ValueError), "an unrelated class is part of the result, or an ambiguous name is found", lambda: [j, names, parents, flags])


def h_again(S, n):
    """what was reflected before does not matter: classes defined later count, and names mean what the caller says"""
    classes, parents, flags = [], [], []
    for i in range(n):
        p = None if i == 0 else S.pick("parent%d" % i, list(range(i)))
        ab = S.pick("abstract%d" % i, [False, True])
        c = make_dataclass("K%d" % i, [("a%d" % i, str)], bases=() if p is None else (classes[p],))
        c.__module__ = "verif.again"
        classes.append(abstract(c) if ab else c)
        parents.append(p)
        flags.append(ab)
        t, table = reflect(classes[0])
        want = {classes[j] for j in range(1, i + 1) if not flags[j]}
        S.require({x.cls for x in t.subclasses} == want and len(t.subclasses) == len(want), "classes defined after the first reflection", lambda: [parents, flags])
        for j in range(i + 1):
            r, e = S.call(table.lookup, "K%d" % j)
            S.require((e is None and r.cls is classes[j]) if j == 0 or not flags[j] else isinstance(e, ValueError), "lookup after classes were added", lambda: [j, parents, flags, repr(e)])
    one = make_dataclass("Target", [("x", str)])
    two = make_dataclass("Other", [("y", str)])
    user = make_dataclass("User", [("t", Optional[ForwardRef("Target")])])
    order = S.pick("order", [(one, two), (two, one), (one, one, two)])
    S.cover("again")
    for c in order:
        user = make_dataclass("User", [("t", Optional[ForwardRef("Target")])])
        t, _ = reflect(user, {"Target": c}, {})
        S.require(t.cls is user and t.attrs[0].type.cls is c, "names of an earlier reflection", lambda: [t.cls, t.attrs[0].type])


def named(name, mod, *fields, bases=()):
    c = make_dataclass(name, list(fields), bases=bases)
    c.__module__ = mod
    return c


def h_lookup(S, n, pre):
    """lookup finds a class by its full simple name"""
    name = pre + S.str("n", n, alpha=[(32, 45), (47, 126)])
    foo = named("Foo", "a.b")
    foobar = named("FooBar", "a.b")
    bar = named("Bar", "a.b", ("x", Short), ("y", Colour), ("z", List[foo]))
    twin = named("Bar", "a.c")
    top = named("Top", "a.b", ("f", foo), ("g", foobar), ("h", bar), ("i", Optional[twin]), ("j", str), ("k", NonEmptyList[Part]))
    t, table = reflect(top)
    got, e = S.call(table.lookup, name)
    single = {"Foo": foo, "FooBar": foobar, "Top": top, "Part": Part, "Short": Short}
    S.cover("lookup")
    hit = [k for k in single if name == k]
    if hit:
        S.cover("found")
        S.require(got is not None and got.cls is single[hit[0]], "class of a name", lambda: [name, repr(e)])
    else:
        S.require(isinstance(e, ValueError), "unknown or ambiguous name", lambda: [name, got, repr(e)])


MODEL = [c for c in sorted(set(docs.CLASSES) | set(docs.ABSTRACT)) if c not in ("LangDefinition", "LangName", "LangPreferred", "LangShort", "LangText")]


def h_model(S, n, pre, post):
    """model types of documents: exactly the classes of the metamodel"""
    name = pre + S.str("n", n, alpha=[(32, 45), (47, 126)]) + post
    r, e = S.call(file.check_json_data, 7, model_type=name)
    known = S.Or(*[name == c for c in MODEL])
    atoms = S.Or(*[name == c for c in ATOMS])
    S.cover("model type")
    S.require(S.Implies(known, e is None), "a class of the metamodel is unknown", lambda: [name, repr(e)])
    S.require(S.Implies(S.Not(S.Or(known, atoms)), isinstance(e, ValueError)), "unknown model type", lambda: [name, repr(e)])


# helper classes of the implementation, about which nothing is claimed
ATOMS = ["IdentifierString", "PreferredNameTypeIec61360", "ShortNameTypeIec61360", "NonEmptyString", "DefinitionTypeIec61360", "ValueTypeIec61360", "NameTypeString", "ValueDataType",
         "MultiLanguageNameType", "MultiLanguageTextType", "VersionString", "RevisionString", "LabelString", "PathString", "ContentType", "BlobString", "MessageTopicString", "DateTime", "Duration"]


def h_recursion(S):
    """classes that refer to each other"""
    shape = S.pick("shape", ["direct", "optional", "list", "some"])
    ann = {"direct": "B", "optional": Optional["B"], "list": List["B"], "some": NonEmptyList[ForwardRef("B")]}[shape]
    if shape == "direct":
        ann = ForwardRef("B")
    A = named("A", "v.r", ("b", ann))
    B = named("B", "v.r", ("a", Optional[A]), ("self", List["B"]))
    back = S.pick("back", [False, True])
    t, table = reflect(B if back else A, {"B": B}, {}) if S.pick("scope", [False, True]) else reflect(B if back else A, {}, {"B": B})
    S.cover("recursion")
    ta, tb = table.lookup("A"), table.lookup("B")
    S.require(t is (tb if back else ta), "reflected class")
    x = ta.attrs[0].type
    x = x.item_type if shape in ("list", "some") else x
    S.require(x is tb, "forward reference", lambda: [shape, x])
    S.require(tb.attrs[0].type is ta and tb.attrs[0].required is False, "reference back")
    S.require(tb.attrs[1].type.item_type is tb, "reference to itself")
    S.require(ta.attrs[0].required is (shape != "optional"), "required reference")
    r, e = S.call(reflect, A, {}, {})
    S.require(e is not None, "an unknown forward reference is accepted")


def h_reject(S):
    """definitions that cannot be described are rejected"""
    class Plain:
        pass
    ann = S.pick("ann", [float, dict, Plain, Union[str, int], Union[str, int, None], List[Plain], List[float], Optional[float], object])
    wrap = S.pick("wrap", [False, True])
    c = named("Odd", "v.o", ("x", ann), ("y", str))
    if wrap:
        c = named("Outer", "v.o", ("o", List[c]))
    t, e = S.call(reflect, c)
    S.cover("reject")
    S.require(e is not None, "an unsupported attribute is accepted", lambda: [ann])


def h_function(S, kinds, NAMES=NAMES):
    """arguments of a function: names, order, types, required; functions with the same arguments are equal"""
    args, want = {}, []
    for i, k in enumerate(kinds):
        opt = S.pick("opt%d" % i, [False, True])
        ann = KINDS[k][0]
        args[NAMES[i]] = Optional[ann] if opt else ann
        want.append((NAMES[i], k, not opt))
    ret = S.pick("ret", ["none", "str", "class", "missing"])
    pos = S.pick("pos", ["first", "last"])
    full = {}
    rv = {"none": None, "str": str, "class": Part, "missing": None}[ret]
    if ret != "missing" and pos == "first":
        full["return"] = rv
    full.update(args)
    if ret != "missing" and pos == "last":
        full["return"] = rv

    def fn(*a):
        pass

    def fn2(*a):
        pass
    fn.__annotations__ = full
    t = reflect_function(fn, SCOPE, {})
    S.cover("function")
    S.require([(a.name, a.required) for a in t.args] == [(n, r) for n, k, r in want], "arguments", lambda: [[(a.name, a.required) for a in t.args], want])
    for a, (n, k, r) in zip(t.args, want):
        if k != "class" and " " not in k:
            is_kind(S, a.type, k)
        else:
            S.require(isinstance(a.type, getattr(R, KINDS[k][1])), "type of an argument")
    S.require(isinstance(t.return_type, {"none": R.NoneType, "missing": R.NoneType, "str": R.StringType, "class": R.ClassType}[ret]), "return type")
    S.require(t.func is fn, "function")
    other = [(n, a) for n, a in args.items()]
    change = S.pick("change", ["no", "drop", "rename", "optional", "swap", "add"])
    if change == "drop" and other:
        other.pop()
    elif change == "rename" and other:
        other[-1] = ("zz", other[-1][1])
    elif change == "optional" and other:
        n, a = other[-1]
        other[-1] = (n, a if want[-1][2] is False else Optional[a])
        if want[-1][2] is False:
            other[-1] = (n, KINDS[kinds[-1]][0])
    elif change == "swap" and len(other) > 1:
        other[0], other[1] = other[1], other[0]
    elif change == "add":
        other.append(("zz", Optional[str]))
    same = other == list(args.items())
    fn2.__annotations__ = dict(other)
    t2 = reflect_function(fn2, SCOPE, {})
    S.require((t == t2) is same and (t2 == t) is same, "equality of functions", lambda: [change, list(args), [x[0] for x in other]])


def c33(tier):
    return c33_cases(tier) + [("h_again", {"n": n}) for n in ((2, 3, 4) if tier == "quick" else (2, 3, 4, 5))]


def c33_cases(tier):
    q = tier == "quick"
    ks = list(KINDS)
    out = [("h_fields", {"kinds": [k]}) for k in ks]
    out += [("h_fields", {"kinds": [a, b]}) for a, b in (zip(ks, ks[3:] + ks[:3]) if q else ((a, b) for a in ks for b in ks))]
    out.append(("h_fields", {"kinds": ["list class", "forward", "class"]}, {"weight": 5}))
    out += [("h_fields", {"kinds": p}) for p in (["list class", "some class"], ["some class", "list class"], ["list str", "some str"], ["some str", "list str"], ["str", "str"], ["class", "class"], ["list forward", "forward"])]
    out += [("h_fields", {"kinds": k, "odd": True}) for k in (["str"], ["class", "str"], ["list class", "some str"], ["str", "forward", "enum"])]
    ps = [k for k in ks if k in GOOD]
    out += [("h_parse", {"kinds": [k]}) for k in ps]
    out += [("h_parse", {"kinds": [a, b]}, {"weight": 3}) for a, b in (zip(ps[::2], ps[1::2]) if q else zip(ps, ps[5:] + ps[:5]))]
    out += [("h_values", {"n": n}) for n in range(0, 4 if q else 6)]
    out += [("h_subclasses", {"n": n, "second": False}, {"weight": n}) for n in ((1, 2, 3, 4) if q else (1, 2, 3, 4, 5))]
    out += [("h_subclasses", {"n": n, "second": False, "twins": True}, {"weight": n}) for n in ((2, 3) if q else (2, 3, 4))]
    out += [("h_subclasses", {"n": n, "second": True}, {"weight": n}) for n in ((3,) if q else (3, 4))]
    out += [("h_lookup", {"n": n, "pre": p}) for n in range(0, 8 if q else 10) for p in ("",)] + [("h_lookup", {"n": n, "pre": p}) for n in (1, 2) for p in ("Foo", "FooBa", "B", "b.")]
    names = MODEL
    out += [("h_model", {"n": n, "pre": "", "post": ""}) for n in range(0, 9 if q else 12)]
    for c in names:
        out.append(("h_model", {"n": 0, "pre": c, "post": ""}))
        out.append(("h_model", {"n": 1, "pre": c[:-1], "post": ""}))
        if not q:
            out += [("h_model", {"n": 2, "pre": c[:-1], "post": ""}), ("h_model", {"n": 1, "pre": "", "post": c}), ("h_model", {"n": 1, "pre": "", "post": c[1:]})]
    out += [("h_recursion", {}), ("h_reject", {})]
    fs = [k for k in ks if "forward" not in k]
    out += [("h_function", {"kinds": ["str", "enum", "str"], "NAMES": n}) for n in (["r", "turn", "n"], ["return_", "retur", "self"], ["Return", "_return", "e"])]
    out += [("h_function", {"kinds": k}) for k in ([[]] + [[x] for x in fs] + [[x, y] for x, y in zip(fs, fs[1:] + fs[:1])] + [["class", "str", "enum"]])]
    return out


PROPS = {
    "C33": {
        "cases": c33,
        "bounds": "classes with up to 3 attributes of every supported kind, each required, optional, renamed or fixed; class trees of up to 4 (thorough 5) classes with every choice of parents and abstract marks; names of up to 7 (9) characters and near-misses of every class name; limits 0..4 with strings of up to 3 (5) characters",
        "assumptions": ["class definitions are built with make_dataclass from symbolic choices; two classes with equal qualified names are outside the bound", "names contain no '.'"],
        "must_cover": ["again", "fields", "fits", "does not fit", "accepted", "rejected", "subclasses", "lookup", "found", "model type", "recursion", "reject", "function"],
    },
}
