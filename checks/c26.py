"""C26: the facts an issue states."""
import itertools
from copy import deepcopy
from datetime import datetime

from mc import facts
from mc import fixtures as fx
from mc import ref_http as rh
from mc import ref_patch as rpt
from mc import ref_schema as rs
from mc.engine import Space, expect, short
from mc.lib import TYPES, lib_attr, lib_schema
from mc.ref_schema import A, C, S
from mc.sizes import sizes
from src import request_validators as rv
from src.data.container import SCIMDataContainer
from src.data.path import PatchPath
from src.filter import Filter

PROPERTY = {
    "title": "Every issue states the facts of the very input",
    "statement": (
        "The facts in an issue's context are those of the input it was reported for: the type that was "
        "expected and the one that was given, the offending value itself, the allowed values, the positions "
        "of the items marked primary, the status demanded and the one given, the totals, limits and "
        "parameters compared, the missing header or extension, and - for filters, paths and attribute names - "
        "the operator, expression, name or literal exactly as written in the text, never an internal "
        "representation. This holds wherever the offending part is: in any operand, group or brackets, at any "
        "list position, below any operation. The message tells each of these facts, and the reports with and "
        "without message and context agree with each other."
    ),
    "quantifier": {
        "over": ["inputs"],
        "text": "all attribute types x values x places; all statuses; all totals, counts and indices up to a "
                "bound; all malformed comparisons x places in a filter; all token sequences up to a length",
    },
    "why_tests_cant": "The tests look at the code of an issue, at its context in a handful of cases.",
    "anchors": {
        "files": ["src/error.py", "src/filter.py", "src/request_validators.py", "src/data/attributes.py",
                  "src/data/type.py", "src/data/schemas.py"],
        "mechanism": [
            {"name": "ValidationError, ValidationIssues.to_dict", "where": "src/error.py"},
            {"name": "Filter._encode_placeholders", "where": "src/filter.py"},
        ],
        "observe_at": ["ValidationIssues.to_dict(msg=True, ctx=True)"],
    },
}

NOW = datetime(2011, 5, 13, 4, 42, 34)
VALUES = [None, "not it", 7, True, 2.5, [], ["x"], {"str": 5}, NOW, "", "https://a.com", "AQID", -1, 10 ** 400]
LIBS = {}


def lib_of(a):
    if a not in LIBS:
        LIBS[a] = lib_attr(a)
    return LIBS[a]


def to_lib(v):
    if isinstance(v, dict):
        return SCIMDataContainer(v)
    if isinstance(v, list):
        return [SCIMDataContainer(x) if isinstance(x, dict) else x for x in v]
    return v


def run_attribute(case, ctx):
    a, v = case
    for direction in ("parse", "dump"):
        _, found = rs.attribute(a, v, direction)
        want = [(loc, code, facts.of_attribute(a, v, direction, loc, code)) for loc, code in found]
        ctx.step()
        _, issues = getattr(lib_of(a), direction)(to_lib(deepcopy(v)))
        facts.check(issues, want, f"{a.name} {direction} {short(v, 300)}")
        ctx.outcome(tuple(sorted({c for _, c in found})))
    ctx.state((a, short(v)))


SUBS = (A("str"), A("num", "integer"), A("day", "dateTime"), A("url", "external"), A("bin", "binary"),
        A("dec", "decimal"), A("flag", "boolean"), A("kind", canon=("Work", "home"), strict=True),
        A("Case", ce=True, canon=("Work", "home"), strict=True), A("list", mv=True), A("nums", "integer", mv=True))
MARKED = C("marked", A("value"), A("primary", "boolean"), mv=True)


def attributes(n):
    for type_ in TYPES:
        for mv in (False, True):
            a = A("x", type_, mv=mv, subs=SUBS if type_ == "complex" else ())
            yield from ((a, v) for v in VALUES)
            for k in range(1, n + 1):
                yield from ((a, list(x)) for x in itertools.product(VALUES, repeat=k))
    for sub in SUBS:
        for mv in (False, True):
            a = C("x", *SUBS, mv=mv)
            for v in VALUES + [["x", 5], [1, "x"], [None]]:
                item = {sub.name: v}
                if not mv:
                    yield a, item
                    yield a, {sub.name.upper(): v, "str": 5}
                else:
                    for items in ([item], [{}, item], [item, {"num": "x"}], [{}, {}, item, item]):
                        yield a, items
    for canon in (("Work", "home"), ("one",), (), ("\u00c9", "a", "b", "c", "d")):
        for ce, mv, type_ in itertools.product((False, True), (False, True), ("string", "uri")):
            a = A("x", type_, mv=mv, ce=ce, canon=canon, strict=True)
            for v in ("Work", "work", "WORK", "hom", "", "\u00c9", "\u00e9", "{provided}", "%s", "'", '"', "{0}", 5):
                yield a, (["Work", v, "z", v] if mv else v)
    for canon in ((1, 2), (3,)):
        for mv in (False, True):
            a = A("x", "integer", mv=mv, canon=canon, strict=True)
            for v in (1, 2, 3, 4.0, -1, "1"):
                yield a, ([v, 9] if mv else v)
    for n_items in range(1, 13 if n > 1 else 9):
        for marks in itertools.product((True, False), repeat=n_items):
            if n_items < 7 or sum(marks) in (2, 3, n_items):
                yield MARKED, [{"primary": m} for m in marks]
    for i, j in itertools.combinations((0, 1, 7, 8, 9, 63, 64, 65, 127), 2):
        yield MARKED, [{"primary": k in (i, j), "value": "x"} for k in range(130)]


EXT = "urn:example:ext:2.0:T"
T = S(urn="urn:example:2.0:T", name="T", plural="Ts", attrs=rs.COMMON + tuple(
    A(f"{t}{'_mv' if mv else ''}", t, mv=mv) for t in ("string", "integer", "decimal", "boolean", "dateTime", "binary",
                                                       "external") for mv in (False, True)
) + (A("kind", canon=("a", "B"), strict=True), A("kinds", canon=("a", "B"), strict=True, mv=True),
     C("c", *SUBS), C("cs", *SUBS, A("primary", "boolean"), mv=True)),
    exts=((EXT, (A("string"), A("x", "integer"), A("xs", "dateTime", mv=True), C("xc", *SUBS),
                 C("xcs", *SUBS, A("primary", "boolean"), mv=True))),))
SCHEMA = lib_schema(T)
SPECIAL = {"cs": [[{"primary": True}, {}, {"primary": True}]], "xcs": [[{}, {"primary": True}, {"primary": True}]],
           "id": ["bulkId", "xbulkId:1"], "kind": ["A", "c"], "kinds": [["b", "c", "d"]]}


def places(s):
    """(ext, [(path of members, values)]) for every attribute and sub-attribute"""
    for ext, a in s.top():
        if a.name == "schemas":
            continue
        yield ext, (a.name,), VALUES + SPECIAL.get(a.name, [])
        for sub in a.subs:
            yield ext, (a.name, sub.name), VALUES[:9] + ["bad"]


def put(s, body, ext, path, value):
    if ext:
        body = body.setdefault(ext, {})
    if len(path) == 1:
        body[path[0]] = value
        return
    a = s.find(ext and next(u for u in s.known if u == ext), path[0])
    if a.mv:
        body[path[0]] = [{}, {path[1]: value}, {path[1]: value}]
    else:
        body[path[0]] = {path[1]: value}


def bodies(s, pairs):
    singles = [(ext, path, v) for ext, path, values in places(s) for v in values]
    base = {"schemas": list(s.known), **({"userName": "u"} if s is rs.USER else {}),
            **({"displayName": "g"} if s is rs.GROUP else {}), "id": "1"}
    for ext, path, v in singles:
        body = deepcopy(base)
        put(s, body, ext, path, v)
        yield s, body
    if pairs:
        some = [x for x in singles if x[2] in (7, "not it", "bad") and not isinstance(x[2], bool)]
        for x, y in itertools.combinations(some, 2):
            if x[:1] + x[1][:1] != y[:1] + y[1][:1]:
                body = deepcopy(base)
                put(s, body, *x)
                put(s, body, *y)
                yield s, body
    for v in (None, 5, "t", [], [{}], True, 1.5, NOW, {}):
        yield s, v
        for ext, _ in s.exts:
            yield s, {**base, ext: v}
    for n in range(4):
        for uris in itertools.product([*s.known, "urn:x", 5], repeat=n):
            for k in range(len(s.exts) + 1):
                yield s, {**base, "schemas": list(uris), **{u: {"string": "x"} for u, _ in s.exts[:k]}}
                yield s, {**base, "schemas": list(uris), **{u.upper(): {} for u, _ in s.exts[:k]}}
    for text in (s.name, s.name.lower(), "Other", "", "{provided}", "a'b", 5, None):
        yield s, {**base, "meta": {"resourceType": text}}


BUILT = {rs.USER.urn: fx.User(), rs.GROUP.urn: fx.Group(), T.urn: SCHEMA}


def extension_spelling(s, body, want):
    """The extension is named as in the data."""
    if not isinstance(body, dict):
        return want
    spelled = {k.lower(): k for k in body if isinstance(k, str)}
    return [(loc, code, {"extension": {f["extension"], spelled[f["extension"].lower()]}} if code == 29 else f)
            for loc, code, f in want]


def accept_spelling(want, issues):
    """Either spelling of an extension will do."""
    told = {e[2].get("extension") for e in facts.stated(issues) if e[1] == 29}
    return [(loc, code, {"extension": next(iter(f["extension"] & told), None)} if code == 29 else f)
            for loc, code, f in want]


def run_resource(case, ctx):
    s, body = case
    lib = BUILT[s.urn]
    what = short(body, 400)

    def judge(issues, found, direction, where):
        bodied = [(loc[1:], code) for loc, code in found if loc[:1] == ("body",)]
        want = facts.below(("body",), facts.of_schema(s, body, direction, bodied))
        for loc, code in found:
            if loc[:1] != ("body",):
                want.append((loc, code, {"header": "Location"} if code == 10 else {"value": "'meta.location'"}))
        want = [(loc, code, {"value": "'Location' header"} if code == 11 and loc[0] == "body" else f)
                for loc, code, f in want]
        want = accept_spelling(extension_spelling(s, body, want), issues)
        facts.check(issues, want, f"{where} {what}")
        ctx.outcome(tuple(sorted({c for _, c in found})))

    for endpoint, judge_request in ((rv.ResourcesPOST, rh.post_request), (rv.ResourceObjectPUT, rh.put_request)):
        ctx.step()
        _, issues = endpoint(fx.CONFIG, resource_schema=lib).parse_request(body=deepcopy(body))
        judge(issues, judge_request(s, body)[1], "parse", endpoint.__name__)
    for endpoint, method, status in ((rv.ResourceObjectGET, "GET", 200), (rv.ResourcesPOST, "POST", 201)):
        for headers in (None, {"Location": "https://a/b"}):
            ctx.step()
            _, issues = endpoint(fx.CONFIG, resource_schema=lib).dump_response(
                status_code=status, body=deepcopy(body), headers=headers)
            judge(issues, rh.resource_response(s, method, status, body, headers)[1], "dump", endpoint.__name__)
    ctx.state(what)


# ---------------------------------------------------------------- statuses


def run_status(status, ctx):
    user = {"schemas": [fx.USER], "id": "1", "userName": "u", "meta": {"location": "https://a/1"}}
    headers = {"Location": "https://a/1"}
    lib = BUILT[rs.USER.urn]
    listed = {"schemas": [fx.LIST], "totalResults": 0, "Resources": []}
    calls = [
        (rv.ResourceObjectGET(fx.CONFIG, resource_schema=lib), 200, user),
        (rv.ResourcesPOST(fx.CONFIG, resource_schema=lib), 201, user),
        (rv.ResourceObjectPUT(fx.CONFIG, resource_schema=lib), 200, user),
        (rv.ResourceObjectPATCH(fx.CONFIG, resource_schema=lib), 200, user),
        (rv.ResourceObjectDELETE(fx.CONFIG), 204, None),
        (rv.ResourcesGET(fx.CONFIG, resource_schema=lib), 200, listed),
        (rv.ServerRootResourceGET(fx.CONFIG, resource_schemas=[lib]), 200, listed),
        (rv.SearchRequestPOST(fx.CONFIG, resource_schemas=[lib]), 200, listed),
        (rv.BulkOperations(fx.CONFIG, resource_schemas=[lib]), 200, {"schemas": [fx.BULK_RES], "Operations": [
            {"method": "DELETE", "status": "204", "location": "https://a/Users/1"}]}),
    ]
    for endpoint, demanded, body in calls:
        if isinstance(endpoint, rv.ResourceObjectPATCH) and status == 204:
            continue
        kw = {} if body is None else {"body": deepcopy(body)}
        ctx.step()
        _, issues = endpoint.dump_response(status_code=status, headers=dict(headers), **kw)
        want = [(("status",), 16, {"expected": demanded, "provided": status})] if status != demanded else []
        facts.check(issues, want, f"{type(endpoint).__name__} status {status}")
    error = rv.Error()
    for told in (str(status), str(status + 1), f"0{status}", "299", "400", "600", "x", "'"):
        ctx.step()
        _, issues = error.dump_response(status_code=status, body={"schemas": [fx.ERROR], "status": told}, headers=None)
        want = [(("status",), 12, {"provided": status})] if not 300 <= status < 600 else []
        if told != str(status):
            both = {"response_status": str(status), "body_status": told}
            want += [(("status",), 13, both), (("body", "status"), 13, both)]
        facts.check(issues, want, f"error {status} {told!r}")
    ctx.state(status)


# ---------------------------------------------------------------- lists


def lists(n):
    for n_resources in range(n + 1):
        for total in range(n + 2):
            for per_page in [None, *range(n + 2)]:
                for count in [None, 0, *range(1, n + 2)]:
                    for start, asked in ((None, 1), (1, 1), (2, 1), (5, 3), (3, 5)):
                        yield n_resources, total, per_page, count, start, asked


def run_list(case, ctx):
    n, total, per_page, count, start, asked = case
    user = {"schemas": [fx.USER], "id": "1", "userName": "u"}
    body = {"schemas": [fx.LIST], "totalResults": total, "Resources": [dict(user) for _ in range(n)]}
    if per_page is not None:
        body["itemsPerPage"] = per_page
    if start is not None:
        body["startIndex"] = start
    _, found = rh.list_response([rs.USER], 200, body, start_index=asked, count=count)
    want = []
    for loc, code in found:
        want.append((loc, code, {
            rh.TOTAL: {"total_results": total, "n_resources": n},
            rh.TOO_FEW: {"must": "be equal to 'totalResults'"},
            rh.TOO_MANY: {"must": "be lesser or equal to 'count' parameter"},
            rh.PARAMETER: {"response_key": "startIndex", "response_value": start, "query_param_name": "startIndex",
                           "query_param_value": asked, "reason": "bigger value than requested"},
            rh.EQUAL: {"value": "number of resources" if loc == ("body", "itemsPerPage") else "itemsPerPage"},
        }.get(code, {})))
    lib = BUILT[rs.USER.urn]
    for endpoint in (rv.ResourcesGET(fx.CONFIG, resource_schema=lib),
                     rv.ServerRootResourceGET(fx.CONFIG, resource_schemas=[lib])):
        ctx.step()
        _, issues = endpoint.dump_response(status_code=200, body=deepcopy(body), start_index=asked, count=count)
        facts.check(issues, want, f"{type(endpoint).__name__} {case}")
    ctx.state(case)
    ctx.outcome(tuple(sorted({c for _, c in found})))


# ---------------------------------------------------------------- queries

NAMES = ["a b", "a.b.c", "", "bad^", "{attribute}", "a'b", 'a"b', "a[b pr]", ".a", "a.", "\u00e9!"]
GOOD_NAMES = ["userName", "name.familyName", "urn:a:b:c"]


def queries():
    for n in range(1, 4):
        for refs in itertools.product(NAMES[:4] + GOOD_NAMES[:2] if n == 3 else NAMES + GOOD_NAMES, repeat=n):
            yield "attributes", list(refs)
            yield "excludeAttributes", list(refs)
    for by in NAMES + [5, True, [], {}, 1.5, ["a"]]:
        yield "sortBy", by
    for v in ("x", "", [], {}, "1.5", ["1"]):
        yield "count", v
        yield "startIndex", v
    for f in (5, True, [], {}, 1.5):
        yield "filter", f
    yield "both", None
    for v in ([], 5, "t", True, 1.5, (), 0, "", False):
        yield "query", v


def run_query(case, ctx):
    name, v = case
    get = rv.ResourcesGET(fx.CONFIG, resource_schema=BUILT[rs.USER.urn])
    root = rv.ServerRootResourceGET(fx.CONFIG, resource_schemas=[BUILT[rs.USER.urn]])
    search = rv.SearchRequestPOST(fx.CONFIG, resource_schemas=[BUILT[rs.USER.urn]])
    what = f"{name} {v!r}"
    if name == "query":
        for endpoint in (get, root):
            ctx.step()
            _, issues = endpoint.parse_request(query_string=v)
            facts.check(issues, [(("query_string",), 2, {"expected": "dict", "provided": type(v).__name__})], what)
        return
    told = "sortby" if name == "sortBy" else name
    if name == "both":
        query = {"attributes": ["userName"], "excludeAttributes": ["name"]}
        want = [(("attributes",), 30, {"other": "excludeAttributes"}),
                (("excludeAttributes",), 30, {"other": "attributes"})]
    else:
        query = {name: v}
        if name in ("attributes", "excludeAttributes"):
            want = [((name, i), 111, {"attribute": r}) for i, r in enumerate(v) if r not in GOOD_NAMES]
        elif name in ("count", "startIndex"):
            want = [((name,), 2, {"expected": "integer", "provided": facts.kind(v)})]
            if isinstance(v, (dict, list)):
                want = [((name,), 2, {"expected": "integer",
                                      "provided": facts.kind(v) if isinstance(v, list) else None})]
        elif isinstance(v, str):
            want = [((told,), 111, {"attribute": v})]
        else:
            want = [((told,), 2, {"expected": "string", "provided": facts.kind(v)})]
    # the kind of objects is told by the containers they have become
    for endpoint in (get, root):
        ctx.step()
        _, issues = endpoint.parse_request(query_string=deepcopy(query))
        got = facts.stated(issues)
        for loc, code, context, message in got:
            facts.check_message(code, context, message, what)
        wanted = [(loc, code, None if isinstance(v, dict) else f) for loc, code, f in want]
        check_params(issues, wanted, name, what)
    if name in ("attributes", "excludeAttributes", "both", "sortBy"):
        ctx.step()
        _, issues = search.parse_request(body={"schemas": [fx.SEARCH], **deepcopy(query)})
        wanted = [(("body",) + loc, code, f) for loc, code, f in want]
        check_params(issues, wanted, name, "search " + what)
    ctx.state(what)


def check_params(issues, want, name, what):
    """Facts of the issues; their places are C20's."""
    got = facts.stated(issues)
    for loc, code, context, message in got:
        facts.check_message(code, context, message, what)
    key = lambda code, f: (code, repr(sorted(f.items())))
    if any(f is None for _, _, f in want):
        expect(sorted(g[1] for g in got) == sorted(w[1] for w in want), "%s: %s", what, short(got))
        return
    expect(sorted(key(g[1], g[2]) for g in got) == sorted(key(w[1], w[2]) for w in want),
           "%s: stated %s, want %s", what, short(got), short(want))


# ---------------------------------------------------------------- filters

WRONG = [
    # (comparison, code, facts); the texts are told as written
    ("a xx 1", 105, {"operator_type": "binary", "operator": "xx", "expression": "a xx 1"}),
    ("a XX 1", 105, {"operator_type": "binary", "operator": "XX", "expression": "a XX 1"}),
    ('a xx "and or"', 105, {"operator_type": "binary", "operator": "xx", "expression": 'a xx "and or"'}),
    ('a xx "(b)"', 105, {"operator_type": "binary", "operator": "xx", "expression": 'a xx "(b)"'}),
    ("a.b pp", 105, {"operator_type": "unary", "operator": "pp", "expression": "a.b pp"}),
    ("a eq", 104, {"operator": "eq", "expression": "a eq"}),
    ("a.b GT", 104, {"operator": "gt", "expression": "a.b GT"}),
    ("a^ pr", 111, {"attribute": "a^"}),
    ("a^ eq 1", 111, {"attribute": "a^"}),
    ('a.b.c eq "x"', 111, {"attribute": "a.b.c"}),
    ('"x" eq 1', 111, {"attribute": '"x"'}),
    ('"x y" pr', 111, {"attribute": '"x y"'}),
    ("a eq tru", 112, {"value": "tru"}),
    ("a eq 1x", 112, {"value": "1x"}),
    ('a eq "x"y', 112, {"value": '"x"y'}),
    ("a gt true", 113, {"value": True, "operator": "gt"}),
    ("a LE null", 113, {"value": None, "operator": "le"}),
    ("a co 5", 113, {"value": 5, "operator": "co"}),
    ("a sw 1.5", 113, {"value": 1.5, "operator": "sw"}),
    ("abc", 106, {"expression": "abc"}),
    ('"x y"', 106, {"expression": '"x y"'}),
    ("urn:a:b:c", 106, {"expression": "urn:a:b:c"}),
]
RIGHT = ['b eq "x"', "c pr", '(d eq "(y)")', 'e[f eq "]" and g pr]', 'not (h eq "and")', 'i eq "tru" and j pr']


def filters():
    frames = ["{0}", " {0} ", "({0})", "( {0} )", "(({0}))", "not ({0})", "not {0}", "z[{0}]", "z[({0}) and y pr]",
              "z[y pr or {0}]"]
    for right in RIGHT:
        for link in (" and ", " or "):
            frames += ["{0}" + link + right, right + link + "{0}", f"({right}{link}{{0}})",
                       f"{right}{link}({{0}}){link}{right}", f"{right} or {{0}} and {right}"]
    for frame in frames:
        for wrong in WRONG:
            yield frame, [wrong]
    for one, other in itertools.product(WRONG, repeat=2):
        for frame in ("{0} and {1}", "{0} or {1}", "({0}) and ({1})", "({0} and {1})", "({0}) or c pr and {1}",
                      'z[c eq "q"] and {0} or {1}'):
            yield frame, [one, other]


def run_filter(case, ctx):
    frame, wrongs = case
    text = frame.format(*(w[0] for w in wrongs))
    if "z[" in frame and any("[" in w[0] for w in wrongs):
        return
    ctx.step()
    parsed, issues = Filter.parse(text)
    want = [((), code, f) for _, code, f in wrongs]
    facts.check(issues, want, f"filter {text!r}")
    ctx.state(text)


TOKENS = ['a', 'eq', '"x y"', 'and', 'or', 'not', '(', ')', '[', ']', 'a.b', 'pr', 'xx', '1', '"(z)"', "'q'"]
DEEP = ['a', 'eq', '"("', 'and', '(', ')', 'b[', ']', 'xx', 'not']
BARE = ("operator", "expression", "attribute", "attr", "sub_attr")


def sequences(n, deep):
    for k in range(1, n + 1):
        yield from itertools.product(TOKENS, repeat=k)
    for k in range(n + 1, deep + 1):
        yield from itertools.product(DEEP, repeat=k)


def squeezed(text):
    return "".join(text.split()).lower()


def run_sequence(tokens, ctx):
    for text in {" ".join(tokens), "".join(tokens)}:
        for parse, what in ((Filter.parse, "filter"), (PatchPath.parse, "path")):
            ctx.step()
            parsed, issues = parse(text)
            for loc, code, context, message in facts.stated(issues):
                facts.check_message(code, context, message, f"{what} {text!r}")
                for name in BARE + (("value",) if code == 112 else ()):
                    if name in context:
                        expect(isinstance(context[name], str) and squeezed(context[name]) in squeezed(text),
                               "%s %r: issue %d states the %s %r, which is not in the text", what, text, code, name,
                               context[name])
    ctx.state(tokens)


MARKS = "'!#$%&*+,-./:;<=>?@^`{|}~\u00e9\u0130\u00df\\_0Z"


def long_facts(limit):
    """-> (what to do, facts): texts of all lengths next to boundaries, marks at both ends and in between"""
    texts = [c * n for n in sizes(limit, 1) for c in ("x", "\u00e9", "{}", "%s")]
    texts += [t for c in MARKS for t in (c + "x", "x" + c, "x" + c + "y", c + "x" + c)]
    texts += [str(n) + "x" for n in (1, 12, 255, 4096)] + ["true" * 9, "nulll", "TRUE", "Null", "falsE"]
    for t in texts:
        yield "url", t
        yield "canonical", t
        yield "canonical in list", t
        yield "type", t
        yield "status", t
        yield "selection", t
        yield "sort", t
        yield "literal", t
        yield "operator", t
        yield "name", t


def run_long(case, ctx):
    kind, t = case
    what = f"{kind} {short(t, 100)}"
    ctx.step()
    if kind == "url":
        _, issues = lib_of(A("x", "external")).parse(t)
        want = [((), 8, {"value": t})]
    elif kind.startswith("canonical"):
        mv = kind.endswith("list")
        a = A("x", ce=True, mv=mv, canon=("one", "two" * 20), strict=True)
        _, issues = lib_of(a).dump(["one", t] if mv else t)
        want = [((1,) if mv else (), 14, {"expected_values": list(a.canon), "provided": t})]
    elif kind == "type":
        body = {"schemas": [fx.GROUP], "id": "1", "displayName": "g", "meta": {"resourceType": t}}
        _, issues = rv.ResourceObjectGET(fx.CONFIG, resource_schema=BUILT[rs.GROUP.urn]).dump_response(
            status_code=200, body=body)
        want = [(("body", "meta", "resourceType"), 17, {"resource_type": "Group", "provided": t})]
    elif kind == "status":
        _, issues = rv.Error().dump_response(status_code=400, body={"schemas": [fx.ERROR], "status": t})
        both = {"response_status": "400", "body_status": t}
        want = [(("status",), 13, both), (("body", "status"), 13, both)]
    elif kind in ("selection", "sort"):
        t = t + "!"
        query = {"sortBy": t} if kind == "sort" else {"attributes": ["userName", t]}
        _, issues = rv.ResourcesGET(fx.CONFIG, resource_schema=BUILT[rs.GROUP.urn]).parse_request(query_string=query)
        check_params(issues, [((), 111, {"attribute": t})], "", what)
        return
    else:
        if any(c in t for c in "'\"") and kind != "literal":
            return
        text, f, code = {
            "literal": (f"a pr and b eq {t}", {"value": t}, 112),
            "operator": (f"a pr or b {t} 1 and c pr", {"operator_type": "binary", "operator": t,
                                                       "expression": f"b {t} 1"}, 105),
            "name": (f"a pr and !{t} eq 1", {"attribute": f"!{t}"}, 111),
        }[kind]
        if kind == "literal" and t.count("'") > 1:
            return
        _, issues = Filter.parse(text)
        want = [((), code, f)]
    facts.check(issues, want, what)
    ctx.state(what)


OPERATORS = ["and", "or"]


def dangling():
    """an operator without one of its operands -> what it is told to be next to"""
    for op, right in itertools.product(OPERATORS, RIGHT[:5]):
        yield f"{right} {op}", op, f"{right} {op}"
        yield f"{op} {right}", op, f"{op} {right}"
        yield f"({right} {op})", op, f"{right} {op}"
        yield f"({op} {right}) and c pr", op, f"{op} {right}"
        yield f"z pr and ({right} {op})", op, f"{right} {op}"
        yield op, op, op
        yield f"({op})", op, op
        if "[" not in right:
            yield f"z[{right} {op}]", op, f"{right} {op}"
            yield f"z[{op} {right}]", op, f"{op} {right}"
        yield "not", "not", "not"
        yield f"{right} {op} not", "not", "not"
        yield f"(not) {op} {right}", "not", "not"


def run_dangling(case, ctx):
    text, op, expression = case
    ctx.step()
    _, issues = Filter.parse(text)
    got = facts.stated(issues)
    for loc, code, context, message in got:
        facts.check_message(code, context, message, f"filter {text!r}")
    wanted = [g for g in got if g[1] == 104 and g[2]["operator"] == op
              and squeezed(g[2]["expression"]) == squeezed(expression)]
    expect(len(wanted) == 1, "filter %r: stated %s, want operator %r in %r", text, short(got), op, expression)
    ctx.state(text)


# ---------------------------------------------------------------- operations

PATCH_PATHS = [(path, ext, names) for ext, a in T.top() if a.name != "schemas" and a.mut != rs.RO
               for path, names in [((f"{ext}:" if ext else "") + a.name, (a.name,)),
                                   *((((f"{ext}:" if ext else "") + f"{a.name}.{s.name}"), (a.name, s.name))
                                     for s in a.subs if not a.mv)]]


def operations():
    for path, ext, names in PATCH_PATHS:
        for v in VALUES + SPECIAL.get(names[0], []):
            if v is not None:
                yield path, ext, names, v
    for ext, path, values in places(T):
        if T.find(ext, path[0]).mut != rs.RO:
            for v in values:
                body = {}
                put(T, body, ext, path, v)
                yield None, "", (), body
    for v in (5, "t", [], True, 1.5):
        yield None, "", (), v
    for v in (5, True, [], {}, 1.5):
        yield ("path", v), "", (), None
        yield ("op", v), "", (), None
    for v in ("", "bad", "{0}", "'", "Remove ", "addx"):
        yield ("op", v), "", (), None


def run_operation(case, ctx):
    path, ext, names, v = case
    if isinstance(path, tuple):
        member, given = path
        op = {"op": "add", "path": "string", "value": "x", member: given}
        if isinstance(given, str):
            found = [(("op",), 14, {"expected_values": ["add", "remove", "replace"], "provided": given})]
        else:
            found = [((member,), 2, {"expected": "string", "provided": facts.kind(given)})]
    else:
        op = {"op": "add", "value": v, **({"path": path} if path else {})}
        _, issues = rpt.patch_op(T, deepcopy(op))
        if any(code is None for _, code in issues):
            return
        found = []
        for loc, code in issues:
            if path is None:
                f = facts.of_schema(T, v, "parse", [(loc[1:], code)])[0][2]
            elif code in (rs.ABSENT, rpt.READ_ONLY, rpt.NO_TARGET):
                f = {}
            else:
                a = T.find(ext, names[0])
                a = a.sub(names[1]) if len(names) > 1 else a
                f = facts.of_attribute(a, v, "parse", loc[1:], code)
            found.append((loc, code, f))
    good = {"op": "replace", "path": "string", "value": "fine"}
    endpoint = rv.ResourceObjectPATCH(fx.CONFIG, resource_schema=SCHEMA)
    bulk = rv.BulkOperations(fx.CONFIG, resource_schemas=[SCHEMA])
    for i, ops in enumerate(([op], [good, op], [good, good, op, good])):
        at = min(i, 2)
        data = {"schemas": [fx.PATCH], "Operations": ops}
        want = facts.below(("body", "Operations", at), found)
        ctx.step()
        _, issues = endpoint.parse_request(body=deepcopy(data))
        what = f"operations {short(ops, 400)}"
        facts.check(issues, want, what)
        sent = {"schemas": [fx.BULK_REQ], "Operations": [{"method": "PATCH", "path": "/Ts/1", "data": data}] * (i + 1)}
        ctx.step()
        _, issues = bulk.parse_request(body=deepcopy(sent))
        want = [x for k in range(i + 1)
                for x in facts.below(("body", "Operations", k, "data"), [(loc[1:], c, f) for loc, c, f in want])]
        facts.check(issues, want, "bulk " + what)
    ctx.state(what)


def limits(n):
    for limit in range(n):
        for given in range(1, n + 2):
            yield limit, given


def run_limit(case, ctx):
    limit, given = case
    lib = BUILT[rs.USER.urn]
    bulk = rv.BulkOperations(fx.config(limit + 1), resource_schemas=[lib])
    ops = [{"method": "DELETE", "path": f"/Users/{i}"} for i in range(given + 1)]
    ctx.step()
    _, issues = bulk.parse_request(body={"schemas": [fx.BULK_REQ], "Operations": ops})
    want = [(("body", "Operations"), 37, {"max": limit + 1})] if given > limit else []
    facts.check(issues, want, f"{given + 1} operations, at most {limit + 1}")
    ops = [{"method": "DELETE", "location": f"https://a/Users/{i}", "status": "404",
            "response": {"schemas": [fx.ERROR], "status": "404"}} for i in range(given)]
    ops.insert(1, {"method": "DELETE", "location": "https://a/Users/1", "status": "204"})
    ctx.step()
    _, issues = bulk.dump_response(status_code=200, body={"schemas": [fx.BULK_RES], "Operations": ops},
                                   fail_on_errors=limit)
    want = [(("body", "Operations"), 38, {"max": limit})] if given > limit else []
    facts.check(issues, want, f"{given} failures, at most {limit}")
    ctx.state(case)


def results():
    for status, told in itertools.product((300, 404, 599), ("404", "405", "599", "600", "299", "x")):
        yield {"method": "GET", "location": "https://a/Users/1", "status": str(status),
               "response": {"schemas": [fx.ERROR], "status": told}}
    user = {"schemas": [fx.USER], "id": "1", "userName": "u",
            "meta": {"location": "https://a/Users/1", "version": "1", "resourceType": "User"}}
    for method, status in itertools.product(("GET", "PUT", "POST", "PATCH"), (200, 201, 202, 299)):
        for location in ("https://a/Users/1", "https://a/Users/2"):
            for version in ("1", "2", None):
                op = {"method": method, "location": location, "status": str(status), "response": user, "bulkId": "b"}
                yield {**op, **({"version": version} if version else {})}
    for text in ("Other", "user"):
        yield {"method": "GET", "location": "https://a/Users/1", "status": "200",
               "response": {**user, "meta": {"resourceType": text}}}
    for v in (5, "bad", "not it", []):
        yield {"method": "GET", "location": v, "status": "200", "response": user}
        yield {"method": v, "location": "https://a/Users/1", "status": "200", "response": user}


def run_result(op, ctx):
    bulk = rv.BulkOperations(fx.CONFIG, resource_schemas=[BUILT[rs.USER.urn]])
    what = short(op, 400)
    fine = {"method": "DELETE", "location": "https://a/Users/1", "status": "204"}
    seen = []
    for at, ops in ((0, [op]), (1, [fine, op]), (0, [op, fine])):
        ctx.step()
        _, issues = bulk.dump_response(status_code=200, body={"schemas": [fx.BULK_RES], "Operations": deepcopy(ops)})
        got = []
        for loc, code, f, message in facts.stated(issues):
            facts.check_message(code, f, message, what)
            expect(loc[:3] == ("body", "Operations", str(at)), "%s: issue at %s", what, loc)
            got.append((loc[3:], code, f))
        seen.append(got)
    expect(seen[0] == seen[1] == seen[2], "%s: stated differently next to other operations", what)
    status, response, location, method = op["status"], op["response"], op["location"], op["method"]
    meta = response.get("meta", {})
    for loc, code, f in seen[0]:
        if code == 16:
            want = {"expected": 201 if method == "POST" else 200, "provided": int(status)}
        elif code == 13:
            want = {"response_status": status, "body_status": response["status"]}
        elif code == 17:
            want = {"resource_type": "User", "provided": meta["resourceType"]}
        elif code == 8:
            want = {"value": location}
        elif code == 2:
            want = {"expected": "string", "provided": facts.kind(op[loc[0]])}
        elif code == 14:
            expect({x.lower() for x in f["expected_values"]} == {"get", "post", "put", "patch", "delete"},
                   "%s: states %s", what, f)
            want = {**f, "provided": method}
        elif code == 11:
            side = {("location",): "'response.meta.location'", ("version",): "'response.meta.version'",
                    ("response", "meta", "location"): "operation's location",
                    ("response", "meta", "version"): "operation's version"}
            want = {"value": side[loc]}
        else:
            continue
        expect(f == want, "%s: issue %d at %s states %s, want %s", what, code, loc, f, want)
    ctx.state(what)
    ctx.outcome(tuple(sorted({c for _, c, _ in seen[0]})))


def spaces(tier):
    thorough = tier == "thorough"
    n = 3 if thorough else 2
    return [
        Space("attributes", f"every type and arity x values and lists up to {n}; canonical values; marked items",
              lambda: attributes(n), run_attribute, block=64),
        Space("resources", "every attribute and sub-attribute x values, 'schemas', resource types; requests and "
              "responses of three schemas", lambda: itertools.chain(
                  bodies(T, thorough), bodies(rs.USER, False), bodies(rs.GROUP, thorough)), run_resource, block=16),
        Space("statuses", "status -1..999 at every endpoint; error bodies", lambda: range(-1, 1000), run_status,
              block=8),
        Space("lists", "resources, totals, counts, indices up to a bound", lambda: lists(5 if thorough else 3),
              run_list, block=16),
        Space("queries", "every malformed parameter; lists of up to 3 names", queries, run_query, block=16),
        Space("filters", "malformed comparisons x places in a filter; pairs of them", filters, run_filter, block=32),
        Space("texts", "token sequences: whatever is told is in the text",
              lambda: sequences(4, 6 if thorough else 5), run_sequence, block=256),
        Space("long", "facts of all lengths next to boundaries, with marks at both ends",
              lambda: long_facts(4097 if thorough else 1025), run_long, block=32),
        Space("dangling", "operators without operand", dangling, run_dangling, block=16),
        Space("operations", "modifications with malformed values, on their own, next to others and in bulk requests",
              operations, run_operation, block=8),
        Space("limits", "numbers of operations and failures around the limits", lambda: limits(9), run_limit),
        Space("results", "inconsistent results of bulk operations", results, run_result, block=4),
    ]
