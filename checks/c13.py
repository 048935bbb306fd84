"""C13: responses carrying one resource."""
import itertools
from copy import deepcopy

from mc import chars
from mc import fixtures as fx
from mc import ref_http as rh
from mc import ref_schema as rs
from mc.engine import Space, expect, short
from mc.lib import check_issues, check_value, lib_schema
from mc.near import near
from mc.ref_schema import A, C, R
from mc.sizes import places, sizes
from src import request_validators as rv
from src.attributes_presence import AttributePresenceChecker
from src.data.container import AttrRep

PROPERTY = {
    "title": "Single-resource responses are released exactly when conformant",
    "statement": (
        "For every read, create, replace, modify or delete response, a body is handed over exactly "
        "when there is no issue, and it is then the dumped declared data of the resource. An issue "
        "is reported exactly for: a status other than the one the operation demands; a missing "
        "Location header when creating; a Location header that differs from a present "
        "meta.location; a wrong meta.resourceType; attributes that must not be returned "
        "(never-returned ones always, others by the client's selection); missing required "
        "attributes; malformed values. Deleting demands 204 and an empty modify response (204) is "
        "refused only if the client asked for attributes."
    ),
    "quantifier": {
        "over": ["inputs", "configurations"],
        "text": "all combinations of operation x status x headers x meta x selection x body variants; "
                "every node of full User and Group responses removed or replaced",
    },
    "why_tests_cant": (
        "Each test fixes one combination; header, status, meta and selection checks interact and one "
        "skipped check leaks data (for instance a password) only in particular combinations."
    ),
    "anchors": {
        "files": ["src/request_validators.py", "src/attributes_presence.py", "src/data/schemas.py"],
        "mechanism": [
            {"name": "_dump_resource_output_body, ResourceObjectGET/PUT/PATCH/DELETE.dump_response, "
                     "ResourcesPOST.dump_response", "where": "src/request_validators.py"},
        ],
        "observe_at": ["dump_response"],
    },
}

MAIN, EXT = "urn:t:2.0:Res", "urn:t:2.0:ResExt"
T = rs.S(
    urn=MAIN, name="Res", plural="Ress",
    attrs=rs.COMMON + (
        A("need", req=True), A("secret", ret="never"), A("always", ret="always"),
        A("onreq", ret="request"), A("when", "dateTime"),
        C("one", A("x"), A("y", ret="never")),
        C("many", A("v", req=True), A("w", ret="never"), mv=True),
    ),
    exts=((EXT, (A("x"), A("xsecret", ret="never"))),),
)
SCHEMA = lib_schema(T)
LOC = "https://example.com/v2/Ress/1"
BASE = {"schemas": [MAIN, EXT], "id": "1", "need": "n", "always": "a", "when": fx.dt(),
        "one": {"x": "1"}, "many": [{"v": "1"}, {"v": "2"}], EXT: {"x": "1"}}
METAS = ["absent", None, {}, {"resourceType": "Res", "location": LOC}, {"location": LOC + "x"},
         {"resourceType": "res", "location": LOC}, {"resourceType": "Res", "location": 5},
         {"LOCATION": LOC, "version": "v"}, {"location": None}, 5]
HEADERS = [None, {}, {"Location": LOC}, {"Location": LOC.upper()}, {"Location": ""},
           {"Location": None}, {"Other": "x"}, "Location", ["Location"]]
STATUSES = [200, 201, 202, 204, 400, 404, 500]
SELECTIONS = [((), None), ((), True), ((), False), ((R("one"),), True), ((R("need"), R("meta", "location")), True),
              ((R("meta"),), False), ((R("many", "v"), R("x", "", EXT)), False)]
BODIES = [
    {}, {"secret": "s"}, {"one": {"x": "1", "y": "2"}}, {"many": [{"v": "1"}, {"w": "2"}]},
    {"need": None}, {EXT: {"xsecret": "s"}}, {"when": "2011-05-13"}, {"need": 5, "onreq": "r"},
    {"schemas": [MAIN]}, {"always": None, "unknown": 1},
]
CLASSES = {"GET": rv.ResourceObjectGET, "PUT": rv.ResourceObjectPUT, "POST": rv.ResourcesPOST,
           "PATCH": rv.ResourceObjectPATCH}


def conform(s, lib, method, status, body, headers, refs, include, ctx):
    checker = None
    if refs or include is not None:
        checker = AttributePresenceChecker([AttrRep(r.urn, r.attr, r.sub) for r in refs], include)
    want, want_issues = rh.resource_response(s, method, status, body, headers, refs, include)
    given = deepcopy(body)
    ctx.step()
    data, issues = CLASSES[method](fx.CONFIG, resource_schema=lib).dump_response(
        status_code=status, body=given, headers=deepcopy(headers), presence_checker=checker)
    what = f"{method} {status} {headers} {short(body, 700)}"
    check_issues(issues, want_issues, what)
    if want is None:
        expect(data.body is None, "%s: body in spite of issues", what)
    else:
        check_value(data.body, want, what)
    if isinstance(headers, dict) and headers:
        expect(data.headers == headers, "%s: headers changed to %r", what, data.headers)
    expect(given == body, "%s: the resource was modified", what)
    ctx.state((method, status, repr(headers), repr(body), refs, include))
    ctx.outcome((method, tuple(sorted({c for _, c in want_issues}))))


def make(meta, change):
    body = dict(deepcopy(BASE), **deepcopy(change))
    if meta != "absent":
        body["meta"] = deepcopy(meta)
    return body


def combos(deep):
    methods = list(CLASSES)
    full = itertools.product(methods, STATUSES, HEADERS, METAS, SELECTIONS if deep else SELECTIONS[:1],
                             BODIES if deep else BODIES[:1])
    yield from full
    if not deep:
        yield from itertools.product(methods, (200, 201, 204), HEADERS[2:3], METAS[:5], SELECTIONS, BODIES)
        yield from itertools.product(methods, (200, 201), HEADERS[:4], METAS[3:5], SELECTIONS, BODIES[:2])


def run(case, ctx):
    method, status, headers, meta, (refs, include), change = case
    conform(T, SCHEMA, method, status, make(meta, change), headers, refs, include, ctx)


DEEP = False


def run_chars(case, ctx):
    place, dev = case
    s, lib, x, parent = chars.build(place, dev)
    selections = chars.selections(case, DEEP)
    for i, value in enumerate(chars.values(place, x, parent, dump=True)):
        if chars.open_case(x, parent, value):
            continue
        for j, (refs, include) in enumerate(selections):
            method = list(CLASSES)[(i + j) % 4]
            conform(s, lib, method, 201 if method == "POST" else 200, chars.body(place, x, parent, value),
                    {"Location": "l"}, refs, include, ctx)


def texts():
    """locations, resource types and header names that are easily confused"""
    for base in (LOC, "https://example.com/v2/Ress/1/", "/Ress/1", "HTTPS://EXAMPLE.com:443/Ress/a%20b?x#y", "x"):
        for text in [base] + near(base):
            for method in CLASSES:
                yield method, {"location": base}, {"Location": text}
                yield method, {"location": text}, {"Location": base}
                yield method, {"location": text, "resourceType": "Res"}, {"Location": text, "X": "1"}
    for text in near("Res"):
        for method in CLASSES:
            yield method, {"location": LOC, "resourceType": text}, {"Location": LOC}
    for text in near("Location", case=False):
        for method in CLASSES:
            yield method, {"location": LOC}, {text: LOC}
            yield method, {"location": LOC}, {text: "other"}


def run_text(case, ctx):
    method, meta, headers = case
    conform(T, SCHEMA, method, 201 if method == "POST" else 200, make(meta, {}), headers, (), None, ctx)


def statuses():
    for status in range(100, 600):
        for method in CLASSES:
            for headers in HEADERS[:3:2]:
                yield method, status, headers, ({"location": LOC}, (), None)
                yield method, status, headers, ({"location": LOC + "x"}, (R("need"), R("meta")), True)


def run_status(case, ctx):
    method, status, headers, (meta, refs, include) = case
    conform(T, SCHEMA, method, status, make(meta, {}), headers, refs, include, ctx)


def large_cases(limit):
    for n in sizes(limit, 2):
        for p in places(n):
            for kind in ("items", "attributes", "extension", "subs"):
                yield kind, n, p


BIG = {}


def run_large(case, ctx):
    kind, n, p = case
    method = list(CLASSES)[(n + p) % 4]
    status, headers = 201 if method == "POST" else 200, {"Location": LOC}
    if kind == "items":
        for odd in ({"w": "s"}, {"v": "1", "w": "s"}, {"v": 5}, {}):
            items = [{"v": str(i)} for i in range(n)]
            items[p] = odd
            for refs, include in ((), None), ((R("many", "v"),), False):
                conform(T, SCHEMA, method, status, make({"location": LOC}, {"many": items}), headers, refs, include, ctx)
        return
    if case not in BIG:
        BIG.clear()
        attrs = tuple(
            (A(f"a{i}", ret="never"), A(f"a{i}", req=True), A(f"a{i}", ret="request"))[p % 3]
            if i in (p, n - 1) else A(f"a{i}", mv=i % 4 == 0) for i in range(n))
        if kind == "attributes":
            s = rs.S("urn:t:2.0:Big", rs.COMMON + attrs, "Big", "Bigs")
        elif kind == "extension":
            s = rs.S("urn:t:2.0:Big", rs.COMMON, "Big", "Bigs", (("urn:t:2.0:X", attrs),))
        else:
            s = rs.S("urn:t:2.0:Big", rs.COMMON + (C("c", *attrs, mv=True),), "Big", "Bigs")
        BIG[case] = s, lib_schema(s), attrs
    s, lib, attrs = BIG[case]
    full = {a.name: ["v"] if a.mv else "v" for a in attrs}
    for change in ({}, {f"a{p}": None}, {f"a{p}": 5}):
        values = {**full, **change}
        body = {"schemas": s.known, "id": "1", "meta": {"location": LOC}}
        body.update(values if kind == "attributes" else {"urn:t:2.0:X": values} if kind == "extension" else
                    {"c": [values, full]})
        for refs, include in ((), None), ((R("c", f"a{p}") if kind == "subs" else R(f"a{p}"),), p % 2 == 0):
            conform(s, lib, method, status, body, headers, refs, include, ctx)


def shapes():
    for method in CLASSES:
        for body in (None, {}, [], 5, "x", "", 0, False, True, [{}]):
            for status in (200, 201, 204):
                for headers in HEADERS[:3]:
                    yield method, status, headers, body


def run_shape(case, ctx):
    method, status, headers, body = case
    conform(T, SCHEMA, method, status, body, headers, (), None, ctx)


def deletes():
    return itertools.product([0, *range(100, 600)], HEADERS)


def run_delete(case, ctx):
    status, headers = case
    ctx.step()
    data, issues = rv.ResourceObjectDELETE(fx.CONFIG).dump_response(
        status_code=status, headers=headers)
    check_issues(issues, [] if status == 204 else [(("status",), 16)], f"DELETE {status}")
    expect(data.body is None and data.headers == headers, "DELETE %r: wrong response", case)
    ctx.state(repr(case))


BUILT = {"User": (rs.USER, fx.User(), fx.user_response()),
         "Group": (rs.GROUP, fx.Group(), fx.group_response())}


def built_in(edits):
    for name, (s, _, body) in BUILT.items():
        for path in fx.iter_paths(body):
            if path:
                for edit in edits:
                    yield name, path, edit, None, None
        for ext, a in s.top():
            for sub in [""] + [x.name for x in a.subs]:
                yield name, None, None, R(a.name, sub, ext), True
                yield name, None, None, R(a.name.lower(), sub, ext or s.urn.upper()), False
    yield "User", ("password",), "secret", None, None
    yield "User", ("password",), "", None, None
    yield "User", ("PassWord",), "secret", None, None
    yield "User", ("PASSWORD",), "secret", R("password"), True


def run_built_in(case, ctx):
    name, path, edit, ref, include = case
    s, lib, body = BUILT[name]
    if path is not None:
        body = fx.removed(body, path) if edit == "<remove>" else fx.replaced(body, path, edit)
    refs = (ref,) if ref else ()
    location = {"Location": BUILT[name][2]["meta"]["location"]}
    methods = ("GET",) if ref is None and path and path[0] not in ("meta", "id") else tuple(CLASSES)
    if path and path[0].lower() == "password":
        methods = tuple(CLASSES)
    for method in methods:
        conform(s, lib, method, 201 if method == "POST" else 200, body, location, refs, include, ctx)


def spaces(tier):
    global DEEP
    DEEP = deep = tier == "thorough"
    return [
        Space("operations", "all operations x statuses x headers x meta x selections x bodies",
              lambda: combos(deep), run, block=8),
        Space("characteristics", f"every definition with <= {3 if deep else 2} special characteristics at "
              "every place x values x selections", lambda: chars.definitions(3 if deep else 2), run_chars,
              block=8),
        Space("texts", "locations, resource types and header names next to the right ones", texts, run_text,
              block=16),
        Space("statuses", "all statuses 100..599 x operations", statuses, run_status, block=16),
        Space("large bodies", "numbers of items, attributes and sub-attributes next to boundaries, an odd one at every "
              "telling position", lambda: large_cases(257 if deep else 66), run_large, block=4),
        Space("bodies", "all kinds of bodies", shapes, run_shape),
        Space("deletes", "all statuses x headers", deletes, run_delete),
        Space("built-in schemas", "every node of full responses removed or replaced; every attribute "
              "selected or excluded",
              lambda: built_in(["<remove>", None, "", 5, [], {}] if deep else ["<remove>", 5, None]),
              run_built_in),
    ]
