"""C12: requests that create or replace a resource."""
import itertools
from copy import deepcopy

from mc import chars
from mc import fixtures as fx
from mc import ref_http as rh
from mc import ref_schema as rs
from mc.engine import Space, expect, short
from mc.lib import check_issues, check_value, lib_schema
from mc.ref_schema import A, C
from mc.sizes import places, sizes
from src import request_validators as rv

PROPERTY = {
    "title": "Create and replace requests are accepted exactly when valid",
    "statement": (
        "A create or replace request yields a parsed body exactly when it has no issue, and then "
        "the body holds exactly the declared data of the request; every missing required attribute "
        "or sub-attribute (at its list position), every malformed value and every 'schemas' problem "
        "is reported at its location, and nothing else is. Creating does not demand attributes the "
        "server issues; replacing drops every read-only attribute and sub-attribute, core or "
        "extension, single or in lists, from the body and keeps all others unchanged. Headers and "
        "query parameters are handed through."
    ),
    "quantifier": {
        "over": ["inputs", "configurations"],
        "text": "all bodies deviating in up to two (thorough: three) places from a full body, over a "
                "schema with every mutability, issuer and arity; every node of full User and Group "
                "bodies removed or replaced",
    },
    "why_tests_cant": (
        "Tests post a handful of bodies; which combination of mutability, issuer, requiredness, "
        "arity and extension is dropped, demanded or kept is not enumerated."
    ),
    "anchors": {
        "files": ["src/request_validators.py", "src/attributes_presence.py", "src/data/schemas.py"],
        "mechanism": [
            {"name": "ResourcesPOST.parse_request, ResourceObjectPUT.parse_request, _parse_body",
             "where": "src/request_validators.py"},
        ],
        "observe_at": ["ResourcesPOST.parse_request", "ResourceObjectPUT.parse_request"],
    },
}

MAIN, EXT = "urn:t:2.0:Req", "urn:t:2.0:ReqExt"
T = rs.S(
    urn=MAIN, name="Req", plural="Reqs",
    attrs=rs.COMMON + (
        A("need", req=True), A("issued", req=True, issuer="SERVER", mut="readOnly"),
        A("fromClient", req=True, issuer="CLIENT"), A("ro", "integer", mut="readOnly"),
        A("wo", mut="writeOnly", ret="never"), A("imm", mut="immutable"),
        A("needs", "integer", mv=True, req=True), A("roList", mv=True, mut="readOnly"),
        C("one", A("x"), A("y", mut="readOnly"), A("zs", mv=True)),
        C("many", A("v", req=True), A("w", "integer", mut="readOnly"),
          A("key", req=True, issuer="SERVER"), A("primary", "boolean"), mv=True),
        C("roOne", A("x"), A("y", mut="readWrite"), mut="readOnly"),
        C("roMany", A("x"), mv=True, mut="readOnly"),
        C("must", A("x", req=True), A("y", req=True, issuer="SERVER"), req=True),
    ),
    exts=((EXT, (
        A("xneed", req=True), A("xro", mut="readOnly"), A("need"),
        C("xone", A("x"), A("y", mut="readOnly")),
        C("xmany", A("x"), A("y", mut="readOnly"), mv=True),
    )),),
)
FULL = {
    "schemas": [MAIN, EXT], "id": "1", "externalId": "e", "need": "n", "issued": "i",
    "fromClient": "c", "ro": 1, "wo": "w", "imm": "m", "needs": [1, 2], "roList": ["r"],
    "one": {"x": "1", "y": "2", "zs": ["a", "b"]},
    "many": [{"v": "1", "w": 1, "key": "k", "primary": True}, {"v": "2", "w": 2, "key": "k"}],
    "roOne": {"x": "1", "y": "2"}, "roMany": [{"x": "1"}, {"x": "2"}],
    "must": {"x": "1", "y": "2"},
    EXT: {"xneed": "n", "xro": "r", "need": "ext", "xone": {"x": "1", "y": "2"},
          "xmany": [{"x": "1", "y": "2"}, {"x": "3", "y": "4"}]},
    "meta": {"resourceType": "Req", "location": "l"},
}
REMOVE, EMPTY, UPPER = "<remove>", "", "<upper>"
EDITS = [REMOVE, None, "", 5.5, [], {}, UPPER, [{}]]
SCHEMA = lib_schema(T)
ENDPOINTS = {
    "POST": (rh.post_request, rv.ResourcesPOST), "PUT": (rh.put_request, rv.ResourceObjectPUT),
}


def edited(body, path, edit):
    if edit == REMOVE:
        return fx.removed(body, path)
    if edit == UPPER:
        if not isinstance(path[-1], str) or path[-1] == "$ref":
            return deepcopy(body)
        out = fx.removed(body, path)
        fx.at_path(out, path[:-1])[path[-1].upper()] = deepcopy(fx.at_path(body, path))
        return out
    return fx.replaced(body, path, edit)


def exists(body, path):
    try:
        fx.at_path(body, path)
        return True
    except (KeyError, IndexError, TypeError):
        return False


def conform(s, lib, body, ctx):
    for method, (ref, cls) in ENDPOINTS.items():
        given, headers, query = deepcopy(body), {"X": "y"}, None
        want, want_issues = ref(s, body)
        ctx.step()
        data, issues = cls(fx.CONFIG, resource_schema=lib).parse_request(
            body=given, headers=headers, query_string=query)
        what = f"{method} {short(body, 900)}"
        check_issues(issues, want_issues, what)
        if want is None:
            expect(data.body is None, "%s: body in spite of issues", what)
        else:
            check_value(data.body, want, what)
        expect(data.headers == {"X": "y"} and data.query_string is None,
               "%s: headers or query changed", what)
        expect(given == body, "%s: the request body was modified", what)
        ctx.outcome((method, tuple(sorted({c for _, c in want_issues}))))
    ctx.state(repr(body))


def deviations(full, n, edits=EDITS):
    paths = [p for p in fx.iter_paths(full) if p]
    single = [(p, e) for p in paths for e in edits]
    yield ()
    for k in range(1, n + 1):
        for chosen in itertools.combinations(single, k):
            if len({p for p, _ in chosen}) == k:
                yield chosen


def run(case, ctx):
    body = FULL
    for path, edit in case:
        if not exists(body, path):
            return
        body = edited(body, path, edit)
    conform(T, SCHEMA, body, ctx)


BUILT = {"User": (rs.USER, fx.User(), dict(fx.user_response(), password="p")),
         "Group": (rs.GROUP, fx.Group(), fx.group_response())}
for _b in BUILT.values():
    _b[2]["meta"] = {k: v for k, v in _b[2]["meta"].items() if k not in ("created", "lastModified")}


def built_in():
    for name, (s, _, body) in BUILT.items():
        for path in fx.iter_paths(body):
            if path:
                for edit in EDITS:
                    if edit == UPPER and path[-1] in (5.5, []):
                        continue
                    yield name, path, edit
        for ext, a in s.top():
            yield name, None, (ext, a.name)


def run_built_in(case, ctx):
    name, path, edit = case
    s, lib, body = BUILT[name]
    if path is None:
        ext, attr = edit
        small = {"schemas": s.known, "id": "1", "userName": "u", "displayName": "d"}
        if ext:
            small[ext] = {attr: body[ext][attr]}
        elif attr in body:
            small[attr] = body[attr]
        conform(s, lib, small, ctx)
        return
    conform(s, lib, edited(body, path, edit), ctx)


def run_chars(case, ctx):
    place, dev = case
    s, lib, x, parent = chars.build(place, dev)
    for value in chars.values(place, x, parent):
        if not chars.open_case(x, parent, value):
            conform(s, lib, chars.body(place, x, parent, value), ctx)
    if place.startswith("x") and not chars.open_case(x, parent, None):
        body = chars.body(place, x, parent, rs.MISSING)
        del body[chars.EXT]
        conform(s, lib, body, ctx)


def large_cases(limit):
    for n in sizes(limit, 2):
        for p in places(n):
            for kind in ("items", "attributes", "extension", "subs"):
                yield kind, n, p


BIG = {}


def run_large(case, ctx):
    kind, n, p = case
    if kind == "items":
        for odd in ({"w": 1, "key": "k"}, {"v": "1", "w": "bad"}, {"v": "1", "primary": True}, 5):
            items = [{"v": str(i), "w": i} for i in range(n)]
            items[0]["primary"] = True
            items[p] = odd
            conform(T, SCHEMA, dict(FULL, many=items, roMany=[{"x": "1"}] * n), ctx)
        conform(T, SCHEMA, dict(FULL, needs=[i if i != p else "x" for i in range(n)]), ctx)
        return
    key = case
    if key not in BIG:
        BIG.clear()
        attrs = tuple(
            (A(f"a{i}", mut="readOnly"), A(f"a{i}", req=True), A(f"a{i}", mut="readOnly", req=True, issuer="SERVER"))[p % 3]
            if i in (p, n - 1) else A(f"a{i}", mv=i % 4 == 0) for i in range(n))
        if kind == "attributes":
            s = rs.S("urn:t:2.0:Big", rs.COMMON + attrs, "Big", "Bigs")
        elif kind == "extension":
            s = rs.S("urn:t:2.0:Big", rs.COMMON, "Big", "Bigs", (("urn:t:2.0:X", attrs),))
        else:
            s = rs.S("urn:t:2.0:Big", rs.COMMON + (C("c", *attrs, mv=True),), "Big", "Bigs")
        BIG[key] = s, lib_schema(s), attrs
    s, lib, attrs = BIG[key]
    full = {a.name: ["v"] if a.mv else "v" for a in attrs}
    for change in ({}, {f"a{p}": None}, {f"a{p}": 5}):
        values = {**full, **change}
        body = {"schemas": s.known, "id": "1"}
        body.update(values if kind == "attributes" else {"urn:t:2.0:X": values} if kind == "extension" else
                    {"c": [values, full]})
        conform(s, lib, body, ctx)


def shapes():
    for body in (None, 5, "x", [], [1], {}, True, {"schemas": [MAIN]}, {1: 2}):
        yield body


def run_shape(body, ctx):
    conform(T, SCHEMA, body, ctx)


FRAMES = [None, {}, {"X": "y"}, {"X": ""}, {"x": None, "Location": "https://h/1", "Content-Type": "a"},
          {"filter": "a pr", "attributes": "a", "count": "1"}, {"attributes": ["s"]}, {"q": {"r": [1]}}]


def frames():
    for method in ENDPOINTS:
        for h in range(len(FRAMES)):
            for q in range(len(FRAMES)):
                for good in (True, False):
                    yield method, h, q, good


def run_frame(case, ctx):
    method, h, q, good = case
    ref, cls = ENDPOINTS[method]
    body = deepcopy(FULL) if good else {"schemas": 5}
    want, _ = ref(T, body)
    ctx.step()
    data, issues = cls(fx.CONFIG, resource_schema=SCHEMA).parse_request(
        body=body, headers=deepcopy(FRAMES[h]), query_string=deepcopy(FRAMES[q]))
    query = data.query_string
    if isinstance(query, dict):  # the selection is read and annotated (C20)
        query = {k: v for k, v in query.items() if k not in ("attributes", "presence_checker")}
    asked = FRAMES[q] and {k: v for k, v in FRAMES[q].items() if k != "attributes"}
    expect(data.headers == FRAMES[h] and query == asked, "%r: headers %r, query %r", case,
           data.headers, data.query_string)
    expect((data.body is None) == (want is None), "%r: body %r", case, data.body)
    ctx.state(case)
    ctx.outcome(issues.has_issues())


def spaces(tier):
    deep = tier == "thorough"
    few = [REMOVE, None, 5.5, UPPER]
    return [
        Space("one deviation", "every node x every edit", lambda: deviations(FULL, 1), run),
        Space("two deviations" if not deep else "two deviations, all edits",
              "every pair of nodes x edits", lambda: deviations(FULL, 2, EDITS if deep else few[:2]), run,
              block=4),
        Space("characteristics", f"every definition with <= {3 if deep else 2} special characteristics at "
              "every place x values", lambda: chars.definitions(3 if deep else 2), run_chars, block=16),
        Space("large bodies", "numbers of items, attributes and sub-attributes next to boundaries, an odd one at every "
              "telling position", lambda: large_cases(257 if deep else 66), run_large, block=4),
        Space("bodies", "all kinds of bodies", shapes, run_shape),
        Space("headers and queries", "8 header sets x 8 query strings x good and bad body", frames, run_frame),
        Space("built-in schemas", "every node of full User and Group bodies x every edit", built_in,
              run_built_in),
    ]
