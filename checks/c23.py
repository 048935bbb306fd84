"""C23: every entry point answers any JSON-like input with data or issues, never an exception."""
import json
from copy import deepcopy
from datetime import datetime

from mc import fixtures as fx
from mc.engine import Space, expect
from src import request_validators as rv
from src.data.container import SCIMDataContainer
from src.data.schemas import get_schema_rep

PROPERTY = {
    "title": "Every endpoint answers any JSON-like input without raising",
    "statement": (
        "For every endpoint, every JSON-like request body, query string, header set and response "
        "body is answered with data or with validation issues: no call raises or hangs. Issues and "
        "data are serialisable and a reported body never doubles as an accepted one."
    ),
    "quantifier": {
        "over": ["inputs", "configurations"],
        "text": "every node of valid bodies of every endpoint removed or replaced by every value of an "
                "alphabet of JSON-like values; every query parameter likewise",
    },
    "why_tests_cant": (
        "A crash needs one unexpected shape at one place behind several validation stages; the tests "
        "probe a few wrong values per attribute, not every value at every place of every message."
    ),
    "anchors": {
        "files": ["src/request_validators.py", "src/data/schemas.py", "src/data/attributes.py",
                  "src/assets/schemas/patch_op.py", "src/assets/schemas/bulk_ops.py",
                  "src/assets/schemas/list_response.py", "src/assets/schemas/search_request.py",
                  "src/assets/schemas/schema.py", "src/sorter.py", "src/attributes_presence.py"],
        "mechanism": [{"name": "parse_request / dump_response of every validator",
                       "where": "src/request_validators.py"}],
        "observe_at": ["parse_request", "dump_response"],
    },
}

ATOMS = [
    None, True, False, 0, 1, -1, 2.5, 10**400, float("inf"), "", "a", "É\u0130", "a b", "bulkId", "400",
    [], {}, [[]], [None], ["a"], [1], [True], [{}], [{"value": "x"}], [{"value": None}],
    [[{"value": 1}]], {"value": "x"}, {"a": 1}, {"value": {"value": []}}, {1: 2},
    [{"primary": True}, {"primary": True}], [{"primary": 1}, None, {}],
    datetime(2020, 1, 1),
]


def bodies():
    search = {
        "schemas": [fx.SEARCH], "attributes": ["userName", "name.familyName"],
        "filter": 'userName eq "a"', "sortBy": "userName", "sortOrder": "descending",
        "startIndex": 1, "count": 10,
    }
    patch = {
        "schemas": [fx.PATCH],
        "Operations": [
            {"op": "add", "path": "emails", "value": [{"value": "a@b.c", "type": "work"}]},
            {"op": "replace", "path": 'emails[type eq "work"].value', "value": "x"},
            {"op": "remove", "path": "title"},
            {"op": "add", "value": {"title": "x", "name": {"familyName": "f"},
                                    "emails": [{"value": "q"}], fx.ENT: {"division": "d"}}},
        ],
    }
    bulk_req = {
        "schemas": [fx.BULK_REQ],
        "failOnErrors": 1,
        "Operations": [
            {"method": "POST", "path": "/Users", "bulkId": "q",
             "data": {"schemas": [fx.USER], "userName": "u"}},
            {"method": "PUT", "path": "/Users/1", "version": "v",
             "data": {"schemas": [fx.USER], "id": "1", "userName": "u"}},
            {"method": "PATCH", "path": "/Groups/1", "data": {
                "schemas": [fx.PATCH],
                "Operations": [{"op": "replace", "path": "displayName", "value": "n"}]}},
            {"method": "DELETE", "path": "/Users/2"},
        ],
    }
    bulk_res = {
        "schemas": [fx.BULK_RES],
        "Operations": [
            {"method": "POST", "location": "https://example.com/v2/Users/user-1", "bulkId": "q",
             "version": 'W/"v1"', "status": "201", "response": fx.small_user_response(1)},
            {"method": "PUT", "location": "https://example.com/v2/Users/user-2",
             "version": 'W/"v2"', "status": "200", "response": fx.small_user_response(2)},
            {"method": "DELETE", "location": "https://example.com/v2/Users/user-3",
             "status": "204"},
            {"method": "PATCH", "location": "https://example.com/v2/Users/user-4",
             "status": "404", "response": {"schemas": [fx.ERROR], "status": "404",
                                           "detail": "x"}},
            {"method": "POST", "bulkId": "z", "status": "400",
             "response": {"schemas": [fx.ERROR], "status": "400", "scimType": "tooMany"}},
        ],
    }
    lst = {
        "schemas": [fx.LIST], "totalResults": 3, "startIndex": 1, "itemsPerPage": 3,
        "Resources": [
            fx.small_user_response(1, emails=[{"value": "a", "primary": True}]),
            fx.small_user_response(2, emails=[{"value": "b"}], name={"familyName": "x"}),
            fx.group_response(3),
        ],
    }
    users = deepcopy(lst)
    users["Resources"][2] = fx.small_user_response(3)
    error = {"schemas": [fx.ERROR], "status": "400", "scimType": "tooMany", "detail": "d"}
    schema = {
        "schemas": [fx.LIST], "totalResults": 1, "startIndex": 1, "itemsPerPage": 1,
        "Resources": [get_schema_rep(fx.Group())],
    }
    rtype = {
        "schemas": [fx.LIST], "totalResults": 1, "startIndex": 1, "itemsPerPage": 1,
        "Resources": [{
            "schemas": ["urn:ietf:params:scim:schemas:core:2.0:ResourceType"],
            "id": "User", "name": "User", "endpoint": "/Users", "description": "d",
            "schema": fx.USER,
            "schemaExtensions": [{"schema": fx.ENT, "required": True}],
            "meta": {"location": "https://example.com/v2/ResourceTypes/User",
                     "resourceType": "ResourceType"},
        }],
    }
    return locals()


def endpoints():
    b = bodies()
    cfg = fx.CONFIG
    user, group, thing = fx.User(), fx.Group(), fx.Thing()
    schemas = [user, group]
    filter_, _ = rv.Filter.parse(
        'userName co "a" or emails[type eq "work" and not (value sw "q")] or name.familyName pr'
        ' or meta.created gt "2011-05-13T04:42:34Z" or not (active eq true) or title gt 3'
    )
    sorters = [rv.Sorter.parse(x)[0] for x in
               ("userName", "emails", "name.familyName", "meta.created", "emails.type")]
    loc = {"Location": "https://example.com/v2/Users/user-1"}
    out = {}
    for name, schema, req, res in (
        ("User", user, fx.user_request(), fx.user_response()),
        ("Group", group, fx.group_request(), fx.group_response()),
        ("Thing", thing, fx.thing_request(), fx.thing_response()),
    ):
        put = dict(deepcopy(req), id="user-1")
        out[f"POST {name} request"] = (
            rv.ResourcesPOST(cfg, resource_schema=schema).parse_request, req, {})
        out[f"PUT {name} request"] = (
            rv.ResourceObjectPUT(cfg, resource_schema=schema).parse_request, put, {})
        out[f"POST {name} response"] = (
            rv.ResourcesPOST(cfg, resource_schema=schema).dump_response, res,
            {"status_code": 201, "headers": {"Location": res["meta"]["location"]}})
        out[f"PUT {name} response"] = (
            rv.ResourceObjectPUT(cfg, resource_schema=schema).dump_response, res,
            {"status_code": 200})
        out[f"GET {name} response"] = (
            rv.ResourceObjectGET(cfg, resource_schema=schema).dump_response, res,
            {"status_code": 200, "headers": {"Location": res["meta"]["location"]}})
        out[f"PATCH {name} response"] = (
            rv.ResourceObjectPATCH(cfg, resource_schema=schema).dump_response, res,
            {"status_code": 200})
    out["PATCH User request"] = (
        rv.ResourceObjectPATCH(cfg, resource_schema=user).parse_request, b["patch"], {})
    out["search request"] = (
        rv.SearchRequestPOST(cfg, resource_schemas=schemas).parse_request, b["search"], {})
    out["bulk request"] = (
        rv.BulkOperations(cfg, resource_schemas=schemas).parse_request, b["bulk_req"], {})
    out["bulk response"] = (
        rv.BulkOperations(cfg, resource_schemas=schemas).dump_response, b["bulk_res"],
        {"status_code": 200, "fail_on_errors": 2})
    out["error response"] = (rv.Error().dump_response, b["error"], {"status_code": 400})
    for i, sorter in enumerate(sorters):
        out[f"list response sorted {i}"] = (
            rv.ServerRootResourceGET(cfg, resource_schemas=schemas).dump_response, b["lst"],
            {"status_code": 200, "filter_": filter_, "sorter": sorter, "count": 5})
    out["user list response"] = (
        rv.ResourcesGET(cfg, resource_schema=user).dump_response, b["users"],
        {"status_code": 200, "filter_": filter_, "sorter": sorters[0], "count": 5})
    out["search response"] = (
        rv.SearchRequestPOST(cfg, resource_schemas=schemas).dump_response, b["lst"],
        {"status_code": 200, "count": 5})
    out["schemas response"] = (
        rv.SchemasGET(cfg).dump_response, b["schema"], {"status_code": 200})
    out["resource types response"] = (
        rv.ResourceTypesGET(cfg).dump_response, b["rtype"], {"status_code": 200})
    return out


QUERY = {
    "filter": 'userName eq "a"', "sortBy": "userName", "sortOrder": "ascending",
    "attributes": "userName,name.familyName", "count": "3", "startIndex": "1",
}


def query_endpoints():
    user, group = fx.User(), fx.Group()
    cfg = fx.CONFIG
    return {
        "GET one": lambda q: rv.ResourceObjectGET(cfg, resource_schema=user).parse_request(
            query_string=q),
        "GET many": lambda q: rv.ResourcesGET(cfg, resource_schema=user).parse_request(
            query_string=q),
        "GET root": lambda q: rv.ServerRootResourceGET(
            cfg, resource_schemas=[user, group]).parse_request(query_string=q),
        "POST": lambda q: rv.ResourcesPOST(cfg, resource_schema=user).parse_request(
            query_string=q, body=fx.user_request()),
        "PUT": lambda q: rv.ResourceObjectPUT(cfg, resource_schema=user).parse_request(
            query_string=q, body=dict(fx.user_request(), id="1")),
        "PATCH": lambda q: rv.ResourceObjectPATCH(cfg, resource_schema=user).parse_request(
            query_string=q, body=bodies()["patch"]),
        "GET schemas": lambda q: rv.SchemasGET(cfg).parse_request(query_string=q),
        "GET resource types": lambda q: rv.ResourceTypesGET(cfg).parse_request(query_string=q),
    }


REMOVE = object()
STR_ATOMS = ["userName eq", "(", "[", "]", ")", '"', "a[b eq 1]", "é", "", " ", "a.b.c", "null",
             "1e999", "-", "nan", "∞", "a" * 300, "emails[", "not", "'", "\n", "\x00", "|&PLACE_HOLDER_0&|",
             "/Users", "/Users/", "/Users/1/2", "/", "//", "/Unknown/1", "Users/1", "DELETE", "GET",
             "post", "204", "299", "300", "999", "-1", "1.5", "²", "https://example.com/Users/1",
             "https://[", "bulkId:q"]


def check_result(name, result, ctx):
    data, issues = result
    found = issues.to_dict(msg=True)
    expect(isinstance(found, dict), "issues are not a dictionary")
    expect(bool(found) == issues.has_issues(), "issues and their dictionary disagree")
    if found:
        expect(data.body is None, "%s: issues reported together with a body", name)
    elif data.body is not None:
        body = data.body
        if isinstance(body, SCIMDataContainer):
            body = body.to_dict()
        expect(isinstance(body, dict), "%s: body is not a dictionary", name)
    ctx.outcome("issues" if found else "accepted")


SMALL = [None, 1, "a", [], {}, [None], [[{"value": 1}]], {"value": {"value": []}}, {1: 2}]
MEDIUM = SMALL + [True, 10**400, "\u0130", [{}], [{"value": None}], ["a"], datetime(2020, 1, 1)]
SMALL_STR = ["", "é", "https://[", "/Users/1/2", "emails[", "999"]
BULK_STR = ["", "é", "/Users", "/Users/", "/Users/1/2", "/Unknown/1", "GET", "DELETE", "204", "-1",
            "https://[", "bulkId:q"]
# in the quick tier, messages that share their code path with another message get fewer values
QUICK_SKIP = {"POST User response", "PUT User response", "PATCH User response", "POST Thing response",
              "PUT Thing response", "PATCH Thing response", "POST Group response", "list response sorted 2",
              "list response sorted 0",
              "PUT Group response", "PATCH Group response", "search response", "PUT User request"}


def alphabet(name, node, thorough):
    if thorough or name in ("error response", "search request", "POST Group request",
                            "GET Group response", "PATCH User request"):
        atoms, strs = ATOMS, STR_ATOMS
    elif "bulk" in name:
        atoms, strs = SMALL, BULK_STR
    elif "Thing" in name or "types" in name:
        atoms, strs = MEDIUM, SMALL_STR
    else:
        atoms, strs = SMALL, SMALL_STR[:3]
    return atoms + (strs if isinstance(node, str) else [])


def spaces(tier):
    thorough = tier == "thorough"
    eps = endpoints()

    def cases():
        for name, (_, body, _) in eps.items():
            yield name, ()
            if not thorough and name in QUICK_SKIP:
                continue
            for path in fx.iter_paths(body):
                for v in alphabet(name, fx.at_path(body, path), thorough):
                    yield name, ((path, v),)
                if path:
                    yield name, ((path, REMOVE),)

    def pair_cases():
        """Two nodes of one message at once; the later edit wins where they overlap."""
        names = ["error response", "search request", "PATCH User request", "POST Group request"]
        if thorough:
            names += ["PUT Group request", "GET Group response", "bulk request", "bulk response",
                      "user list response", "resource types response"]
        for name in names:
            body = eps[name][1]
            paths = list(fx.iter_paths(body))
            values = [None, 1, "a", [], {}, [None], REMOVE] if thorough else [None, [], REMOVE]
            for i, p in enumerate(paths):
                for q in paths[:i]:
                    if p[:len(q)] == q or not p or not q:
                        continue
                    for v in values:
                        for w in values:
                            yield name, ((p, v), (q, w))

    def apply(body, edits):
        for path, value in edits:
            body = fx.removed(body, path) if value is REMOVE else fx.replaced(body, path, value)
        return body

    def run(case, ctx):
        name, edits = case
        func, body, kwargs = eps[name]
        body = apply(body, edits)
        ctx.step()
        result = func(body=body, **deepcopy(kwargs) if "filter_" not in kwargs else kwargs)
        if not edits and "list" not in name:
            expect(not result[1].has_issues(), "%s: valid body rejected: %r", name,
                   result[1].to_dict(msg=True))
        if name.startswith("POST") and name.endswith("response") and not body:
            return None
        ctx.state((name, repr(edits)))
        check_result(name, result, ctx)
        return None

    def nested(depth, kind):
        v = "x"
        for i in range(depth):
            v = [v] if kind == "list" else {"value": v} if kind == "object" else [{"value": v}]
        return v

    large = {f"{k} x {n}": v for n in (65, 129, 1001) for k, v in {
        "nulls": [None] * n, "numbers": list(range(n)), "texts": ["x"] * n, "objects": [{"value": "x"}] * n,
        "mixed": [None, 1, "x", {}, []] * (n // 5), "members": {f"k{i}": i for i in range(n)}, "text": "x" * n,
        "spaces": " " * n, "quotes": '"' * n, "brackets": "[" * n, "digits": "9" * n, "dots": "a." * n, "colons": "a:" * n,
        "slashes": "/a" * n, "names": ",".join(f"a{i}" for i in range(n)),
        "filter": " and ".join(["a pr"] * n), "accents": "\u00e9" * n}.items()}
    large.update({f"nested {k} {n}": nested(n, k) for n in (3, 10, 30) for k in ("list", "object", "both")})

    def large_cases():
        for name, (_, body, _) in eps.items():
            if not thorough and (name in QUICK_SKIP or "Thing" in name or "User re" in name):
                continue
            for path in fx.iter_paths(body):
                for key in large:
                    yield name, path, key

    def run_large(case, ctx):
        name, path, key = case
        run((name, ((path, large[key]),)), ctx)

    qeps = query_endpoints()
    qatoms = ATOMS + STR_ATOMS

    def query_cases():
        for name in qeps:
            yield name, None
            yield name, {}
            keys = list(QUERY) + ["excludedAttributes", "excludeAttributes"]
            for key in keys:
                for v in qatoms:
                    yield name, {key: v}
                    if thorough:
                        yield name, dict(QUERY, **{key: v})
        for key in QUERY:
            for other in QUERY:
                if key < other:
                    for v in SMALL + SMALL_STR:
                        for w in SMALL + SMALL_STR:
                            yield "GET many", {key: v, other: w}

    def run_query(case, ctx):
        name, query = case
        ctx.step()
        data, issues = qeps[name](deepcopy(query))
        found = issues.to_dict(msg=True)
        expect(isinstance(found, dict) and bool(found) == issues.has_issues(),
               "issues and their dictionary disagree")
        ctx.state((name, repr(query)))
        ctx.outcome("issues" if found else "accepted")

    hatoms = ATOMS + ["https://example.com/v2/Users/user-1", "x"]
    heps = [n for n in eps if n.endswith("Group response")] + ["user list response", "bulk response"]

    def header_cases():
        for name in heps:
            for h in ATOMS:
                yield name, h, 200
            for key in ("Location", "location", "ETag", "x"):
                for v in hatoms:
                    yield name, {key: v}, 201 if name.startswith("POST") else 200
            for status in (0, -1, 99, 200, 201, 204, 299, 300, 404, 600, 10**6):
                yield name, {"Location": "x"}, status
                yield name, None, status

    def run_headers(case, ctx):
        name, headers, status = case
        func, body, kwargs = eps[name]
        ctx.step()
        result = func(body=deepcopy(body), **dict(kwargs, headers=headers, status_code=status))
        ctx.state(repr(case))
        check_result(name, result, ctx)

    return [
        Space("every node of every body replaced", "1 replaced node", cases, run, block=4),
        Space("pairs of nodes", "2 replaced nodes", pair_cases, run, block=16),
        Space("large and nested values", f"every node of the messages replaced by each of {len(large)} large values",
              large_cases, run_large, block=8),
        Space("query parameters", "each parameter x each value; pairs", query_cases, run_query),
        Space("headers and statuses", "each header x each value; each status", header_cases,
              run_headers),
    ]
