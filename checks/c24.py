"""C24: discovery."""
import itertools
from copy import deepcopy

from mc import fixtures as fx
from mc import ref_discovery as rd
from mc import ref_http as rh
from mc import ref_schema as rs
from mc.engine import Space, Violation, expect, short
from mc.lib import check_issues, check_value, got_issues, lib_attr, lib_schema, plain, same
from mc.ref_schema import A, C
from mc.sizes import sizes
from src import request_validators as rv
from src.data.attributes import Attribute
from src.data.schemas import SchemaExtension, get_schema_rep

PROPERTY = {
    "title": "Discovery documents describe the served schemas truthfully and are validated",
    "statement": (
        "The published description of a schema or extension names each of its attributes and "
        "sub-attributes exactly once, with exactly the characteristics with which requests and responses "
        "are validated (type, arity, required, case-exactness, mutability, returnability, uniqueness, "
        "canonical values and reference types), and is itself released unchanged by the schemas endpoint "
        "(apart from case-exactness of anything but strings). Documents of the schemas, resource types and "
        "service provider configuration endpoints are released exactly when they conform to their "
        "schemas, down to nested sub-attribute descriptions, every deviation reported at its place. The "
        "schemas and resource types endpoints refuse filters and ignore everything else of a query."
    ),
    "quantifier": {
        "over": ["inputs", "configurations"],
        "text": "every combination of attribute characteristics (3456 attributes x arities of complex "
                "parents); the built-in schemas; every single-point change (quick: 6, thorough: 11 values) and "
                "pairs of changes of the three kinds of documents; query dictionaries",
    },
    "why_tests_cant": "The tests publish the two built-in schemas once and look at one wrong document.",
    "anchors": {
        "files": ["src/assets/schemas/schema.py", "src/assets/schemas/resource_type.py",
                  "src/assets/schemas/service_provider_config.py", "src/data/schemas.py",
                  "src/data/attributes.py", "src/request_validators.py"],
        "mechanism": [
            {"name": "get_schema_rep, SchemaExtension.to_dict", "where": "src/data/schemas.py"},
            {"name": "Attribute.to_dict, ComplexAttribute.to_dict", "where": "src/data/attributes.py"},
            {"name": "dump_attributes", "where": "src/assets/schemas/schema.py"},
            {"name": "SchemasGET, ResourceTypesGET", "where": "src/request_validators.py"},
        ],
        "observe_at": ["get_schema_rep", "SchemasGET / ResourceTypesGET .parse_request / .dump_response",
                       "ResourceObjectGET.dump_response of the provider configuration"],
    },
}

ABSENT = object()
TYPES = ["string", "integer", "decimal", "boolean", "dateTime", "binary", "external", "uri", "scim"]


def rep_of(s):
    return {
        "id": s.urn, "schemas": [rd.SCHEMA.urn], "name": s.name, "description": s.desc,
        "attributes": [rd.describe(a) for _, a in s.top()], "meta": {"resourceType": "Schema"},
    }


def list_body(resources):
    n = len(resources)
    return {"schemas": [fx.LIST], "totalResults": n, "itemsPerPage": n, "startIndex": 1, "Resources": resources}


def spaces(tier):
    thorough = tier == "thorough"
    schemas_get, types_get = rv.SchemasGET(fx.CONFIG), rv.ResourceTypesGET(fx.CONFIG)
    provider_get = rv.ResourceObjectGET(fx.CONFIG, resource_schema=fx.ServiceProviderConfigSchema())

    def definitions():
        n = 0
        for combo in itertools.product(
            TYPES, (False, True), (False, True), (False, True), ("readOnly", "readWrite", "writeOnly", "immutable"),
            ("always", "never", "default", "request"), ("none", "server", "global"),
        ):
            n += 1
            type_, mv, req, ce, mut, ret, uniq = combo
            extra = {}
            if type_ == "string" and n % 2:
                extra = dict(canon=("Work", "hOme"), strict=n % 3 == 0)
            if type_ == "integer" and n % 2:
                extra = dict(canon=(1, 2))
            if type_ == "scim" and n % 2:
                extra = dict(refs=("User", "Group"))
            yield A(f"a{n}", type_, mv=mv, req=req, ce=ce, mut=mut, ret=ret, uniq=uniq, desc=f"d{n % 5}", **extra)

    all_definitions = list(definitions())
    size = 48

    def groups():
        for i in range(0, len(all_definitions), size):
            yield i

    def publish(s, lib, ctx, what):
        ctx.step()
        got = get_schema_rep(lib)
        want = rep_of(s)
        check_value(got, want, f"{what}: published description")
        ctx.step()
        for body in (got, want):
            data, issues = schemas_get.dump_response(status_code=200, body=list_body([deepcopy(body)]))
            expect(not issues.has_issues(), "%s: description refused: %s", what, got_issues(issues))
            want_body, _ = rh.list_response([rd.SCHEMA], 200, list_body([want]))
            check_value(data.body, want_body, f"{what}: released description")
        for i, a in enumerate(want["attributes"]):
            ctx.state(repr(a))

    def run_group(i, ctx):
        attrs = all_definitions[i : i + size]
        plain_s = rs.S(urn="urn:t:2.0:D", name="D", plural="Ds", desc="about D", attrs=rs.COMMON + tuple(attrs[:24]),
                       exts=(("urn:t:2.0:DExt", tuple(attrs[24:])),))
        publish(plain_s, lib_schema(plain_s), ctx, f"schema {i}")
        for k, mv in enumerate((False, True)):
            top = attrs[(i * 7 + k) % len(attrs)]
            nested = rs.S(urn="urn:t:2.0:E", name="E", attrs=rs.COMMON + (
                C("c", *attrs[:30], mv=mv, req=top.req, mut=top.mut, ret=top.ret, uniq=top.uniq, desc="cd"),
                C("d", *attrs[30:], mv=not mv)))
            publish(nested, lib_schema(nested), ctx, f"complex {i}")
        # extension on its own
        ctx.step()
        attrs = tuple(attrs[:10]) + (C("c", *attrs[10:14]),)
        got = SchemaExtension(schema="urn:t:2.0:X", attrs=[lib_attr(a) for a in attrs], name="X",
                              description="about X").to_dict()
        check_value(got, {"id": "urn:t:2.0:X", "name": "X", "description": "about X",
                          "attributes": [rd.describe(a) for a in attrs]}, f"extension {i}")

    def many_cases():
        for where in ("core", "extension", "single", "mv"):
            for n in sizes(513 if thorough else 257, 1):
                yield where, "count", n
            for n in sizes(1025, 1):
                yield where, "names", n
            for n in sizes(1025 if thorough else 257, 1):
                yield where, "canonical", n
                yield where, "text", n

    def run_many(case, ctx):
        where, what, n = case
        if what == "count":
            attrs = [A(f"a{i}", TYPES[i % len(TYPES)] if TYPES[i % len(TYPES)] != "complex" else "string", desc=f"d{i}",
                       mv=i % 3 == 0, req=i % 5 == 0) for i in range(n)]
        elif what == "names":
            stem = ("abcdefghij" * 110)[:n]
            attrs = [A(stem + end, desc=f"about {end}", req=end == "z") for end in ("", "a", "z", "aa", "1", "_x")]
        elif what == "canonical":
            values = tuple(f"v{i}" for i in range(n))
            attrs = [A("w", canon=values, strict=True), A("v", canon=values[::-1]), A("i", "integer", canon=tuple(range(n))),
                     A("r", "scim", refs=tuple(f"R{i}" for i in range(n)))]
        else:
            attrs = [A("w", desc="x" * n), A("v", desc=" " + "word " * n + "\n\t\"\u00e9\U0001f600"), A("u", canon=("c" * n,))]
        attrs = tuple(attrs)
        name, about = ("N" * n, "about " * n) if what == "text" else ("N", "about")
        if where == "core":
            s = rs.S("urn:t:2.0:N", rs.COMMON + attrs, name, "Ns", desc=about)
        elif where == "extension":
            s = rs.S("urn:t:2.0:N", rs.COMMON, name, "Ns", (("urn:t:2.0:NExt", attrs),), desc=about)
            ctx.step()
            got = SchemaExtension(schema="urn:t:2.0:NExt", attrs=[lib_attr(a) for a in attrs], name=name,
                                  description=about).to_dict()
            check_value(got, {"id": "urn:t:2.0:NExt", "name": name, "description": about,
                              "attributes": [rd.describe(a) for a in attrs]}, f"extension {case}")
        else:
            s = rs.S("urn:t:2.0:N", rs.COMMON + (C("x", *attrs, mv=where == "mv"), A("y")), name, "Ns", desc=about)
        publish(s, lib_schema(s), ctx, str(case))

    def built_in():
        yield from ("User", "Group", "ResourceType", "ServiceProviderConfig")

    def strip(items):
        return [{**{k: v for k, v in x.items() if k not in ("description", "referenceTypes")},
                 **({"subAttributes": strip(x["subAttributes"])} if "subAttributes" in x else {})} for x in items]

    def run_built_in(name, ctx):
        lib, table = {"User": (fx.User, rs.USER), "Group": (fx.Group, rs.GROUP),
                      "ResourceType": (fx.ResourceType, rd.RESOURCE_TYPE),
                      "ServiceProviderConfig": (fx.ServiceProviderConfigSchema, rd.PROVIDER)}[name]
        lib = lib()
        ctx.step()
        got = get_schema_rep(lib)
        expect(got["id"] == table.urn and got["name"] == table.name, "%s: id or name", name)
        names = [x["name"] for x in got["attributes"]]
        expect(len(set(names)) == len(names), "%s: attribute listed twice", name)
        a, b = strip(got["attributes"]), strip(rep_of(table)["attributes"])
        a, b = ({x["name"]: x for x in y} for y in (a, b))
        expect(a.keys() == b.keys(), "%s: attributes %r", name, sorted(a.keys() ^ b.keys()))
        for key in a:
            x, y = dict(a[key]), dict(b[key])
            if "subAttributes" in y:
                x["subAttributes"] = sorted(x["subAttributes"], key=lambda s: s["name"])
                y["subAttributes"] = sorted(y["subAttributes"], key=lambda s: s["name"])
            if not same(x, y):
                raise Violation(f"{name}.{key}: described as {short(x)}, want {short(y)}")
        data, issues = schemas_get.dump_response(status_code=200, body=list_body([got]))
        expect(not issues.has_issues(), "%s: description refused: %s", name, got_issues(issues))

    small = rs.S(urn="urn:t:2.0:F", name="F", attrs=(
        rs.SCHEMAS, A("n", "integer", canon=(1,)), A("s", canon=("a",), refs=("x",)),
        C("c", A("x"), A("y", "boolean", mv=True)), C("m", A("value"), mv=True)))
    documents = {
        "schemas": (rd.SCHEMA, rep_of(small)),
        "types": (rd.RESOURCE_TYPE, {
            "schemas": [rd.RESOURCE_TYPE.urn], "id": "F", "name": "F", "description": "d", "endpoint": "/Fs",
            "schema": "urn:t:2.0:F", "meta": {"resourceType": "ResourceType", "location": "https://h/F"},
            "schemaExtensions": [{"schema": "urn:t:2.0:FX", "required": True},
                                 {"schema": "urn:t:2.0:FY", "required": False}]}),
        "provider": (rd.PROVIDER, {
            "schemas": [rd.PROVIDER.urn], "documentationUri": "https://h/d", "patch": {"supported": True},
            "bulk": {"supported": True, "maxOperations": 10, "maxPayloadSize": 100},
            "filter": {"supported": False, "maxResults": 5}, "changePassword": {"supported": False},
            "sort": {"supported": True}, "etag": {"supported": False},
            "meta": {"resourceType": "ServiceProviderConfig", "version": "1", "created": fx.dt()},
            "authenticationSchemes": [
                {"type": "oauth2", "name": "n", "description": "d", "specUri": "https://h/s",
                 "documentationUri": "https://h/d"}, {"type": "other", "name": "m", "description": "e"}]}),
    }

    def conform(kind, doc, ctx, status=200):
        table, _ = documents[kind]
        given = deepcopy(doc)
        ctx.step()
        if kind == "provider":
            want, want_issues = rh.resource_response(table, "GET", status, doc, None)
            data, issues = provider_get.dump_response(status_code=status, body=given)
        else:
            endpoint = schemas_get if kind == "schemas" else types_get
            body = list_body([given])
            want, want_issues = rh.list_response([table], status, list_body([doc]))
            data, issues = endpoint.dump_response(status_code=status, body=body)
        what = f"{kind} {short(doc, 900)}"
        # required members of nested descriptions are not prescribed
        check_issues(issues, want_issues, what)
        expect(given == doc, "%s: document was modified", what)
        if want is None:
            expect(data.body is None, "%s: released in spite of issues", what)
        else:
            check_value(data.body, want, what)
        ctx.state((kind, repr(doc)))
        ctx.outcome(tuple(sorted({c for _, c in want_issues})))

    junk = [None, 5, "t", [], {}, True]
    if thorough:
        junk += ["", [5], [{}], 1.0, "complex"]

    def changes(kind):
        for path in fx.iter_paths(documents[kind][1]):
            if path:
                yield path, ABSENT
                for v in junk:
                    yield path, v

    def apply(doc, path, v):
        return fx.removed(doc, path) if v is ABSENT else fx.replaced(doc, path, v)

    def change_cases():
        for kind in documents:
            for path, v in changes(kind):
                yield kind, path, v

    def run_change(case, ctx):
        kind, path, v = case
        conform(kind, apply(documents[kind][1], path, v), ctx)

    def pair_cases():
        for kind in documents:
            paths = [p for p in fx.iter_paths(documents[kind][1]) if p]
            for p, q in itertools.combinations(paths, 2):
                if q[: len(p)] == p or p[: len(q)] == q:
                    continue
                if kind == "schemas" and not thorough and (p[:2] != q[:2] or p[:2] == ("attributes", 2)):
                    continue
                if any(isinstance(x, int) for x in (p[-1], q[-1])):
                    continue
                for v, w in ((5, ABSENT), (ABSENT, 5), ("t", "t")) if thorough else ((5, ABSENT), ("t", 5)):
                    yield kind, p, q, v, w

    def run_pair(case, ctx):
        kind, p, q, v, w = case
        doc = apply(apply(documents[kind][1], q, w), p, v)
        conform(kind, doc, ctx)

    def described():
        """Every spelling of the enumerated members, at the top and nested."""
        for member, good in (("type", TYPES[:6] + ["reference", "complex"]),
                             ("mutability", ["readOnly", "readWrite", "immutable", "writeOnly"]),
                             ("returned", ["always", "never", "default", "request"]),
                             ("uniqueness", ["none", "server", "global"])):
            for v in good + [g.upper() for g in good] + ["", "other", good[0] + " ", "external"]:
                for case_exact in (True, False, None, ABSENT, "x"):
                    for nested in (0, 1, 2):
                        yield member, v, case_exact, nested

    def run_described(case, ctx):
        member, v, case_exact, nested = case
        d = rd.describe(A("s"))
        d[member] = v
        if case_exact is ABSENT:
            del d["caseExact"]
        else:
            d["caseExact"] = case_exact
        for level in range(nested):
            d = dict(rd.describe(C("c", mv=level == 0)), subAttributes=[rd.describe(A("first")), d])
        doc = dict(documents["schemas"][1], attributes=[rd.describe(A("z")), d])
        conform("schemas", doc, ctx)

    def queries():
        values = [None, {}, {"filter": "a pr"}, {"filter": ""}, {"filter": None}, {"count": "x"}, {"sortBy": "a b"},
                  {"attributes": "id", "excludeAttributes": "name"}, {"filter": 5, "count": 1}, 5, "filter", [],
                  ["filter"]]
        for name in ("schemas", "types"):
            for q in values:
                yield name, q

    def run_query(case, ctx):
        name, q = case
        endpoint = schemas_get if name == "schemas" else types_get
        ctx.step()
        data, issues = endpoint.parse_request(query_string=deepcopy(q), headers={"h": 1}, body={"b": 1})
        refused = isinstance(q, dict) and "filter" in q
        check_issues(issues, [(("query_string", "filter"), 39)] if refused else [], f"{name} {q}")
        expect(data.headers == {"h": 1} and not data.body and not data.query_string, "%s %r: data", name, q)

    def frames():
        for kind in documents:
            for doc in (None, 5, "t", [], {}, True):
                yield kind, doc, 200
            for status in (201, 204, 400):
                yield kind, documents[kind][1], status

    return [
        Space("definitions", f"{len(all_definitions)} combinations of characteristics, also as "
              "sub-attributes and in extensions", groups, run_group),
        Space("large definitions", "numbers of attributes and canonical values, lengths of names with a common "
              "beginning and of texts next to boundaries", many_cases, run_many, block=2),
        Space("built-in schemas", "User with enterprise extension, Group, ResourceType, ServiceProviderConfig",
              built_in, run_built_in),
        Space("documents", "every single-point change of 3 documents", change_cases, run_change, block=8),
        Space("pairs of changes", "every pair of independent members", pair_cases, run_pair, block=8),
        Space("enumerated members", "all spellings, top-level and nested", described, run_described, block=8),
        Space("queries", "13 queries", queries, run_query),
        Space("frames", "non-documents and statuses", frames,
              lambda case, ctx: conform(*case[:2], ctx, status=case[2])),
    ]
