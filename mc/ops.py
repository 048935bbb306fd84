"""Menu of calls on shared library objects, used to explore histories (C21) and schedules (C22).

Every operation uses the validators, schemas, filters, sorters and checkers of one shared World, builds its own
inputs, and returns what a caller can observe as text.  Operations come in near-miss groups (same text in other
letter case, same body at another endpoint, same attribute with another selection ...), because those are what
leftovers of an earlier call would mix up.
"""
from copy import deepcopy

from mc import fixtures as fx
from mc.engine import Violation
from mc.lib import plain
from src import request_validators as rv
from src.attributes_presence import AttributePresenceChecker
from src.data import type as at
from src.data.attributes import Attribute, AttributeIssuer, AttributeMutability, AttributeReturn, ComplexAttribute
from src.data.container import AttrRep, Invalid, Missing, SCIMDataContainer
from src.data.path import PatchPath
from src.data.schemas import ResourceSchema, SchemaExtension, get_schema_rep
from src.error import ValidationError, ValidationIssues
from src.filter import Filter
from src.sorter import Sorter

LOC = {"Location": "https://example.com/v2/Users/user-1"}


class Mini(ResourceSchema):
    """Small schema, so that schedules stay short."""

    def __init__(self, urn="urn:example:params:2.0:Mini", name="Mini"):
        super().__init__(schema=urn, name=name, attrs=mini_attrs())


def mini_attrs():
    return [
        Attribute(name="name", type_=at.String, required=True),
        Attribute(name="ro", type_=at.Integer, mutability=AttributeMutability.READ_ONLY),
        Attribute(name="color", type_=at.String, canonical_values=["Red", "green"],
                  validate_canonical_values=True),
        Attribute(name="no", type_=at.String, required=True, issuer=AttributeIssuer.SERVER),
        ComplexAttribute(name="tags", multi_valued=True, sub_attributes=[
            Attribute(name="value", type_=at.String),
            Attribute(name="primary", type_=at.Boolean),
        ]),
    ]


class Twin(ResourceSchema):
    """Same URI, same name, other definitions."""

    def __init__(self):
        super().__init__(schema=MINI, name="Mini", attrs=[
            Attribute(name="name", type_=at.Integer),
            Attribute(name="ro", type_=at.Integer, required=True),
            Attribute(name="color", type_=at.String, canonical_values=["blue"], validate_canonical_values=True,
                      case_exact=True),
            Attribute(name="no", type_=at.String, mutability=AttributeMutability.READ_ONLY, multi_valued=True),
            ComplexAttribute(name="tags", sub_attributes=[
                Attribute(name="value", type_=at.Integer, required=True),
                Attribute(name="primary", type_=at.String),
            ]),
        ])


MINI = "urn:example:params:2.0:Mini"
KIN, KINX = "urn:example:params:2.0:Kin", "urn:example:params:2.0:KinX"


class Kin(ResourceSchema):
    """Attributes of the same names with other characteristics, once in the core and once in an extension."""

    def __init__(self):
        super().__init__(schema=KIN, name="Kin", attrs=[
            Attribute(name="name", type_=at.String, case_exact=True),
            Attribute(name="secret", type_=at.String, returned=AttributeReturn.NEVER),
            Attribute(name="always", type_=at.String, returned=AttributeReturn.ALWAYS, required=True),
            ComplexAttribute(name="tags", multi_valued=True, sub_attributes=[
                Attribute(name="value", type_=at.Integer),
                Attribute(name="secret", type_=at.String, returned=AttributeReturn.NEVER),
                Attribute(name="need", type_=at.String, required=True),
            ]),
        ])
        self.with_extension(SchemaExtension(KINX, name="KinX", attrs=[
            Attribute(name="name", type_=at.Integer), Attribute(name="secret", type_=at.String),
            ComplexAttribute(name="tags", sub_attributes=[Attribute(name="value", type_=at.String, case_exact=True)]),
        ]))


class World:
    def __init__(self):
        self.user, self.group, self.thing, self.mini = fx.User(), fx.Group(), fx.Thing(), Mini()
        self.twin, self.kin = Twin(), Kin()
        cfg, cfg1 = fx.CONFIG, fx.config(1)
        self.v = {}
        for name in ("user", "group", "thing", "mini", "twin", "kin"):
            s = getattr(self, name)
            self.v[name] = dict(
                POST=rv.ResourcesPOST(cfg, resource_schema=s), PUT=rv.ResourceObjectPUT(cfg, resource_schema=s),
                GET=rv.ResourceObjectGET(cfg, resource_schema=s), PATCH=rv.ResourceObjectPATCH(cfg, resource_schema=s),
                LIST=rv.ResourcesGET(cfg, resource_schema=s), DELETE=rv.ResourceObjectDELETE(cfg),
            )
        both = [self.mini, self.group]
        self.root = rv.ServerRootResourceGET(cfg, resource_schemas=both)
        self.search = rv.SearchRequestPOST(cfg, resource_schemas=both)
        self.bulk = rv.BulkOperations(cfg, resource_schemas=both)
        self.bulk1 = rv.BulkOperations(cfg1, resource_schemas=both)
        self.bulkm = rv.BulkOperations(cfg, resource_schemas=[self.mini])
        self.error = rv.Error()
        self.schemas, self.types = rv.SchemasGET(cfg), rv.ResourceTypesGET(cfg)
        self.config = rv.ResourceObjectGET(cfg, resource_schema=fx.ServiceProviderConfigSchema())
        self.filters = {
            t: Filter.parse(t)[0]
            for t in ('name eq "A"', "tags.value gt 1", f'{KINX}:name pr', 'name eq "a"', 'name eq "b"', 'userName eq "a"', 'tags[primary eq true and value co "1"]',
                      'not (title pr) or emails.value sw "v"', 'name eq "x" and tags[primary eq true]')
        }
        self.sorters = {(by, asc): Sorter.parse(by, asc)[0]
                        for by in ("userName", "emails", "name", "tags") for asc in (True, False)}
        self.checkers = {
            (t, inc): AttributePresenceChecker.parse(t.split(","), inc)[0]
            for t in ("userName", "name", "secret", "tags.secret,always", "name.familyName,emails", "id", "tags.value") for inc in (True, False)
        }
        self.bare = AttributePresenceChecker()
        self.attr_email = self.user.attrs.emails
        self.attr_color = self.thing.attrs.color


def scribble(v, seen=None):
    """What a careless caller may do to data that was handed over."""
    if isinstance(v, dict):
        for x in list(v.values()):
            scribble(x)
        v.clear()
        v["scribbled"] = ["scribbled"]
    elif isinstance(v, list):
        for x in v:
            scribble(x)
        v.append("scribbled")
    elif isinstance(v, SCIMDataContainer):
        for name in list(v.to_dict()):
            if ":" not in name:
                scribble(v[name])
                v[name] = "scribbled"
    elif isinstance(v, (rv.RequestData, rv.ResponseData)):
        scribble(v.body)
        scribble(v.headers)
        if isinstance(v, rv.RequestData):
            scribble(v.query_string)


def snap(v):
    if isinstance(v, ValidationIssues):
        out = v.to_dict(msg=True, ctx=True)
        text = repr(out) + repr(v.has_issues()) + repr(v.can_proceed())
        scribble(out)
        v.add(issue=ValidationError.missing(), proceed=False, location=("scribbled",))
        return text
    if isinstance(v, Filter):
        return repr(v.to_dict())
    if isinstance(v, Sorter):
        return f"Sorter({v.attr_rep!r} {v.attr_rep.schema} {v.attr_rep.sub_attr} {v.asc})"
    if isinstance(v, AttributePresenceChecker):
        return "Checker(%s %r)" % ([(r.schema, r.attr, r.sub_attr) for r in v.attr_reps], v.include)
    if isinstance(v, AttrRep):
        return repr((v.schema, v.attr, v.sub_attr))
    if isinstance(v, PatchPath):
        f = v.complex_filter
        return "Path(%s %s %s)" % (snap(v.attr_rep), f and repr(f.to_dict()),
                                   v.complex_filter_attr_rep and snap(v.complex_filter_attr_rep))
    if isinstance(v, (rv.RequestData, rv.ResponseData)):
        text = f"{snap(v.headers)} {snap(v.body)}"
        if isinstance(v, rv.RequestData):
            text += f" {snap(v.query_string)}"
        return text
    if isinstance(v, SCIMDataContainer):
        return "<" + snap(v.to_dict()) + ">"
    if v is Invalid or v is Missing:
        return repr(plain(v))
    if isinstance(v, dict):
        return "{" + ", ".join(f"{k!r}: {snap(x)}" for k, x in v.items()) + "}"
    if isinstance(v, (list, tuple)):
        return "[" + ", ".join(snap(x) for x in v) + "]"
    return repr(v)


def call(fn, query_string=None, **kw):
    """Calls with fresh inputs; the inputs (except the query, which is annotated by design) must survive."""
    before = repr(kw)
    if query_string is not None:
        kw["query_string"] = query_string
    data, issues = fn(**kw)
    kw.pop("query_string", None)
    if repr(kw) != before:
        raise Violation(f"inputs changed: {before} became {kw!r}")
    text = snap(data) + " " + snap(issues)
    scribble(data)
    return text


def mini_req(**kw):
    body = {"schemas": [MINI], "name": "n", "color": "RED", "tags": [{"value": "v", "primary": True}]}
    body.update(kw)
    return {k: v for k, v in body.items() if v is not Missing}


def mini_res(i=1, **kw):
    body = dict(mini_req(), id=f"m{i}", no="1", ro=i,
                meta={"resourceType": "Mini", "location": f"https://e.c/Minis/m{i}"})
    body.update(kw)
    return {k: v for k, v in body.items() if v is not Missing}


def list_of(*resources, **kw):
    n = len(resources)
    out = {"schemas": [fx.LIST], "totalResults": n, "startIndex": 1, "itemsPerPage": n, "Resources": list(resources)}
    out.update(kw)
    return out


def patch(*ops):
    return {"schemas": [fx.PATCH], "Operations": list(ops)}


def bulk_req(*ops, **kw):
    return dict({"schemas": [fx.BULK_REQ], "Operations": list(ops)}, **kw)


def bulk_res(*ops):
    return {"schemas": [fx.BULK_RES], "Operations": list(ops)}


OPS = {}
SMALL = []  # operations short enough for schedules


def op(name, small=False):
    def register(fn):
        assert name not in OPS, name
        OPS[name] = fn
        if small:
            SMALL.append(name)
        return fn

    return register


def simple(name, fn, small=False):
    op(name, small)(fn)


def _fill():
    # ---- one resource type
    for n, body in {
        "ok": lambda: mini_req(),
        "missing": lambda: mini_req(name=Missing),
        "bad": lambda: mini_req(color="blue", ro="x"),
        "two primaries": lambda: mini_req(tags=[{"primary": True}, {"value": "q", "primary": True}]),
        "unknown schema": lambda: mini_req(schemas=[MINI, "urn:q"]),
        "upper": lambda: {k.upper(): v for k, v in mini_req(name="N").items()},
        "full": lambda: mini_req(id="1", no="7", ro=5, tags=[]),
        "not an object": lambda: [mini_req()],
    }.items():
        for m in ("POST", "PUT"):
            simple(f"mini {m} {n}", lambda w, m=m, body=body: call(w.v["mini"][m].parse_request, body=body()),
                   small=n in ("ok", "missing", "two primaries", "full"))
    for n, body, status, kw in (
        ("ok", lambda: mini_res(), 200, {}),
        ("second", lambda: mini_res(2), 200, {}),
        ("status", lambda: mini_res(), 201, {}),
        ("location", lambda: mini_res(), 200, dict(headers=LOC)),
        ("type", lambda: mini_res(meta={"resourceType": "User"}), 200, {}),
        ("missing", lambda: mini_res(no=Missing, name=Missing), 200, {}),
    ):
        simple(f"mini GET response {n}", lambda w, body=body, status=status, kw=kw: call(
            w.v["mini"]["GET"].dump_response, body=body(), status_code=status, **deepcopy(kw)),
            small=n in ("ok", "missing"))
    for key in (("tags.value", True), ("tags.value", False), ("id", True), ("id", False)):
        simple(f"mini GET response selected {key}", lambda w, key=key: call(
            w.v["mini"]["GET"].dump_response, body=mini_res(), status_code=200,
            presence_checker=w.checkers[key]), small=key[0] == "tags.value")
    simple("mini POST response", lambda w: call(
        w.v["mini"]["POST"].dump_response, body=mini_res(), status_code=201,
        headers={"Location": "https://e.c/Minis/m1"}))
    simple("mini POST response without header", lambda w: call(
        w.v["mini"]["POST"].dump_response, body=mini_res(), status_code=201))
    for n, ops in {
        "replace name": [{"op": "replace", "path": "name", "value": "q"}],
        "replace ro": [{"op": "replace", "path": "ro", "value": 3}],
        "remove name": [{"op": "remove", "path": "name"}],
        "remove color": [{"op": "remove", "path": "color"}],
        "filtered": [{"op": "replace", "path": 'tags[value eq "v"].primary', "value": True}],
        "filtered other case": [{"op": "replace", "path": 'tags[value eq "V"].primary', "value": True}],
        "filtered bad": [{"op": "add", "path": 'tags[value eq "v"]', "value": True}],
        "no path": [{"op": "add", "value": {"name": "q", "tags": [{"value": "z"}]}}],
        "no path bad": [{"op": "add", "value": {"ro": 5, "color": "blue"}}],
        "two": [{"op": "remove", "path": "tags"}, {"op": "add", "path": "TAGS", "value": [{"value": "a"}]}],
        "bad path": [{"op": "remove", "path": "tags["}],
    }.items():
        simple(f"mini PATCH {n}", lambda w, ops=ops: call(
            w.v["mini"]["PATCH"].parse_request, body=patch(*deepcopy(ops))),
            small=n in ("replace name", "filtered", "no path", "replace ro"))
    simple("mini PATCH response", lambda w: call(w.v["mini"]["PATCH"].dump_response, body=mini_res(), status_code=200))
    simple("mini PATCH response 204", lambda w: call(w.v["mini"]["PATCH"].dump_response, status_code=204))
    simple("DELETE response", lambda w: call(w.v["mini"]["DELETE"].dump_response, status_code=204), small=True)
    simple("DELETE response bad", lambda w: call(w.v["mini"]["DELETE"].dump_response, status_code=200))

    # ---- its twin
    for m in ("POST", "PUT"):
        simple(f"twin {m} of the other", lambda w, m=m: call(w.v["twin"][m].parse_request, body=mini_req()))
        simple(f"twin {m} own", lambda w, m=m: call(w.v["twin"][m].parse_request, body=mini_req(
            id="1", ro=3, name=1, no=["q"], color="blue", tags={"value": 1, "primary": "p"})))
    simple("twin GET response of the other", lambda w: call(
        w.v["twin"]["GET"].dump_response, body=mini_res(), status_code=200))
    simple("twin GET response own", lambda w: call(w.v["twin"]["GET"].dump_response, status_code=200, body=mini_res(
        ro=3, name=1, no=["q"], color="blue", tags={"value": 1, "primary": "p"})))
    for n, o in {"name": ("name", 5), "ro": ("ro", 3), "tags": ("tags.value", 3), "no": ("no", ["x"])}.items():
        simple(f"twin PATCH {n}", lambda w, o=o: call(
            w.v["twin"]["PATCH"].parse_request, body=patch({"op": "replace", "path": o[0], "value": o[1]})))
    simple("twin PATCH filtered", lambda w: call(w.v["twin"]["PATCH"].parse_request, body=patch(
        {"op": "replace", "path": 'tags[value eq "v"].primary', "value": True})))
    simple("twin describe", lambda w: described(w.twin))
    simple("twin list", lambda w: call(
        w.v["twin"]["LIST"].dump_response, status_code=200, body=list_of(mini_res(1), mini_res(2)),
        sorter=w.sorters["name", True], filter_=w.filters['name eq "a"']))
    simple("twin check presence", lambda w: snap(w.checkers["tags.value", True](
        SCIMDataContainer({"tags": SCIMDataContainer({"primary": "q"})}), w.twin.attrs, "RESPONSE")))
    # ---- built-in resource types
    simple("user POST", lambda w: call(w.v["user"]["POST"].parse_request, body=fx.user_request()))
    simple("user POST bare", lambda w: call(
        w.v["user"]["POST"].parse_request, body={"schemas": [fx.USER], "userName": "u", fx.ENT: {"division": "d"}}))
    simple("user PUT", lambda w: call(
        w.v["user"]["PUT"].parse_request,
        body=dict(fx.user_request(), id="1", groups=[{"value": "g"}], meta={"version": "1"})))
    simple("group POST", lambda w: call(w.v["group"]["POST"].parse_request, body=fx.group_request()))
    simple("thing POST", lambda w: call(w.v["thing"]["POST"].parse_request, body=fx.thing_request()))
    simple("thing POST bad", lambda w: call(
        w.v["thing"]["POST"].parse_request, body=dict(fx.thing_request(), color="x", shade_mv=["Dark", "LIGHT"])))
    simple("thing GET response", lambda w: call(
        w.v["thing"]["GET"].dump_response, body=fx.thing_response(), status_code=200))
    simple("thing GET response secret", lambda w: call(
        w.v["thing"]["GET"].dump_response, body=dict(fx.thing_response(), secret="s"), status_code=200))
    simple("user GET response", lambda w: call(
        w.v["user"]["GET"].dump_response, body=fx.user_response(), status_code=200, headers=dict(LOC)))
    for key in (("userName", True), ("userName", False), ("name.familyName,emails", True)):
        simple(f"user GET response selected {key}", lambda w, key=key: call(
            w.v["user"]["GET"].dump_response, body=fx.small_user_response(name={"familyName": "f"}),
            status_code=200, presence_checker=w.checkers[key]))
    simple("user PATCH", lambda w: call(w.v["user"]["PATCH"].parse_request, body=patch(
        {"op": "add", "path": "emails", "value": [{"value": "a"}]},
        {"op": "replace", "path": f"{fx.ENT}:manager.displayName", "value": "q"},
        {"op": "remove", "path": 'emails[type eq "work"]'})))
    simple("user PATCH extension", lambda w: call(w.v["user"]["PATCH"].parse_request, body=patch(
        {"op": "replace", "path": f"{fx.ENT}:division", "value": "q"},
        {"op": "replace", "path": f"{fx.ENT}:userName", "value": "q"})))
    # ---- queries
    queries = {
        "filter a": {"filter": 'userName eq "a"'}, "filter A": {"filter": 'userName eq "A"'},
        "filter name case": {"filter": 'USERNAME EQ "a"'},
        "filter bad": {"filter": 'userName eq'},
        "sort asc": {"sortBy": "userName"}, "sort desc": {"sortBy": "userName", "sortOrder": "descending"},
        "include": {"attributes": "userName,id"}, "exclude": {"excludeAttributes": "userName,id"},
        "both": {"attributes": ["a"], "excludeAttributes": ["b"]}, "page": {"count": "2", "startIndex": "3"},
        "empty": {}, "bad": {"count": "x", "sortBy": "a b", "attributes": "a b"},
    }
    for n, q in queries.items():
        simple(f"root query {n}", lambda w, q=q: call(w.root.parse_request, query_string=deepcopy(q)),
               small=n in ("filter a", "sort desc", "include", "both"))
    for n in ("include", "both", "empty"):
        simple(f"user GET query {n}", lambda w, n=n: call(
            w.v["user"]["GET"].parse_request, query_string=deepcopy(queries[n])))
    simple("schemas query", lambda w: call(w.schemas.parse_request, query_string={"filter": 'a eq "a"'}))
    for n, body in {
        "plain": {"filter": 'userName eq "a"', "count": 2, "attributes": ["userName"]},
        "sorted": {"sortBy": "userName", "sortOrder": "descending", "excludeAttributes": ["title"]},
        "bad": {"filter": "a b c", "count": "x"},
    }.items():
        simple(f"search {n}", lambda w, body=body: call(
            w.search.parse_request, body=dict(deepcopy(body), schemas=[fx.SEARCH])))
    # ---- list responses
    users = lambda: (mini_res(1, name="a", tags=[{"value": "v1", "primary": True}]), mini_res(2, name="b"))  # noqa
    for n, kw in {
        "plain": lambda w: {},
        "filter a": lambda w: dict(filter_=w.filters['name eq "a"']),
        "filter b": lambda w: dict(filter_=w.filters['name eq "b"']),
        "filter tags": lambda w: dict(filter_=w.filters['tags[primary eq true and value co "1"]']),
        "asc": lambda w: dict(sorter=w.sorters["name", True]),
        "desc": lambda w: dict(sorter=w.sorters["name", False]),
        "tags asc": lambda w: dict(sorter=w.sorters["tags", True]),
        "only": lambda w: dict(presence_checker=w.checkers["name", True]),
        "without": lambda w: dict(presence_checker=w.checkers["name", False]),
        "count": lambda w: dict(count=1), "start": lambda w: dict(start_index=1),
    }.items():
        def run(w, kw=kw):
            return call(w.root.dump_response, status_code=200, body=list_of(*users()), **kw(w))

        simple(f"list {n}", run)
    simple("list mixed", lambda w: call(
        w.root.dump_response, status_code=200, body=list_of(users()[1], fx.group_response(), users()[0])))
    simple("list unknown", lambda w: call(
        w.root.dump_response, status_code=200, body=list_of(users()[0], {"schemas": ["urn:q"]}, fx.small_user_response())))
    simple("list groups as users", lambda w: call(
        w.v["mini"]["LIST"].dump_response, status_code=200, body=list_of(fx.group_response())))
    simple("list minis", lambda w: call(
        w.v["mini"]["LIST"].dump_response, status_code=200, body=list_of(mini_res(1), mini_res(2)),
        sorter=w.sorters["name", True], filter_=w.filters['name eq "x" and tags[primary eq true]']), small=True)
    simple("list none", lambda w: call(w.v["mini"]["LIST"].dump_response, status_code=200, body=list_of()), small=True)
    # ---- bulk
    post = {"method": "POST", "path": "/Mini", "bulkId": "q", "data": mini_req()}
    for n, ops in {
        "post": [post], "post bad": [dict(post, data={"schemas": [MINI]})], "no bulkId": [
            {k: v for k, v in post.items() if k != "bulkId"}],
        "two": [post, {"method": "DELETE", "path": "/Mini/1"}], "put group": [
            {"method": "PUT", "path": "/Groups/1", "data": dict(fx.group_request(), id="1")}],
        "unknown": [dict(post, path="/Users")], "five": [post] * 5,
        "patch": [{"method": "PATCH", "path": "/Mini/1", "data": patch({"op": "remove", "path": "color"})}],
    }.items():
        simple(f"bulk {n}", lambda w, ops=ops: call(w.bulk.parse_request, body=bulk_req(*deepcopy(ops))))
        if n in ("post", "two"):
            simple(f"bulk limited {n}", lambda w, ops=ops: call(
                w.bulk1.parse_request, body=bulk_req(*deepcopy(ops), failOnErrors=1)))
    simple("bulk mini", lambda w: call(w.bulkm.parse_request, body=bulk_req(
        {"method": "POST", "path": "/Mini", "bulkId": "q", "data": mini_req()},
        {"method": "DELETE", "path": "/Mini/1"})), small=True)
    good = {"method": "PUT", "location": "https://e.c/Mini/m1", "status": "200",
            "response": mini_res(1, meta={"resourceType": "Mini", "location": "https://e.c/Mini/m1", "version": "v1"})}
    failed = {"method": "POST", "bulkId": "z", "status": "400",
              "response": {"schemas": [fx.ERROR], "status": "400", "scimType": "tooMany"}}
    for n, ops, kw in (
        ("ok", [good], {}), ("failed", [failed], {}), ("too many", [good, failed, failed], dict(fail_on_errors=1)),
        ("allowed", [good, failed, failed], dict(fail_on_errors=2)), ("bad", [dict(good, version="v9")], {}),
        ("deleted", [{"method": "DELETE", "status": "204", "location": "https://e.c/Mini/1"}], {}),
    ):
        simple(f"bulk response {n}", lambda w, ops=ops, kw=kw: call(
            w.bulk.dump_response, status_code=200, body=bulk_res(*deepcopy(ops)), **kw))
    # ---- errors and discovery
    for n, status, code in (("400", "400", 400), ("mismatch", "400", 404), ("500", "500", 500)):
        simple(f"error {n}", lambda w, status=status, code=code: call(
            w.error.dump_response, status_code=code, body={"schemas": [fx.ERROR], "status": status, "detail": "x"}),
            small=n == "mismatch")
    simple("describe user", lambda w: described(w.user))
    simple("describe thing", lambda w: described(w.thing))
    simple("describe mini", lambda w: described(w.mini), small=True)
    simple("schemas response", lambda w: call(
        w.schemas.dump_response, status_code=200, body=list_of(get_schema_rep(w.group))))
    simple("resource types response", lambda w: call(w.types.dump_response, status_code=200, body=list_of({
        "schemas": ["urn:ietf:params:scim:schemas:core:2.0:ResourceType"], "id": "User", "name": "User",
        "endpoint": "/Users", "schema": fx.USER, "schemaExtensions": [{"schema": fx.ENT, "required": True}],
        "meta": {"location": "https://example.com/v2/ResourceTypes/User", "resourceType": "ResourceType"}})))
    # ---- building blocks
    for text in ('userName eq "a"', 'userName eq "A"', "userName eq 'a'", "USERNAME eq \"a\"", 'userName eq "a" or x pr',
                 'userName eq "a or x pr"', 'emails[type eq "a"]', 'emails.type eq "a"', 'a eq 1', 'a eq "1"', 'a eq 1.0',
                 "a eq true", f'{fx.ENT}:a eq 1', "(a pr", "a pr and (b pr or c pr) and d[e pr or f eq ')']",
                 "a pr and (b pr or c pr) and d[e pr or f eq '(']", "not (a pr)", "a pr or b pr and c pr"):
        simple(f"parse filter {text}", lambda w, text=text: snap(Filter.parse(text)),
               small=text in ('userName eq "a"', "a eq 1", "not (a pr)", "a pr and (b pr or c pr) and d[e pr or f eq ')']",
                              "a pr and (b pr or c pr) and d[e pr or f eq '(']"))
    for text in ("name", "NAME", "name.familyName", "name.x", f"{fx.USER}:name", f"{fx.ENT}:name", "a b", "$ref"):
        simple(f"parse attribute {text}", lambda w, text=text: snap(AttrRep.parse(text)) + snap(
            w.user.attrs.get(AttrRep.parse(text)) is not None if AttrRep.parse(text) else None),
            small=text in ("name.familyName", f"{fx.ENT}:name"))
    for text in ("emails", 'emails[type eq "a"]', 'emails[type eq "A"]', 'emails[type eq "a"].value',
                 'emails[type eq "a"].VALUE', 'emails[', "emails.value"):
        simple(f"parse path {text}", lambda w, text=text: snap(PatchPath.parse(text)),
               small=text in ('emails[type eq "a"]', 'emails[type eq "A"]'))
    datas = {
        "a": {"userName": "a", "emails": [{"type": "work", "value": "v1"}]},
        "A": {"USERNAME": "A", "title": "t", "emails": [{"type": "home", "value": "v1"}, {"type": "work"}]},
        "none": {},
    }
    for n, data in datas.items():
        def match(w, data=data):
            out = []
            for f in w.filters.values():
                c = SCIMDataContainer(deepcopy(data))
                for strict in (True, False):
                    out.append(str(f(c, w.user, strict).status))
                out.append(c.to_dict())
            return snap(out)

        simple(f"match {n}", match, small=n == "A")
    for by, asc in (("userName", True), ("userName", False), ("emails", True), ("emails", False)):
        def sort(w, by=by, asc=asc):
            cs = [SCIMDataContainer(deepcopy(d)) for d in datas.values()]
            got = w.sorters[by, asc](cs, w.user)
            return snap([[i for i, c in enumerate(cs) if c is g or c == g] for g in got]) + snap(cs)

        simple(f"sort {by} {asc}", sort, small=by == "emails")
    for n in ("name", "id"):
        for inc in (True, False):
            def check(w, n=n, inc=inc):
                c = SCIMDataContainer(mini_res())
                return "".join(snap(w.checkers[n, inc](c, w.mini.attrs, d)) for d in ("REQUEST", "RESPONSE")) + snap(c)

            simple(f"check presence {n} {inc}", check, small=n == "id")
    simple("check presence bare", lambda w: snap(w.bare(SCIMDataContainer({}), w.mini.attrs, "REQUEST")), small=True)
    simple("check presence exempt", lambda w: snap(AttributePresenceChecker(
        ignore_required=[w.mini.attrs.name.rep])(SCIMDataContainer({}), w.mini.attrs, "REQUEST")), small=True)
    shared(datas)
    simple("email parse", lambda w: snap(w.attr_email.parse(
        [SCIMDataContainer({"value": "a", "type": "x"}), SCIMDataContainer({"value": 1})])))
    simple("color parse", lambda w: snap(w.attr_color.parse("blue")) + snap(w.attr_color.parse("rED")), small=True)
    simple("build schema", build_schema, small=False)
    simple("build attributes from own lists", own_lists)
    simple("extend own copy", extend_own)
    simple("collect issues", collect)
    simple("container", container)


def shared(datas):
    """One and the same filter, sorter, checker or attribute used for different schemas and directions."""
    kin = {
        "low": {"name": "a", "tags": [{"value": 2, "need": "q"}], "always": "w"},
        "up": {"name": "A", "secret": "s", KINX: {"name": 5, "tags": {"value": "1"}}, "tags": [{"value": 1, "secret": "x"}]},
    }
    for f in ('name eq "A"', "tags.value gt 1", f"{KINX}:name pr", 'tags[primary eq true and value co "1"]'):
        for schema in ("mini", "twin", "kin"):
            for d in kin:
                def match(w, f=f, schema=schema, d=d):
                    return str(w.filters[f](SCIMDataContainer(deepcopy(kin[d])), getattr(w, schema), False).status)

                simple(f"apply {f} to {d} as {schema}", match, small=schema == "kin" and d == "low")
    for asc in (True, False):
        for schema in ("mini", "twin", "kin"):
            def sort(w, schema=schema, asc=asc):
                cs = [SCIMDataContainer(dict(deepcopy(d), name=n)) for d in kin.values()
                      for n in ((5, 1) if schema == "twin" else ("b", "B", "a"))]
                got = w.sorters["name", asc](cs, getattr(w, schema))
                return snap([[i for i, c in enumerate(cs) if c is g] for g in got])

            simple(f"sort {schema} {asc}", sort, small=schema == "kin")
    for key in (("secret", True), ("secret", False), ("tags.secret,always", True), ("tags.secret,always", False), None):
        for schema in ("kin", "mini"):
            for direction in ("REQUEST", "RESPONSE"):
                def check(w, key=key, schema=schema, direction=direction):
                    checker = w.checkers[key] if key else w.bare
                    return snap(checker(SCIMDataContainer(deepcopy(kin["up"])), getattr(w, schema).attrs, direction))

                simple(f"presence {key} {schema} {direction}", check, small=schema == "kin")
    for text in ("name", f"{KINX}:name", f"{KIN}:name", "secret", f"{KINX}:secret", "tags", "tags.value", f"{KINX}:tags",
                 f"{KINX}:tags.value", f"{KINX}:tags.need", "tags.need", "TAGS.VALUE", "none"):
        def look(w, text=text):
            rep = AttrRep.parse(text)
            found = w.kin.attrs.get(rep)
            out = [found and snap(found.rep) + found.type.SCIM_NAME]
            c = SCIMDataContainer(deepcopy(kin["up"]))
            return snap(out) + snap(c[rep]) + snap(c)

        simple(f"look up {text}", look, small=text in ("name", f"{KINX}:name"))
    for n in kin:
        for m in ("POST", "PUT"):
            simple(f"kin {m} {n}", lambda w, n=n, m=m: call(
                w.v["kin"][m].parse_request, body=dict(deepcopy(kin[n]), schemas=[KIN, KINX])), small=True)
        simple(f"kin GET response {n}", lambda w, n=n: call(
            w.v["kin"]["GET"].dump_response, body=dict(deepcopy(kin[n]), schemas=[KIN, KINX], id="1"), status_code=200))
    for way in ("parse", "dump"):
        for n in kin:
            simple(f"kin {way} {n}", lambda w, n=n, way=way: snap(getattr(w.kin, way)(
                SCIMDataContainer(dict(deepcopy(kin[n]), schemas=[KIN, KINX])))))
            simple(f"kin tags {way} {n}", lambda w, n=n, way=way: snap(getattr(w.kin.attrs.tags, way)(
                [SCIMDataContainer(x) for x in kin[n]["tags"]] + [SCIMDataContainer({"need": 1})])))


def described(schema):
    rep = get_schema_rep(schema)
    text = snap(rep)
    scribble(rep)
    return text


def build_schema(w):
    """Definitions of one's own, sharing one attribute object with a second schema."""
    a = Attribute(name="shared", type_=at.String)
    c = ComplexAttribute(name="sharedC", sub_attributes=[Attribute(name="value", type_=at.Integer)], multi_valued=True)
    out = []
    for urn in ("urn:own:2.0:A", "urn:own:2.0:B"):
        class Own(ResourceSchema):
            pass

        s = Own(schema=urn, name=urn[-1], attrs=[a, c])
        s.with_extension(SchemaExtension("urn:own:2.0:X", attrs=[a, c], name="X"))
        body = {"schemas": [urn, "urn:own:2.0:X"], "shared": "q", "sharedC": [{"value": 1}],
                "urn:own:2.0:X": {"shared": "r", "sharedC": [{"value": "bad"}]}}
        out.append(s.parse(deepcopy(body)))
        out.append(get_schema_rep(s))
        out.append([s.schema, sorted(s.schemas), s.schema_extensions, s.name, s.plural_name])
    out.append(snap(a.rep) + snap([x.rep for x in c.attrs]))
    return snap(out)


def own_lists(w):
    """Lists handed to constructors stay the caller's."""
    steps = [upper_all]
    types, canon, dump = ["User"], ["Red", "b"], [upper_all]
    many = ComplexAttribute(name="m", sub_attributes=[Attribute(name="primary", type_=at.Boolean)], multi_valued=True,
                            complex_parsers=steps, complex_dumpers=dump)
    one = ComplexAttribute(name="o", sub_attributes=[Attribute(name="primary", type_=at.Boolean)],
                           complex_parsers=steps, complex_dumpers=dump)
    ref = Attribute(name="r", type_=at.SCIMReference, reference_types=types, canonical_values=canon,
                    validate_canonical_values=True)
    out = [many.parse([yes(), yes()]), one.parse(yes()), one.dump(yes()), many.dump([yes(), yes()]),
           ref.parse("B"), ref.parse("x"), ref.to_dict()]
    if (len(steps), len(dump), types, canon) != (1, 1, ["User"], ["Red", "b"]):
        raise Violation(f"lists given to constructors changed: {steps} {dump} {types} {canon}")
    described = ref.to_dict()
    for given in (types, canon):
        given.append("other")
    if ref.to_dict() != described or not ref.parse("other")[1].has_issues():
        raise Violation("changing a list given to a constructor changed the attribute")
    return snap(out)


def yes():
    return SCIMDataContainer({"primary": True})


def upper_all(value):
    return value, ValidationIssues()


def extend_own(w):
    s = Mini()
    s.with_extension(SchemaExtension("urn:ext:2.0:M", attrs=[Attribute(name="extra", type_=at.String, required=True)]))
    return snap(s.parse(mini_req(schemas=[MINI, "urn:ext:2.0:M"], **{"urn:ext:2.0:M": {"extra": 1}}))) + snap(
        sorted(s.schemas))


def collect(w):
    a, b = ValidationIssues(), ValidationIssues()
    a.add(issue=ValidationError.missing(), proceed=False, location=("x", 0))
    b.add(issue=ValidationError.bad_value_syntax(), proceed=True)
    b.merge(a, location=("body",))
    a.merge(b)
    c = a.pop(("x", 0), 15)
    return snap([x.to_dict(msg=True, ctx=True) for x in (a, b, c)]) + snap(
        [x.can_proceed(("body", "x", 0, "y")) for x in (a, b, c)])


def container(w):
    c = SCIMDataContainer({"a": {"b": 1}, "urn:x:y:z": {"q": [{"r": 1}]}})
    c["A.c"] = 2
    c["d"] = [1]
    del c["a.B"]
    return snap(c) + snap(c["a.b"]) + snap(SCIMDataContainer()["a"])


_fill()
