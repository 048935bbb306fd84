"""Families of calls that differ in one detail, for the histories of C21.

A family is a function of a parameter; all of its calls use one shared World (or objects made on the spot and
dropped again).  What an earlier call may leave behind is told apart by: values that are equal but of another
type, texts in another letter case, objects at re-used addresses, and more distinct inputs than a table holds.
"""
from copy import deepcopy

from mc import fixtures as fx
from mc.ops import MINI, Mini, call, list_of, mini_req, mini_res, patch, snap
from src import request_validators as rv
from src.attributes_presence import AttributePresenceChecker
from src.data import type as at
from src.data.attributes import Attribute, AttributeMutability, AttributeReturn, ComplexAttribute
from src.data.container import AttrRep, SCIMDataContainer
from src.data.path import PatchPath
from src.data.schemas import ResourceSchema, SchemaExtension, get_schema_rep
from src.filter import Filter
from src.sorter import Sorter

# ---- values that are equal (or look equal) but are not the same

VALUES = [1, True, 1.0, "1", "true", "True", 0, False, 0.0, -0.0, "", None, [], {}, "0", 2, 2.0, 1.5, "1.0", -1, 10**16,
          1e16, 10**16 + 1]
LIKE = ["2020-01-01T00:00:00Z", "2020-01-01T00:00:00+00:00", "2020-01-01T00:00:00z", "2020-01-01T01:00:00+01:00",
        "2020-01-01T00:00:00", "https://h/a", "HTTPS://h/a", "https://h/A", "h/a", "YQ==", "yq==", "YQ=", "YQ",
        "urn:a:b", "URN:A:B", "\u00e9", "e\u0301", "stra\u00dfe", "STRASSE", "K", "\u212a", "k", " k", "k "]
TYPES = {t.__name__: t for t in (at.Boolean, at.Integer, at.Decimal, at.String, at.Binary, at.DateTime,
                                 at.ExternalReference, at.URIReference, at.SCIMReference)}


def _attr(name, type_, mv=False, **kw):
    return Attribute(name=name, type_=type_, multi_valued=mv, **kw)


SHARED = {}


def shared_attr(type_name, kind):
    """One attribute object of each kind, made before the history starts."""
    key = type_name, kind
    if key not in SHARED:
        t = TYPES[type_name]
        if kind == "plain":
            SHARED[key] = _attr("a", t)
        elif kind == "many":
            SHARED[key] = _attr("a", t, mv=True)
        elif kind == "canonical":
            canon = {"Boolean": [True], "Integer": [1, 2], "Decimal": [1.0, 1.5]}.get(type_name, ["k", "1", "h/a"])
            SHARED[key] = _attr("a", t, canonical_values=canon, validate_canonical_values=True)
        else:
            SHARED[key] = ComplexAttribute(name="c", sub_attributes=[_attr("value", t), _attr("primary", at.Boolean)],
                                           multi_valued=True)
    return SHARED[key]


def value_call(type_name, kind, direction, value):
    a = shared_attr(type_name, kind)
    value = deepcopy(value)
    if kind == "many":
        value = [value, "z", value]
    elif kind == "complex":
        value = [SCIMDataContainer({"value": value}), SCIMDataContainer({"value": value, "primary": value})]
    return snap(a.parse(value) if direction == "parse" else a.dump(value))


def value_families():
    for t in TYPES:
        for kind in ("plain", "many", "canonical", "complex"):
            for direction in ("parse", "dump"):
                yield t, kind, direction


FILTER_DATA = [{"name": "k"}, {"name": "K"}, {"n": 1}, {"n": 0}, {"n": 1.5}, {"b": True}, {"b": False}, {"name": "1"},
               {"name": ""}, {}, {"name": "\u212a"}, {"d": "2020-01-01T00:00:00Z"}]


class Flat(ResourceSchema):
    def __init__(self, urn="urn:t:2.0:Flat", **kw):
        super().__init__(schema=urn, name="Flat", attrs=[
            _attr("name", at.String, **kw), _attr("n", at.Decimal), _attr("i", at.Integer), _attr("b", at.Boolean),
            _attr("d", at.DateTime),
            ComplexAttribute(name="c", multi_valued=True, sub_attributes=[_attr("value", at.String, **kw),
                                                                       _attr("n", at.Decimal)]),
        ])


FLAT, EXACT = Flat(), Flat(case_exact=True)
FILTERS = ["n eq 1", "n eq true", "n eq 1.0", 'n eq "1"', "n eq 0", "n eq false", "n eq 0.0", "n eq -0", "n gt 0",
           'name eq "k"', 'name eq "K"', 'name eq "1"', "name eq 1", 'name eq ""', "name eq null", "b eq true",
           "b eq false", "b eq 1", 'b eq "true"', "b pr", "n pr", "name pr", 'NAME EQ "k"', 'name Eq "K"', 'name sw "K"',
           'name co "k"', 'name ew "\u212a"', 'd eq "2020-01-01T00:00:00Z"', 'd eq "2020-01-01T01:00:00+01:00"',
           'd ge "2020-01-01T00:00:00Z"', "not (n eq 1)", "n eq 1 or b eq 1", "n eq 1 and n eq 1.0", 'c[value eq "k"]',
           "c[n eq 1]", "c[n eq true]", 'c.value eq "k"', "n eq", "n xx 1", "(n eq 1", 'name eq "k', "n  eq  1", " n eq 1"]


def filter_call(schema, text):
    parsed, issues = Filter.parse(text)
    out = [snap(issues.to_dict(msg=True, ctx=True))]
    if not issues.has_issues():
        out.append(repr(parsed.to_dict()))
        for data in FILTER_DATA:
            r = parsed(SCIMDataContainer(data), {"flat": FLAT, "exact": EXACT}[schema])
            out.append(repr((r.status, )))
        out.append(repr(parsed.to_dict()))
    return "\n".join(out)


# ---- objects that are made, used once and dropped

def drop_schema(i):
    urn = f"urn:t:2.0:Drop{i % 2}"
    ext = f"urn:t:2.0:X{i}"

    class Drop(ResourceSchema):
        pass

    s = Drop(schema=urn, name=f"Drop{i % 3}", attrs=[
        _attr(f"a{i}", (at.String, at.Integer)[i % 2], required=i % 3 == 0), _attr("b", (at.Integer, at.String)[i % 2]),
        ComplexAttribute(name="c", multi_valued=i % 2 == 0, sub_attributes=[_attr(f"s{i}", at.String), _attr("primary", at.Boolean)]),
    ])
    s.with_extension(SchemaExtension(ext, name=f"X{i}", attrs=[_attr("x", (at.Integer, at.String)[i % 2])]), required=i % 3 == 1)
    body = {"schemas": [urn, ext], f"a{i}": "v", "b": "v", "c": [{f"s{i}": "v", "primary": True}, {"primary": True}],
            ext: {"x": "v"}, "urn:t:2.0:X0": 5, "urn:t:2.0:X1": 5}
    one = s.parse(SCIMDataContainer(deepcopy(body)))
    post = rv.ResourcesPOST(fx.CONFIG, resource_schema=s)
    two = post.parse_request(body=deepcopy(body))
    three = rv.ResourcesGET(fx.CONFIG, resource_schema=s).parse_request(query_string={"attributes": f"a{i},x"})
    bulk = rv.BulkOperations(fx.CONFIG, resource_schemas=[s])
    four = bulk.parse_request(body={"schemas": [fx.BULK_REQ], "Operations": [
        {"method": "POST", "path": f"/Drop{k}", "bulkId": "1", "data": deepcopy(body)} for k in range(3)]})
    return snap(one) + snap([two[1].to_dict(), three[1].to_dict(), four[1].to_dict()]) + snap(get_schema_rep(s)) + snap(
        [s.name, s.plural_name, s.schema, s.schemas, repr(s.attrs.get(AttrRep(attr=f"a{i}"))), repr(s.attrs.get(AttrRep(attr="a0")))])


def drop_attr(i):
    canon = [["a", "B"], ["b"], None, ["c"]][i % 4]
    a = _attr("a", (at.String, at.String, at.Integer, at.Boolean)[i % 4], mv=i % 2 == 1, required=i % 3 == 0,
              canonical_values=canon if i % 4 < 2 else None, validate_canonical_values=i % 4 < 2,
              case_exact=i % 5 == 0, mutability=list(AttributeMutability)[i % 4], returned=list(AttributeReturn)[i % 4])
    return snap([a.parse(v) for v in ("a", "B", "b", 1, True, ["b"], ["a", "A"], [1])]) + snap(a.to_dict())


def drop_filter(i):
    text = ['name eq "k"', "n gt 0", 'c[value eq "k" and n eq 1]', "not (name pr)", 'name eq "K"'][i % 5]
    f = Filter.parse(text)[0]
    g = Filter(f.operator)
    out = [repr((f(SCIMDataContainer(d), s).status)) for d in FILTER_DATA for s in (FLAT, EXACT)]
    return repr(f.to_dict()) + repr(out) + repr([f == g, f == Filter.parse('name eq "k"')[0]])


def drop_sorter(i):
    by = ["name", "n", "NAME", "c", "c.n"][i % 5]
    s = Sorter(AttrRep.parse(by), i % 2 == 0)
    data = [SCIMDataContainer(d) for d in (
        {"name": "b", "n": 1, "c": [{"value": "x", "n": 2}]}, {"name": "A", "n": 3}, {"n": 2, "c": [{"value": "B", "n": 1}]},
        {"name": "a"}, {"name": "B", "n": 0})]
    return snap([[x.to_dict() for x in s(data, schema=z)] for z in (FLAT, EXACT)])


def drop_checker(i):
    names = ["name", "n", "c.value", "c", "id,n", ""][i % 6]
    c = AttributePresenceChecker([AttrRep.parse(x) for x in names.split(",") if x], [True, False][i % 2],
                                 ignore_required=[AttrRep(attr="id")] if i % 3 else [])
    data = {"schemas": ["urn:t:2.0:Flat"], "name": "k", "n": 1, "c": [{"value": "x"}, {"n": 1}]}
    return snap([c(SCIMDataContainer(data), FLAT.attrs, d).to_dict() for d in ("REQUEST", "RESPONSE")])


def drop_container(i):
    c = SCIMDataContainer({"a": i, "B": {"c": str(i)}, "urn:t:2.0:X": {"d": [i]}})
    c["b.e"] = i
    c["urn:t:2.0:X:f" if i % 2 else "urn:t:2.0:x:F"] = i
    return snap(c) + snap([c["A"], c["b"], c["B.C"], c["urn:t:2.0:X:D"], c["nope"], c["b.nope"]]) + repr(
        c == SCIMDataContainer({"a": 0}))


def drop_endpoint(i):
    s = Mini(name=("Mini", "Maxi", "Mini")[i % 3])
    cfg = fx.config(1 + i % 2)
    out = [call(rv.ResourcesPOST(cfg, resource_schema=s).parse_request, body=mini_req()),
           call(rv.ServerRootResourceGET(cfg, resource_schemas=[s, FLAT][:1 + i % 2]).dump_response, status_code=200,
                body=list_of(mini_res(), {"schemas": ["urn:t:2.0:Flat"], "id": "1", "name": "x"})),
           call(rv.BulkOperations(cfg, resource_schemas=[s]).parse_request, body={
               "schemas": [fx.BULK_REQ], "Operations": [
                   {"method": "POST", "path": p, "bulkId": p, "data": mini_req()} for p in ("/Mini", "/Maxi")]}),
           call(rv.ResourceObjectPATCH(cfg, resource_schema=s).parse_request, body=patch(
               {"op": "add", "path": "name", "value": i % 2 or "x"}))]
    return "\n".join(map(str, out))


DROP = {f.__name__: f for f in (drop_schema, drop_attr, drop_filter, drop_sorter, drop_checker, drop_container,
                                drop_endpoint)}


# ---- many distinct inputs

def many_filter_text(w, k):
    return filter_call("flat", f'name eq "k{k}" or n eq {k}')


def many_filter_name(w, k):
    f, issues = Filter.parse(f"a{k}.b{k} pr and c[d{k} eq {k}]")
    return repr(f.to_dict()) + snap(issues.to_dict())


def many_reps(w, k):
    return repr([(r.schema, r.attr, r.sub_attr, r == AttrRep.parse("a1")) for r in (
        AttrRep.parse(f"a{k}"), AttrRep.parse(f"A{k}.b{k}"), AttrRep.parse(f"urn:x:{k}:y:a.B{k}"))])


def many_paths(w, k):
    p, issues = PatchPath.parse(f'c[value eq "{k}" and n eq {k}].n')
    return repr((p.attr_rep, p.complex_filter.to_dict(), p.complex_filter_attr_rep)) + snap(issues.to_dict())


def many_strings(w, k):
    return snap([shared_attr("String", kind).parse(f"v{k}" if kind != "many" else [f"v{k}"]) for kind in ("plain", "many")]
                + [shared_attr("String", "canonical").parse(f"{k}")])


def many_numbers(w, k):
    return snap([shared_attr(t, "plain").parse(v) for t in ("Integer", "Decimal", "Boolean")
                 for v in (k, float(k), k + 0.5, str(k), k % 2 == 0)])


def many_urls(w, k):
    return snap([shared_attr(t, "plain").parse(v) for t in ("ExternalReference", "URIReference", "SCIMReference", "Binary")
                 for v in (f"https://h/{k}", f"h{k}", f"h/{k}", f"{k:04d}", f"{k}")])


def many_dates(w, k):
    return snap([shared_attr("DateTime", "plain").parse(v) for v in (
        f"{1000 + k}-02-29T00:00:00Z", f"2020-01-01T00:00:{k % 75:02d}+01:00", f"{k}")])


def many_posts(w, k):
    return call(w.v["mini"]["POST"].parse_request, body=mini_req(name=f"n{k}" if k % 3 else k, color=("red", "no")[k % 2],
                                                                 tags=[{"value": str(k)}, {"value": k}][:1 + k % 2]))


def many_patches(w, k):
    return call(w.v["mini"]["PATCH"].parse_request, body=patch(
        {"op": "replace", "path": f'tags[value eq "{k}"].value', "value": str(k) if k % 2 else k},
        {"op": "add", "path": f"x{k % 3}" if k % 4 == 0 else "name", "value": f"{k}"}))


def many_queries(w, k):
    return call(w.v["mini"]["LIST"].parse_request, query_string={
        "filter": f'name eq "{k}"', "count": str(k), "sortBy": f"tags.v{k}", "attributes": f"a{k},b.c{k}"})


def many_lists(w, k):
    return call(w.v["mini"]["LIST"].dump_response, status_code=200, body=list_of(
        mini_res(k), mini_res(k + 1, name=k if k % 3 == 0 else f"{k}")), filter_=Filter.parse(f'name ne "{k}"')[0])


def many_gets(w, k):
    return call(w.v["mini"]["GET"].dump_response, status_code=200, body=mini_res(k, name=f"{k}"),
                presence_checker=AttributePresenceChecker.parse([f"a{k}", "name"], k % 2 == 0)[0])


def many_bulks(w, k):
    return call(w.bulk.parse_request, body={"schemas": [fx.BULK_REQ], "failOnErrors": k, "Operations": [
        {"method": "POST", "path": "/Mini", "bulkId": f"b{k}", "data": mini_req(name=f"{k}" if k % 2 else k)},
        {"method": "DELETE", "path": f"/{'Mini' if k % 3 else f'M{k}'}/{k}"}]})


def many_errors(w, k):
    return call(w.error.dump_response, status_code=400 + k % 3, body={
        "schemas": [fx.ERROR], "status": str(400 + k % 5), "detail": f"d{k}"})


def many_names(w, k):
    a = w.mini.attrs
    return repr([repr(a.get(AttrRep.parse(x))) for x in (f"a{k}", "name", f"tags.v{k}", "tags.value", f"urn:x:{k}:y:name",
                                                         f"{MINI}:name")])


def many_sorts(w, k):
    s = Sorter.parse(f"a{k}" if k % 2 else "name", k % 3 == 0)[0]
    data = [SCIMDataContainer({"name": f"{(k * 7 + j) % 5}", "id": str(j)}) for j in range(4)]
    return snap([x.to_dict() for x in s(data, schema=w.mini)])


MANY = {f.__name__: f for f in (
    many_filter_text, many_filter_name, many_reps, many_paths, many_strings, many_numbers, many_urls, many_dates,
    many_posts, many_patches, many_queries, many_lists, many_gets, many_bulks, many_errors, many_names, many_sorts)}
for _t in TYPES:
    for _k in ("plain", "many", "canonical", "complex"):
        shared_attr(_t, _k)
