"""C14: responses carrying a list of resources."""
import functools
import itertools
from copy import deepcopy

from mc import chars
from mc import fixtures as fx
from mc import ref_eval as re_
from mc import ref_filter as rf
from mc import ref_http as rh
from mc import ref_schema as rs
from mc import ref_sort
from mc.engine import Space, expect, short
from mc.lib import check_issues, check_value, lib_schema
from mc.ref_schema import A, C, R
from mc.sizes import places, sizes
from src import request_validators as rv
from src.attributes_presence import AttributePresenceChecker
from src.data.container import AttrRep
from src.filter import Filter
from src.sorter import Sorter

PROPERTY = {
    "title": "List responses are released exactly when they answer the query",
    "statement": (
        "For every list response (all resources, one resource type, search), a body is handed over "
        "exactly when there is no issue, and then holds the dumped data of every resource, in order. "
        "An issue is reported exactly for: a status other than 200; a missing or malformed "
        "totalResults, startIndex or itemsPerPage, itemsPerPage unequal to the number of resources, "
        "fewer or (without paging) more total results than resources, more resources than the "
        "requested count, missing paging information when only part is returned, a start index beyond "
        "the requested one; and, at its own position in the list, each resource of unknown schema, "
        "with invalid data, not matching the query's filter, or with attributes that must not be "
        "returned or are missing. A list that is not in the requested order is reported."
    ),
    "quantifier": {
        "over": ["inputs", "configurations"],
        "text": "all combinations of paging values in small ranges; all lists of up to 2-3 resources "
                "over an alphabet of valid and invalid resources of two schemas, against all filters, "
                "sort orders and selections of an alphabet",
    },
    "why_tests_cant": (
        "Each test fixes one list and one query; the checks interact (paging numbers with list length, "
        "schema choice, filter, order and selection with every position), so a missed resource needs "
        "a particular combination."
    ),
    "anchors": {
        "files": ["src/request_validators.py", "src/assets/schemas/list_response.py",
                  "src/sorter.py", "src/filter.py", "src/attributes_presence.py"],
        "mechanism": [
            {"name": "_dump_resources_get_response, validate_*", "where": "src/request_validators.py"},
            {"name": "ListResponse.dump", "where": "src/assets/schemas/list_response.py"},
        ],
        "observe_at": ["ServerRootResourceGET / ResourcesGET / SearchRequestPOST .dump_response"],
    },
}

MA, XA, MB = "urn:t:2.0:La", "urn:t:2.0:LaExt", "urn:t:2.0:Lb"
TA = rs.S(
    urn=MA, name="La", plural="Las",
    attrs=rs.COMMON + (
        A("n", "integer"), A("s"), A("cs", ce=True), A("when", "dateTime"), A("secret", ret="never"),
        A("need", req=True),
        C("m", A("value"), A("type"), A("primary", "boolean"), mv=True),
    ),
    exts=((XA, (A("x"), A("xn", "integer"))),),
)
TB = rs.S(urn=MB, name="Lb", plural="Lbs", attrs=rs.COMMON + (A("n", "integer"), A("s"), C("c", A("v"))))
LIB = {MA: lib_schema(TA), MB: lib_schema(TB)}
MODEL = {MA: ref_sort.model(TA), MB: ref_sort.model(TB)}


def make_endpoints():
    a, b = LIB[MA], LIB[MB]
    return {
        "one": ([TA], rv.ResourcesGET(fx.CONFIG, resource_schema=a)),
        "two": ([TA, TB], rv.ServerRootResourceGET(fx.CONFIG, resource_schemas=[a, b])),
        "swapped": ([TB, TA], rv.ServerRootResourceGET(fx.CONFIG, resource_schemas=(b, a))),
        "search": ([TA, TB], rv.SearchRequestPOST(fx.CONFIG, resource_schemas=[a, b])),
        "search one": ([TA], rv.SearchRequestPOST(fx.CONFIG, resource_schemas=[a])),
    }


ENDPOINTS = make_endpoints()


def matcher(text):
    if text is None:
        return None
    tree = rf.parse(text)
    return lambda s, resource: re_.evaluate(tree, MODEL[s.urn], resource, False) == "T"


def conform(endpoint, body, ctx, status=200, start_index=1, count=None, filter_=None, sort=None,
            refs=(), include=None, headers=None):
    schemas, validator = ENDPOINTS[endpoint] if isinstance(endpoint, str) else endpoint
    endpoint = endpoint if isinstance(endpoint, str) else "special"
    want, want_issues = rh.list_response(schemas, status, body, start_index, count, matcher(filter_),
                                         sort, refs, include)
    kw = {}
    if start_index != 1:
        kw["start_index"] = start_index
    if filter_ is not None:
        kw["filter_"] = Filter.parse(filter_)[0]
    if sort is not None:
        ref, asc = sort
        kw["sorter"] = Sorter(AttrRep(ref.urn, ref.attr, ref.sub), asc)
    if refs or include is not None:
        kw["presence_checker"] = AttributePresenceChecker(
            [AttrRep(r.urn, r.attr, r.sub) for r in refs], include)
    given = deepcopy(body)
    ctx.step()
    data, issues = validator.dump_response(status_code=status, body=given, headers=headers,
                                           count=count, **kw)
    what = (f"{endpoint} status {status} startIndex {start_index} count {count} filter {filter_} "
            f"sort {sort} attributes {refs, include} body {short(body, 900)}")
    check_issues(issues, want_issues, what)
    if want is None:
        expect(data.body is None, "%s: body in spite of issues", what)
    else:
        check_value(data.body, want, what)
    expect(data.headers == headers, "%s: headers changed", what)
    expect(given == body, "%s: the given body was modified", what)
    ctx.state((endpoint, repr(body), status, start_index, count, filter_, repr(sort), repr(refs),
               include))
    ctx.outcome(tuple(sorted({c for _, c in want_issues})))


def la(i, **kw):
    return dict({"schemas": [MA], "id": str(i), "need": "x"}, **kw)


def lb(i, **kw):
    return dict({"schemas": [MB], "id": str(i)}, **kw)


def body_of(resources, **kw):
    n = len(resources)
    return dict({"schemas": [fx.LIST], "totalResults": n, "startIndex": 1, "itemsPerPage": n,
                 "Resources": deepcopy(resources)}, **kw)


ABSENT = object()
RESOURCES = [
    la(1), lb(2), la(3, s="b", n=1), lb(4, s="A", n=0), la(5, secret="s"),
    dict(la(6), schemas=[MA, XA], **{XA: {"x": "1"}}), dict(la(7), schemas=[MA.upper()]),
    dict(la(8), **{XA: {"x": "1"}}), {"schemas": [MA], "id": "9"}, dict(lb(10), id=None),
    dict(la(11), schemas=["urn:no"]), dict(la(12), schemas=[MA, "urn:no"]), dict(la(13), schemas=[MA, MB]),
    dict(la(14), schemas=[]), {"id": "15"}, dict(la(16), schemas=MA), dict(la(17), schemas=[MA, 5]),
    la(18, n="1"), lb(19, c={"v": 1}), la(20, when=fx.dt()), la(21, when="2020"), None, 5, "x", [], {},
    [la(22)], la(23, m=[{"primary": True}, {"primary": True}]), la(24, need=""), dict(la(25), SCHEMAS=[MB]),
    la(26, meta={"resourceType": "La"}), la(27, meta={"resourceType": "Lb"}),
    lb(28, meta={"resourceType": "La", "location": 5}), dict(lb(29), schemas=[XA]), lb(30, need=5),
]


def spaces(tier):
    thorough = tier == "thorough"
    small = [la(1), la(2), la(3), la(4)]
    totals = [ABSENT, None, 0, 1, 2, 3, "2", True, 2.0, -1]
    pages = [ABSENT, None, 0, 1, 2, 3, "2", False]
    starts = [ABSENT, None, 0, 1, 2, 3, "1", -1]
    counts = [None, 0, 1, 2, 3]

    def paging():
        for n in (None, 0, 1, 2, 3):
            for total, page, start in itertools.product(totals, pages, starts):
                for count in counts:
                    for start_param in (1, 2):
                        yield "one", n, total, page, start, count, start_param
        for endpoint in ENDPOINTS:
            for n, total, page, start in itertools.product((None, 0, 2), (ABSENT, 1, 2, 3), (ABSENT, 1, 2),
                                                           (ABSENT, 1, 2)):
                for count in counts:
                    for start_param in (1, 2):
                        yield endpoint, n, total, page, start, count, start_param

    def run_paging(case, ctx):
        endpoint, n, total, page, start, count, start_param = case
        body = {"schemas": [fx.LIST]}
        for name, v in (("totalResults", total), ("itemsPerPage", page), ("startIndex", start)):
            if v is not ABSENT:
                body[name] = v
        if n is not None:
            body["Resources"] = small[:n]
        conform(endpoint, body, ctx, start_index=start_param, count=count)

    nmax = 3 if thorough else 2

    def lists():
        for n in range(nmax + 1):
            pool = RESOURCES if n < 3 else RESOURCES[:6] + RESOURCES[8:11] + [None]
            for combo in itertools.product(pool, repeat=n):
                for endpoint in ENDPOINTS:
                    if n == 2 and not thorough and endpoint.startswith("search"):
                        continue
                    yield endpoint, combo
        for n in (4, 9):
            for pos in range(n):
                for resource in (RESOURCES[4], RESOURCES[10], RESOURCES[17], None):
                    for endpoint in ENDPOINTS:
                        yield endpoint, tuple(resource if i == pos else RESOURCES[0] for i in range(n))

    def run_list(case, ctx):
        endpoint, combo = case
        conform(endpoint, body_of(list(combo)), ctx, count=None)

    good = [la(1), la(2, s="b", n=1), la(3, s="A", n=0, cs="b"), lb(4, s="a", n=2), lb(5, c={"v": "q"}),
            la(6, when=fx.dt(), m=[{"value": "w", "primary": True}]),
            dict(la(7, m=[{"value": "V"}, {"value": "a", "type": "t", "primary": True}], cs="B"),
                 schemas=[MA, XA], **{XA: {"x": "b", "xn": 3}})]
    filters = ["n eq 1", "s pr", 's eq "a"', "not (n eq 1)", 'm[value eq "w"]', "n gt 0 and s pr",
               f'{XA}:x eq "B"', "nosuch eq 1", f'{MA}:s eq "b" or {MB}:c.v eq "q"', 'cs eq "b"',
               'when gt "2000-01-01T00:00:00Z"', "secret pr"]
    sorts = [(R("n"), True), (R("n"), False), (R("s"), True), (R("s"), False), (R("cs"), True),
             (R("m"), True), (R("m", "type"), False), (R("x", "", XA), True), (R("xn", "", XA), False),
             (R("when"), True), (R("c", "v"), True), (R("nosuch"), True), (R("S", "", MB), True),
             (R("id"), False)]
    selections = [((R("s"),), True), ((R("s"),), False), ((R("need"),), False), ((R("M", "value"),), True),
                  ((R("x", "", XA),), True), ((R("x", "", XA),), False), ((R("c"),), False),
                  ((R("id"),), False), ((R("n", "", MB),), True), ((R("m", "type"), R("n")), False),
                  ((R("schemas"),), False), ((), True)]
    qmax = 4 if thorough else 3

    def queries():
        for n in range(1, qmax + 1):
            for combo in itertools.permutations(range(len(good)), n):
                for q in range(len(filters)):
                    if n < 3 or thorough:
                        yield "filter", combo, q
                for q in range(len(sorts)):
                    yield "sort", combo, q
                if n < 3 or thorough:
                    for q in range(len(selections)):
                        yield "select", combo, q

    def run_query(case, ctx):
        kind, combo, q = case
        resources = [good[i] for i in combo]
        body = body_of(resources)
        for endpoint in ("two", "search") if len(combo) < 3 else ("two",):
            if kind == "filter":
                conform(endpoint, body, ctx, filter_=filters[q])
            elif kind == "sort":
                conform(endpoint, body, ctx, sort=sorts[q])
            else:
                conform(endpoint, body, ctx, refs=selections[q][0], include=selections[q][1])

    def joint():
        rest = [RESOURCES[4], RESOURCES[10], RESOURCES[17], RESOURCES[8]]
        for combo in itertools.product(good[:3] + good[3:4] + rest, repeat=2):
            for f in (None, filters[1], filters[3]):
                for s in (None, sorts[0], sorts[3]):
                    for refs, include in (((), None), selections[0], selections[2]):
                        for total, count in ((2, None), (2, 1), (3, 2), (1, 5)):
                            yield combo, f, s, refs, include, total, count, 200
        for status in (199, 201, 204, 400):
            yield (good[0],), None, None, (), None, 1, None, status
            yield (good[0],), filters[0], sorts[0], (), None, 2, 3, status

    def run_joint(case, ctx):
        combo, f, s, refs, include, total, count, status = case
        for endpoint in ("two",) if not thorough else ("two", "one", "search"):
            conform(endpoint, body_of(list(combo), totalResults=total), ctx, filter_=f, sort=s, refs=refs,
                    include=include, count=count, status=status)

    def shapes():
        for endpoint in ENDPOINTS:
            for body in (None, {}, [], 5, "x", [{}]):
                yield endpoint, body
            for resources in (None, {}, "x", 5, {"0": la(1)}, True):
                yield endpoint, body_of([], Resources=resources)
                yield endpoint, body_of([], Resources=resources, totalResults="x", startIndex=5)
            for uris in (ABSENT, None, [], [fx.LIST.upper()], [fx.LIST, "urn:x"], ["urn:x"], fx.LIST, [5]):
                body = body_of([la(1)], schemas=uris, unknown=1)
                if uris is ABSENT:
                    del body["schemas"]
                yield endpoint, body
            yield endpoint, {"SCHEMAS": [fx.LIST], "TOTALRESULTS": 1, "resources": [la(1)],
                             "startindex": 1, "ITEMSperPage": 1}

    def run_shape(case, ctx):
        endpoint, body = case
        for status in (200, 500):
            conform(endpoint, body, ctx, status=status, headers={"X": "y"})

    patterns = {
        "filter": (la(1, n=1), la(2, n=2), dict(filter_="n eq 1")),
        "forbidden": (la(1, n=1), la(2, secret="s"), {}),
        "missing": (la(1, n=1), la(2, need=None), {}),
        "unselected": (la(1, n=1), la(2, s="x"), dict(refs=(R("n"), R("need")), include=True)),
        "order": (la(1, n=1), la(2, n=2), dict(sort=(R("n"), True))),
        "malformed": (la(1, n=1), la(2, n="x"), {}),
        "unknown": (la(1, n=1), dict(la(2), schemas=["urn:no"]), {}),
        "other": (la(1, n=1), lb(2, n=2), dict(filter_="n eq 1", sort=(R("n"), False))),
    }
    pmax = 9 if thorough else 7

    def masks():
        for kind in patterns:
            for n in range(1, pmax + 1):
                for mask in itertools.product((0, 1), repeat=n):
                    yield kind, mask
            for n in (11, 12, 20):
                for i, j in itertools.combinations(range(n), 2):
                    yield kind, tuple(int(k in (i, j)) for k in range(n))

    def run_mask(case, ctx):
        kind, mask = case
        pair = patterns[kind]
        conform("two", body_of([pair[b] for b in mask]), ctx, **pair[2])

    def same_ids():
        """resources of different types (or broken servers) share identifiers; each counts for itself"""
        pool = [dict(g, id="1") for g in good] + [dict(good[3], id="2")]
        for n in (2, 3):
            for combo in itertools.permutations(range(len(pool)), n):
                for q in range(len(sorts)):
                    yield "sort", [pool[i] for i in combo], q
                if n == 2:
                    for q in range(len(filters)):
                        yield "filter", [pool[i] for i in combo], q
        for resource in good:
            for q in range(len(sorts)):
                yield "sort", [resource, resource], q

    def run_same(case, ctx):
        kind, resources, q = case
        kw = {"filter_": filters[q]} if kind == "filter" else {"sort": sorts[q]}
        conform("two", body_of(resources), ctx, **kw)

    def long_lists():
        for kind in patterns:
            for n in sizes(1001 if thorough else 257, 21):
                if not thorough and n > 130 and n not in (199, 200, 201, 255, 256, 257):
                    continue
                yield kind, n, None
                for at in places(n):
                    yield kind, n, at

    def run_long(case, ctx):
        kind, n, at = case
        first, second, kw = patterns[kind]
        resources = [dict(second if i == at else first, id=str(i)) for i in range(n)]
        conform("two", body_of(resources), ctx, **kw)

    def run_chars(case, ctx):
        place, dev = case
        s, lib, x, parent = chars.build(place, dev)
        endpoint = [s], rv.ResourcesGET(fx.CONFIG, resource_schema=lib)
        values = [v for v in chars.values(place, x, parent, dump=True) if not chars.open_case(x, parent, v)]
        bodies = [chars.body(place, x, parent, v) for v in values]
        for i, (refs, include) in enumerate(chars.selections(case, thorough)):
            if i == 0:
                for b in bodies:
                    conform(endpoint, body_of([b]), ctx)
                if len(bodies) > 2:
                    conform(endpoint, body_of([bodies[2], bodies[0], bodies[-1]]), ctx)
            else:
                for b in bodies[i % 3::3]:
                    conform(endpoint, body_of([bodies[0], b]), ctx, refs=refs, include=include)

    @functools.lru_cache(maxsize=2)
    def types(k):
        ts = [rs.S(urn=f"urn:t:2.0:T{i}", name=f"T{i}", plural=f"T{i}s", attrs=rs.COMMON + (
            A("n", "string" if i % 2 else "integer"), A(f"own{i}", req=True)),
            exts=((f"urn:t:2.0:X{i}", (A("x"),)),) if i % 3 == 0 else ()) for i in range(k)]
        libs = [lib_schema(t) for t in ts]
        for t in ts:
            MODEL[t.urn] = ref_sort.model(t)
        return ts, [(ts, rv.ServerRootResourceGET(fx.CONFIG, resource_schemas=libs)),
                    (ts[::-1], rv.SearchRequestPOST(fx.CONFIG, resource_schemas=libs[::-1]))]

    def many_types():
        for k in [3, 4, 5, *sizes(129 if thorough else 33, 6)]:
            for at in places(k):
                for odd in ("type", "missing", "foreign", "extension", "unknown", "filter"):
                    yield k, at, odd

    def run_types(case, ctx):
        """many types of resources behind one endpoint"""
        k, at, odd = case
        ts, endpoints = types(k)
        resources = []
        for i, t in enumerate(ts):
            r = {"schemas": [t.urn.upper() if i == at else t.urn], "id": "1", "n": str(i) if i % 2 else i, f"own{i}": "o"}
            if i == at and odd == "type":
                r["n"] = i if i % 2 else str(i)
            if i == at and odd == "missing":
                r[f"own{(i + 1) % k}"] = r.pop(f"own{i}")
            if i == at and odd == "foreign":
                r["schemas"] = [t.urn, ts[(i + 1) % k].urn]
            if odd == "extension" and t.exts:
                r["schemas"].append(t.exts[0][0])
                r[t.exts[0][0]] = {"x": 5 if i == at else "x"}
            if i == at and odd == "unknown":
                r["schemas"] = [f"urn:t:2.0:T{k}"]
            resources.append(r)
        for endpoint in endpoints:
            kw = {"filter_": f'{ts[at].urn}:own{at} eq "o"'} if odd == "filter" else {}
            conform(endpoint, body_of(resources), ctx, **kw)
            conform(endpoint, body_of(resources[at:] + resources[:at]), ctx, **kw)

    return [
        Space("many types", "numbers of resource types next to boundaries, a telling resource at every telling one of "
              "them", many_types, run_types, block=2),
        Space("patterns", f"offenders at every set of positions of lists up to {pmax}, at every pair of "
              "positions of longer ones", masks, run_mask, block=8),
        Space("same identifiers", "all ordered selections of <= 3 of 8 resources with one identifier x sort orders "
              "and filters", same_ids, run_same, block=8),
        Space("long lists", "sizes next to boundaries, an offender at every telling place", long_lists, run_long,
              block=2),
        Space("characteristics", f"every definition with <= {3 if thorough else 2} special characteristics at "
              "every place x values x selections", lambda: chars.chosen(
                  thorough, ("type", "mv", "req", "ret", "name"), ("preq", "pret")), run_chars, block=8),
        Space("paging", "all combinations of paging values, list length, count and start index", paging,
              run_paging, block=16),
        Space("lists of resources", f"all lists of <= {nmax} of {len(RESOURCES)} resources; longer lists "
              "with one deviating position", lists, run_list, block=8),
        Space("queries", f"all ordered selections of <= {qmax} of 7 resources x every filter, sort order "
              "and attribute selection", queries, run_query, block=8),
        Space("joint queries", "filter x sort x selection x paging over all pairs of 8 resources", joint,
              run_joint, block=8),
        Space("bodies", "all kinds of bodies", shapes, run_shape),
    ]
