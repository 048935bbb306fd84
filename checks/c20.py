"""C20: query parameters and search requests."""
import itertools
from copy import deepcopy

from mc import fixtures as fx
from mc import ref_filter as rf
from mc import ref_path as rp
from mc import ref_schema as rs
from mc.engine import Space, Violation, expect, short
from mc.lib import got_issues
from mc.sizes import places, sizes
from src import request_validators as rv

PROPERTY = {
    "title": "Queries are understood as written, in the URL and in a search request alike",
    "statement": (
        "A query given as URL parameters or as the body of a search request is accepted exactly when each "
        "of its parameters is well-formed and attributes are not selected and excluded at once; each "
        "malformed parameter is reported under its own name, whatever the others are. The filter, sort "
        "attribute and direction (ascending unless 'descending' is asked for, in any letter case), "
        "attribute selection, count and start index handed over are exactly those written, absent "
        "parameters impose nothing, and both ways of asking give the same query. The other endpoints read "
        "an attribute selection in the same way."
    ),
    "quantifier": {
        "over": ["inputs", "configurations"],
        "text": "alphabets of good and bad values for each of 7 parameters: every value alone, all pairs of "
                "parameters, all triples over reduced alphabets, on every endpoint with a query; all "
                "attribute lists of up to 3 references",
    },
    "why_tests_cant": "The tests probe each parameter with one or two values and never the combinations.",
    "anchors": {
        "files": ["src/request_validators.py", "src/assets/schemas/search_request.py", "src/sorter.py",
                  "src/attributes_presence.py"],
        "mechanism": [
            {"name": "_parse_resources_get_request, parse_request_sorting, parse_request_filtering, "
                     "parse_requested_attributes", "where": "src/request_validators.py"},
            {"name": "SearchRequest.parse", "where": "src/assets/schemas/search_request.py"},
        ],
        "observe_at": ["parse_request of ServerRootResourceGET, ResourcesGET, SearchRequestPOST, "
                       "ResourceObjectGET, ResourcesPOST, ResourceObjectPUT, ResourceObjectPATCH"],
    },
}

ABSENT = object()
USER_URN = fx.USER
REFS = ["userName", "name.familyName", f"{USER_URN}:emails.value", f"{fx.ENT}:manager", "META", "urn:a:b:c",
        "emails.$ref", "a_1"]
BAD_REFS = ["", " ", "a b", "a.b.c", ".a", "a.", "a[b pr]", "a:b:", "bad^", "a,b", "-a"]


def lists(refs):
    return [ABSENT, [], *([r] for r in refs), refs[:2], refs[1:4]]


FILTERS = [ABSENT, 'userName eq "a"', "not (a pr) and b.c gt 5", 'emails[type eq "w" or value pr]', "", "a", "a eq",
           "(a pr", "a pr and", 'emails[type eq "w"', 5, True, [], {}, f'{fx.ENT}:manager.value eq "1"']
SORT_BY = [ABSENT, "userName", "name.familyName", f"{fx.ENT}:costCenter", "emails", "", "a b", "a.b.c", "a[b pr]", 5,
           [], {}, True]
SORT_ORDER = [ABSENT, None, "ascending", "descending", "Ascending", "DESCENDING", "deScending"]
COUNT = [ABSENT, 0, 1, 10, -1]
BAD_COUNT = ["x", "", [], {}, "1.5", "1x"]
SELECT = [ABSENT, [], ["userName"], ["name.familyName", f"{fx.ENT}:manager"], ["a b"], ["userName", "a.b.c"], [5],
          ["META", "urn:a:b:c"]]


def good_ref(r):
    return isinstance(r, str) and rp.attr_parts(r) is not None


def oracle(q):
    """-> (set of blamed parameters, meaning)"""
    bad, meaning = set(), {"filter": None, "sort": None, "select": None}
    f = q.get("filter")
    if f is not None:
        tree = rf.parse(f) if isinstance(f, str) else None
        if tree is None:
            bad.add("filter")
        meaning["filter"] = tree
    by = q.get("sortBy")
    if by is not None:
        if not good_ref(by):
            bad.add("sortBy")
        else:
            order = str(q.get("sortOrder") or "ascending").lower()
            meaning["sort"] = rp.attr_parts(by), order == "ascending"
    inc, exc = q.get("attributes") or [], q.get("excludeAttributes") or []
    broken = [n for n in ("attributes", "excludeAttributes")
              if not all(good_ref(r) for r in q.get(n) or [])]
    bad.update(broken)
    if inc and exc:
        if not broken:
            bad.update(("attributes", "excludeAttributes"))
    elif (inc or exc) and not broken:
        meaning["select"] = [rp.attr_parts(r) for r in inc or exc], bool(inc)
    for n in ("count", "startIndex"):
        v = q.get(n)
        if v is not None and not isinstance(v, int):
            bad.add(n)
        meaning[n] = v
    return bad, meaning


def reps(parsed):
    return [(r.schema, r.attr, r.sub_attr) for r in parsed]


def check_meaning(get, meaning, what):
    f = get("filter")
    expect(bool(f) == (meaning["filter"] is not None), "%s: filter %r", what, f)
    if f:
        expect(rf.same(f.to_dict(), meaning["filter"]), "%s: filter %r", what, f.to_dict())
    sorter = get("sorter")
    got = (reps([sorter.attr_rep])[0], sorter.asc) if sorter else None
    expect(got == meaning["sort"], "%s: sorter %r, want %r", what, got, meaning["sort"])
    checker = get("presence_checker")
    got = (reps(checker.attr_reps), checker.include) if checker else None
    expect(got == meaning["select"], "%s: selection %r, want %r", what, got, meaning["select"])
    for n in ("count", "startIndex"):
        v = get(n)
        v = v if v else (0 if v == 0 else None)
        expect(v == meaning[n] and not isinstance(v, bool), "%s: %s %r, want %r", what, n, v, meaning[n])


def blamed(issues, prefix, names):
    out = set()
    for loc, _ in got_issues(issues):
        expect(loc[: len(prefix)] == prefix, "issue at unexpected place %r", loc)
        name = {n.lower(): n for n in names}.get(loc[len(prefix)].lower())
        expect(name is not None, "issue at unexpected place %r", loc)
        out.add(name)
    return out


NAMES = ["filter", "sortBy", "sortOrder", "attributes", "excludeAttributes", "count", "startIndex"]


def expect_blame(got, bad, q, what):
    """A list that is refused for being used next to the other one need not be looked into."""
    both = q.get("attributes") and q.get("excludeAttributes")
    lists_ = {"attributes", "excludeAttributes"}
    if both:
        expect(bool(got & lists_), "%s: both selections accepted", what)
        got, bad = got - lists_, bad - lists_
    expect(got == bad, "%s: blamed %r, want %r", what, sorted(got), sorted(bad))


def conform(endpoints, q, ctx):
    bad, meaning = oracle(q)
    both = q.get("attributes") and q.get("excludeAttributes")
    rejected = bool(bad or both)
    what = short(q)
    for name in ("root", "type"):
        for style in range(3):
            url = dict(deepcopy(q))
            for n in ("attributes", "excludeAttributes"):
                if style and isinstance(url.get(n), list):
                    if not all(isinstance(r, str) and "," not in r for r in url[n]) or url[n] == [""]:
                        break
                    url[n] = ",".join(url[n])
            else:
                for n in ("count", "startIndex"):
                    if style == 2 and isinstance(url.get(n), int):
                        url[n] = str(url[n])
                ctx.step()
                data, issues = endpoints[name].parse_request(query_string=dict(url), headers={"h": 1})
                expect_blame(blamed(issues, ("query_string",), NAMES), bad, q, f"{name} {short(url)}")
                expect(data.headers == {"h": 1} and data.body is None, "%s: headers or body changed", what)
                if not rejected:
                    check_meaning(data.query_string.get, meaning, f"{name} {short(url)}")
    body = dict(deepcopy(q), schemas=[fx.SEARCH])
    before = deepcopy(body)
    ctx.step()
    data, issues = endpoints["search"].parse_request(body=body, headers={"h": 1})
    expect_blame(blamed(issues, ("body",), NAMES), bad, q, f"search {what}")
    expect(body == before, "search %s: body was modified", what)
    if rejected:
        expect(data.body is None, "search %s: accepted", what)
    else:
        check_meaning(lambda n: data.body[n], meaning, f"search {what}")
    only = set(q) <= {"attributes", "excludeAttributes"}
    for name in ("object", "post", "put", "patch") if only else ("object",):
        sel = {n: deepcopy(q[n]) for n in ("attributes", "excludeAttributes") if n in q}
        kw = {} if name == "object" else {"body": deepcopy(BODIES[name])}
        ctx.step()
        data, issues = endpoints[name].parse_request(query_string=sel, **kw)
        wrong = bad & {"attributes", "excludeAttributes"}
        expect_blame(blamed(issues, ("query_string",), NAMES), wrong, q, f"{name} {short(sel)}")
        if not (wrong or both):
            checker = data.query_string.get("presence_checker")
            got = (reps(checker.attr_reps), checker.include) if checker else None
            expect(got == meaning["select"], "%s %s: selection %r", name, what, got)
            expect(name == "object" or data.body is not None, "%s %s: body lost", name, what)
        elif name != "object":
            expect(data.body is None or name == "patch", "%s %s: body in spite of issues", name, what)
    ctx.state(repr(sorted(q.items(), key=lambda x: x[0])))
    ctx.outcome(tuple(sorted(bad)))


BODIES = {
    "post": {"schemas": [fx.GROUP], "displayName": "u"},
    "put": {"schemas": [fx.GROUP], "id": "1", "displayName": "u"},
    "patch": {"schemas": [fx.PATCH], "Operations": [{"op": "remove", "path": "members"}]},
}


def make_endpoints():
    user, group = fx.User(), fx.Group()
    return {
        "root": rv.ServerRootResourceGET(fx.CONFIG, resource_schemas=[user, group]),
        "type": rv.ResourcesGET(fx.CONFIG, resource_schema=user),
        "search": rv.SearchRequestPOST(fx.CONFIG, resource_schemas=[user, group]),
        "object": rv.ResourceObjectGET(fx.CONFIG, resource_schema=group),
        "post": rv.ResourcesPOST(fx.CONFIG, resource_schema=group),
        "put": rv.ResourceObjectPUT(fx.CONFIG, resource_schema=group),
        "patch": rv.ResourceObjectPATCH(fx.CONFIG, resource_schema=group),
    }


def spaces(tier):
    thorough = tier == "thorough"
    endpoints = make_endpoints()
    alphabet = {
        "filter": FILTERS, "sortBy": SORT_BY, "sortOrder": SORT_ORDER, "attributes": SELECT,
        "excludeAttributes": SELECT, "count": COUNT + BAD_COUNT, "startIndex": COUNT + BAD_COUNT,
    }
    small = {
        "filter": FILTERS[:2] + FILTERS[6:7] + [5], "sortBy": SORT_BY[:3] + ["a b"], "sortOrder": SORT_ORDER[:6:2],
        "attributes": SELECT[:1] + SELECT[2:5], "excludeAttributes": SELECT[:1] + SELECT[2:5],
        "count": [ABSENT, 0, 3, "x"], "startIndex": [ABSENT, 2, "x"],
    }

    def pairs():
        for a, b in itertools.combinations(NAMES, 2):
            for x, y in itertools.product(alphabet[a], alphabet[b]):
                yield {n: v for n, v in ((a, x), (b, y)) if v is not ABSENT}

    def all_params():
        for values in itertools.product(*(small[n] for n in NAMES)):
            yield {n: v for n, v in zip(NAMES, values) if v is not ABSENT}

    def triples():
        for names in itertools.combinations(NAMES, 3):
            for values in itertools.product(*(alphabet[n] for n in names)):
                yield {n: v for n, v in zip(names, values) if v is not ABSENT}

    def large():
        for n in sizes(1025 if thorough else 257, 2):
            stem = ("abcDefgHij" * 110)[:n]
            names_ = [f"a{i}.b" if i % 2 else f"urn:x:2.0:y:a{i}" for i in range(n)]
            for p in places(n):
                for which in ("attributes", "excludeAttributes"):
                    for odd in ("userName", "a b", names_[0]):
                        yield {which: names_[:p] + [odd] + names_[p + 1:]}
            yield {"sortBy": stem, "sortOrder": "descending", "count": n, "startIndex": n}
            yield {"sortBy": f"urn:{stem}:{stem}.{stem}", "count": 10 ** min(n, 300)}
            yield {"filter": f'{stem} eq "{stem}"', "attributes": [stem]}
            if n < 300:
                yield {"filter": " or ".join(f'a{i} eq "{i}"' for i in range(n)), "count": n}
                yield {"filter": " and ".join(f'a{i} eq "{i}"' for i in range(n)) + " and", "count": n}

    refs = REFS + BAD_REFS

    def ref_lists():
        for n in (1, 2, 3):
            pool = refs if n < 3 or thorough else REFS[:4] + BAD_REFS[2:5]
            for combo in itertools.product(pool, repeat=n):
                yield "attributes", list(combo)
                yield "excludeAttributes", list(combo)

    def run_refs(case, ctx):
        name, combo = case
        conform(endpoints, {name: combo}, ctx)

    def sort_refs():
        for by in refs:
            for order in SORT_ORDER:
                yield {n: v for n, v in (("sortBy", by), ("sortOrder", order)) if v is not ABSENT}

    def frames():
        for uris, want in (([fx.SEARCH], None), ([fx.SEARCH.upper()], None), (["urn:x"], "schemas"),
                           ([fx.SEARCH, "urn:x"], "schemas")):
            yield {"schemas": uris, "count": 1}, want
            yield {"SCHEMAS": uris, "SORTBY": "userName", "sortorder": "DESCENDING", "unknown": 1}, want
        for x in (None, 5, "t", [], True):
            yield x, ""

    def run_frame(case, ctx):
        body, want = case
        ctx.step()
        data, issues = endpoints["search"].parse_request(body=deepcopy(body))
        got = {loc[1:2] for loc, _ in got_issues(issues)}
        expect(got == (set() if want is None else {(want,) if want else ()}), "%r: issues at %r", body, got)
        expect((data.body is None) == (want is not None), "%r: body %r", body, data.body)
        if want is None and "SORTBY" in body:
            sorter = data.body["sorter"]
            expect(sorter.attr_rep.attr == "userName" and not sorter.asc, "%r: sorter", body)
        ctx.state(repr(body))

    def run_no_query(case, ctx):
        name, q = case
        ctx.step()
        data, issues = endpoints[name].parse_request(query_string=q)
        got = [loc for loc, _ in got_issues(issues)]
        expect(got == [("query_string",)], "%s: query %r: issues %r", name, q, got)

    def no_query():
        for name in ("root", "type"):
            for q in (None, 5, "a=1", [], True):
                yield name, q

    return [
        Space("pairs of parameters", "all values of all pairs of 7 parameters", pairs,
              lambda q, ctx: conform(endpoints, q, ctx), block=8),
        Space("triples of parameters", "all values of all triples of 7 parameters", triples,
              lambda q, ctx: conform(endpoints, q, ctx), block=8),
        Space("large parameters", "numbers of names and lengths of texts next to boundaries", large,
              lambda q, ctx: conform(endpoints, q, ctx), block=8),
        Space("all parameters", "all combinations of 7 parameters over reduced alphabets", all_params, lambda q, ctx: conform(endpoints, q, ctx), block=8),
        Space("attribute lists", f"all lists of <= 3 references over {len(refs)}", ref_lists, run_refs, block=8),
        Space("sort", "all references x sort orders", sort_refs,
              lambda q, ctx: conform(endpoints, q, ctx)),
        Space("search bodies", "schemas field, spelling, non-objects", frames, run_frame),
        Space("no query", "absent or ill-typed query strings", no_query, run_no_query),
    ]
