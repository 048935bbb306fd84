"""C18: bulk requests."""
import functools
import itertools
from copy import deepcopy

from checks.c17 import check_path
from mc import chars
from mc import fixtures as fx
from mc import ref_bulk as rb
from mc import ref_schema as rs
from mc.engine import Space, Violation, expect, short
from mc.lib import check_value, got_issues, lib_schema, plain
from mc.near import near
from mc.ref_schema import A, C
from mc.sizes import places, sizes
from src import request_validators as rv
from src.data.container import Missing

PROPERTY = {
    "title": "Bulk requests are accepted exactly when every operation would be on its own",
    "statement": (
        "A bulk request yields a parsed body exactly when it has at least one and at most the configured "
        "number of operations and each of them is valid: a known method in any letter case, a path that "
        "is a resource endpoint for POST and a single resource otherwise, of a served resource type, a "
        "bulkId for POST, and data that the create, replace or modify endpoint of that resource type "
        "accepts (data of other methods is dropped). Every problem is reported below its own operation, "
        "problems of the data below that operation's data exactly as the endpoint reports them, and a "
        "valid operation is never blamed. Accepted operations keep their order, method, path, bulkId, "
        "version and the data as parsed by the endpoint."
    ),
    "quantifier": {
        "over": ["inputs", "configurations"],
        "text": "method x path x bulkId x data alphabets of one operation; every single-point change of "
                "User, Group and custom data below POST / PUT / PATCH; all sequences of up to 3 (4 "
                "thorough) operations over good and bad ones; 1..8 operations x limits",
    },
    "why_tests_cant": (
        "Outcome is a product over operations, methods, resource types and data; tests use two "
        "hand-written requests."
    ),
    "anchors": {
        "files": ["src/assets/schemas/bulk_ops.py", "src/request_validators.py"],
        "mechanism": [
            {"name": "validate_request_operations", "where": "src/assets/schemas/bulk_ops.py"},
            {"name": "BulkOperations.parse_request", "where": "src/request_validators.py"},
        ],
        "observe_at": ["BulkOperations.parse_request"],
    },
}

MISSING = rs.MISSING
MAIN, EXT = "urn:t:2.0:Blk", "urn:t:2.0:BlkExt"
T = rs.S(
    urn=MAIN, name="Blk", plural="Blks",
    attrs=rs.COMMON + (
        A("s", req=True), A("i", "integer"), A("ro", mut="readOnly"),
        C("many", A("value"), A("r", req=True), mv=True),
    ),
    exts=((EXT, (A("x"),)),),
)
# a resource type whose name extends the name of another one
T2 = rs.S(urn="urn:t:2.0:Blk2", name="Blk2", plural="Blks2", attrs=rs.COMMON + (A("other", req=True),))
ALL = (T, T2, rs.USER, rs.GROUP)
LIB = [lib_schema(T), lib_schema(T2), fx.User(), fx.Group()]


def body_of(ops, **kw):
    return {"schemas": [fx.BULK_REQ], "Operations": ops, **kw}


def matches(loc, code, wanted):
    """Whether an issue is one of the wanted (a None code stands for anything at or below)."""
    for w_loc, w_code in wanted:
        if w_code is None and loc[: len(w_loc)] == w_loc:
            return True
        if w_code == code and w_loc == loc:
            return True
    return False


def texts(loc):
    return tuple(str(x) for x in loc)


def check_data(item, want, what):
    got = item["data"]
    if isinstance(want, list):  # modify operations
        ops = got["Operations"]
        expect(len(ops) == len(want), "%s: number of modify operations", what)
        for o, (name, parts, value) in zip(ops, want):
            expect(o["op"] == name, "%s: modify operation %r", what, o["op"])
            check_path(o["path"], parts, what)
            if value is MISSING:
                expect(o["value"] is Missing, "%s: value of 'remove' kept", what)
            else:
                check_value(o["value"], value, what)
    else:
        check_value(got, want, what)


def conform(schemas, validator, ops, ctx, limit=None, extra=None):
    """extra: (additional members, their issues)"""
    members, want = extra or ({}, [])
    given = body_of(deepcopy(ops), **members)
    before = deepcopy(given)
    want = list(want)
    results = [rb.request_op(schemas, op) for op in ops]
    hidden = any(shape for _, shape, _ in results)
    must, may = [], []
    for i, (_, shape, other) in enumerate(results):
        here = ("body", "Operations", str(i))
        must += [(here + texts(loc), code) for loc, code in shape]
        (may if hidden else must).extend((here + texts(loc), code) for loc, code in other)
    if limit is not None and len(ops) > limit:
        must.append((("body", "Operations"), rb.TOO_MANY_OPS))
    must += want
    ctx.step()
    data, issues = validator.parse_request(body=given, headers={"h": 1}, query_string={"q": 1})
    got = got_issues(issues)
    what = short(ops, 900)
    for loc, code in must:
        if code is None:
            ok = any(g[: len(loc)] == loc for g, _ in got)
        else:
            ok = (loc, code) in got
        if not ok:
            raise Violation(f"{what}: {(loc, code)} not reported; reported {short(got)}")
    # next to ill-formed operations, the other problems may be told less precisely
    loose = must + [(loc[:3], None) for loc, _ in may]
    if hidden:
        loose += [(loc[:3], None) for loc, _ in must if len(loc) > 2]
    loose += [(loc[:3] + ("path",), rb.UNKNOWN) for loc, code in must
              if loc[3:] == ("data",) and code == rs.ABSENT]
    for loc, code in got:
        if not matches(loc, code, loose):
            raise Violation(f"{what}: unexpected {(loc, code)}; want {short(must)}")
    expect(given == before, "%s: request was modified", what)
    expect(data.headers == {"h": 1} and data.query_string == {"q": 1}, "%s: headers or query changed", what)
    if must or may:
        expect(got != [] or not must, "%s: accepted", what)
        expect(data.body is None, "%s: body in spite of issues", what)
    else:
        parsed = data.body["Operations"]
        expect(len(parsed) == len(ops), "%s: %d operations", what, len(parsed))
        for i, (item, (op, _, _)) in enumerate(zip(parsed, results)):
            where = f"{what} operation {i}"
            for name in ("method", "path", "bulkId", "version"):
                check_value(item[name], op.get(name, MISSING), f"{where} {name}")
            if "data" in op:
                check_data(item, op["data"], where)
            else:
                expect(item["data"] is Missing, "%s: data kept", where)
        for name, v in members.items():
            check_value(data.body[name], v, f"{what} {name}")
    ctx.state(repr(ops))
    ctx.outcome(tuple(sorted({str(c) for _, c in must})))


def op_of(method, path, bulk_id, data, **kw):
    out = {"method": method, "path": path, "bulkId": bulk_id, "data": data, **kw}
    return {k: v for k, v in out.items() if v is not MISSING}


GOOD = {"schemas": [MAIN], "s": "t"}
GOOD_EXT = {"schemas": [MAIN, EXT], "s": "t", "i": 1.0, EXT: {"X": "t"}, "unknown": 1}
GOOD_PUT = {"schemas": [MAIN], "id": "1", "s": "t", "ro": "t", "meta": {"version": "1"}}
GOOD2 = {"schemas": [T2.urn], "other": "t"}
PATCH_OK = {"schemas": [fx.PATCH], "Operations": [{"op": "Replace", "path": "s", "value": "t"}]}
PATCH_OK2 = {"schemas": [fx.PATCH], "Operations": [
    {"op": "add", "value": {"i": 1}}, {"op": "remove", "path": "many[r pr].value"}]}
PATCH_BAD = {"schemas": [fx.PATCH], "Operations": [{"op": "replace", "path": "ro", "value": "t"}]}


def spaces(tier):
    thorough = tier == "thorough"
    validator = rv.BulkOperations(fx.config(1000), resource_schemas=LIB)
    methods = ["GET", "POST", "PUT", "PATCH", "DELETE", "post", "Patch", "dELETE", MISSING, None, "", "HEAD",
               "POSTS", 5, [], True]
    paths = ["/Blks", "/Blks/1", "/Blks2", "/Blks2/1", "/Blk", "/Blk/1", "/blks", "/blks/1", "/Nos", "/Nos/1",
             "Blks", "Blks/1", "", "/", MISSING, None, 5, ["/Blks"], "/Blks/1/x", "https://h/Blks",
             "https://h/Blks/1", "/Blks?a=1", "//1"]
    bulk_ids = ["b", MISSING, None, 5]
    datas = [GOOD, GOOD_EXT, GOOD_PUT, GOOD2, PATCH_OK, PATCH_OK2, PATCH_BAD, {}, [], "t", 5, None, MISSING]

    def one_cases():
        for method in methods:
            for path in paths:
                for bulk_id in bulk_ids:
                    for i in range(len(datas)):
                        yield method, path, bulk_id, i

    def run_one(case, ctx):
        method, path, bulk_id, i = case
        conform(ALL, validator, [op_of(method, path, bulk_id, datas[i])], ctx)

    def member_cases():
        for version in ("W/1", "", None, 5, []):
            for method in ("POST", "DELETE", "HEAD"):
                yield [op_of(method, "/Blks" if method == "POST" else "/Blks/1", "b", GOOD, version=version,
                             unknown=1)], None
        for op in (5, None, "t", [], [{}], {}, {"METHOD": "post", "PATH": "/Blks", "BULKID": "1", "Data": GOOD}):
            yield [op], None
        good = [op_of("POST", "/Blks", "b", GOOD)]
        for v in (0, 1, 5):
            yield good, ({"failOnErrors": v}, [])
        for v in ("1", True, [], {}, 1.5):
            yield good, ({"failOnErrors": v}, [(("body", "failOnErrors"), 2)])
        for v in ([fx.BULK_RES], ["urn:x"]):
            yield good, ({"schemas": v}, [(("body", "schemas"), 27), (("body", "schemas"), 28)])
        for v in (None, []):
            yield good, ({"schemas": v}, [(("body", "schemas"), 15)])
        yield good, ({"schemas": [fx.BULK_REQ.upper()]}, [])

    def run_member(case, ctx):
        ops, extra = case
        conform(ALL, validator, ops, ctx, extra=extra)

    def near_cases():
        for base in ("/Blks", "/Blks2", "/Users"):
            for text in [base] + near(base):
                for method in rb.METHODS:
                    data = PATCH_OK if method == "PATCH" else GOOD2 if base == "/Blks2" else GOOD
                    for tail in ("", "/1"):
                        yield [op_of(method, text + tail, "b", data)]
                    yield [op_of(method, text + "/" + text, "b", data)]
        for method in rb.METHODS:
            for text in near(method):
                yield [op_of(text, "/Blks", "b", GOOD)]
                yield [op_of(text, "/Blks/1", "b", GOOD_PUT)]
        for base in ("bulkId:1", "qwerty"):
            for text in near(base):
                yield [op_of("POST", "/Blks", text, GOOD), op_of("POST", "/Blks", base, GOOD)]
                yield [op_of("PUT", f"/Blks/{text}", base, GOOD_PUT, version=text)]

    def repeated_cases():
        """the same few operations again and again: what is allowed once is allowed each time"""
        for pair in ((0, 6), (1, 9), (2, 10), (3, 12), (4, 18), (5, 7), (0, 13), (1, 8)):
            for n in range(1, 7):
                for mask in itertools.product((0, 1), repeat=n):
                    yield tuple(pair[b] for b in mask)
            for n in (11, 13):
                for i, j in itertools.combinations(range(n), 2):
                    yield tuple(pair[k in (i, j)] for k in range(n))

    def run_chars(case, ctx):
        place, dev = case
        s, lib, x, parent = chars.build(place, dev)
        v = rv.BulkOperations(fx.config(1000), resource_schemas=[LIB[1], lib])
        for i, value in enumerate(chars.values(place, x, parent)):
            if not chars.open_case(x, parent, value):
                body = chars.body(place, x, parent, value)
                method = ("POST", "PUT")[i % 2]
                conform((T2, s), v, [op_of(method, "/Chrs" + ("" if method == "POST" else "/1"), "b", body)], ctx)

    # single-point changes of the data
    bodies = {"User": (fx.user_request(), "Users"), "Group": (fx.group_request(), "Groups"),
              "Blk": (dict(GOOD_EXT, many=[{"r": "t", "value": "t"}, {"r": "u"}]), "Blks")}
    junk = [None, 5, "t", [], {}, [5], [{}], True] if thorough else [None, 5, [], {}]

    def change_cases():
        for name, (body, _) in bodies.items():
            for method in ("POST", "PUT"):
                base = dict(body, id="1") if method == "PUT" else body
                for path in fx.iter_paths(base):
                    if not path:
                        continue
                    yield name, method, path, MISSING
                    for v in junk:
                        yield name, method, path, v

    def run_change(case, ctx):
        name, method, path, v = case
        body, plural = bodies[name]
        body = dict(body, id="1") if method == "PUT" else body
        body = fx.removed(body, path) if v is MISSING else fx.replaced(body, path, v)
        target = f"/{plural}" + ("" if method == "POST" else "/1")
        good = op_of("GET", "/Users/1", MISSING, MISSING)
        bad = op_of(method, target, "b", body)
        conform(ALL, validator, [good, bad, good], ctx)

    patches = [
        {}, None, 5, [], {"schemas": [fx.PATCH]}, {"Operations": []},
        {"schemas": ["urn:x"], "Operations": [{"op": "remove", "path": "s"}]},
        {"schemas": [fx.PATCH], "Operations": {}}, {"schemas": 5, "Operations": 5},
    ] + [
        {"schemas": [fx.PATCH], "Operations": [op]} for op in (
            5, {}, {"op": "x"}, {"op": "remove"}, {"op": "remove", "path": "s"}, {"op": "remove", "path": "i"},
            {"op": "remove", "path": "ro"}, {"op": "remove", "path": "nosuch"}, {"op": "remove", "path": "a["},
            {"op": "remove", "path": "other"}, {"op": "remove", "path": "members"},
            {"op": "remove", "path": 'members[value eq "1"]'}, {"op": "remove", "path": "many[r pr]"},
            {"op": "add", "path": "many", "value": [{"value": "t"}]}, {"op": "add", "path": "many", "value": [{"r": "t"}]},
            {"op": "add", "path": "i", "value": "t"}, {"op": "add", "path": "i", "value": 1},
            {"op": "replace", "value": {"ro": "t"}}, {"op": "replace", "value": {"s": "t", EXT: {"x": 5}}},
            {"op": "replace", "value": {EXT: {"x": "t"}}}, {"op": "add", "path": f"{EXT}:x", "value": "t"},
            {"op": "add", "path": "userName", "value": "t"}, {"op": "add", "path": "emails", "value": [{"value": 5}]},
        )
    ]

    def patch_cases():
        for plural in ("Blks", "Blks2", "Users", "Groups"):
            for i in range(len(patches)):
                yield plural, i

    def run_patch(case, ctx):
        plural, i = case
        conform(ALL, validator, [op_of("PATCH", f"/{plural}/1", MISSING, patches[i])], ctx)

    menu = [
        op_of("POST", "/Blks", "1", GOOD), op_of("put", "/Blks/1", MISSING, GOOD_PUT, version="W/1"),
        op_of("PATCH", "/Blks/1", "3", PATCH_OK2), op_of("DELETE", "/Blks2/1", MISSING, {"x": 1}),
        op_of("GET", "/Users/1", "4", 5), op_of("POST", "/Blks2", "5", GOOD2),
        # not acceptable
        op_of("POST", "/Blks", MISSING, GOOD), op_of("POST", "/Blks", "b", GOOD2),
        op_of("PUT", "/Blks/1", "b", GOOD), op_of("PUT", "/Blks", "b", GOOD_PUT),
        op_of("PATCH", "/Blks/1", "b", PATCH_BAD), op_of("PATCH", "/Nos/1", "b", PATCH_OK),
        op_of("DELETE", "/Blks", "b", MISSING), op_of("POST", "/Blks", "b", MISSING),
        op_of("HEAD", "/Blks/1", "b", GOOD), op_of(MISSING, "/Blks/1", "b", GOOD),
        op_of("GET", 5, "b", MISSING), 5, op_of("GET", MISSING, "b", MISSING),
        op_of("POST", "/Blks", 5, dict(GOOD, s=5)),
    ]
    nmax = 4 if thorough else 3

    def sequences():
        for n in range(1, nmax + 1):
            for combo in itertools.product(range(len(menu)), repeat=n):
                if n == 4 and sum(c > 5 for c in combo) > 1:
                    continue
                yield combo

    def run_sequence(combo, ctx):
        conform(ALL, validator, [menu[c] for c in combo], ctx)

    limits = {n: rv.BulkOperations(fx.config(n), resource_schemas=LIB) for n in (1, 2, 4, 7)}
    unlimited = rv.BulkOperations(fx.create_service_provider_config(), resource_schemas=LIB)
    alone = {s.plural: rv.BulkOperations(fx.config(1000), resource_schemas=[x]) for s, x in zip(ALL, LIB)}

    def limit_cases():
        for n in range(1, 13):
            for limit in [*limits, None]:
                for bad in (None, 6, 14):
                    for kinds in (6, 1, 2):
                        yield n, limit, bad, kinds

    def run_limit(case, ctx):
        n, limit, bad, kinds = case
        ops = [menu[i % kinds] for i in range(n)]
        if bad is not None:
            ops[-1] = menu[bad]
        conform(ALL, unlimited if limit is None else limits[limit], ops, ctx, limit=limit)

    def long_cases():
        for n in sizes(513 if thorough else 129, 13):
            for limit in (None, n - 1, n, n + 1):
                yield n, limit, None, None
            for at in places(n):
                for bad in range(6, len(menu)) if at == n - 1 else (7, 10, 12, 17):
                    yield n, None, at, bad

    def run_long(case, ctx):
        n, limit, at, bad = case
        ops = [menu[i % 6] for i in range(n)]
        if at is not None:
            ops[at] = menu[bad]
        v = unlimited if limit is None else rv.BulkOperations(fx.config(limit), resource_schemas=LIB)
        conform(ALL, v, ops, ctx, limit=limit)

    def served_cases():
        for served in alone:
            for method in rb.METHODS:
                for s in ALL:
                    yield served, method, s.plural

    def run_served(case, ctx):
        served, method, plural = case
        schemas = tuple(s for s in ALL if s.plural == served)
        target = f"/{plural}" + ("" if method == "POST" else "/1")
        for i in range(len(datas)):
            conform(schemas, alone[served], [op_of(method, target, "b", datas[i])], ctx)

    def other_bodies():
        for x in (None, 5, "t", [], True):
            yield x, {("body",)}
        yield {}, {("body", "schemas"), ("body", "Operations")}
        for x in (None, [], 5, {}, "t"):
            yield {"schemas": [fx.BULK_REQ], "Operations": x}, {("body", "Operations")}

    def run_other(case, ctx):
        body, want = case
        ctx.step()
        data, issues = validator.parse_request(body=deepcopy(body))
        got = got_issues(issues)
        expect({loc[:2] for loc, _ in got} == want, "%r: issues %r, want at %r", body, got, want)
        expect(data.body is None, "%r: accepted", body)
        ctx.state(repr(body))

    @functools.lru_cache(maxsize=2)
    def types(k):
        ts = tuple(rs.S(urn=f"urn:t:2.0:M{i}", name="M" * (i + 1), plural="M" * (i + 1) + "s", attrs=rs.COMMON + (
            A("n", "string" if i % 2 else "integer"), A(f"own{i}", req=True))) for i in range(k))
        return ts, rv.BulkOperations(fx.config(1000), resource_schemas=[lib_schema(t) for t in ts])

    def many_types():
        for k in [3, 4, 5, *sizes(129 if thorough else 33, 6)]:
            for at in places(k):
                for odd in (None, "type", "missing", "other", "unknown"):
                    yield k, at, odd

    def run_types(case, ctx):
        """many types of resources behind one endpoint"""
        k, at, odd = case
        ts, v = types(k)
        ops = []
        for i, t in enumerate(ts):
            data = {"schemas": [t.urn], "n": str(i) if i % 2 else i, f"own{i}": "o"}
            path = "/" + t.plural
            if i == at:
                if odd == "type":
                    data["n"] = i if i % 2 else str(i)
                elif odd == "missing":
                    del data[f"own{i}"]
                elif odd == "other":
                    path = "/" + ts[(i + 1) % k].plural
                elif odd == "unknown":
                    path = "/" + "M" * (k + 1) + "s"
            method = ("POST", "PUT")[i % 2]
            if method == "PUT":
                data, path = dict(data, id="1"), path + "/1"
            ops.append(op_of(method, path, f"b{i}", data))
        conform(ts, v, ops, ctx)
        conform(ts, v, ops[at:] + ops[:at], ctx)

    return [
        Space("many types", "numbers of resource types next to boundaries, a telling operation at every telling one of "
              "them", many_types, run_types, block=2),
        Space("one operation", "all methods x paths x bulkIds x data", one_cases, run_one, block=16),
        Space("other members", "versions, failOnErrors, schemas, non-operations", member_cases, run_member),
        Space("near misses", "paths, methods and identifiers with every slip", near_cases,
              lambda ops, ctx: conform(ALL, validator, ops, ctx), block=8),
        Space("repetitions", "all good/bad patterns of <= 6 equal operations; pairs of bad ones among 13",
              repeated_cases, run_sequence, block=8),
        Space("characteristics", "every definition with few special characteristics at every place x values",
              lambda: chars.chosen(thorough, ("req", "mut", "issuer", "mv"), ("preq", "pmut", "pissuer")), run_chars,
              block=8),
        Space("data of POST and PUT", "every single-point change of 3 bodies", change_cases, run_change, block=8),
        Space("data of PATCH", f"{len(patches)} modify requests x 4 resource types", patch_cases, run_patch),
        Space("sequences", f"all sequences of <= {nmax} of {len(menu)} operations", sequences, run_sequence,
              block=8),
        Space("limits", "1..12 operations x 5 limits", limit_cases, run_limit),
        Space("long requests", "numbers of operations next to boundaries and limits, a bad one at every telling position",
              long_cases, run_long, block=2),
        Space("served resource types", "one served type x method x addressed type x data", served_cases,
              run_served),
        Space("bodies", "all kinds of bodies", other_bodies, run_other),
    ]
