"""C19: bulk responses."""
import functools
import itertools
import re
from copy import deepcopy

from mc import chars
from mc import fixtures as fx
from mc import ref_bulk as rb
from mc import ref_schema as rs
from mc.engine import Space, Violation, expect, short
from mc.lib import check_value, got_issues, lib_schema
from mc.near import near
from mc.ref_schema import A, C
from mc.sizes import places, sizes
from src import request_validators as rv
from src.data.container import Missing

PROPERTY = {
    "title": "Bulk responses are released exactly when every operation result is consistent",
    "statement": (
        "A bulk response is released exactly when its own status is 200, every operation result names "
        "method and status, a bulkId for POST and a location of a served resource type (dispensable only "
        "for a failed POST), every result of status 300 or above carries a valid error of the same "
        "status, every other response (except of DELETE) is one that the single-resource endpoint of "
        "that method would release with that status, its location and version agree with the operation's, "
        "and there are not more failed operations than the client tolerates. Every inconsistency is "
        "reported below its own operation, consistent operations are never blamed, and a released response "
        "keeps order, members and dumped content of all operations."
    ),
    "quantifier": {
        "over": ["inputs", "configurations"],
        "text": "method x status x location x version x response alphabets of one operation; every "
                "single-point change of User, Group, custom and error responses; all sequences of up to 3 (4 "
                "thorough) results over good and bad ones; failure counts x tolerated errors",
    },
    "why_tests_cant": (
        "Consistency relates five members of every operation with each other and with two other "
        "validators; tests use one response and a few of its modifications."
    ),
    "anchors": {
        "files": ["src/assets/schemas/bulk_ops.py", "src/request_validators.py"],
        "mechanism": [
            {"name": "validate_response_operations", "where": "src/assets/schemas/bulk_ops.py"},
            {"name": "BulkOperations.dump_response", "where": "src/request_validators.py"},
        ],
        "observe_at": ["BulkOperations.dump_response"],
    },
}

MISSING = rs.MISSING
MAIN, EXT = "urn:t:2.0:Blk", "urn:t:2.0:BlkExt"
T = rs.S(
    urn=MAIN, name="Blk", plural="Blks",
    attrs=rs.COMMON + (
        A("s", req=True), A("i", "integer"), A("never", ret="never"),
        C("many", A("value"), A("r", req=True), mv=True),
    ),
    exts=((EXT, (A("x"),)),),
)
T2 = rs.S(urn="urn:t:2.0:Blk2", name="Blk2", plural="Blks2", attrs=rs.COMMON + (A("other", req=True),))
ALL = (T, T2, rs.USER, rs.GROUP)
LIB = [lib_schema(T), lib_schema(T2), fx.User(), fx.Group()]
BASE = "https://h/v2"


EXOTIC = "\u00b2\u00b9\u2460\u00bd\u2167\u4e09\u0c7a"  # numeric in one sense or another, but not decimal digits


def readable(text):
    try:
        int(text)
    except ValueError:
        return False
    return True


def texts(loc):
    return tuple(str(x) for x in loc)


def conform(schemas, validator, ops, ctx, tolerated=None, status=200, extra=None):
    members, want = extra or ({}, [])
    given = {"schemas": [fx.BULK_RES], "Operations": deepcopy(ops), **members}
    before = deepcopy(given)
    results = [rb.response_op(schemas, op) for op in ops]
    hidden = any(shape for _, shape, _, _ in results)
    must, may = list(want), []
    for i, (_, shape, other, _) in enumerate(results):
        here = ("body", "Operations", str(i))
        must += [(here + texts(loc), code) for loc, code in shape]
        (may if hidden else must).extend((here + texts(loc), code) for loc, code in other)
    failures = sum(r[3] for r in results)
    if tolerated is not None and failures > tolerated:
        (may if must + may else must).append((("body", "Operations"), rb.TOO_MANY_ERRORS))
    if status != 200:
        must.append((("status",), 16))
    ctx.step()
    data, issues = validator.dump_response(status_code=status, body=given, headers={"h": 1},
                                           fail_on_errors=tolerated)
    got = got_issues(issues)
    what = f"{short(ops, 900)} status={status} tolerated={tolerated}"
    for loc, code in must:
        if (loc, code) not in got:
            raise Violation(f"{what}: {(loc, code)} not reported; reported {short(got)}")
    blamed = {loc[:3] for loc, _ in must + may if len(loc) > 2}
    for loc, code in got:
        if (loc, code) not in must + may and not (hidden and loc[:3] in blamed):
            raise Violation(f"{what}: unexpected {(loc, code)}; want {short(must)}")
    expect(given == before, "%s: response was modified", what)
    expect(data.headers == {"h": 1}, "%s: headers changed", what)
    if must:
        expect(data.body is None, "%s: released in spite of issues", what)
    else:
        dumped = data.body["Operations"]
        expect(len(dumped) == len(ops), "%s: %d operations", what, len(dumped))
        for i, (item, (op, _, _, _)) in enumerate(zip(dumped, results)):
            for name in ("method", "bulkId", "version", "location", "status", "response"):
                check_value(item[name], op.get(name, MISSING), f"{what} operation {i} {name}")
    ctx.state(repr((ops, tolerated)))
    ctx.outcome(tuple(sorted({str(c) for _, c in must})))


def op_of(method, status, location=MISSING, response=MISSING, bulk_id="b", version=MISSING, **kw):
    out = {"method": method, "status": status, "location": location, "response": response,
           "bulkId": bulk_id, "version": version, **kw}
    return {k: v for k, v in out.items() if v is not MISSING}


def blk(location=f"{BASE}/Blks/1", version="W/1", **kw):
    meta = {"resourceType": "Blk"}
    if location is not MISSING:
        meta["location"] = location
    if version is not MISSING:
        meta["version"] = version
    return {"schemas": [MAIN], "id": "1", "s": "t", "meta": meta, **kw}


def err(status, **kw):
    return {"schemas": [fx.ERROR], "status": status, "detail": "d", **kw}


LOC, LOC2 = f"{BASE}/Blks/1", f"{BASE}/Blks2/1"
BLK2 = {"schemas": [T2.urn], "id": "1", "other": "t"}


def spaces(tier):
    thorough = tier == "thorough"
    validator = rv.BulkOperations(fx.config(1000), resource_schemas=LIB)
    methods = ["GET", "POST", "PUT", "PATCH", "DELETE", "post", "delete", MISSING, None, "", "HEAD", 5]
    statuses = ["200", "201", "204", "202", "300", "304", "400", "404", "599", "600", "299", "0", MISSING, None,
                "", "x", "4x", 400, 200, True]
    locations = [LOC, LOC2, f"{BASE}/Nos/1", f"{BASE}/Blks", MISSING, None, "x", 5, f"{BASE}/blks/1"]
    responses = [
        MISSING, None, blk(), blk(MISSING, MISSING), blk(LOC + "x"), dict(blk(), never="t"), dict(blk(), s=5),
        {"schemas": [MAIN]}, BLK2, err("400"), err("404"), err("304"), err("600"), err("x"), {"status": "400"},
        err("400", scimType="bad"), {}, [], 5, "t",
    ]
    if not thorough:
        responses = responses[:5] + responses[6:12] + responses[14:]

    def one_cases():
        for method in methods:
            for status in statuses:
                for location in locations:
                    for i in range(len(responses)):
                        yield method, status, location, i

    def run_one(case, ctx):
        method, status, location, i = case
        if responses[i] == [] and str(method).upper() == "POST":
            return  # whether an empty list is 'no response' is left open
        conform(ALL, validator, [op_of(method, status, location, responses[i])], ctx)

    versions = ["W/1", "W/2", MISSING, None, "", 5]

    def member_cases():
        for method, status in (("PUT", "200"), ("POST", "201"), ("PATCH", "200"), ("GET", "200"), ("PATCH", "204"),
                               ("DELETE", "204"), ("DELETE", "200"), ("POST", "400"), ("PUT", "412")):
            body = err(status) if int(status) >= 300 else blk
            for version in versions:
                for told in (versions if int(status) < 300 else [MISSING]):
                    for bulk_id in ("b", MISSING, None, 5, ""):
                        response = blk(version=told) if body is blk else body
                        yield [op_of(method, status, LOC, response, bulk_id=bulk_id, version=version, unknown=1)]
        for method in rb.METHODS:
            for kw in ({"unknown": 1}, {"scimType": "tooMany", "nested": {"a": [1]}}, {"scimType": "TOOMANY"},
                       {"detail": None}, {"detail": ""}, {"detail": 5}, {"meta": {"location": LOC}}, {"id": "1"}):
                yield [op_of(method, "400", LOC, err("400", **kw))]
                yield [op_of(method, "400", LOC, {k.upper(): v for k, v in err("400", **kw).items()})]
                yield [op_of(method, "200", LOC, blk(), version="W/1"), op_of(method, "404", LOC, err("404", **kw))]
        for op in (5, None, "t", [], {}, {"METHOD": "post", "Status": "201", "BULKID": "1", "LOCATION": LOC,
                                          "Response": blk()}):
            yield [op]

    def near_cases():
        for base in ("W/1", 'W/"3694e05e9dff590"', '"a-B"', "abc", "1"):
            for text in [base] + near(base):
                for method, status in (("PUT", "200"), ("POST", "201"), ("PATCH", "200"), ("GET", "200")):
                    yield [op_of(method, status, LOC, blk(version=text), version=base)]
                    yield [op_of(method, status, LOC, blk(version=base), version=text)]
                yield [op_of("PUT", "200", LOC, blk(version=text), version=text)]
        for base in (LOC, "https://h:8080/Blks/a%20B?x=1#y"):
            for text in [base] + near(base):
                if any(c <= " " for c in text):
                    continue  # not a matter of this property whether that is a URL
                for method, status in (("PUT", "200"), ("POST", "201"), ("PATCH", "200"), ("GET", "200")):
                    yield [op_of(method, status, base, blk(text))]
                    yield [op_of(method, status, text, blk(base))]
                    yield [op_of(method, status, text, blk(text))]
                yield [op_of("DELETE", "204", text)]
                yield [op_of("PATCH", "204", text)]
                yield [op_of("PUT", "404", text, err("404"))]
        for method in rb.METHODS:
            for text in near(method):
                yield [op_of(text, "204" if method == "DELETE" else "200", LOC)]
                yield [op_of(text, "200", LOC, blk())]
            for status in range(100, 600):
                body = err(str(status)) if status >= 300 else blk()
                yield [op_of(method, str(status), LOC, body)]
                yield [op_of(method, str(status), LOC)]
                yield [op_of(method, str(status), LOC, err(str(status + 1)) if status >= 300 else blk(LOC + "/"))]
                if status >= 300:
                    yield [op_of(method, str(status), MISSING, body)]

    def status_texts():
        for base in ("200", "204", "400", "404", "599"):
            for text in sorted({x for x in near(base)} | {base[:i] + c + base[i + len(c):] for i in range(3)
                                                          for c in EXOTIC}):
                if not re.fullmatch("[0-9]+", text) and readable(text):
                    continue  # lenient forms of a number are left open
                yield text

    def status_cases():
        for text in status_texts():
            for method in rb.METHODS:
                yield [op_of(method, text, LOC, err(text))]
                yield [op_of(method, text, LOC, blk())]
                yield [op_of(method, text, LOC)]

    def long_cases():
        for n in sizes(513 if thorough else 301, 7):
            yield n, None, None, None
            for at in places(n):
                for bad in ((7, 8, 10, 11, 13) if at in (0, n - 1) else (7, 10)):
                    yield n, at, bad, None
            for failures in (0, 1, n - 1, n):
                for tolerated in (failures - 1, failures, failures + 1):
                    if tolerated >= 0:
                        yield n, failures, None, tolerated

    def run_long(case, ctx):
        n, at, bad, tolerated = case
        if tolerated is not None:
            ops = [menu[(2, 5)[i % 2] if i < at else (0, 1, 3, 4)[i % 4]] for i in range(n)]
        else:
            ops = [menu[i % 6] for i in range(n)]
            if at is not None:
                ops[at] = menu[bad]
        conform(ALL, validator, ops, ctx, tolerated=tolerated)

    def repeated_cases():
        """the same few results again and again: what is allowed once is allowed each time"""
        for pair in ((0, 6), (1, 8), (2, 10), (3, 14), (4, 11), (5, 13), (0, 12), (1, 9), (0, 7)):
            for n in range(1, 7):
                for mask in itertools.product((0, 1), repeat=n):
                    yield tuple(pair[b] for b in mask)
            for n in (11, 13):
                for i, j in itertools.combinations(range(n), 2):
                    yield tuple(pair[k in (i, j)] for k in range(n))

    def run_chars(case, ctx):
        place, dev = case
        s, lib, x, parent = chars.build(place, dev)
        v = rv.BulkOperations(fx.config(1000), resource_schemas=[LIB[1], lib])
        for i, value in enumerate(chars.values(place, x, parent, dump=True)):
            if not chars.open_case(x, parent, value):
                method, status = (("PUT", "200"), ("POST", "201"), ("GET", "200"), ("PATCH", "200"))[i % 4]
                body = chars.body(place, x, parent, value)
                conform((T2, s), v, [op_of(method, status, f"{BASE}/Chrs/1", body)], ctx)

    good = [op_of("PUT", "200", LOC, blk())]

    def frame_cases():
        where = ("body", "schemas")
        for v, issues in (([fx.BULK_RES.upper()], []), ([fx.BULK_REQ], [(where, 27), (where, 28)]),
                          (None, [(where, 15)]), ([], [(where, 15)])):
            for status in (200, 201, 204, 400, 500):
                yield {"schemas": v}, issues, status

    def run_frame(case, ctx):
        members, want, status = case
        conform(ALL, validator, good, ctx, status=status, extra=(members, want))

    user, group = fx.user_response(), fx.group_response()
    big = dict(blk(), **{"schemas": [MAIN, EXT], EXT: {"x": "t"}, "many": [{"r": "t", "value": "t"}, {"r": "u"}]})
    bodies = {
        "User": ("PUT", "200", user, user["meta"]["location"]),
        "User/POST": ("POST", "201", user, user["meta"]["location"]),
        "Group": ("PATCH", "200", group, group["meta"]["location"]),
        "Blk": ("GET", "200", big, LOC), "Error": ("PUT", "400", err("400", scimType="tooMany"), LOC),
        "Error/POST": ("POST", "409", err("409", scimType="uniqueness"), MISSING),
        "Deleted": ("DELETE", "204", blk(), LOC),
    }
    junk = [None, 5, "t", [], {}, [5], [{}], True] if thorough else [None, 5, [], {}]

    def change_cases():
        for name, (_, _, body, _) in bodies.items():
            for path in fx.iter_paths(body):
                if not path:
                    continue
                yield name, path, MISSING
                for v in junk:
                    yield name, path, v

    def run_change(case, ctx):
        name, path, v = case
        method, status, body, location = bodies[name]
        body = fx.removed(body, path) if v is MISSING else fx.replaced(body, path, v)
        fine = op_of("DELETE", "204", LOC2)
        conform(ALL, validator, [fine, op_of(method, status, location, body), fine], ctx)

    menu = [
        op_of("POST", "201", LOC, blk()), op_of("put", "200", LOC, blk(), bulk_id=MISSING, version="W/1"),
        op_of("POST", "400", MISSING, err("400")), op_of("DELETE", "204", LOC2, MISSING, bulk_id=MISSING),
        op_of("PATCH", "204", LOC), op_of("PUT", "404", LOC2, err("404"), bulk_id=MISSING),
        # not acceptable
        op_of("POST", "201", LOC, blk(), bulk_id=MISSING), op_of("POST", "201", LOC + "x", blk()),
        op_of("PUT", "200", LOC, blk(), version="W/2"), op_of("PUT", "201", LOC, blk()),
        op_of("PUT", "404", LOC, err("400")), op_of("PUT", "200", f"{BASE}/Nos/1", blk()),
        op_of("GET", "200", LOC, BLK2), op_of("PUT", "404", LOC), op_of("DELETE", "204"),
        op_of("HEAD", "200", LOC, blk()), op_of(MISSING, "200", LOC, blk()), op_of("PUT", "x", LOC, blk()), 5,
        op_of("PUT", MISSING, LOC, blk()),
    ]
    nmax = 4 if thorough else 3

    def sequences():
        for n in range(1, nmax + 1):
            for combo in itertools.product(range(len(menu)), repeat=n):
                if n == 4 and sum(c > 5 for c in combo) > 1:
                    continue
                yield combo

    def run_sequence(combo, ctx):
        conform(ALL, validator, [menu[c] for c in combo], ctx)

    def failure_cases():
        for n in range(1, 7):
            for pattern in itertools.product((0, 1), repeat=n):
                for tolerated in (None, 0, 1, 2, 3, 6):
                    yield pattern, tolerated

    def run_failures(case, ctx):
        pattern, tolerated = case
        ok, failed = [menu[i] for i in (0, 1, 3, 4)], [menu[2], menu[5]]
        ops = [failed[i % 2] if f else ok[i % 4] for i, f in enumerate(pattern)]
        conform(ALL, validator, ops, ctx, tolerated=tolerated)

    def failure_kinds():
        """what counts as a failure is its status alone"""
        edges = ("299", "300", "301", "304", "307", "399", "400", "401", "409", "499", "500", "501", "599")
        for status in edges:
            for tolerated in (None, 0, 1, 2):
                for method in rb.METHODS:
                    yield (status,), method, tolerated
                for other in edges:
                    yield (status, other), "POST", tolerated

    def run_failure_kinds(case, ctx):
        found, method, tolerated = case
        ops = [op_of(method, s, LOC, err(s) if int(s) >= 300 else blk()) for s in found]
        conform(ALL, validator, ops, ctx, tolerated=tolerated)

    alone = {s.plural: rv.BulkOperations(fx.config(1000), resource_schemas=[x]) for s, x in zip(ALL, LIB)}

    def served_cases():
        for served in alone:
            for method in rb.METHODS:
                for s in ALL:
                    yield served, method, s.plural

    def run_served(case, ctx):
        served, method, plural = case
        schemas = tuple(s for s in ALL if s.plural == served)
        location = f"{BASE}/{plural}/1"
        for response in (blk(location), dict(BLK2), dict(user, meta={"resourceType": "User"}), group):
            status = {"POST": "201", "DELETE": "204"}.get(method, "200")
            conform(schemas, alone[served], [op_of(method, status, location, response)], ctx)

    def other_bodies():
        for x in (None, 5, "t", [], True):
            yield x, {("body",)}
        yield {}, {("body", "schemas"), ("body", "Operations")}
        for x in (None, [], 5, {}, "t"):
            yield {"schemas": [fx.BULK_RES], "Operations": x}, {("body", "Operations")}

    def run_other(case, ctx):
        body, want = case
        ctx.step()
        data, issues = validator.dump_response(status_code=200, body=deepcopy(body))
        got = got_issues(issues)
        expect({loc[:2] for loc, _ in got} == want, "%r: issues %r, want at %r", body, got, want)
        expect(data.body is None, "%r: released", body)
        ctx.state(repr(body))

    @functools.lru_cache(maxsize=2)
    def types(k):
        ts = tuple(rs.S(urn=f"urn:t:2.0:M{i}", name="M" * (i + 1), plural="M" * (i + 1) + "s", attrs=rs.COMMON + (
            A("n", "string" if i % 2 else "integer"), A(f"own{i}", req=True))) for i in range(k))
        return ts, rv.BulkOperations(fx.config(1000), resource_schemas=[lib_schema(t) for t in ts])

    def many_types():
        for k in [3, 4, 5, *sizes(129 if thorough else 33, 6)]:
            for at in places(k):
                for odd in (None, "type", "missing", "other", "unknown"):
                    yield k, at, odd

    def run_types(case, ctx):
        """many types of resources behind one endpoint"""
        k, at, odd = case
        ts, v = types(k)
        ops = []
        for i, t in enumerate(ts):
            plural = t.plural
            data = {"schemas": [t.urn], "id": "1", "n": str(i) if i % 2 else i, f"own{i}": "o"}
            if i == at:
                if odd == "type":
                    data["n"] = i if i % 2 else str(i)
                elif odd == "missing":
                    del data[f"own{i}"]
                elif odd == "other":
                    plural = ts[(i + 1) % k].plural
                elif odd == "unknown":
                    plural = "M" * (k + 1) + "s"
            data["meta"] = {"resourceType": t.name, "location": f"{BASE}/{plural}/1"}
            method, status = (("PUT", "200"), ("POST", "201"), ("GET", "200"), ("PATCH", "200"))[i % 4]
            ops.append(op_of(method, status, f"{BASE}/{plural}/1", data, bulk_id=f"b{i}"))
        conform(ts, v, ops, ctx)
        conform(ts, v, ops[at:] + ops[:at], ctx)

    return [
        Space("many types", "numbers of resource types next to boundaries, a telling result at every telling one of "
              "them", many_types, run_types, block=2),
        Space("one operation", "all methods x statuses x locations x responses", one_cases, run_one, block=16),
        Space("members", "versions, bulkIds, spelling, non-operations", member_cases,
              lambda ops, ctx: conform(ALL, validator, ops, ctx), block=4),
        Space("near misses", "versions, locations and methods with every slip; all statuses 100..599", near_cases,
              lambda ops, ctx: conform(ALL, validator, ops, ctx), block=16),
        Space("texts of statuses", "statuses with every slip and exotic digit x methods x responses", status_cases,
              lambda ops, ctx: conform(ALL, validator, ops, ctx), block=16),
        Space("long responses", "sizes next to boundaries, a bad result at every telling place, failure counts next "
              "to the tolerated one", long_cases, run_long, block=2),
        Space("repetitions", "all good/bad patterns of <= 6 equal results; pairs of bad ones among 13",
              repeated_cases, run_sequence, block=8),
        Space("characteristics", "every definition with few special characteristics at every place x values",
              lambda: chars.chosen(thorough, ("req", "ret", "mut", "mv"), ("preq", "pret", "pmut")), run_chars,
              block=8),
        Space("frame", "schemas x status", frame_cases, run_frame),
        Space("content of responses", "every single-point change of 7 responses", change_cases, run_change,
              block=8),
        Space("sequences", f"all sequences of <= {nmax} of {len(menu)} results", sequences, run_sequence,
              block=8),
        Space("failures", "all patterns of <= 6 successes and failures x tolerated failures", failure_cases,
              run_failures, block=4),
        Space("kinds of failures", "13 statuses, all pairs, all methods x tolerated failures", failure_kinds,
              run_failure_kinds, block=8),
        Space("served resource types", "one served type x method x addressed type x response", served_cases,
              run_served),
        Space("bodies", "all kinds of bodies", other_bodies, run_other),
    ]
