"""C17: PATCH requests."""
import itertools
from copy import deepcopy

from mc import chars
from mc import fixtures as fx
from mc import ref_filter as rf
from mc import ref_patch as rpt
from mc import ref_schema as rs
from mc.engine import Space, Violation, expect, short
from mc.lib import check_value, got_issues, lib_schema, plain, same
from mc.ref_schema import A, C
from mc.sizes import places, sizes
from src import request_validators as rv
from src.data.container import Missing

PROPERTY = {
    "title": "Modify requests are accepted exactly when every operation is applicable",
    "statement": (
        "A modify request yields a parsed body exactly when each of its operations is valid: a known "
        "operation (in any letter case); a path naming an existing attribute, sub-attribute or filtered "
        "item (demanded by 'remove', optional otherwise); a value demanded by 'add' and 'replace' and "
        "conforming to the addressed attribute - or, without path, to the whole schema - with required "
        "sub-attributes present in every new item. Read-only attributes, core or extension, can never be "
        "added, replaced or removed, directly or through their parent, and required ones can never be "
        "removed. Each problem is reported below its own operation, an acceptable operation is never "
        "blamed, and accepted operations keep their order, path and value."
    ),
    "quantifier": {
        "over": ["inputs", "configurations"],
        "text": "every attribute and sub-attribute of schemas covering all mutability / required / "
                "multi-valued / extension combinations x every path form x operation x value alphabet; "
                "all sequences of up to 3 (4 thorough) operations over good and bad ones",
    },
    "why_tests_cant": (
        "Applicability depends on the product of operation, path form, attribute characteristics and "
        "value; the tests pick some dozens of these combinations."
    ),
    "anchors": {
        "files": ["src/assets/schemas/patch_op.py", "src/request_validators.py", "src/data/path.py"],
        "mechanism": [
            {"name": "PatchOp.parse, validate_operations, validate_operation_path",
             "where": "src/assets/schemas/patch_op.py"},
            {"name": "ResourceObjectPATCH.parse_request", "where": "src/request_validators.py"},
        ],
        "observe_at": ["ResourceObjectPATCH.parse_request"],
    },
}

MAIN, EXT = "urn:t:2.0:Pat", "urn:t:2.0:PatExt"


def block(p):
    return (
        A(p + "s"), A(p + "i", "integer"), A(p + "req", req=True), A(p + "ro", mut="readOnly"),
        A(p + "roReq", mut="readOnly", req=True), A(p + "wo", mut="writeOnly", ret="never"),
        A(p + "im", mut="immutable"), A(p + "canon", canon=("a", "b"), strict=True),
        A(p + "sm", mv=True), A(p + "smReq", mv=True, req=True), A(p + "smRo", mv=True, mut="readOnly"),
        C(p + "one", A("x"), A("r", req=True), A("ro", mut="readOnly"), A("n", "integer")),
        C(p + "oneReq", A("x"), req=True),
        C(p + "roc", A("x"), A("r", req=True), mut="readOnly"),
        C(p + "many", A("value"), A("r", req=True), A("srv", req=True, issuer="SERVER"),
          A("n", "integer"), A("primary", "boolean"), mv=True),
        C(p + "manyRo", A("value"), A("r", req=True), mv=True, mut="readOnly"),
        C(p + "manyRoSub", A("value"), A("ro", mut="readOnly"), mv=True),
        C(p + "manyReq", A("value"), mv=True, req=True),
        C(p + "ends", A("ro", mut="readOnly"), A("x"), A("r", mut="readOnly")),
    )


def last(p):
    """required sub-attributes, given by the server and by the client, at both ends; the last attribute of all"""
    return (C(p + "last", A("first", req=True, issuer="SERVER"), A("r", req=True), A("n", "integer"),
              A("end", req=True, issuer="SERVER"), mv=True),)


T = rs.S(urn=MAIN, name="Pat", plural="Pats", attrs=rs.COMMON + block(""),
         exts=((EXT, block("x") + (A("s"), A("ro"), A("i", "dateTime")) + last("x")),))
BARE = rs.S(urn=MAIN, name="Pat", plural="Pats", attrs=rs.COMMON + block("") + last(""))
BARE_SCHEMA = lib_schema(BARE)
SCHEMA = lib_schema(T)
MISSING = rs.MISSING
OPS = ["add", "replace", "remove"]
VALUES = [MISSING, None, "t", 5, True, [], {}, ["t"], [5], [{}], {"x": "t"}, {"r": "t", "x": "t"},
          {"ro": "t"}, {"X": 5}, [{"value": "t"}], [{"r": "t"}, {"value": "t"}], [{"R": "t", "n": 1}],
          [{"r": "", "n": 1}], [{"r": "t", "n": "t"}, {}], [{"r": "t", "primary": True}] * 2, "B", "2020-01-01",
          [None], [{"r": "t"}, 5, {}]]
FILTERS = ['[value eq "t"]', "[not (r pr) and n gt 0]", "[nosuch eq 1]"]


def check_path(got, parts, what):
    if parts is None:
        expect(got is None or got is Missing, "%s: unexpected path", what)
        return
    urn, attr, sub, tree, tail = parts
    rep = got.attr_rep
    expect((rep.schema, rep.attr, rep.sub_attr) == (urn, attr, sub), "%s: path %r", what, rep)
    expect((got.complex_filter is None) == (tree is None), "%s: path filter", what)
    if tree is not None:
        expect(rf.same(got.complex_filter.to_dict(), tree), "%s: path filter", what)
    rep = got.complex_filter_attr_rep
    expect((rep.sub_attr if rep else None) == tail, "%s: sub-attribute of path filter", what)


def malformed(found):
    """the operation is not an object, or its name or path is not one"""
    return any(loc == () and code == rs.BAD_TYPE or loc == ("op",) and code in (rs.BAD_TYPE, rs.NOT_ONE_OF)
               or loc == ("path",) and code in (rs.BAD_TYPE, None) for loc, code in found)


def conform(s, validator, ops, ctx, schemas=None):
    """schemas: None for the right one, else a (value, issues) pair"""
    given = {"schemas": [fx.PATCH], "Operations": deepcopy(ops)}
    want_issues = []
    if schemas is not None:
        given["schemas"], want_issues = schemas
        want_issues = list(want_issues)
    before = deepcopy(given)
    results = [rpt.patch_op(s, op) for op in ops]
    for i, (_, found) in enumerate(results):
        want_issues += [(("body", "Operations", str(i)) + tuple(map(str, loc)), code)
                        for loc, code in found]
    ctx.step()
    data, issues = validator.parse_request(body=given, headers={"h": 1})
    what = short(ops, 900)
    got = got_issues(issues)
    open_ = ()
    if len(ops) > 1 and any(malformed(found) for _, found in results):
        # next to a malformed operation: how values missing in 'add', and filters in it, show is not prescribed
        open_ = {str(i) for i, (_, found) in enumerate(results)
                 if not malformed(found) and any(code in (rpt.FILTER_ADD, rs.ABSENT) and loc in (("path",), ("value",))
                                                 for loc, code in found)}
    got_exact = [(loc, c) for loc, c in got if loc[2:3] == () or loc[2] not in open_]
    want_exact = [(loc, c) for loc, c in want_issues if loc[2:3] == () or loc[2] not in open_]
    # codes of None (kind of issue not prescribed) match any number of issues at that location
    loose = [loc for loc, code in want_exact if code is None]
    exact_want = sorted((loc, c) for loc, c in want_exact if c is not None)
    exact_got = sorted((loc, c) for loc, c in got_exact if loc not in loose)
    if exact_want != exact_got or any(all(loc != x for x, _ in got) for loc in loose):
        raise Violation(f"{what}: issues {short(got)}, want {short(sorted(map(str, want_issues)))}")
    expect(given == before, "%s: request was modified", what)
    expect(data.headers == {"h": 1}, "%s: headers changed", what)
    if want_issues:
        expect(data.body is None, "%s: body in spite of issues", what)
    else:
        parsed = data.body["Operations"]
        expect(len(parsed) == len(ops), "%s: %d operations", what, len(parsed))
        for i, (item, ((op, parts, value), _)) in enumerate(zip(parsed, results)):
            expect(item["op"] == op, "%s: operation %d is %r", what, i, item["op"])
            check_path(item["path"], parts, what)
            if value is MISSING:
                expect(item["value"] is Missing, "%s: value of 'remove' kept", what)
            else:
                check_value(item["value"], value, f"{what} operation {i}")
    ctx.state(repr(ops))
    ctx.outcome(tuple(sorted({str(c) for _, c in want_issues})))


def paths_of(s):
    for ext, a in s.top():
        forms = [f"{ext}:{a.name}"] if ext else [a.name, f"{s.urn}:{a.name}"]
        for form in forms:
            yield form
            for sub in a.subs:
                yield f"{form}.{sub.name}"
            yield f"{form}.nosuch"
            for f in FILTERS:
                yield form + f
                for sub in a.subs:
                    yield f"{form}{f}.{sub.name}"
                yield f"{form}{f}.nosuch"


def make(op, path, value):
    out = {}
    if op is not MISSING:
        out["op"] = op
    if path is not MISSING:
        out["path"] = path
    if value is not MISSING:
        out["value"] = value
    return out


def read_only_items(s, op):
    """Read-only sub-attributes within new items given by path: not prescribed."""
    path, value = op.get("path"), op.get("value")
    if not isinstance(path, str) or not isinstance(value, list):
        return False
    return any(isinstance(i, dict) and any(k.lower() == "ro" for k in i) for i in value)


DEEP = False


def run_chars(case, ctx):
    """every path form of an attribute of special characteristics x operation x value"""
    place, dev = case
    s, lib, x, parent = chars.build(place, dev)
    validator = rv.ResourceObjectPATCH(fx.CONFIG, resource_schema=lib)
    top = parent or x
    urn = chars.EXT if place.startswith("x") else chars.MAIN
    head = f"{urn}:{top.name}"
    paths = [head, f"{head}[k pr]", f"{head}[{x.name} pr]"] + ([] if place.startswith("x") else [top.name])
    own = [v for _, v in chars.own_values(x)]
    values = list(chars.values(place, x, parent))
    brief = len(dev) > 1 and not DEEP
    changes = ("add", "replace")
    if "$ref" in head or x.name == "$ref":
        paths = [p for p in paths if "[$ref" not in p]
    for path in paths:
        ops = [make("remove", path, MISSING), make("remove", path, "t")]
        for op in changes:
            for i, v in enumerate(values):
                if brief and (op == changes[i % 2] or path != head and i % 5 != 2):
                    continue  # alternate between the two operations
                ops.append(make(op, path, v))
        for op in ops:
            if not ro_items(top, op):
                conform(s, validator, [op], ctx)
    if parent is not None:
        for path in [f"{head}.{x.name}", f"{head}[k pr].{x.name}", f"{head}.k", f"{head}[k pr].k"]:
            conform(s, validator, [make("remove", path, MISSING)], ctx)
            for op in changes:
                for i, v in enumerate(own if not path.endswith(".k") else ("t", 5)):
                    if v is rs.MISSING and x.type == "unknown":
                        continue
                    if brief and op == changes[i % 2]:
                        continue
                    conform(s, validator, [make(op, path, v)], ctx)
    for v in values:
        if v is rs.MISSING:
            continue
        whole = {top.name: v}
        if place.startswith("x"):
            whole = {chars.EXT: whole}
        conform(s, validator, [make("add", MISSING, whole)], ctx)
        if not brief:
            conform(s, validator, [make("replace", MISSING, dict(whole, o="o"))], ctx)


def ro_items(top, op):
    """Read-only sub-attributes within new items given by path: not prescribed."""
    if top.type == "unknown" and "value" not in op:
        return True  # attributes without a type are not part of SCIM schemas
    names = {a.name.lower() for a in top.subs if a.mut == rs.RO}
    value = op.get("value")
    return top.mv and isinstance(value, list) and any(
        isinstance(i, dict) and any(k.lower() in names for k in i) for i in value)


def spaces(tier):
    global DEEP
    DEEP = thorough = tier == "thorough"
    validator = rv.ResourceObjectPATCH(fx.CONFIG, resource_schema=SCHEMA)
    all_paths = list(dict.fromkeys(paths_of(T)))
    values = VALUES if thorough else VALUES[:1] + VALUES[2:]

    def path_cases():
        for path in all_paths:
            qualified = path.startswith(MAIN)
            for op in OPS:
                for v in values if op != "remove" else [MISSING, "t"]:
                    if not thorough and qualified and v not in (MISSING, "t") and v != [{"r": "t"}]:
                        continue
                    yield op, path, v
            yield "add", path, None

    def run_path(case, ctx):
        op = make(*case)
        if not read_only_items(T, op):
            conform(T, validator, [op], ctx)

    bare = rv.ResourceObjectPATCH(fx.CONFIG, resource_schema=BARE_SCHEMA)
    lasts = [[{}], [{"r": "t"}], [{"r": "t"}, {"n": 1}], [{"first": "t", "end": "t"}], [{"r": "t", "first": "t"}],
             [{"r": "", "end": "t"}, {"R": "t", "END": None}], [], [{"n": "t"}, {"n": 1}], [None, {}, {"r": "t"}]]
    lasts += [[a, b, c] for a in ({}, {"r": "t"}, {"n": "t"}) for b in ({}, {"r": "t"}, 5) for c in ({}, {"r": "t"})]

    def last_cases():
        """new items of the last attribute of a schema, without and with an extension"""
        for v in lasts:
            for op in ("add", "replace"):
                yield T, make(op, f"{EXT}:xlast", v)
                yield T, make(op, MISSING, {EXT: {"xlast": v}})
                yield T, make(op, MISSING, {"s": "t", EXT: {"xs": "t", "xlast": v}})
                yield BARE, make(op, "last", v)
                yield BARE, make(op, f"{MAIN}:last", v)
                yield BARE, make(op, MISSING, {"last": v})
                yield BARE, make(op, MISSING, {"last": v, "many": v})

    def run_last(case, ctx):
        s, op = case
        conform(s, validator if s is T else bare, [op], ctx)
        conform(s, validator if s is T else bare, [{"op": "remove", "path": "nosuch"}, op], ctx)
        conform(s, validator if s is T else bare, [{"op": "remov"}, op, {"op": "add", "path": "s", "value": "t"}], ctx)
        conform(s, validator if s is T else bare, [op, {"op": "add", "path": "s", "value": 5}], ctx)

    odd_paths = [MISSING, None, "", " ", "nosuch", "nosuch.x", "nosuch[a pr]", "urn:no:s", f"{MAIN}:xs",
                 f"{EXT}:sm", EXT, MAIN, "s.x", "one.x.y", "many[value eq]", "many[", "MANY[VALUE pr].R",
                 "xs", "xone.x", "xmany[r pr].value", "ONE.X", f"{EXT.upper()}:XS", "one[x pr]",
                 "one[x pr].x", "s[value pr]", "sm[value pr]", "many[r pr] ", "schemas", "id", "meta",
                 "meta.version", "externalId", "meta[version pr]", "$ref", "s s", 5, True, [], {}, ["s"]]
    odd_ops = [MISSING, None, "", "Add", "REPLACE", "rEmove", "delete", "adds", 5, True, [], {}, " add"]

    def odd_cases():
        for op in OPS + odd_ops:
            for path in odd_paths:
                for v in (MISSING, None, "t", {"s": "t"}, [{"r": "t"}]):
                    yield op, path, v

    whole = [
        {}, {"s": "t"}, {"S": "t", "nosuch": 1}, {"s": 5}, {"i": 1.0, "canon": "B"}, {"canon": "c"},
        {"req": None}, {"ro": "t"}, {"RO": None}, {"ro": 5}, {"roc": {"x": "t"}}, {"roc": {}}, {"roc": None},
        {"one": {"x": "t"}}, {"one": {"ro": "t"}}, {"one": {"RO": None}}, {"one": {"ro": 5, "x": "t"}},
        {"one": "t"}, {"many": []}, {"many": None}, {"many": [{}]}, {"many": [{"r": "t"}, {"n": 1}]},
        {"many": [{"r": "t", "n": "x"}, {"n": 1}]}, {"many": {"r": "t"}}, {"manyRo": [{"r": "t"}]},
        {"manyRo": [{}]}, {"manyRo": []}, {"manyRoSub": [{"value": "t"}]},
        {"manyRoSub": [{"value": "t"}, {"ro": "t"}]}, {"manyRoSub": [{"ro": None}]}, {"manyRoSub": []},
        {"smRo": ["t"]}, {"smRo": []}, {"sm": ["t", 5]}, {"smReq": []}, {"wo": "t", "im": "t"},
        {"schemas": [MAIN]}, {"schemas": ["urn:no"]}, {"schemas": []}, {"schemas": 5}, {"id": "1"},
        {"meta": {"version": "1"}}, {"meta": {}}, {"externalId": "1"}, {EXT: {"s": "t"}}, {EXT: {}},
        {EXT: {"xro": "t"}}, {EXT: {"ro": "t"}}, {EXT.upper(): {"XONE": {"ro": "t"}}}, {EXT: {"xmany": [{}]}},
        {EXT: {"xmanyRoSub": [{"ro": "t"}]}}, {EXT: {"xi": "t"}}, {EXT: {"i": "2020-01-01"}}, {EXT: {"i": 5}},
        {EXT: 5}, {EXT: None}, {EXT: [{}]}, {"roReq": "t"}, {EXT: {"xroc": {"r": "t"}}}, {"oneReq": {}},
        {"many": [{"r": "t", "primary": True}] * 2},
        {EXT: {"xlast": [{}]}}, {EXT: {"xlast": [{"r": "t"}, {"first": "t", "end": "t"}]}}, {"last": [{}, {"r": "t"}]},
        [], [{}], 5, "t", True, None, MISSING,
    ]

    def whole_cases():
        for i in range(len(whole)):
            yield (i,)
        for i, j in itertools.combinations(range(len(whole)), 2):
            if isinstance(whole[i], dict) and isinstance(whole[j], dict):
                yield i, j

    def run_whole(case, ctx):
        value = whole[case[0]]
        value = value if value is MISSING else deepcopy(value)
        for j in case[1:]:
            for k, v in deepcopy(whole[j]).items():
                if k in value and isinstance(value[k], dict) and isinstance(v, dict):
                    value[k].update(v)
                else:
                    value[k] = v
        for op in ("add", "replace"):
            conform(T, validator, [make(op, MISSING, value)], ctx)
            if len(case) == 1:
                conform(T, validator, [make(op, None, value)], ctx)
                conform(T, validator, [{"OP": op.upper(), "Value": value} if value is not MISSING else
                                       {"OP": op.upper()}], ctx)

    menu = [
        {"op": "add", "path": "s", "value": "t"}, {"op": "remove", "path": "many[r pr].value"},
        {"op": "replace", "path": "one", "value": {"x": "t"}}, {"op": "add", "value": {"sm": ["t"]}},
        {"op": "remove", "path": "s", "value": 5}, {"op": "replace", "path": f"{EXT}:xs", "value": "t"},
        # not acceptable
        {"op": "bad"}, {"op": "remove"}, {"op": "add", "path": "s"}, {"op": "remove", "path": "ro"},
        {"op": "remove", "path": "req"}, {"op": "add", "path": "many[r pr]", "value": [{"r": "t"}]},
        {"op": "replace", "path": "nosuch", "value": 1}, {"path": "s", "value": "t"},
        {"op": "add", "path": "many", "value": [{}]}, {"op": "replace", "value": {"ro": "t"}},
        {"op": "add", "path": "i", "value": "t"}, 5, {"op": "add", "path": "a[", "value": 1},
        {"op": "replace", "value": {"many": [{"n": 1}], EXT: {"xlast": [{"r": "t"}, {}]}}},
        {"op": "replace", "path": f"{EXT}:xlast", "value": [{"r": "t"}, {"first": "t"}]},
    ]
    nmax = 4 if thorough else 3

    def sequences():
        for n in range(2, nmax + 1):
            for combo in itertools.product(range(len(menu)), repeat=n):
                if n == 4 and sum(c > 5 for c in combo) > 1:
                    continue
                yield combo

    def run_sequence(combo, ctx):
        conform(T, validator, [menu[c] for c in combo], ctx)

    def long_sequences():
        for n in (6, 13):
            for pos in range(n):
                for bad in range(6, len(menu)):
                    yield tuple(bad if i == pos else i % 6 for i in range(n))

    def very_long_sequences():
        for n in sizes(1025 if thorough else 129, 14):
            yield tuple(i % 6 for i in range(n))
            for pos in places(n):
                for bad in range(6, len(menu)) if pos in (0, n - 1) else (7, 12, 14, 17):
                    yield tuple(bad if i == pos else i % 6 for i in range(n))

    def large():
        for n in sizes(513 if thorough else 101, 2):
            items = [{"r": "t", "n": i} for i in range(n)]
            for p in places(n):
                for op in ("add", "replace"):
                    for odd in ({"n": 1}, {"r": "t", "n": "t"}, 5):
                        value = items[:p] + [odd] + items[p + 1:]
                        yield [make(op, "many", value)]
                        yield [make(op, MISSING, {"many": value})]
                        yield [make(op, MISSING, {EXT: {"xmany": value}})]
                    yield [make(op, "sm", ["t" if i != p else 5 for i in range(n)])]
            yield [make("add", "many", items)]
            yield [make("add", "many", [dict(x, primary=True) if i in (0, n - 1) else x for i, x in enumerate(items)])]
            text = ("ab]c[ ." * 200)[:n]
            for op in OPS:
                for tail in ("", ".value", ".n", ".nosuch"):
                    yield [make(op, f'many[value eq "{text}"]{tail}', "t")]
                    yield [make(op, f"many[{' or '.join(f'n eq {i}' for i in range(n))}]{tail}", "t")]
            yield [make("add", "s", "t" * n)]
            yield [make("add", MISSING, {**{f"unknown{i}": i for i in range(n)}, "ro": "t", "s": 5})]

    def run_schemas(case, ctx):
        uris, issues = case
        for ops in ([menu[0]], [menu[12]]):
            conform(T, validator, ops, ctx, schemas=(uris, issues))

    where = ("body", "schemas")
    uris = [
        ([fx.PATCH.upper()], []), (None, [(where, 15)]), ([], [(where, 15)]), (["urn:x"], [(where, 27), (where, 28)]),
        ([fx.PATCH, "urn:x"], [(where, 27)]), (5, [(where, 2)]), ([5], [(where + ("0",), 2)]),
        ([MAIN], [(where, 27), (where, 28)]),
    ]

    def bodies():
        yield None, [(("body",), 15)]
        for x in (5, "t", [], [{}], True):
            yield x, [(("body",), 2)]
        yield {}, [(("body", "schemas"), 15), (("body", "Operations"), 15)]
        for x in (None, []):
            yield {"schemas": [fx.PATCH], "Operations": x}, [(("body", "Operations"), 15)]
        for x in (5, {}, "t", {"op": "remove", "path": "s"}):
            yield {"schemas": [fx.PATCH], "Operations": x}, [(("body", "Operations"), 2)]

    def run_body(case, ctx):
        body, want = case
        ctx.step()
        data, issues = validator.parse_request(body=deepcopy(body))
        got = got_issues(issues)
        want_top = {loc for loc, _ in want}
        expect({loc[:2] for loc, _ in got} == want_top, "%r: issues %r, want %r", body, got, want)
        expect(data.body is None, "%r: accepted", body)
        ctx.state(repr(body))

    user = rv.ResourceObjectPATCH(fx.CONFIG, resource_schema=fx.User())
    group = rv.ResourceObjectPATCH(fx.CONFIG, resource_schema=fx.Group())

    def built_in():
        for name, s in (("User", rs.USER), ("Group", rs.GROUP)):
            for ext, a in s.top():
                head = f"{ext}:{a.name}" if ext else a.name
                for path in [head, *(f"{head}.{x.name}" for x in a.subs),
                             *(f'{head}[value eq "x"].{x.name}' for x in a.subs if a.mv)]:
                    for op in OPS:
                        for v in ("t", 5, [{"value": "x"}]) if op != "remove" else (MISSING,):
                            yield name, make(op, path, v)
                yield name, make("add", MISSING, {ext: {a.name: "t"}} if ext else {a.name: "t"})
                yield name, make("replace", MISSING, {a.name: [{"value": "t", "display": "d"}]})

    def run_built_in(case, ctx):
        name, op = case
        s, v = (rs.USER, user) if name == "User" else (rs.GROUP, group)
        conform(s, v, [op], ctx)

    return [
        Space("every path", f"{len(all_paths)} paths x operations x values", path_cases, run_path, block=8),
        Space("characteristics", f"every definition with <= {3 if thorough else 2} special characteristics at "
              "every place x every path form x operation x value",
              lambda: chars.definitions(3 if thorough else 2), run_chars, block=8),
        Space("unusual operations and paths", "all operation names x odd paths x values", odd_cases,
              lambda case, ctx: conform(T, validator, [make(*case)], ctx), block=8),
        Space("values without path", f"all pairs of {len(whole)} partial values", whole_cases, run_whole,
              block=8),
        Space("sequences", f"all sequences of <= {nmax} of {len(menu)} operations", sequences, run_sequence,
              block=8),
        Space("long sequences", "one bad operation at every position of 6 and 13", long_sequences,
              run_sequence, block=8),
        Space("very long sequences", "numbers of operations next to boundaries, a bad one at every telling position",
              very_long_sequences, run_sequence, block=4),
        Space("large operations", "numbers of items, filter operands and lengths of texts next to boundaries", large,
              lambda ops, ctx: conform(T, validator, ops, ctx), block=8),
        Space("new items of the last attribute", "required sub-attributes given by server or client at both ends x "
              f"{len(lasts)} values x path forms x neighbouring operations", last_cases, run_last, block=4),
        Space("schemas field", "8 values", lambda: iter(uris), run_schemas),
        Space("bodies", "all kinds of bodies", bodies, run_body),
        Space("built-in schemas", "every path of User and Group x operation", built_in, run_built_in,
              block=8),
    ]
