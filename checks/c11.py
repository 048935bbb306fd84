"""C11: which attributes must be present and which must not be returned."""
import itertools

from mc import chars
from mc import fixtures as fx
from mc import ref_schema as rs
from mc.engine import Space, expect, short
from mc.lib import check_issues, got_issues, lib_attr, lib_schema
from mc.sizes import places, sizes
from mc.ref_schema import A, C, R
from src.attributes_presence import AttributePresenceChecker
from src.data.container import AttrRep, Invalid, SCIMDataContainer
from src.data.schemas import BaseSchema

PROPERTY = {
    "title": "Required, requested and returned attributes are decided exactly",
    "statement": (
        "For every attribute and sub-attribute, core or extension, at every list position: in a "
        "response a never-returned attribute with a value is always reported, an always-returned "
        "one never is, and any other is reported exactly when the client excluded it by name or "
        "named the attributes it wants and this one, its parent or (for a parent) one of its "
        "sub-attributes is not among them. A required attribute without a value is reported as "
        "missing, in requests and responses, unless the client left it out by its selection (which "
        "never excuses an always-returned attribute of a response) or it is explicitly exempt. "
        "Selections name attributes in any letter case, qualified or not, and a malformed name in a "
        "selection is reported."
    ),
    "quantifier": {
        "over": ["inputs", "configurations"],
        "text": "all combinations of required x returned for parent and sub-attribute x arity x "
                "core/extension x value forms x direction x include/exclude selections up to two "
                "names; every attribute of the built-in schemas",
    },
    "why_tests_cant": (
        "The decision depends on eight interacting characteristics; tests sample about thirty "
        "combinations out of hundreds of thousands."
    ),
    "anchors": {
        "files": ["src/attributes_presence.py", "src/request_validators.py"],
        "mechanism": [{"name": "AttributePresenceChecker.__call__, _check_presence, parse",
                       "where": "src/attributes_presence.py"}],
        "observe_at": ["AttributePresenceChecker"],
    },
}

MAIN, EXT = "urn:t:2.0:Main", "urn:t:2.0:Ext"
RET = ["default", "always", "never", "request"]
_CACHE = {}


class Flat(BaseSchema):
    pass


def make(kind, treq, tret, sreq, sret):
    key = kind, treq, tret, sreq, sret
    if key in _CACHE:
        return _CACHE[key]
    if kind in ("simple", "simple mv"):
        x = A("x", req=treq, ret=tret, mv=kind.endswith("mv"))
    else:
        x = C("x", A("s", req=sreq, ret=sret), A("t"), req=treq, ret=tret, mv="mv" in kind)
    if kind.startswith("ext"):
        s = rs.S(MAIN, rs.COMMON + (A("x"),), "Main", "Mains", ((EXT, (x, A("o"))),))
        lib = lib_schema(s)
    else:
        s = rs.S(MAIN, (rs.SCHEMAS, x, A("o")), "Main")
        lib = Flat(MAIN, [lib_attr(x), lib_attr(A("o"))])
    _CACHE[key] = s, lib
    return s, lib


SINGLE = ["absent", None, {}, {"s": "v"}, {"s": ""}, {"s": None, "t": "v"}, {"s": []}, {"t": "v"}]
VALUES = {
    "simple": ["absent", None, "", "v", False, 0],
    "simple mv": ["absent", None, [], ["v"], ["", "v"]],
    "single": SINGLE,
    "mv": ["absent", None, [], [{}], [{"s": "v"}], [{"s": ""}, {"t": "v"}],
           [{"s": "v"}, {"s": None}, {"s": "w", "t": "v"}]],
    "ext single": SINGLE[:1] + SINGLE[2:6],
    "ext mv": ["absent", [], [{"s": "v"}], [{"s": "v"}, {"t": "v"}]],
}
BASE_REFS = [R("x"), R("X", "", MAIN.upper()), R("x", "s"), R("X", "S", MAIN), R("x", "t"), R("o"),
             R("x", "", "urn:other"), R("s"), R("schemas")]
EXT_REFS = [R("x"), R("x", "", EXT), R("X", "", EXT.upper()), R("x", "s", EXT), R("x", "S"),
            R("x", "", MAIN), R("o", "", EXT), R("id"), R("meta", "location")]


def selections(refs, n):
    yield (), None
    for k in range(1, n + 1):
        for chosen in itertools.combinations(refs, k):
            yield chosen, True
            yield chosen, False
    yield (), True
    yield (), False


def cases(n):
    for kind, values in VALUES.items():
        ext = kind.startswith("ext")
        simple = kind.startswith("simple")
        tops = list(itertools.product((False, True), RET))
        subs = [(False, "default")] if simple else tops
        for (treq, tret), (sreq, sret) in itertools.product(tops, subs):
            if kind in ("single", "ext single") and sreq and not treq:
                continue  # required sub-attribute of an optional parent: left open when absent
            for selection in selections(EXT_REFS if ext else BASE_REFS, 1 if ext else n):
                yield kind, treq, tret, sreq, sret, selection


def body_of(kind, value):
    body = {"schemas": [MAIN], "o": "other"}
    if kind.startswith("ext"):
        body.update(id="1", x="core", meta={"location": "l"})
        del body["o"]
        body[EXT] = {"o": "other"}
        if value != "absent":
            body[EXT]["x"] = value
    elif value != "absent":
        body["x"] = value
    return body


def data_of(s, body):
    """reference form of an already parsed body"""
    data = {"": {k: v for k, v in body.items() if k not in s.known}}
    for urn in s.known:
        if urn in body:
            data[urn] = body[urn]
    return data


def run(case, ctx):
    kind, treq, tret, sreq, sret, (refs, include) = case
    s, lib = make(kind, treq, tret, sreq, sret)
    given = [AttrRep(r.urn, r.attr, r.sub) for r in refs]
    exempt = [AttrRep(attr="x"), AttrRep(attr="x", sub_attr="s")]
    checker = AttributePresenceChecker(given, include)
    ignored = AttributePresenceChecker(iter(list(given)), include, ignore_required=exempt)
    once = AttributePresenceChecker(tuple(given), include, ignore_required=iter(list(exempt)))
    given.clear(), exempt.clear()  # the lists stay the caller's
    given.append(AttrRep(attr="zzz"))
    for value in VALUES[kind]:
        body = body_of(kind, value)
        for direction in ("REQUEST", "RESPONSE"):
            ctx.step()
            issues = checker(SCIMDataContainer(body), lib.attrs, direction)
            want = rs.presence(s, data_of(s, body), direction, refs, include)
            check_issues(issues, want, f"{kind} {short(value)} {direction}")
            if not kind.startswith("ext"):
                ctx.step()
                issues = ignored(SCIMDataContainer(body), lib.attrs, direction)
                want = rs.presence(s, data_of(s, body), direction, refs, include,
                                   {("", "x", ""), ("", "x", "s")})
                check_issues(issues, want, f"{kind} {short(value)} {direction}, exempt")
                issues = once(SCIMDataContainer(body), lib.attrs, direction)
                check_issues(issues, want, f"{kind} {short(value)} {direction}, exempt (iterator)")
            ctx.outcome(tuple(sorted({c for _, c in want})))
        ctx.state((case, short(value)))


BUILT_IN = {"User": (rs.USER, fx.User(), fx.user_response()),
            "Group": (rs.GROUP, fx.Group(), fx.group_response())}


def built_in_refs(s):
    for ext, a in s.top():
        for sub in [""] + [x.name for x in a.subs]:
            yield R(a.name, sub)
            yield R(a.name.upper(), sub.upper() if sub != "$ref" else sub, (ext or s.urn).lower())


def built_in_cases():
    for name, (s, _, body) in BUILT_IN.items():
        for ref in built_in_refs(s):
            for include in (True, False):
                yield name, ref, include, None
        for path in fx.iter_paths(body):
            if path:
                yield name, None, None, path
        yield name, None, None, "password"


def run_built_in(case, ctx):
    name, ref, include, path = case
    s, lib, body = BUILT_IN[name]
    if path == "password":
        body = dict(body, password="x")
    elif path:
        body = fx.removed(body, path)
    refs = [ref] if ref else []
    checker = AttributePresenceChecker([AttrRep(r.urn, r.attr, r.sub) for r in refs], include)
    for direction in ("RESPONSE", "REQUEST") if path else ("RESPONSE",):
        ctx.step()
        issues = checker(SCIMDataContainer(body), lib.attrs, direction)
        check_issues(issues, rs.presence(s, data_of(s, body), direction, refs, include),
                     f"{name} {ref and ref.text()} {include} {path}")
    ctx.state(repr(case))


DEEP = False


def run_chars(case, ctx):
    place, dev = case
    s, lib, x, parent = chars.build(place, dev)
    selections = chars.selections(case, DEEP)
    for value in chars.values(place, x, parent):
        if chars.open_case(x, parent, value):
            continue
        body = chars.body(place, x, parent, value)
        data, issues = rs.schema(s, body, "parse")
        if issues:
            continue  # presence is checked on accepted data
        body = rs.flat(data)
        for refs, include in selections:
            checker = AttributePresenceChecker([AttrRep(r.urn, r.attr, r.sub) for r in refs], include)
            for direction in ("REQUEST", "RESPONSE"):
                ctx.step()
                issues = checker(SCIMDataContainer(body), lib.attrs, direction)
                check_issues(issues, rs.presence(s, data, direction, refs, include),
                             f"{case} {short(body)} {direction} {refs} {include}")
        ctx.state((case, short(value)))


def long_cases():
    """an item without the required (or with the forbidden) sub-attribute at every position"""
    for n in list(range(1, 24)) + sizes(1025 if DEEP else 257, 24):
        for i in range(n) if n < 24 else places(n):
            for kind in ("mv", "ext mv"):
                for sreq, sret in ((True, "default"), (False, "never"), (True, "always")):
                    yield kind, sreq, sret, n, i


def run_long(case, ctx):
    kind, sreq, sret, n, i = case
    s, lib = make(kind, False, "default", sreq, sret)
    for odd, rest in (({"t": "v"}, {"s": "v"}), ({"s": "v"}, {"t": "v"})):
        value = [dict(odd if j == i else rest) for j in range(n)]
        body = body_of(kind, value)
        for direction in ("REQUEST", "RESPONSE"):
            ctx.step()
            issues = AttributePresenceChecker()(SCIMDataContainer(body), lib.attrs, direction)
            check_issues(issues, rs.presence(s, data_of(s, body), direction), repr(case))
            for at in {0, i - 1, i + 1} & set(range(min(n, 12))):  # an item that could not be read
                spoilt, known = ([bad if j == at else v for j, v in enumerate(value)]
                                 for bad in (Invalid, rs.INVALID))
                ctx.step()
                issues = AttributePresenceChecker()(
                    SCIMDataContainer(body_of(kind, spoilt)), lib.attrs, direction)
                check_issues(issues, rs.presence(s, data_of(s, body_of(kind, known)), direction),
                             f"{case!r}, item {at} invalid")
    ctx.state(case)


def many_selections():
    """one telling name at every telling position among many other selected names"""
    for kind in ("simple", "single", "mv", "ext mv"):
        refs = EXT_REFS if kind.startswith("ext") else BASE_REFS
        for n in sizes(1025 if DEEP else 513, 3):
            for at in places(n):
                for ref in refs[:5] if at in (0, n - 1) else refs[:1]:
                    yield kind, n, at, ref


def run_many_selections(case, ctx):
    kind, n, at, ref = case
    refs = [ref if i == at else R(f"z{i}", ("", "q")[i % 2], ("", MAIN)[i % 3 == 0]) for i in range(n)]
    simple = kind == "simple"
    for treq, tret, sreq, sret in ((False, "default", False, "default"), (False, "request", False, "request"),
                                   (True, "always", not simple, "always")):
        s, lib = make(kind, treq, tret, sreq if not simple else False, sret if not simple else "default")
        for include in (True, False):
            checker = AttributePresenceChecker([AttrRep(r.urn, r.attr, r.sub) for r in refs], include)
            for value in ("absent", VALUES[kind][3]):
                body = body_of(kind, value)
                ctx.step()
                issues = checker(SCIMDataContainer(body), lib.attrs, "RESPONSE")
                check_issues(issues, rs.presence(s, data_of(s, body), "RESPONSE", refs, include),
                             f"{case} {short(value)} {include}")
    ctx.state(repr(case))


def many_attributes():
    for n in sizes(513 if DEEP else 129, 2):
        for at in places(n):
            for where in ("core", "extension", "single", "mv"):
                yield n, at, where


def run_many_attributes(case, ctx):
    n, at, where = case
    base = [A(f"attr{i}") for i in range(n)]
    for odd, present in ((A(f"attr{at}", req=True), False), (A(f"attr{at}", ret="never"), True),
                         (A(f"attr{at}", ret="request"), True)):
        attrs = tuple(odd if i == at else a for i, a in enumerate(base))
        values = {a.name: "v" for a in attrs if present or a is not odd}
        body = {"schemas": [MAIN]}
        if where == "core":
            s = rs.S(MAIN, rs.COMMON + attrs, "Main", "Mains")
            body.update(values)
        elif where == "extension":
            s = rs.S(MAIN, rs.COMMON, "Main", "Mains", ((EXT, attrs),))
            body[EXT] = values
        else:
            s = rs.S(MAIN, rs.COMMON + (C("x", *attrs, mv=where == "mv"),), "Main", "Mains")
            body["x"] = values if where == "single" else [values, values]
        lib = lib_schema(s)
        refs = () if odd.ret != "request" else (R(f"attr{(at + 1) % n}") if where in ("core", "extension")
                                                else R("x", f"attr{(at + 1) % n}"),)
        ctx.step()
        issues = AttributePresenceChecker([AttrRep(r.urn, r.attr, r.sub) for r in refs], bool(refs) or None)(
            SCIMDataContainer(body), lib.attrs, "RESPONSE")
        check_issues(issues, rs.presence(s, data_of(s, body), "RESPONSE", refs, bool(refs) or None),
                     f"{case} {odd}")
    ctx.state(case)


NAMES = ["userName", "NAME", "name.familyName", f"{rs.USER.urn}:emails.value", "$ref", "", " ", "a b",
         "a.b.c", "a:", "é", "a.", ".a", None, 5, ["a"], {"a": 1}, "name.", "a,b"]


def run_parse(case, ctx):
    names, include = case
    from checks.c06 import ref_parse
    parsed = [ref_parse(n) if isinstance(n, str) else None for n in names]
    ctx.step()
    checker, issues = AttributePresenceChecker.parse(list(names), include)
    if all(p is not None for p in parsed):
        expect(not issues.has_issues(), "%r refused", names)
        got = [(r.schema, r.attr, r.sub_attr) for r in checker.attr_reps]
        expect(got == parsed, "%r parsed to %r", names, got)
        expect(checker.include is include, "another selection mode")
    else:
        expect(checker is Invalid, "%r accepted", names)
        bad = {str(n) for n, p in zip(names, parsed) if p is None}
        got = got_issues(issues)
        expect({loc for loc, _ in got} == {(b,) for b in bad}, "%r: issues %r", names, got)
        expect({c for _, c in got} == {111}, "%r: issues %r", names, got)
    ctx.state(repr(case))
    ctx.outcome(all(p is not None for p in parsed))


def spaces(tier):
    global DEEP
    DEEP = deep = tier == "thorough"
    n = 3 if deep else 2
    return [
        Space("decision table", f"all characteristics x values x directions x selections of <= {n} "
              "names", lambda: cases(n), run, block=4),
        Space("characteristics", f"every definition with <= {3 if deep else 2} special characteristics at "
              "every place x values x selections", lambda: chars.definitions(3 if deep else 2), run_chars,
              block=8),
        Space("long lists", "an odd item at every position of lists up to 23 items, at every telling one of longer lists", long_cases,
              run_long, block=2),
        Space("long selections", "a telling name at every telling position of selections with sizes next to "
              "boundaries", many_selections, run_many_selections, block=2),
        Space("many attributes", "an odd attribute at every telling position, numbers next to boundaries",
              many_attributes, run_many_attributes, block=2),
        Space("built-in schemas", "every attribute selected or excluded, every node removed",
              built_in_cases, run_built_in),
        Space("selections", f"all lists of <= {3 if deep else 2} names",
              lambda: ((x, inc) for k in range(4 if deep else 3) for x in itertools.product(NAMES, repeat=k)
                       for inc in (True, False)), run_parse, block=16),
    ]
