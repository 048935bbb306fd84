"""C09: schema-level parsing and dumping."""
import itertools
from copy import deepcopy
from datetime import datetime

from mc import chars
from mc import fixtures as fx
from mc import ref_schema as rs
from mc.engine import Space, expect, short
from mc.lib import check_issues, check_value, got_issues, lib_schema, plain
from mc.near import near
from mc.ref_schema import A, C
from mc.sizes import places, sizes
from src.data import type as at
from src.data.attributes import (
    Attribute,
    AttributeIssuer,
    AttributeMutability,
    AttributeReturn,
    AttributeUniqueness,
    ComplexAttribute,
)
from src.data.container import AttrRep, SCIMDataContainer
from src.data.schemas import ResourceSchema, SchemaExtension
from src.error import ValidationError, ValidationIssues

PROPERTY = {
    "title": "Schemas keep exactly the declared data and check the schemas field",
    "statement": (
        "Parsing or dumping a resource against a schema keeps every declared attribute, core or "
        "extension, named in any letter case, under its declared name and drops everything "
        "undeclared; core attributes and equally named extension attributes never mix. Every "
        "attribute problem is reported at the attribute's own location (below the extension URI "
        "for extension attributes), and a body that is absent or not an object, or an extension "
        "block that is not an object, is reported as such. A non-empty 'schemas' list is reported "
        "exactly when it names an unknown schema, lacks the main schema, or lacks an extension "
        "whose data is present, in any letter case; a dumped resource whose meta.resourceType "
        "differs from the schema's name is reported. An attribute keeps in a schema, core or extension, "
        "every characteristic and processing step it was declared with; overriding a common attribute "
        "changes that one only; an extension can be added once, in any letter case."
    ),
    "quantifier": {
        "over": ["inputs", "configurations"],
        "text": "all lists of schema URIs up to the bound x all shapes of extension blocks; all "
                "subsets of attributes in all spellings; every attribute of built-in schemas x every "
                "kind of value; all sequences of added extensions and choices of overridden attributes",
    },
    "why_tests_cant": (
        "Tests use the User schema with one body; combinations of URI lists, extension blocks and "
        "letter case are never enumerated, nor schemas with several extensions."
    ),
    "anchors": {
        "files": ["src/data/schemas.py", "src/data/container.py", "src/assets/schemas/user.py",
                  "src/assets/schemas/group.py"],
        "mechanism": [
            {"name": "BaseSchema._process, validate_schemas_field", "where": "src/data/schemas.py"},
            {"name": "ResourceSchema.with_extension, dump", "where": "src/data/schemas.py"},
        ],
        "observe_at": ["schema.parse", "schema.dump"],
    },
}

MAIN, E1, E2 = "urn:t:core:2.0:Thing", "urn:t:ext:2.0:One", "urn:t:ext:2.0:Two"
T = rs.S(
    urn=MAIN, name="Thing", plural="Things",
    attrs=rs.COMMON + (
        A("int", "integer"), A("str"), C("c", A("int", "integer"), A("str")),
        C("mv", A("value"), A("primary", "boolean"), mv=True), A("list", mv=True),
    ),
    exts=(
        (E1, (A("int", "integer"), A("xstr"), C("c", A("other", "integer")))),
        (E2, (A("int"), C("mv", A("value", "integer"), mv=True))),
    ),
)
PLAIN = rs.S(urn="urn:t:core:2.0:Plain", name="Plain", attrs=rs.COMMON + (A("int", "integer"),))
LIB = {"Thing": (T, lib_schema(T)), "Plain": (PLAIN, lib_schema(PLAIN)),
       "User": (rs.USER, fx.User()), "Group": (rs.GROUP, fx.Group())}


def conform(name, body, ctx, directions=("parse", "dump"), as_container=False):
    s, lib = LIB[name] if isinstance(name, str) else name
    name = s.name
    for direction in directions:
        if direction == "dump":
            want, want_issues = rs.dump_resource(s, body)
        else:
            want, want_issues = rs.schema(s, body, "parse")
        ctx.step()
        given = SCIMDataContainer(body) if as_container else body
        got, issues = getattr(lib, direction)(given)
        what = f"{name} {direction} {short(body, 600)}"
        check_issues(issues, want_issues, what)
        if not want_issues:
            check_value(got, rs.flat(want), what)
        elif want is rs.INVALID:
            expect(plain(got) is rs.INVALID, "%s: data in spite of a body that is not one", what)
        ctx.outcome(tuple(sorted({c for _, c in want_issues})))
    ctx.state((name, short(body)))


def run(case, ctx):
    conform(case[0], case[1], ctx)
    if isinstance(case[1], dict):
        conform(case[0], case[1], ctx, as_container=True)


def run_once(case, ctx):
    conform(case[0], case[1], ctx)


URIS = [MAIN, MAIN.upper(), E1, E1.swapcase(), E2, "urn:unknown", MAIN + "x", "", 5, None]
BLOCKS = [None, "absent", {}, {"int": 1}, {"INT": None}, {"unknown": 1}, {"xstr": 5}, 7, [{}], "x", []]


def uris_cases(n):
    for k in range(n + 1):
        for uris in itertools.product(URIS, repeat=k):
            for b1 in ("absent", {"int": 1}, {"unknown": 1}, {}):
                for b2 in ("absent", {"INT": "a"}):
                    body = {"SCHEMAS" if k % 2 else "schemas": list(uris), "int": 5}
                    if b1 != "absent":
                        body[E1 if k < 2 else E1.upper()] = b1
                    if b2 != "absent":
                        body[E2] = b2
                    yield "Thing", body
    for k in range(4, 10):
        for i in range(k):
            for j in range(k):
                uris = [MAIN] * k
                uris[i], uris[j] = E1.upper(), "urn:unknown"
                yield "Thing", {"schemas": uris, E1: {"int": 1}}
                uris = [E1] * k
                uris[i], uris[j] = E2, MAIN.swapcase()
                yield "Thing", {"schemas": uris, E1: {"int": 1}, E2: {"int": "a"}}
                uris[j] = 5
                yield "Thing", {"schemas": uris, E1: {"int": 1}, E2: {"int": "a"}}
    for uris in ("x", None, {}, 5, [[MAIN]], [{}], True):
        yield "Thing", {"schemas": uris, "int": 1}
        yield "Plain", {"schemas": uris, "int": 1}
    for k in range(4):
        for uris in itertools.product([PLAIN.urn, PLAIN.urn.upper(), MAIN, E1], repeat=k):
            yield "Plain", {"schemas": list(uris), "int": 1, E1: {"int": 3}}


def blocks_cases():
    for b1 in BLOCKS:
        for b2 in BLOCKS:
            for spell in (str, str.upper, str.swapcase):
                for uris in ([MAIN], [MAIN, E1], [MAIN, E1, E2], "absent"):
                    body = {} if uris == "absent" else {"schemas": uris}
                    if b1 != "absent":
                        body[spell(E1)] = b1
                    if b2 != "absent":
                        body[spell(E2)] = b2
                    yield "Thing", body


def names_cases(n):
    """every choice of <= n places with valid or invalid values, all spellings"""
    places = [
        (("int",), (1, "x")), (("str",), ("s", 5)), (("c", "int"), (2, "y")), (("c", "str"), ("z",)),
        (("mv",), ([{"value": "v", "primary": True}], [{"value": 1}, 3])),
        (("list",), (["a"], ["a", 1], None)), ((E1, "int"), (3, "w")), ((E1, "xstr"), ("q",)),
        ((E1, "c", "other"), (4, "bad")), ((E2, "int"), ("five", 5)),
        ((E2, "mv"), ([{"value": 6}], [{"value": "six"}])), (("unknown",), (1,)),
        ((E1, "unknown"), (1,)), (("c", "unknown"), (1,)), (("externalId",), ("e", 5)),
        (("id",), ("x", "bulkId:1", 5)),
        (("xstr",), ("an extension attribute outside its block",)),
        (("urn:other", "int"), (1,)), ((MAIN, "int"), (9,)), ((MAIN, "str"), ("not core",)),
    ]
    for k in range(n + 1):
        for chosen in itertools.combinations(places, k):
            for values in itertools.product(*(v for _, v in chosen)):
                for spell in (str, str.upper, str.swapcase):
                    body = {"schemas": [MAIN, E1, E2]}
                    for (path, _), v in zip(chosen, values):
                        node = body
                        for part in path[:-1]:
                            node = node.setdefault(spell(part), {})
                        node[spell(path[-1])] = v
                    yield "Thing", body


VALUES = [None, True, 0, 1, 2.5, "", "x", "AQID", "https://a.b/c", "2011-05-13T04:42:34Z",
          datetime(2011, 5, 13), [], ["x"], [1, "x"], [{}], {}, [{"value": "x"}], [{"value": 1}],
          {"value": 1}, [{"value": "https://a.b"}, {"value": "AQ=="}],
          [{"primary": True}, {"PRIMARY": True}], {"formatted": "f", "familyName": 3},
          {"$ref": "../x"}, [{"$REF": "../x", "type": 4, "display": "d"}], "bulkId"]


def built_in():
    for name in ("User", "Group"):
        s = LIB[name][0]
        for ext, a in s.top():
            for v in VALUES:
                for spelled in (a.name, a.name.upper()):
                    body = {"schemas": s.known}
                    if ext:
                        body[ext] = {spelled: v}
                    else:
                        body[spelled] = v
                    yield name, body
    full = {"User": (fx.user_request(), fx.user_response()),
            "Group": (fx.group_request(), fx.group_response())}
    for name, bodies in full.items():
        for body in bodies:
            for path in fx.iter_paths(body):
                if path:
                    yield name, fx.removed(body, path)
                    yield name, fx.replaced(body, path, 5)
                    yield name, fx.replaced(body, path, None)


def near_cases():
    for urn in (MAIN, E1, E2):
        for text in near(urn):
            yield "Thing", {"schemas": [MAIN, text], "int": 1}
            yield "Thing", {"schemas": [text], "int": 1}
            yield "Thing", {"schemas": [MAIN, E1, E2], text: {"int": 1}}
            yield "Thing", {"schemas": [MAIN], text: {"int": "a"}, "int": 2}
            yield "Thing", {"schemas": [text, E1, MAIN, E2], E1: {"int": 1}, text.upper(): 5}
    for name in ("int", "str", "c", "mv", "list", "id", "schemas", "externalId", "meta"):
        for text in near(name):
            for v in (1, "s", {"int": 1}, [{"value": "v"}], ["x"]):
                yield "Thing", {"schemas": [MAIN], text: v}
    for name in ("int", "str"):
        for text in near(name):
            yield "Thing", {"schemas": [MAIN], "c": {text: 1}}
            yield "Thing", {"schemas": [MAIN, E1], E1: {text: 1, "c": {text: 1, "other": 2}}}
            yield "Thing", {"schemas": [MAIN], "mv": [{"value": "a"}, {text: 1}]}
    for name, (s, _) in LIB.items():
        for text in near(s.name):
            yield name, {"schemas": [s.urn], "meta": {"resourceType": text}}


def run_chars(case, ctx):
    place, dev = case
    s, lib, x, parent = chars.build(place, dev)
    for dump in (False, True):
        for v in chars.values(place, x, parent, dump):
            conform((s, lib), chars.body(place, x, parent, v), ctx, ("dump",) if dump else ("parse",))


def large_cases(limit):
    for n in sizes(limit, 2):
        for p in places(n):
            for kind in ("uris", "extensions", "attributes", "undeclared", "items"):
                yield kind, n, p


BIG = {}


def run_large(case, ctx):
    kind, n, p = case
    if (kind, n) not in BIG:
        BIG.clear()
        attrs = tuple(A(f"a{i}", "integer" if i % 2 else "string") for i in range(n))
        if kind == "extensions":
            s = rs.S("urn:t:2.0:Big", rs.COMMON, "Big", "Bigs", tuple(
                (f"urn:t:2.0:X{i}", (A("x", "integer"), A(f"y{i}"))) for i in range(n)))
        elif kind == "attributes":
            s = rs.S("urn:t:2.0:Big", rs.COMMON + attrs + (C("c", *attrs),), "Big", "Bigs", (("urn:t:2.0:X", attrs),))
        else:
            s = T
        BIG[kind, n] = s, lib_schema(s)
    s, lib = BIG[kind, n]
    bodies = []
    if kind == "uris":
        for odd in ("urn:unknown", 5, E2):
            uris = [(MAIN, E1, MAIN.upper())[i % 3] for i in range(n)]
            uris[p] = odd
            bodies.append({"schemas": uris, E1: {"int": 1}, E2: {"int": "a"}})
    elif kind == "extensions":
        blocks = {f"urn:t:2.0:X{i}": {"x": i, f"y{i}": "v"} for i in range(n)}
        name = f"urn:t:2.0:X{p}"
        bodies.append({"schemas": s.known, **blocks})
        bodies.append({"schemas": [u for u in s.known if u != name], **blocks})
        bodies.append({"schemas": s.known, **{k: v for k, v in blocks.items() if k != name}, name.upper(): 5})
        bodies.append({"schemas": s.known, **blocks, name: {"x": "bad", f"y{p}": "v"}})
    elif kind == "attributes":
        full = {f"a{i}": i if i % 2 else f"{i}" for i in range(n)}
        bad = {k: v for k, v in full.items() if k != f"a{p}"}
        bad[f"A{p}"] = []
        for core, c, x in ((full, full, full), (bad, full, full), (full, bad, full), (full, full, bad), (bad, bad, bad)):
            bodies.append({"schemas": s.known, **core, "c": c, "urn:t:2.0:X": x})
    elif kind == "undeclared":
        for odd in ({"int": 1}, {"INT": "bad"}, {"c": {**{f"q{i}": i for i in range(n)}, "int": "bad"}}):
            body = {"schemas": [MAIN]}
            for i in range(n):
                body.update(odd if i == p else {f"unknown{i}": i})
            bodies.append(body)
    else:
        for odd in ({"value": 5}, 5, {"value": "v", "primary": True}):
            items = [{"value": str(i)} for i in range(n)]
            items[-1] = {"value": "z", "primary": True}
            items[p] = odd
            bodies.append({"schemas": [MAIN, E2], "mv": items, "list": ["x"] * p + [1] + ["x"] * (n - p - 1),
                           E2: {"mv": [{"value": i if i != p else "bad"} for i in range(n)]}})
    for body in bodies:
        conform((s, lib), body, ctx)


def resource_types():
    for name in ("Thing", "User", "Group"):
        s = LIB[name][0]
        for meta in (None, {}, 5, [], *(
            {k: v} for k in ("resourceType", "RESOURCETYPE")
            for v in (s.name, s.name.upper(), s.name.lower(), s.plural, "", "x", None, 5, ["x"]))):
            for spelled in ("meta", "Meta"):
                yield name, {"schemas": [s.urn], spelled: meta}
                if isinstance(meta, dict):
                    yield name, {"schemas": [s.urn], spelled: dict(meta, created=fx.dt(),
                                                                  location="x", version=3)}


def bodies():
    for name in LIB:
        for body in (None, "absent", 5, "x", [], [{}], True, {}, {1: 2}, 1.5, ()):
            yield name, body


STEPS = ("parsers", "dumpers", "complex_parsers", "complex_dumpers")


def declared_cases():
    for place in ("core", "extension"):
        for kind in ("simple", "complex", "sub"):
            for mv in (False, True):
                for step in (None,) + (STEPS if kind == "complex" else STEPS[:2]):
                    for behaviour in ("marks", "fails"):
                        if step or behaviour == "marks":
                            yield place, kind, mv, step, behaviour


def run_declared(case, ctx):
    """an attribute behaves in a schema as it does on its own, own steps included"""
    place, kind, mv, step, behaviour = case
    seen = []

    def work(value):
        seen.append(repr(plain(value)))
        issues = ValidationIssues()
        if behaviour == "fails":
            issues.add(issue=ValidationError.missing(), proceed=True)
        elif isinstance(value, str):
            value += "!"
        elif isinstance(value, SCIMDataContainer):
            value["s"] = "stepped"
        elif isinstance(value, list):
            value = [*value, SCIMDataContainer({"s": "more"})]
        return value, issues

    steps = {step: [work]} if step else {}
    kw = dict(description="told", required=True, issuer=AttributeIssuer.SERVER, multi_valued=mv,
              mutability=AttributeMutability.IMMUTABLE, returned=AttributeReturn.REQUEST,
              uniqueness=AttributeUniqueness.GLOBAL)
    simple = dict(type_=at.String, case_exact=True, canonical_values=["a", "b"])

    def make():
        if kind == "simple":
            return Attribute(name="x", **simple, **kw, **steps)
        if kind == "complex":
            return ComplexAttribute(name="x", sub_attributes=[Attribute(name="s", type_=at.String)], **kw, **steps)
        return ComplexAttribute(name="x", sub_attributes=[Attribute(name="s", **simple, **{**kw, "multi_valued": False},
                                                                    **steps)], multi_valued=mv)

    own = make()
    schema = ResourceSchema(schema=MAIN, attrs=[make()] if place == "core" else [], name="Thing")
    if place == "extension":
        schema.with_extension(SchemaExtension(schema=E1, attrs=[make()]))
    rep = AttrRep(E1, "x", extension=True) if place == "extension" else AttrRep(MAIN, "x")
    bound, plain_ = schema.attrs.get(rep), own
    if kind == "sub":
        bound = schema.attrs.get(AttrRep(rep.schema, "x", "s", extension=place == "extension"))
        plain_ = own.attrs.s
    for member in ("description", "required", "issuer", "multi_valued", "mutability", "returned", "uniqueness",
                   "case_exact", "canonical_values", "type"):
        ctx.step()
        expect(getattr(bound, member) == getattr(plain_, member), "%s: %s is %r in the schema, declared as %r",
               case, member, getattr(bound, member), getattr(plain_, member))
    values = (["a"], ["a", "b"], ["z", 5], [], None) if kind == "simple" else (
        [{"s": "a"}], [{"s": "a"}, {"s": "b"}], [{"s": 5}], [{}], None)
    for value in values:
        if not mv and value is not None:
            if not value:
                continue
            value = value[-1]
        for direction in ("parse", "dump"):
            del seen[:]
            alone = value
            if kind != "simple" and value is not None:
                alone = [SCIMDataContainer(v) for v in value] if mv else SCIMDataContainer(value)
            want, want_issues = getattr(own, direction)(alone)
            calls = list(seen)
            del seen[:]
            where = (E1, "x") if place == "extension" else ("x",)
            body = {"schemas": [MAIN, E1] if place == "extension" else [MAIN]}
            (body.setdefault(E1, {}) if place == "extension" else body)["x"] = deepcopy(value)
            ctx.step()
            got, issues = getattr(schema, direction)(body)
            what = f"{case} {direction} {short(value)}"
            expect(seen == calls, "%s: own steps saw %s, want %s", what, seen, calls)
            expect(got_issues(issues) == sorted(
                (tuple(map(str, where)) + tuple(loc), code) for loc, code in got_issues(want_issues)),
                "%s: issues %s, on its own %s", what, got_issues(issues), got_issues(want_issues))
            if not want_issues.has_issues():
                check_value(got[rep], plain(want), what)
    ctx.state(case)


def override_cases():
    for names in itertools.product((False, True), repeat=3):
        for key in ("required", "mutability", "returned", "type"):
            yield names, key


def run_override(case, ctx):
    """only the common attributes that are replaced change"""
    names, key = case
    special = {"required": dict(required=True), "mutability": dict(mutability=AttributeMutability.WRITE_ONLY),
               "returned": dict(returned=AttributeReturn.NEVER), "type": dict(type_=at.Integer)}[key]
    overrides = {}
    for name, replaced in zip(("id", "externalId", "meta"), names):
        if replaced and name == "meta":
            overrides[name] = ComplexAttribute(
                name="meta", sub_attributes=[Attribute(name="own", type_=at.String),
                                             Attribute(name="resourceType", type_=at.String)],
                **{k: v for k, v in special.items() if k != "type_"})
        elif replaced:
            overrides[name] = Attribute(name=name, **{"type_": at.String, **special})
    schema = ResourceSchema(schema=MAIN, attrs=[Attribute(name="x", type_=at.String)], name="Thing",
                            attr_overrides=dict(overrides))
    usual = ResourceSchema(schema=MAIN, attrs=[], name="Thing")
    for name in ("id", "externalId", "meta"):
        bound = schema.attrs.get(AttrRep(MAIN, name))
        want = overrides.get(name) or usual.attrs.get(AttrRep(MAIN, name))
        for member in ("required", "mutability", "returned", "type"):
            ctx.step()
            expect(getattr(bound, member) == getattr(want, member), "%s: %s of %s is %r", case, member, name,
                   getattr(bound, member))
    for name, value in (("id", "1"), ("externalId", "1"), ("id", 1), ("externalId", 1)):
        ctx.step()
        got, issues = schema.parse({"schemas": [MAIN], name: value})
        fits = isinstance(value, int) == (key == "type" and name in overrides)
        check_issues(issues, [] if fits else [((name,), 2)], f"{case} {name} {value!r}")
    got, issues = schema.parse({"schemas": [MAIN], "meta": {"own": "o", "location": "l"}})
    expect(plain(got)["meta"] == ({"own": "o"} if "meta" in overrides else {"location": "l"}), "%s: meta read as %s",
           case, short(plain(got)["meta"]))
    ctx.state(case)


EXTENSIONS = (E1, E1.upper(), E2, MAIN, MAIN.lower())


def extension_cases():
    for n in range(5):
        yield from itertools.product(range(len(EXTENSIONS)), repeat=n)


def run_extensions(case, ctx):
    """a schema has each extension once, whatever is added to it in which order"""
    for plural in (None, "Ts"):
        schema = ResourceSchema(schema=MAIN, attrs=[Attribute(name="x", type_=at.String)], name="Thing",
                                plural_name=plural)
        expect(schema.plural_name == (plural or "Thing"), "plural name is %r", schema.plural_name)
        have = [MAIN]
        for n, i in enumerate(case):
            urn = EXTENSIONS[i]
            ctx.step()
            try:
                schema.with_extension(SchemaExtension(
                    schema=urn, attrs=[Attribute(name="x", type_=at.Integer), Attribute(name=f"y{n}", type_=at.String)]))
                added = True
            except ValueError:
                added = False
            fresh = urn.lower() not in map(str.lower, have)
            expect(added == fresh, "%s: extension %s %s", case, urn, "added twice" if added else "refused")
            if fresh:
                have.append(urn)
            body = {"schemas": list(have), "x": "core", **{u: {"x": 1, "y": 1} for u in have[1:]}}
            expect(schema.schemas == have and schema.schema_extensions == have[1:], "%s: schemas %s, extensions %s",
                   case, schema.schemas, schema.schema_extensions)
            got, issues = schema.parse(body)
            check_issues(issues, [], f"{case} {short(body)}")
            check_value(got, {**body, **{u: {"x": 1} for u in have[1:]}}, f"{case} {short(body)}")
    ctx.state(case)


def spaces(tier):
    deep = tier == "thorough"
    return [
        Space("schemas lists", f"all lists of <= {4 if deep else 3} of {len(URIS)} items x extension "
              "data", lambda: uris_cases(4 if deep else 3), run_once, block=16),
        Space("extension blocks", "all pairs of block shapes x spellings x schemas", blocks_cases,
              run, block=16),
        Space("attributes", f"all choices of <= {4 if deep else 3} places x values x spellings",
              lambda: names_cases(4 if deep else 3), run_once, block=16),
        Space("built-in schemas", "every attribute x every kind of value; every node of full bodies "
              "removed or replaced", built_in, run_once, block=8),
        Space("near misses", "schema URIs, names and resource types with every slip", near_cases, run_once,
              block=16),
        Space("characteristics", f"every definition with <= {3 if deep else 2} special characteristics at "
              "every place x values", lambda: chars.definitions(3 if deep else 2), run_chars, block=16),
        Space("large bodies", "numbers of URIs, extensions, attributes and items next to boundaries, an odd one at every "
              "telling position", lambda: large_cases(513 if deep else 129), run_large, block=8),
        Space("resource type", "all meta shapes", resource_types, run),
        Space("bodies", "all kinds of bodies", bodies, run),
        Space("declared attributes", "kinds x places x steps of the user's own x values", declared_cases,
              run_declared, block=2),
        Space("overridden attributes", "all choices of overridden common attributes x characteristics",
              override_cases, run_override),
        Space("extensions added", "all sequences of <= 4 of 5 extensions, some clashing", extension_cases,
              run_extensions, block=16),
    ]
