"""C08: attributes - multi-valued, complex, canonical values, primary - with exact locations."""
import itertools
from datetime import datetime

from mc import chars
from mc import ref_schema as rs
from mc.engine import Space, Violation, expect, short
from mc.lib import TYPES, check_issues, check_value, got_issues, lib_attr, plain
from mc.ref_schema import A, C
from mc.sizes import places, sizes
from src.data.attributes import Attribute, ComplexAttribute
from src.data.container import SCIMDataContainer
from src.error import ValidationError, ValidationIssues

PROPERTY = {
    "title": "Attribute values are validated item by item with exact issue locations",
    "statement": (
        "For every attribute definition and every value, parsing and dumping accept the value "
        "exactly when it is null, or conforms to the definition: a list for a multi-valued "
        "attribute and not otherwise, every item and every sub-attribute value of the declared "
        "type, one of the canonical values (in any letter case unless case-exact) where these are "
        "enforced, and at most one item marked primary. Otherwise each offending item or "
        "sub-attribute, at whatever position, is reported at exactly its own location with its own "
        "kind of issue, and nothing else is reported. Accepted values keep every declared "
        "sub-attribute and every item in order, drop undeclared sub-attributes, and user-supplied "
        "processing steps run once, in order, and only on accepted values."
    ),
    "quantifier": {
        "over": ["inputs", "configurations"],
        "text": "all attribute definitions (type x arity x canonical values x case-exactness) x all "
                "value lists up to the bound; all sub-attribute combinations; all primary patterns; "
                "an offender at every position of long lists",
    },
    "why_tests_cant": (
        "Tests contain single bad items at fixed positions; the cross product of definition, arity, "
        "position and value kind is never enumerated."
    ),
    "anchors": {
        "files": ["src/data/attributes.py", "src/data/type.py"],
        "mechanism": [
            {"name": "Attribute._process, _is_canonical", "where": "src/data/attributes.py"},
            {"name": "ComplexAttribute._process_complex, validate_single_primary_value",
             "where": "src/data/attributes.py"},
        ],
        "observe_at": ["Attribute.parse", "Attribute.dump", "ValidationIssues.to_dict"],
    },
}

NOW = datetime(2011, 5, 13, 4, 42, 34)
GOOD = {
    "string": ["a", ""], "integer": [1, 2.0], "decimal": [1.5, 3], "boolean": [True, False],
    "dateTime": ["2011-05-13T04:42:34Z", NOW], "binary": ["AQID", ""],
    "external": ["https://a.com", "ftp://x/y"], "uri": ["../a", ""], "scim": ["../Users/1", "x"],
    "unknown": [1, "x"], "complex": [{"str": "x"}, {}],
}
BAD = [None, "not it", 7, True, 2.5, [], ["x"], {"str": 5}, NOW]


def to_lib(v):
    """Objects reach attributes as containers."""
    if isinstance(v, dict):
        return SCIMDataContainer(v)
    if isinstance(v, list):
        return [SCIMDataContainer(x) if isinstance(x, dict) else x for x in v]
    return v


def conform(a, v, ctx, directions=("parse", "dump"), lib=None):
    lib = lib or lib_attr(a)
    for direction in directions:
        want, want_issues = rs.attribute(a, v, direction)
        ctx.step()
        got, issues = getattr(lib, direction)(to_lib(v))
        what = f"{a.name} {direction} {short(v, 400)}"
        check_issues(issues, want_issues, what)
        if not want_issues:
            check_value(got, want, what)
        ctx.outcome(tuple(sorted({c for _, c in want_issues})))
    ctx.state((a, short(v)))


def run(case, ctx):
    a, v = case
    conform(a, v, ctx)


STR_SUB = (A("str"), A("num", "integer"))
DEFS = []
for _t in TYPES:
    for _mv in (False, True):
        DEFS.append(A("x", _t, mv=_mv, subs=STR_SUB if _t == "complex" else ()))


def lists(n):
    for a in DEFS:
        alphabet = GOOD[a.type] + [x for x in BAD]
        for v in alphabet:
            yield a, v
        for k in range(n + 1):
            for x in itertools.product(alphabet, repeat=k):
                yield a, list(x)


CANON = [
    (("Work", "home"), ["Work", "work", "WORK", "home", "Home", "hom", "", "home "]),
    (("É", "ß"), ["É", "é", "ß", "SS", "ss"]),
    ((), ["", "a"]),
    (("one",), ["one", "ONE", "two"]),
]


def canonical_cases(n):
    for canon, values in CANON:
        for ce in (False, True):
            for strict in (False, True):
                for type_ in ("string", "uri", "scim"):
                    for mv in (False, True):
                        a = A("x", type_, mv=mv, ce=ce, canon=canon, strict=strict)
                        alphabet = values + [None, 5]
                        if not mv:
                            yield from ((a, v) for v in alphabet)
                        else:
                            for k in range(n + 1):
                                for x in itertools.product(alphabet, repeat=k):
                                    yield a, list(x)
    for mv in (False, True):
        for strict in (False, True):
            a = A("x", "integer", mv=mv, canon=(1, 2), strict=strict)
            b = A("x", "decimal", mv=mv, canon=(1.0, 2.5), strict=strict)
            for v in (1, 2, 3, 1.0, 2.5, True, "1", None):
                for d in (a, b):
                    yield d, [v] if mv else v
                    if mv:
                        yield d, [1, v, 2]


EVERY = C(
    "c", A("str"), A("int", "integer"), A("bool", "boolean"), A("when", "dateTime"),
    A("bin", "binary"), A("url", "external"), A("kind", canon=("A", "b"), strict=True),
    A("list", mv=True), A("kinds", mv=True, canon=("A", "b"), strict=True, ce=True),
)
SUB_VALUES = {
    "str": ["s", 1, None], "int": [1, 1.5, "1"], "bool": [False, 0], "when": [NOW, "2011-05-13", 1],
    "bin": ["AQ==", "AQ"], "url": ["http://a", "a"], "kind": ["a", "B", "c"],
    "list": [["x", "y"], ["x", 1, 2], "x", None], "kinds": [["A", "b"], ["a"], ["A", 5, "c"]],
}


def spell(i, name):
    return [name, name.upper(), name.capitalize()][i % 3]


def complex_cases(size):
    """every choice of <= size sub-attributes with every value, single and multi-valued"""
    names = list(SUB_VALUES)
    for k in range(size + 1):
        for chosen in itertools.combinations(names, k):
            for values in itertools.product(*(SUB_VALUES[n] for n in chosen)):
                item = {spell(i, n): v for i, (n, v) in enumerate(zip(chosen, values))}
                item["undeclared"] = {"x": 1}
                yield EVERY, item
                yield MANY, [{"str": "first"}, item]
                yield MANY, [item, 5, item]


MANY = C("c", *EVERY.subs, mv=True)


def full_item(bad=None):
    item = {"str": "s", "int": 1, "bool": True, "bin": "AQ==", "url": "http://a", "kind": "a",
            "list": ["x"], "kinds": ["A"]}
    if bad:
        item[bad] = object
    return item


PRIMARY = C("emails", A("value"), A("primary", "boolean"), mv=True)
NO_PRIMARY = C("addresses", A("value"), mv=True)
OTHER_PRIMARY = C("x", A("value"), A("primary"), mv=True)


def primary_cases(n):
    marks = [None, {"primary": True}, {"primary": False}, {"PRIMARY": True}, {"primary": None}]
    for k in range(n + 1):
        for x in itertools.product(marks, repeat=k):
            value = [dict(m or {}, value=str(i)) for i, m in enumerate(x)]
            yield PRIMARY, value
            if k <= 3:
                yield NO_PRIMARY, value
                yield C("one", *PRIMARY.subs), value[0] if value else {}


def equal_primaries(n):
    """items that are equal, share values or are the very same object"""
    item = {"value": "a", "primary": True}
    alphabet = [item, {"value": "b", "primary": True}, {"value": "a"}, {"primary": True}, {"primary": False},
                {"value": None, "primary": True}, {"VALUE": "a", "PRIMARY": True}, {"value": "A", "primary": True}]
    for k in range(n + 1):
        for x in itertools.product(alphabet, repeat=k):
            yield PRIMARY, list(x)
            yield TYPED, [dict(i, type="work") for i in x]


TYPED = C("emails", A("value"), A("type", canon=("work", "home")), A("primary", "boolean"), mv=True)


def run_chars(case, ctx):
    place, dev = case
    _, lib, x, parent = chars.build(place, dev)
    top = parent or x
    attr = lib_attr(top)
    for dump in (False, True):
        for v in chars.values(place, x, parent, dump):
            if v is not rs.MISSING:
                conform(top, v, ctx, ("dump",) if dump else ("parse",), attr)


def long_cases(n):
    for k in range(1, n + 1):
        items = [{"value": str(i)} for i in range(k)]
        yield PRIMARY, items
        for i in range(k):
            value = [dict(x) for x in items]
            value[i] = {"value": i}
            yield PRIMARY, value
            value = [dict(x) for x in items]
            value[i] = "bad"
            yield PRIMARY, value
            yield A("x", "integer", mv=True), [j if j != i else "bad" for j in range(k)]
            yield A("x", mv=True, canon=("a", "b"), strict=True), [
                "ab"[j % 2] if j != i else "c" for j in range(k)]
            for j in range(i + 1, k):
                if k in (n, 11, 12):
                    value = [dict(x) for x in items]
                    value[i]["primary"] = value[j]["primary"] = True
                    yield PRIMARY, value
                    value = [dict(x) for x in items]
                    value[i], value[j] = {"value": 1}, "bad"
                    yield PRIMARY, value


def large_cases(limit):
    for n in sizes(limit, 25):
        items = [{"value": str(i)} for i in range(n)]
        yield PRIMARY, items
        yield A("x", mv=True), [str(i) for i in range(n)]
        yield A("x", "dateTime", mv=True), [f"2011-05-13T04:{i % 60:02d}:34Z" for i in range(n)]
        for i in places(n):
            for odd in ({"value": i}, "bad", None):
                yield PRIMARY, items[:i] + [odd] + items[i + 1:]
            for j in (0, n - 1):
                if i != j:
                    yield PRIMARY, [dict(x, primary=True) if k in (i, j) else x for k, x in enumerate(items)]
                    yield PRIMARY, [{"value": 5} if k in (i, j) else x for k, x in enumerate(items)]
            yield A("x", "integer", mv=True), [j if j != i else "bad" for j in range(n)]
            yield A("x", mv=True, canon=("a", "b"), strict=True), ["ab"[j % 2] if j != i else "c" for j in range(n)]


def wide_cases(limit):
    """many sub-attributes, many canonical values, long values"""
    for n in sizes(limit, 1):
        subs = tuple(A(f"s{i}", "integer" if i % 2 else "string") for i in range(n))
        item = {f"s{i}": i if i % 2 else str(i) for i in range(n)}
        canon = tuple(f"Value{i}" for i in range(n))
        for i in places(n):
            bad = {**{k: x for k, x in item.items() if k != f"s{i}"}, f"S{i}": []}
            for v in (bad, item, {f"s{i}": item[f"s{i}"]}):
                yield C("c", *subs), v
                yield C("c", *subs, mv=True), [v, item]
            for ce in (False, True):
                a = A("x", canon=canon, strict=True, ce=ce)
                for v in (canon[i], canon[i].upper(), canon[i] + "00000", canon[i][:-1] or "q", " " + canon[i]):
                    yield a, v
                    yield A("x", canon=canon, strict=True, ce=ce, mv=True), [v, canon[0]]
            yield A("x", "integer", canon=tuple(range(n)), strict=True), i
            yield A("x", "integer", canon=tuple(range(n)), strict=True), i + n
            text = ("abcDefgHij" * 110)[:n]
            a = A("x", canon=(text,), strict=True)
            yield a, text[:i] + "z" + text[i + 1:]
            yield a, text.upper()
            yield a, text + "a"


def run_steps(case, ctx):
    """user-supplied steps see accepted values only, once and in order"""
    kind, mv, v, fail, n = case
    for direction in ("parse", "dump"):
        calls = []

        def step(name):
            def process(x):
                calls.append((name, plain(x)))
                issues = ValidationIssues()
                if fail == name:
                    issues.add(ValidationError.bad_value_syntax(), proceed=False)
                return (x + "!" if isinstance(x, str) else x), issues
            return process

        steps = [step(i) for i in range(n)]
        if kind == "whole complex":
            table = C("x", A("value", "integer"), mv=mv)
            lib = ComplexAttribute(
                name="x", sub_attributes=[Attribute(name="value", type_=TYPES["integer"])],
                multi_valued=mv, **{f"{direction}{'r' if direction.endswith('e') else 'er'}s": list(steps)})
        elif kind == "complex":
            table = C("x", A("value", "integer"), mv=mv)
            lib = ComplexAttribute(
                name="x", sub_attributes=[Attribute(name="value", type_=TYPES["integer"])],
                multi_valued=mv, **{f"complex_{direction}{'r' if direction.endswith('e') else 'er'}s":
                                    list(steps)})
        else:
            table = A("x", mv=mv, canon=("a", "b"), strict=True)
            lib = Attribute(
                name="x", type_=TYPES["string"], multi_valued=mv, canonical_values=["a", "b"],
                validate_canonical_values=True,
                **{f"{direction}{'r' if direction.endswith('e') else 'er'}s": list(steps)})
        want, want_issues = rs.attribute(table, v, direction)
        ctx.step()
        got, issues = getattr(lib, direction)(to_lib(v))
        what = f"{case} {direction}"
        if kind == "whole complex":
            # these see the given object(s), before sub-attributes are looked at
            items = v if mv else [v]
            fine = v is not None and all(isinstance(x, dict) for x in items)
            expect(calls == ([(i, v) for i in range(n)] if fine else []), "%s: steps saw %s", what, calls)
            if fine and fail is not None:
                expect(((), rs.SYNTAX) in got_issues(issues), "%s: issue of step is lost", what)
            else:
                check_issues(issues, want_issues, what)
            continue
        if v is None or want_issues:
            expect(not calls, "%s: steps ran on a refused value", what)
            check_issues(issues, want_issues, what)
            continue
        changed = [want + "!" * i if isinstance(want, str) else want for i in range(n + 1)]
        if calls != list(enumerate(changed[:n])):
            raise Violation(f"{what}: steps saw {calls}")
        check_issues(issues, [((), rs.SYNTAX)] if fail is not None else [], what)
        if fail is None:
            check_value(got, changed[n], what)
    ctx.state(repr(case))


def steps_cases():
    for n in (1, 2, 3, 4, 5, 8, 9, 17, 33):
        for fail in (None, *sorted({0, 1, n // 2, n - 1} & set(range(n)))):
            for mv in (False, True):
                for v in ("a", "c", 1, None):
                    yield "simple", mv, [v] if mv and v is not None else v, fail, n
                for v in ({"value": 1}, {"value": "x"}, {}, 5, None):
                    for kind in ("complex", "whole complex"):
                        yield kind, mv, [v, {"value": 2}] if mv and v is not None else v, fail, n


def built_in():
    """every attribute of the built-in schemas with every kind of value"""
    for s in (rs.USER, rs.GROUP):
        for _, a in s.top():
            for sub in (a,) + a.subs:
                for v in GOOD[sub.type] + BAD:
                    for w in (v, [v], [v, v]):
                        yield s.name, a, (w if sub is a else {sub.name: w})
                        if sub is not a and a.mv:
                            yield s.name, a, [{sub.name: w}]


def run_built_in(case, ctx):
    from mc import fixtures as fx
    from src.data.container import AttrRep
    name, a, v = case
    schema = _SCHEMAS.setdefault(name, {"User": fx.User, "Group": fx.Group}[name]())
    s = {"User": rs.USER, "Group": rs.GROUP}[name]
    ext = next(e for e, x in s.top() if x is a)
    lib = schema.attrs.get(AttrRep(ext or s.urn, a.name))
    expect(lib is not None, "no attribute %s", a.name)
    conform(a, v, ctx, lib=lib)


_SCHEMAS = {}


def spaces(tier):
    deep = tier == "thorough"
    return [
        Space("lists of every type", f"all lists of <= {4 if deep else 3} values, 22 definitions",
              lambda: lists(4 if deep else 3), run, block=32),
        Space("canonical values", f"all lists of <= {4 if deep else 3} values",
              lambda: canonical_cases(4 if deep else 3), run, block=32),
        Space("sub-attributes", f"all choices of <= {5 if deep else 3} sub-attribute values",
              lambda: complex_cases(5 if deep else 3), run, block=32),
        Space("primary marks", f"all mark patterns of <= {7 if deep else 6} items",
              lambda: primary_cases(7 if deep else 6), run, block=32),
        Space("long lists", f"an offender at every position (and pair) of lists up to "
              f"{40 if deep else 24} items", lambda: long_cases(40 if deep else 24), run, block=8),
        Space("very long lists", "sizes next to boundaries, an offender at every telling position",
              lambda: large_cases(1025 if deep else 301), run, block=8),
        Space("wide definitions", "numbers of sub-attributes and canonical values and lengths of values next to boundaries",
              lambda: wide_cases(513 if deep else 129), run, block=16),
        Space("equal items", f"all lists of <= {5 if deep else 4} items with equal parts",
              lambda: equal_primaries(5 if deep else 4), run, block=32),
        Space("characteristics", f"every definition with <= {3 if deep else 2} special characteristics at "
              "every place x values", lambda: chars.definitions(3 if deep else 2), run_chars, block=32),
        Space("processing steps", "all values x failing steps, up to 33 steps", steps_cases, run_steps, block=8),
        Space("built-in attributes", "every attribute and sub-attribute of User and Group x every "
              "kind of value", built_in, run_built_in, block=16),
    ]
