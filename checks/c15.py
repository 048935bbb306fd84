"""C15: sorting of resources."""
import itertools
from datetime import datetime

from mc import ref_schema as rs
from mc.engine import Space, Violation, expect, short
from mc.lib import lib_schema
from mc.ref_schema import A, C
from mc.sizes import sizes
from src.data.container import AttrRep, Invalid, SCIMDataContainer
from src.sorter import Sorter

PROPERTY = {
    "title": "Sorting orders resources by the requested attribute, totally and stably",
    "statement": (
        "For every list of resources and every sort attribute - core, extension or sub-attribute, "
        "single- or multi-valued, of any comparable type - sorting returns exactly the given "
        "resources, each once and unchanged, in non-decreasing (ascending) or non-increasing "
        "(descending) order of that attribute, keeping the given order among equals. Text is "
        "compared by the letter-case rule of the attribute, dates as instants, numbers as numbers; "
        "a multi-valued attribute counts with its primary value (a simple one with its first value). "
        "Resources without a value (absent, null, empty) come last in ascending and first in "
        "descending order, whatever their schema is."
    ),
    "quantifier": {
        "over": ["inputs"],
        "text": "every attribute kind x all lists of up to 4 (5 thorough) resources over an alphabet "
                "of values x both directions, with one schema and with mixed schemas",
    },
    "why_tests_cant": (
        "The order of a list depends on the combination of values, missing values and positions; the "
        "tests sort about ten hand-picked lists, and instability or a wrong tie shows only in some."
    ),
    "anchors": {
        "files": ["src/sorter.py"],
        "mechanism": [{"name": "Sorter.__call__, sort keys", "where": "src/sorter.py"}],
        "observe_at": ["Sorter.__call__"],
    },
}

MAIN, EXT, OTHER = "urn:t:2.0:So", "urn:t:2.0:SoExt", "urn:t:2.0:Ot"
T = rs.S(
    urn=MAIN, name="So", plural="Sos",
    attrs=rs.COMMON + (
        A("str"), A("cs", ce=True), A("int", "integer"), A("dec", "decimal"), A("flag", "boolean"),
        A("when", "dateTime"), A("url", "external"),
        A("strs", mv=True), A("ints", "integer", mv=True),
        C("one", A("s"), A("n", "integer"), A("d", "dateTime")),
        C("many", A("value"), A("primary", "boolean"), A("n", "integer"), mv=True),
        C("manyCs", A("value", ce=True), A("primary", "boolean"), mv=True),
        C("noValue", A("x"), A("primary", "boolean"), mv=True),
    ),
    exts=((EXT, (A("str"), A("xi", "integer"), C("xc", A("s")),
                 C("xm", A("value"), A("primary", "boolean"), mv=True))),),
)
O = rs.S(urn=OTHER, name="Ot", plural="Ots",
         attrs=rs.COMMON + (A("str"), A("int", "integer"), C("one", A("s"))))

STR = ["b", "B", "a", "Ab", "", None, "absent", "é"]
CS = ["b", "B", "a", "", "absent"]
INT = [0, 1, -1, 10, None, "absent"]
BIG = [2**53, 2**53 + 1, 2**64, 2**64 + 1, -2**53 - 1, "absent"]
DEC = [0.5, 0, -1.5, 2, "absent"]
BOOL = [True, False, None, "absent"]
DT = ["2020-01-01T00:00:00+00:00", "2020-01-01T00:30:00+01:00", "2019-12-31T23:00:00-02:00",
      "2020-01-01T00:00:00Z", "absent", "no date"]
DT2 = ["2020-01-01T00:00:00.5+00:00", "2020-01-01T00:00:00.25+00:00", "2020-01-01T00:00:00.000001Z",
       "2020-01-01T00:00:00Z", "2020-01-01T01:00:00.25+01:00", "absent"]
TEXT = ["a", "aa", "a b", "a-b", "A_b", "10", "9", "absent"]
URL = ["https://b", "https://A", "https://a", "absent"]
P = {"primary": True}
MANY = [
    [dict(P, value="b")], [{"value": "a"}], [{"value": "a"}, dict(P, value="C")], [], None, "absent",
    [dict(P, value="B"), {"value": "0"}], [P], [{"primary": False, "value": "0"}],
]
MANYN = [
    [dict(P, n=2)], [{"n": 0}, dict(P, n=1)], [{"n": 9}], [dict(P, n=0), {"n": 5}], [], "absent", [P],
]


def kinds():
    """-> name, sort attribute, key kind, alphabet, wrap"""
    def top(name):
        return lambda v: {} if v == "absent" else {name: v}

    def sub(name, s):
        return lambda v: {} if v == "absent" else {name: {s: v}}

    def ext(wrap):
        def go(v):
            inner = wrap(v)
            return dict({"str": "zz"}, **({EXT: inner} if inner else {}))
        return go

    yield "str", "str", "ci", STR, top("str")
    yield "STR, upper-case notation", "STR", "ci", STR[:5], top("str")
    yield "qualified", f"{MAIN}:str", "ci", STR[:5], top("sTR")
    yield "case-exact", "cs", "cs", CS, top("cs")
    yield "integer", "int", "num", INT, top("int")
    yield "decimal", "dec", "num", DEC, top("dec")
    yield "boolean", "flag", "num", BOOL, top("flag")
    yield "dateTime", "when", "dt", DT, top("when")
    yield "large integers", "int", "num", BIG, top("int")
    yield "parts of seconds", "when", "dt", DT2, top("when")
    yield "texts", "str", "ci", TEXT, top("str")
    yield "case-exact texts", "cs", "cs", TEXT, top("cs")
    yield "reference", "url", "ci", URL, top("url")
    yield "multi-valued strings", "strs", "ci", [["b", "a"], ["B"], ["a", "z"], [], None, "absent"], top(
        "strs")
    yield "multi-valued integers", "ints", "num", [[2, 0], [1], [0, 5], [], "absent"], top("ints")
    yield "sub string", "one.s", "ci", STR[:7], sub("one", "s")
    yield "sub integer", "one.n", "num", INT, sub("one", "n")
    yield "sub dateTime", "one.d", "dt", DT, sub("one", "d")
    yield "multi-valued complex", "many", "ci", MANY, top("many")
    yield "multi-valued case-exact complex", "manyCs", "cs", [
        [dict(P, value="b")], [dict(P, value="B")], [dict(P, value="a")], "absent"], top("manyCs")
    yield "multi-valued complex sub", "many.n", "num", MANYN, top("many")
    yield "multi-valued complex value", "many.value", "ci", MANY, top("many")
    yield "no value sub-attribute", "noValue", "none", [
        [dict(P, x="b")], [dict(P, x="a")], "absent"], top("noValue")
    yield "extension string", f"{EXT}:str", "ci", STR[:7], ext(top("str"))
    yield "extension integer", f"{EXT}:xi", "num", INT, ext(top("xi"))
    yield "extension sub", f"{EXT}:xc.s", "ci", STR[:5], ext(sub("xc", "s"))
    yield "extension multi-valued", f"{EXT}:xm", "ci", MANY[:6], ext(top("xm"))
    yield "core next to extension", "str", "ci", STR[:5], lambda v: dict(
        top("str")(v), **{EXT: {"str": "zz"}})
    yield "unknown attribute", "nosuch", "none", ["x", "a"], top("nosuch")
    yield "unknown sub-attribute", "one.nosuch", "none", ["x", "a"], sub("one", "nosuch")


def value_of(kind, v, sub=None):
    """Comparable value or None; v as in the alphabets."""
    if v == "absent" or v is None or kind == "none":
        return None
    if isinstance(v, list):
        if not v:
            return None
        if isinstance(v[0], dict):
            v = [i.get(sub or "value") for i in v if i.get("primary") is True][:1] or [None]
        v = v[0]
    if v is None or v == "":
        return None
    if kind == "ci":
        return v.lower()
    if kind == "dt":
        if v == "no date":
            return None
        return datetime.fromisoformat(v.replace("Z", "+00:00"))
    return v


def reference(keys, asc):
    """Indices in sorted order: stable insertion sort; None last (ascending) or first."""
    def before(a, b):  # a strictly before b in ascending order
        if a is None or b is None:
            return a is not None and b is None
        return a < b

    out = []
    for i, k in enumerate(keys):
        pos = len(out)
        while pos and (before(k, keys[out[pos - 1]]) if asc else before(keys[out[pos - 1]], k)):
            pos -= 1
        out.insert(pos, i)
    return out


def spaces(tier):
    thorough = tier == "thorough"
    nmax = 5 if thorough else 4
    all_kinds = list(kinds())
    schema, other = lib_schema(T), lib_schema(O)

    def cases():
        for k, (_, _, _, alphabet, _) in enumerate(all_kinds):
            for n in range(nmax + 1):
                if n == nmax and len(alphabet) > 6:
                    pool = range(6)
                else:
                    pool = range(len(alphabet))
                for combo in itertools.product(pool, repeat=n):
                    yield k, combo

    def judge(what, items, keys, asc, got, before):
        order = [i["id"] for i in got]
        want = [str(i) for i in reference(keys, asc)]
        if order != want:
            raise Violation(f"{what} {'asc' if asc else 'desc'}: keys {short(keys)} ordered {order}, "
                            f"want {want}")
        expect(all(any(x is y for y in items) for x in got), "%s: other objects returned", what)
        expect([x.to_dict() for x in items] == before, "%s: input changed", what)

    def run(case, ctx):
        k, combo = case
        name, by, kind, alphabet, wrap = all_kinds[k]
        values = [alphabet[i] for i in combo]
        sub = by.split(".")[1] if by.startswith("many.") else None
        keys = [value_of(kind, v, sub) for v in values]
        items = [SCIMDataContainer(dict(wrap(v), id=str(i))) for i, v in enumerate(values)]
        before = [x.to_dict() for x in items]
        for asc in (True, False):
            # ascending is what a caller gets who does not choose
            sorter, issues = Sorter.parse(by) if asc and len(combo) % 2 else Sorter.parse(by, asc)
            expect(not issues.has_issues(), "%s rejected", by)
            expect(sorter.asc is asc, "direction lost")
            data = list(items)
            ctx.step()
            judge(name, items, keys, asc, sorter(data, schema), before)
            expect(data == items, "list changed")
            if len(combo) == 2:
                ctx.step()
                judge(name + " (schema list)", items, keys, asc,
                      sorter(list(items), [schema] * len(items)), before)
        ctx.state((k, tuple(map(repr, keys))))

    def mixed():
        for by, kind, alphabet in (("str", "ci", STR[:6]), ("int", "num", INT), ("one.s", "ci", STR[:5]),
                                   ("cs", "cs", CS), (f"{EXT}:str", "ci", STR[:5])):
            for n in range(1, nmax):
                for combo in itertools.product(alphabet, repeat=n):
                    for which in itertools.product((0, 1), repeat=n):
                        yield by, kind, combo, which

    def run_mixed(case, ctx):
        by, kind, values, which = case
        items, keys = [], []
        for i, (v, w) in enumerate(zip(values, which)):
            body = {"id": str(i)}
            if v != "absent":
                if by == "one.s":
                    body["one"] = {"s": v}
                elif ":" in by:
                    body[EXT] = {"str": v}
                    body["str"] = "zz"
                else:
                    body[by] = v
            items.append(SCIMDataContainer(body))
            known = not w or by in ("str", "int", "one.s")
            keys.append(value_of(kind, v) if known else None)
        before = [x.to_dict() for x in items]
        for asc in (True, False):
            ctx.step()
            got = Sorter(AttrRep.parse(by), asc)(list(items), [(schema, other)[w] for w in which])
            judge(f"mixed {by} {which}", items, keys, asc, got, before)
        ctx.state((by, tuple(map(repr, keys)), which))

    def long_cases():
        """One displaced or missing element at every position of a long list."""
        for n in (7, 17, 40):
            for pos in range(n):
                for dest in range(0, n, 1 if n < 10 else 5):
                    for what in ("move", "missing", "tie"):
                        yield n, pos, dest, what
        for n in sizes(1100, 41):
            for what in ("move", "missing", "tie", "equal", "two"):
                yield n, n - 1, n // 3, what
                yield n, 0, n - 1, what

    def run_long(case, ctx):
        n, pos, dest, what = case
        keys = list(range(n))
        keys.insert(dest, keys.pop(pos))
        if what == "missing":
            keys[dest] = None
        elif what == "tie":
            keys[dest] = keys[pos]
        elif what in ("equal", "two"):  # (nearly) all equal
            keys = [1 if what == "equal" or i % 3 else 0 for i in range(n)]
        items = [SCIMDataContainer(dict({} if k is None else {"int": k}, id=str(i)))
                 for i, k in enumerate(keys)]
        before = [x.to_dict() for x in items]
        for asc in (True, False):
            ctx.step()
            sorter = Sorter(AttrRep(attr="int")) if asc else Sorter(AttrRep(attr="int"), asc)
            judge("long list", items, keys, asc, sorter(items, schema), before)
        ctx.state(tuple(map(repr, keys)))

    def primaries():
        """the item that is primary decides, wherever it stands; 'value' anywhere among the sub-attributes"""
        for at in range(4):
            for spelled in ("value", "VALUE"):
                for kind, type_ in (("ci", "string"), ("cs", "string"), ("num", "integer"), ("dt", "dateTime")):
                    for where in ("core", "extension"):
                        for n in (1, 2, 3, 4, 7, 33, 65, 130) + ((257, 1025) if thorough else ()):
                            yield at, spelled, kind, type_, where, n

    def run_primaries(case, ctx):
        at, spelled, kind, type_, where, n = case
        subs = [A("a", "integer"), A("primary", "boolean"), A("z", "integer")]
        subs.insert(at, A(spelled, type_, ce=kind == "cs"))
        many = C("many", *subs, mv=True)
        s = lib_schema(rs.S(urn=MAIN, name="So", plural="Sos", attrs=rs.COMMON + ((many if where == "core" else A("many", mv=True)),),
                            exts=((EXT, (many,)),) if where != "core" else ()))
        pool = {"ci": ["b", "A", "c"], "cs": ["b", "A", "C"], "num": [5, -1, 12],
                "dt": ["2020-01-01T00:00:00Z", "2020-01-01T00:30:00+01:00", "2021-01-01T00:00:00Z"]}[kind]
        by = "many" if where == "core" else f"{EXT}:many"
        for positions in {(0, n - 1, n // 2), (n - 1, 0, None), (n // 2, None, n - 1), (n - 1, n - 1, n - 1)}:
            items, values = [], []
            for i, p in enumerate(positions):
                entries = [{"value": pool[(i + 1) % 3], "a": 50 - j, "z": j} for j in range(n)]
                if p is not None:
                    entries[p] = {"value": pool[i], "a": i, "z": 9 - i, "primary": True}
                body = {"many": entries}
                items.append(SCIMDataContainer(dict(body if where == "core" else {EXT: body, "many": ["z"] * n}, id=str(i))))
                values.append(entries)
            before = [x.to_dict() for x in items]
            for tail in ("", ".value", ".z", ".a"):
                keys = [value_of("num" if tail in (".z", ".a") else kind, v, tail[1:] or None) for v in values]
                for asc in (True, False):
                    ctx.step()
                    judge(f"{by}{tail}", items, keys, asc, Sorter(AttrRep.parse(by + tail), asc)(list(items), s),
                          before)
        ctx.state(case)

    names = ["a", "a.b", f"{MAIN}:a", f"{MAIN}:a.b", "", " ", "a b", "a.b.c", "1", "a[b eq 1]", ".a",
             "a.", "a-b", "$ref", "é"]

    def run_parse(name, ctx):
        ctx.step()
        rep = AttrRep.parse(name)
        for asc in (True, False):
            sorter, issues = Sorter.parse(name, asc)
            expect(issues.has_issues() == (rep is Invalid), "%r: issues", name)
            expect((sorter is Invalid) == (rep is Invalid), "%r: sorter", name)
            if sorter is not Invalid:
                expect(sorter.attr_rep == rep and sorter.asc is asc, "%r: wrong sorter", name)
        ctx.state(name)

    return [
        Space("lists of one schema", f"{len(all_kinds)} attribute kinds, all lists of <= {nmax}",
              cases, run, block=16),
        Space("lists of mixed schemas", f"5 attributes, all lists of < {nmax} x schema assignment",
              mixed, run_mixed, block=16),
        Space("long lists", "7, 17, 40 and around boundaries up to 1025 resources, one displaced / missing / tied", long_cases,
              run_long),
        Space("primary items", "place of 'value' x type x core / extension x number of items x place of the primary one",
              primaries, run_primaries, block=2),
        Space("sort attribute notation", f"{len(names)} notations", lambda: iter(names), run_parse),
    ]
