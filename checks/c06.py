"""C06: attribute notation."""
import itertools

from mc import fixtures as fx
from mc import ref_schema as rs
from mc.engine import Space, Violation, expect
from mc.lib import lib_schema
from mc.near import near
from mc.sizes import places, sizes
from src.data.container import AttrRep, Invalid

PROPERTY = {
    "title": "Attribute notation names exactly one attribute, in any letter case",
    "statement": (
        "Every text is either accepted as an attribute notation - an optional colon-separated "
        "schema URI, an attribute name and an optional sub-attribute name - and split into exactly "
        "these parts, or reported as invalid; writing an accepted notation out and parsing it again "
        "gives the same parts. Two notations are equal exactly when attribute, sub-attribute and "
        "(if both carry one) schema URI agree up to letter case. Looking an attribute up in a "
        "schema by any spelling of its notation, qualified or not, finds that very attribute (a "
        "core attribute before an equally named extension attribute when unqualified) and finds "
        "nothing for notations of attributes the schema does not have."
    ),
    "quantifier": {
        "over": ["inputs", "configurations"],
        "text": "all strings and token sequences up to the bound; all pairs of a notation set; all "
                "attributes of the built-in and custom schemas in all spellings",
    },
    "why_tests_cant": (
        "Tests try a dozen notations; the split, letter case and schema qualification interact for "
        "every string and every pair of names."
    ),
    "anchors": {
        "files": ["src/data/container.py", "src/data/attributes.py", "src/data/schemas.py"],
        "mechanism": [
            {"name": "AttrRep.parse / __eq__ / top_level_equals", "where": "src/data/container.py"},
            {"name": "Attributes.get", "where": "src/data/attributes.py"},
        ],
        "observe_at": ["AttrRep", "Attributes.get"],
    },
}


def is_name(t):
    return t == "$ref" or (t != "" and all(c.isalnum() or c == "_" for c in t))


def is_uri_part(t):
    return t != "" and all(c.isalnum() or c in "_.-" for c in t)


def ref_parse(t):
    """-> (schema, attr, sub) or None"""
    uri, colon, rest = t.rpartition(":")
    if colon and not all(is_uri_part(p) for p in uri.split(":")):
        return None
    names = rest.split(".")
    if len(names) > 2 or not all(is_name(n) for n in names):
        return None
    return uri, names[0], names[1] if len(names) == 2 else ""


def parts(rep):
    return rep.schema, rep.attr, rep.sub_attr


def run_parse(t, ctx):
    want = ref_parse(t)
    ctx.step()
    got = AttrRep.parse(t)
    if want is None:
        if got is not Invalid:
            raise Violation(f"{t!r} accepted as {parts(got)}")
    else:
        if got is Invalid:
            raise Violation(f"{t!r} rejected")
        if parts(got) != want:
            raise Violation(f"{t!r} split into {parts(got)}, want {want}")
        expect(got.extension is False, "a notation is not an extension by itself")
        again = AttrRep.parse(str(got))
        if again is Invalid or parts(again) != want or str(got) != t:
            raise Violation(f"{t!r} is written as {str(got)!r}")
        expect(got.attr_with_schema == (f"{want[0]}:{want[1]}" if want[0] else want[1]),
               "wrong qualified name of %r", t)
        built = AttrRep(*want)
        expect(parts(built) == want and str(built) == t and built == got and got == built,
               "%r: constructed and parsed notations differ", t)
    ctx.state(t)
    ctx.outcome(want is not None)


def run_build(case, ctx):
    schema, attr, sub, extension = case
    valid = (
        is_name(attr) and (sub == "" or is_name(sub))
        and (schema == "" or all(is_uri_part(p) for p in schema.split(":")))
        and not (extension and not schema)
    )
    ctx.step()
    try:
        got = AttrRep(schema=schema, attr=attr, sub_attr=sub, extension=extension)
    except ValueError:
        expect(not valid, "%r refused", case)
    else:
        expect(valid, "%r accepted", case)
        expect(parts(got) == (schema, attr, sub) and got.extension is extension,
               "%r: parts %r", case, parts(got))
    ctx.state(case)


def near_pairs():
    """notations next to each other in one part"""
    bases = [("", "name", ""), ("", "x_y", "a_b"), ("urn:a:2.0:User", "userName", ""),
             ("urn:a-b:2.0:User", "name", "familyName"), ("", "a1", "b1"), ("urn:x", "a", "$ref"), ("", "$ref", "value")]
    for base in bases:
        for i in range(3):
            for text in near(base[i]) + ["_" + base[i] + "_", "__" + base[i], base[i] + "__", base[i] * 3]:
                other = tuple(text if j == i else p for j, p in enumerate(base))
                if is_name(other[1]) and (not other[2] or is_name(other[2])) and (
                        not other[0] or all(is_uri_part(p) for p in other[0].split(":"))):
                    yield base, other
                    yield other, base
                    yield ("",) + base[1:], other
                    yield base, ("",) + other[1:]
                    yield other, other


def near_lookups():
    for table, (s, _) in TABLES.items():
        for ext, a in s.top():
            urn = ext or s.urn
            for text in near(a.name) + ["_" + a.name + "_"]:
                yield table, "", text, ""
                yield table, urn, text, ""
            for text in near(urn):
                yield table, text, a.name, ""
            for x in a.subs:
                for text in near(x.name) + ["_" + x.name + "_"]:
                    yield table, "", a.name, text
                    yield table, urn, a.name, text


def run_near_lookup(case, ctx):
    _, urn, attr, sub = case
    if is_name(attr) and (not sub or is_name(sub)) and (not urn or all(is_uri_part(p) for p in urn.split(":"))):
        run_lookup(case, ctx)


def spellings(t):
    return [t, t.upper(), t.lower(), t.swapcase()]


def notations():
    out = []
    for urn in ("", "urn:a:2.0:User", "URN:A:2.0:USER", "urn:a:2.0:Use", "urn:a:2.0:User:name",
                "urn:b-x.y:User"):
        for attr in ("name", "NAME", "nam", "names", "user", "User", "value", "$ref", "$REF",
                     "éa", "ÉA"):
            for sub in ("", "value", "VALUE", "valu", "name", "$ref"):
                if is_name(attr):
                    out.append((urn, attr, sub))
    return out


def run_pair(case, ctx):
    (u1, a1, s1), (u2, a2, s2) = case
    top = a1.lower() == a2.lower() and (not u1 or not u2 or u1.lower() == u2.lower())
    want = top and s1.lower() == s2.lower()
    one, two = AttrRep(u1, a1, s1), AttrRep(u2, a2, s2)
    ctx.step(3)
    expect((one == two) is want, "%r == %r is %r", one, two, not want)
    expect((one != two) is not want, "%r != %r is %r", one, two, want)
    expect(one.top_level_equals(two) is top, "%r and %r: wrong top-level equality", one, two)
    expect((one in [two]) is want, "%r in [%r] is wrong", one, two)
    expect(not one == str(one) and not one == None, "equal to something else")  # noqa
    ctx.state(case)
    ctx.outcome(want)


TWINS = rs.S(
    urn="urn:t:2.0:Main", name="Main", plural="Mains",
    attrs=rs.COMMON + (
        rs.A("int", "integer"), rs.C("name", rs.A("value"), rs.A("type"), mv=True),
        rs.C("names", rs.A("value")), rs.A("value"), rs.C("type", rs.A("type"), rs.A("$ref", "uri")),
    ),
    exts=(
        ("urn:t:2.0:Ext", (rs.A("int", "integer"), rs.C("name", rs.A("value"), rs.A("extra")),
                           rs.A("only"))),
        ("urn:t:2.0:Ext2", (rs.A("int"), rs.A("only"), rs.A("last"))),
    ),
)
TABLES = {"User": (rs.USER, fx.User()), "Group": (rs.GROUP, fx.Group()),
          "Twins": (TWINS, lib_schema(TWINS))}


def ref_lookup(s, urn, attr, sub):
    for ext, a in s.top():
        if urn and urn.lower() != (ext or s.urn).lower():
            continue
        if a.name.lower() == attr.lower():
            if not sub:
                return ext or s.urn, a.name, "", a
            if a.sub(sub):
                return ext or s.urn, a.name, a.sub(sub).name, a.sub(sub)
    return None


def lookup_cases():
    for table, (s, _) in TABLES.items():
        names = [(ext or s.urn, a.name, sub) for ext, a in s.top()
                 for sub in [""] + [x.name for x in a.subs]]
        names += [(urn, attr, sub) for urn in s.known + ["urn:other"]
                  for attr in ("int", "name", "names", "value", "only", "last", "type", "manager",
                               "unknown", "emails", "Name1")
                  for sub in ("", "value", "type", "extra", "unknown", "$ref")]
        for urn, attr, sub in names:
            for u in ["", urn, urn.upper(), urn.swapcase()]:
                for a, x in zip(spellings(attr), spellings(sub)):
                    if is_name(a) and (x == "" or is_name(x)):
                        yield table, u, a, x


def run_lookup(case, ctx):
    table, urn, attr, sub = case
    s, schema = TABLES[table] if isinstance(table, str) else table
    case = s.name, urn, attr, sub
    want = ref_lookup(s, urn, attr, sub)
    ctx.step()
    got = schema.attrs.get(AttrRep(urn, attr, sub))
    if want is None:
        expect(got is None, "%r found in %s", case, table)
    else:
        expect(got is not None, "not found")
        if parts(got.rep) != want[:3]:
            raise Violation(f"found {got.rep}, want {want[:3]}")
        a = want[3]
        expect(got.rep.extension is (want[0] != s.urn), "wrong extension mark of %r", got.rep)
        expect(got.multi_valued is a.mv and got.required is a.req, "another attribute found")
        if got.rep.attr.isidentifier() and not urn and not sub:
            by_name = getattr(schema.attrs, attr)
            expect(by_name.rep.attr == want[1], "attribute access finds %r", by_name.rep)
        if attr.isidentifier() and sub.isidentifier() and not urn:
            by_name = getattr(schema.attrs, f"{attr}__{sub}")
            expect(parts(by_name.rep)[1:] == want[1:3], "attribute access finds %r", by_name.rep)
    ctx.state(case)
    ctx.outcome(want is not None)


def long_texts(limit):
    stem = "abcDefgHij" * 110
    for n in sizes(limit, 1):
        name, uri = stem[:n], ":".join(["urn"] + ["x2.0"[: 1 + i % 4] for i in range(n)])
        for t in (name, f"{name}.{name}", f"a.{name}", f"urn:a:{name}", f"urn:{name}:a", f"{uri}:a", f"{uri}:{name}.b",
                  f"a{'_' * n}", f"{name}.{name}.{name}", f"{uri}::a", "1" + name, f"urn:{'2.' * n}0:a"):
            yield t
            for p in places(len(t)):
                for c in ".: \n-$1\u00e9":
                    yield t[:p] + c + t[p + 1:]


def long_pairs(limit):
    stem = "abcDefgHij" * 110
    for n in sizes(limit, 1):
        base = stem[:n]
        for p in places(n):
            other = base[:p] + "z" + base[p + 1:]
            for x in (other, base[:p] + base[p].swapcase() + base[p + 1:], base + "a", base[:-1] or "z"):
                yield ("", base, ""), ("", x, "")
                yield ("", "a", base), ("", "a", x)
                yield ("urn:" + base, "a", ""), ("urn:" + x, "a", "")
                yield ("urn:" + base, base, base), ("urn:" + x, base, base)


BIG = {}


def many_lookups(limit):
    for n in sizes(limit, 2):
        for where in ("core", "extension", "sub", "extensions"):
            for p in places(n) + [n]:
                yield where, n, p


def run_many_lookup(case, ctx):
    where, n, p = case
    if (where, n) not in BIG:
        BIG.clear()
        attrs = tuple(rs.A(f"attribute{i}", "integer" if i % 2 else "string", mv=i % 3 == 0) for i in range(n))
        s = {
            "core": lambda: rs.S("urn:t:2.0:Big", rs.COMMON + attrs, "Big", "Bigs"),
            "extension": lambda: rs.S("urn:t:2.0:Big", rs.COMMON, "Big", "Bigs", (("urn:t:2.0:X", attrs),)),
            "sub": lambda: rs.S("urn:t:2.0:Big", rs.COMMON + (rs.C("c", *attrs), rs.C("d", *attrs, mv=True)), "Big",
                                "Bigs"),
            "extensions": lambda: rs.S("urn:t:2.0:Big", rs.COMMON, "Big", "Bigs", tuple(
                (f"urn:t:2.0:X{i}", (rs.A("x", mv=i % 2 == 0), rs.A(f"y{i}"))) for i in range(n))),
        }[where]()
        BIG[where, n] = s, lib_schema(s)
    name = f"attribute{p}"
    asked = {"core": [("", name, ""), ("urn:t:2.0:BIG", name.upper(), ""), ("urn:t:2.0:X", name, "")],
             "extension": [("", name, ""), ("urn:t:2.0:x", name, ""), ("urn:t:2.0:Big", name, "")],
             "sub": [("", "c", name), ("", "D", name.upper()), ("", name, ""), ("urn:t:2.0:Big", "d", name)],
             "extensions": [(f"urn:t:2.0:X{p}", "x", ""), ("", f"y{p}", ""), ("", "x", ""),
                            (f"urn:t:2.0:X{p}", f"y{p}", ""), (f"urn:t:2.0:X{p}", f"y{p + 1}", "")]}[where]
    for urn, attr, sub in asked:
        run_lookup((BIG[where, n], urn, attr, sub), ctx)
    ctx.state(case)


def spaces(tier):
    deep = tier == "thorough"
    chars = "aB1:.-_$ é"
    tokens = ["a", "B2", "$ref", "ref", ":", ".", "-", "_", " ", "É", "\n", "$", "urn:x", "2.0"]
    n, m = (7, 6) if deep else (6, 5)
    pieces = ["", "a", "name", "$ref", "$", "a.b", "a:b", ":", ".", "urn:a", "urn::a", "urn:a:",
              ":urn", "a b", "2.0", "x-y", "é", "a\n", "$refs"]
    return [
        Space("characters", f"all strings of <= {n} characters of {chars!r}",
              lambda: ("".join(x) for k in range(n + 1) for x in itertools.product(chars, repeat=k)),
              run_parse, block=256),
        Space("tokens", f"all sequences of <= {m} of {len(tokens)} tokens",
              lambda: ("".join(x) for k in range(m + 1) for x in itertools.product(tokens, repeat=k)),
              run_parse, block=256),
        Space("construction", f"all combinations of {len(pieces)} parts",
              lambda: itertools.product(pieces, pieces, pieces, (False, True)), run_build, block=64),
        Space("equality", "all pairs of notations",
              lambda: itertools.product(notations(), repeat=2), run_pair, block=256),
        Space("near misses of equality", "notations differing by one slip in one part", near_pairs, run_pair,
              block=64),
        Space("near misses of lookup", "every name of 3 schemas with every slip", near_lookups, run_near_lookup,
              block=64),
        Space("long names", "lengths next to boundaries, a wrong character at every telling position",
              lambda: long_texts(1025 if deep else 513), run_parse, block=64),
        Space("equality of long names", "lengths next to boundaries, a difference at every telling position",
              lambda: long_pairs(1025), run_pair, block=64),
        Space("lookup among many", "numbers of attributes, sub-attributes and extensions next to boundaries",
              lambda: many_lookups(513 if deep else 257), run_many_lookup, block=40),
        Space("lookup", "all attributes of 3 schemas, all spellings", lookup_cases, run_lookup),
    ]
