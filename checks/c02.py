"""C02: comparison values of a filter come through exactly and stay with their comparison."""
import itertools

from mc import ref_filter as rf
from mc.engine import Space, Violation, short
from mc.sizes import sizes
from src.filter import Filter

PROPERTY = {
    "title": "Comparison values of filters come through exactly",
    "statement": (
        "The value of every comparison in a filter is exactly the literal the client wrote: a quoted "
        "string yields its characters unchanged, whatever they are (operators, brackets, keywords, "
        "white space, the other quote character), a number yields that number and its kind, and "
        "true, false and null yield themselves. Each value stays with its own comparison, however "
        "many comparisons and equal or confusable strings the filter has."
    ),
    "quantifier": {
        "over": ["inputs"],
        "text": "all words of bounded length over fragments that are meaningful to the filter syntax, "
                "in both quote styles and every syntactic position; all tuples of confusable strings; "
                "all number spellings",
    },
    "why_tests_cant": (
        "String values are arbitrary text; the tests use a handful of harmless ones, while only "
        "particular contents collide with the parser's own syntax."
    ),
    "anchors": {
        "files": ["src/filter.py", "src/data/operator.py"],
        "mechanism": [{"name": "string placeholders and literal parsing of Filter",
                       "where": "src/filter.py"}],
        "observe_at": ["Filter.parse", "Filter.to_dict"],
    },
}

ATOMS = [
    "a", " ", "and", "or", "not", "(", ")", "[", "]", " eq ", ".", ":", ",", "\\", "0", "\n",
    "é", " or ", "|&PLACE_HOLDER_0&|", "|&PLACE_HOLDER_", "%", "&", "|", "$", "{}", "<", "\t",
    "null", "true", "  ", " and b pr", "{0}", "\\1", "Q",
]
OTHER_QUOTE = {'"': "'", "'": '"'}


def check(text, tree, ctx):
    ctx.step()
    parsed, issues = Filter.parse(text)
    if issues.has_issues():
        raise Violation(f"rejected {text!r}: {issues.to_dict(msg=True)}")
    got = parsed.to_dict()
    if not rf.same(got, tree):
        raise Violation(f"{text!r} parsed to {short(got)}, want {short(tree)}")
    ctx.state(text)


def eq(attr, value, op="eq"):
    return {"op": op, "attr_rep": attr, "value": value}


def cx(attr, sub):
    return {"op": "complex", "attr_rep": attr, "sub_op": sub}


def multi(op, *subs):
    return {"op": op, "sub_ops": list(subs)}


def contexts(lit, v):
    """Placements of one literal, with neighbours that could be confused with it."""
    yield f"a eq {lit}", eq("a", v)
    yield f"a eq {lit} and b pr", multi("and", eq("a", v), {"op": "pr", "attr_rep": "b"})
    yield f'b eq "x" or a co {lit}', multi("or", eq("b", "x"), eq("a", v, "co"))
    yield f"(a sw {lit} or b eq {lit}) and c ne {lit}", multi(
        "and", multi("or", eq("a", v, "sw"), eq("b", v)), eq("c", v, "ne"))
    yield f"e[t eq {lit} and (u eq 1 or w ew {lit})]", cx("e", multi(
        "and", eq("t", v), multi("or", eq("u", 1), eq("w", v, "ew"))))
    yield f'e[t eq "z"] and n.f gt {lit} and not (e[t eq {lit}])', multi(
        "and", cx("e", eq("t", "z")), cx("n", eq("f", v, "gt")),
        {"op": "not", "sub_op": cx("e", eq("t", v))})


NUMBERS = (
    [str(i) for i in range(-40, 41)]
    + [f"{i}.{j}" for i in ("0", "-0", "1", "-7", "12") for j in ("0", "5", "25", "000", "001", "1e2")]
    + ["1e3", "-1E3", "1e-3", "2.5e1", "1E+2", "10e0", "123456789012345678901234567890",
       "-98765432109876543210", "9007199254740993", "9007199254740992", "4503599627370497.5",
       "0.1", "0.30000000000000004", "1e22", "1e23", "1.7976931348623157e308", "5e-324", "00",
       "007", "+1", "+2.5", ".5", "5.", "18446744073709551616", "1e300"]
    + [str(s * (b**e + d)) for b, top in ((2, 70), (10, 40)) for e in range(4, top) for d in (-1, 0, 1) for s in (1, -1)]
    + [f"1{x}{s}{e}" for x in ("", ".5", ".25") for s in ("e", "E-", "e+") for e in range(0, 40, 3)]
)


def spaces(tier):
    thorough = tier == "thorough"
    length = 3 if thorough else 2

    def contents():
        for n in range(0, length + 1):
            for parts in itertools.product(ATOMS, repeat=n):
                yield "".join(parts)
        for a in ATOMS:  # long contents
            for n in (5, 17, 64, 300):
                yield a * n
        for n in sizes(1100) + [4096, 20000]:  # every length
            yield "x" * n
            yield "a " * (n // 2) + "b" * (n % 2)
        for a, b in itertools.product(ATOMS, repeat=2):
            yield a + "x" + b
        for ch in range(1, 0x250):  # every character of the first Unicode blocks
            if chr(ch) not in "\"'":
                yield chr(ch)
                yield "a" + chr(ch) + "b"

    def cases():
        for c in contents():
            for q in '"\'':
                yield c, q

    def run(case, ctx):
        content, quote = case
        other = OTHER_QUOTE[quote]
        lit = f"{quote}{content}{quote}"
        for text, tree in contexts(lit, content):
            check(text, tree, ctx)
        if len(content) <= 8:
            # the other quote character is ordinary text, wherever it stands
            for c2 in (other + content, content + other, other + content + other):
                check(f"a eq {quote}{c2}{quote}", eq("a", c2), ctx)
                check(f"b eq {quote}q{quote} or a eq {quote}{c2}{quote} and c pr", multi(
                    "or", eq("b", "q"),
                    multi("and", eq("a", c2), {"op": "pr", "attr_rep": "c"})), ctx)

    pool = ["", "a", "b", "ab", "a b", "or", ") or (", "]", "[a", "x' y", "é", "1", "true",
            "b eq ", "a and b", "aa", " a", "a ", "|&PLACE_HOLDER_1&|", "PLACE_HOLDER_0", "0"]

    def pair_cases():
        return itertools.product(pool, repeat=3 if thorough else 2)

    def quote(v):
        return f"'{v}'" if '"' in v else f'"{v}"'

    def run_pairs(vs, ctx):
        lits = [quote(v) for v in vs]
        n = len(vs)
        check(" or ".join(f"a{i} eq {l}" for i, l in enumerate(lits)),
              multi("or", *(eq(f"a{i}", v) for i, v in enumerate(vs))), ctx)
        check("e[" + " and ".join(f"a{i} eq {l}" for i, l in enumerate(lits)) + "]",
              cx("e", multi("and", *(eq(f"a{i}", v) for i, v in enumerate(vs)))), ctx)
        check(" and ".join(f"e[a eq {l}]" for l in lits),
              multi("and", *(cx("e", eq("a", v)) for v in vs)), ctx)
        check("(" + ") and (".join(f"a eq {l} or b co {l}" for l in lits) + ")",
              multi("and", *(multi("or", eq("a", v), eq("b", v, "co")) for v in vs)), ctx)
        # mixed quoting
        ok = all("'" not in v for v in vs)
        if ok:
            check(" or ".join(f"a{i} eq " + (f"'{v}'" if i % 2 else f'"{v}"')
                              for i, v in enumerate(vs)),
                  multi("or", *(eq(f"a{i}", v) for i, v in enumerate(vs))), ctx)

    def many():
        for n in range(1, 60 if thorough else 40):
            for shape in range(4):
                yield n, shape
        for n in sizes(1100, 40):
            yield n, 0
            yield n, 1

    def run_many(case, ctx):
        n, shape = case
        if shape == 0:  # all equal
            vs = ["same"] * n
        elif shape == 1:
            vs = [f"v{i}" for i in range(n)]
        elif shape == 2:  # growing, each a prefix of the next one
            vs = ["x" * i for i in range(n)]
        else:
            vs = ["x" * (n - i) for i in range(n)]
        trees = [eq(f"a{i}", v) for i, v in enumerate(vs)]
        text = " or ".join(f'a{i} eq "{v}"' for i, v in enumerate(vs))
        check(text, trees[0] if n == 1 else multi("or", *trees), ctx)
        inner = " and ".join(f'a{i} eq "{v}"' for i, v in enumerate(vs))
        check(f"e[{inner}]", cx("e", trees[0] if n == 1 else multi("and", *trees)), ctx)

    def run_number(text, ctx):
        want = rf.literal("word", text)
        for op in ("eq", "ne", "gt", "ge", "lt", "le"):
            check(f"a {op} {text}", eq("a", want, op), ctx)
        check(f"e[a eq {text}] or (b eq {text} and c eq {text})", multi(
            "or", cx("e", eq("a", want)), multi("and", eq("b", want), eq("c", want))), ctx)
        check(f'a eq "{text}"', eq("a", text), ctx)  # quoted number is text
        check(f"n.f eq {text}", cx("n", eq("f", want)), ctx)

    def run_word(case, ctx):
        word, value = case
        for op in ("eq", "ne"):
            check(f"a {op} {word}", eq("a", value, op), ctx)
            check(f"(a {op} {word}) or b eq {word}", multi(
                "or", eq("a", value, op), eq("b", value)), ctx)
            check(f"e[a {op} {word} and b pr]", cx("e", multi(
                "and", eq("a", value, op), {"op": "pr", "attr_rep": "b"})), ctx)
            check(f'a {op} "{word}"', eq("a", word, op), ctx)

    return [
        Space("string contents", f"all words of <= {length} of {len(ATOMS)} fragments, both quotes, "
              "6 placements", cases, run, block=8),
        Space("several strings", "all tuples of confusable contents", pair_cases, run_pairs, block=8),
        Space("number of strings", "1..40 literals and around boundaries up to 1025", many, run_many),
        Space("numbers", f"{len(NUMBERS)} spellings", lambda: iter(NUMBERS), run_number),
        Space("words", "true false null",
              lambda: iter([("true", True), ("false", False), ("null", None)]), run_word),
    ]
