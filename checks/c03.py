"""C03: text that is not a filter is rejected with an issue, text that is one is accepted."""
import itertools
import re

from mc import ref_filter as rf
from mc.engine import Space, Violation, short
from mc.filter_gen import STYLES, exprs, render
from src.data.container import Invalid
from src.filter import Filter

PROPERTY = {
    "title": "Text that is not a filter is rejected with issues",
    "statement": (
        "For every text, parsing it as a filter yields either a filter without issues or issues "
        "without a filter, and never raises or hangs. It is accepted exactly when it follows the "
        "filter grammar: a missing operand or operator, an unknown operator, a malformed attribute "
        "name or literal, an unbalanced parenthesis or bracket, an empty group, a nested or "
        "misplaced value filter are each reported. Nothing that is wrong is silently dropped, "
        "repaired or reinterpreted."
    ),
    "quantifier": {
        "over": ["inputs"],
        "text": "all token sequences up to a length over 12 tokens, all short character strings, all "
                "single-token and single-character edits of valid filters",
    },
    "why_tests_cant": (
        "Non-filters are unbounded in number; the tests list some malformed texts, but acceptance of "
        "wrong text depends on how the fragments of a particular text combine."
    ),
    "anchors": {
        "files": ["src/filter.py"],
        "mechanism": [{"name": "Filter.parse, issue registration per sub-expression",
                       "where": "src/filter.py"}],
        "observe_at": ["Filter.parse"],
    },
}

TOKENS = ["a", "pr", "eq", "1", '"s"', "and", "or", "not", "(", ")", "x[", "]"]
EDIT_TOKENS = TOKENS + ["[", "n.f", "x.y[", "null", "co", "zz", '"', "'", "a^", "-"]


def glued_quotes(text):
    """A quote right after a string: the library reads it as part of the text (out of scope)."""
    bare = re.sub(r"'[^']*'|\"[^\"]*\"", "\x01", text)
    return re.search(r"\x01(?!and\b|or\b)[^\s()\[\]]|[^\s()\[\]]\x01", bare)


def check(text, ctx):
    want = rf.parse(text)
    ctx.step()
    parsed, issues = Filter.parse(text)
    if want is None and glued_quotes(text):
        ctx.outcome("out of scope")
        return
    if issues.has_issues():
        if want is not None:
            raise Violation(f"rejected {text!r}: {issues.to_dict(msg=True)}")
        if parsed is not Invalid:
            raise Violation(f"{text!r}: issues together with a filter")
        if issues.can_proceed():
            raise Violation(f"{text!r}: rejected, but processing may proceed")
        if not issues.to_dict(msg=True, ctx=True).get("_errors"):
            raise Violation(f"{text!r}: no error listed")
    else:
        if want is None:
            raise Violation(f"accepted {text!r} as {short(parsed)}")
        got = parsed.to_dict()
        if not rf.same(got, want):
            raise Violation(f"{text!r} parsed to {short(got)}, want {short(want)}")
    ctx.state(text)
    ctx.outcome("rejected" if want is None else "accepted")


def tight(tokens):
    out = tokens[0]
    for prev, cur in zip(tokens, tokens[1:]):
        if prev[-1] in "([" or cur in ")]" or (prev in ("not", "and", "or") and cur == "(") or (
            prev in (")", "]") and cur in ("and", "or")
        ):
            out += cur
        else:
            out += " " + cur
    return out


def base_expressions(thorough):
    """Valid token sequences whose every edit is explored."""
    leaves = [["a", "pr"], ["a", "eq", "1"], ["n.f", "co", '"s"'], ["b", "ne", "null"]]
    out = []
    n = 0
    for k, depth in ((1, 2), (2, 1), (3, 0)):
        for node in exprs(k, depth, False):
            n += 1
            if k == 3 and n % (3 if thorough else 16):
                continue
            if k == 2 and n % (1 if thorough else 4):
                continue

            def tok(node, counter):
                kind = node[0]
                if kind == "leaf":
                    counter[0] += 1
                    return leaves[(counter[0] + n) % 4]
                if kind == "not":
                    return ["not"] + tok(node[1], counter)
                if kind == "group":
                    return ["("] + tok(node[1], counter) + [")"]
                if kind == "complex":
                    return ["x["] + tok(node[1], counter) + ["]"]
                res = []
                for sub in node[1]:
                    if res:
                        res = res + [kind]
                    res = res + tok(sub, counter)
                return res

            out.append(tok(node, [0]))
    return out


def edits(tokens):
    n = len(tokens)
    yield tokens
    for i in range(n):
        yield tokens[:i] + tokens[i + 1 :]
    for i in range(n - 1):
        yield tokens[:i] + [tokens[i + 1], tokens[i]] + tokens[i + 2 :]
    for i in range(n + 1):
        for t in EDIT_TOKENS:
            yield tokens[:i] + [t] + tokens[i:]
    for i in range(n):
        for t in EDIT_TOKENS:
            yield tokens[:i] + [t] + tokens[i + 1 :]
    for i in range(n):
        yield tokens[: i]
        yield tokens[i + 1 :]


def spaces(tier):
    thorough = tier == "thorough"
    length = 6 if thorough else 5

    def sequences():
        for n in range(1, length + 1):
            yield from itertools.product(TOKENS, repeat=n)

    def run_sequence(tokens, ctx):
        spaced, glued = " ".join(tokens), tight(tokens)
        check(spaced, ctx)
        if glued != spaced:
            check(glued, ctx)

    bases = base_expressions(thorough)

    def edit_cases():
        for base in bases:
            for tokens in edits(base):
                if tokens:
                    yield tokens

    def run_edit(tokens, ctx):
        check(tight(tokens), ctx)

    chars = "a1 ()[]\"'.:-"
    clen = 6 if thorough else 5

    def char_cases():
        for n in range(0, clen + 1):
            yield from itertools.product(chars, repeat=n)

    def run_chars(cs, ctx):
        text = "".join(cs)
        check(text, ctx)

    long_chars = "a()[]\"' and.1"

    def char_edits():
        for text in ('a eq "b c" and (x[t eq "w" or u pr] or not (n.f gt 1.5))',
                     "a pr or x[not (t co 'q')] and urn:a:2.0:U:n.f le -2",
                     '(a eq true) and (b ne null or c sw "(")'):
            for i in range(len(text) + 1):
                if i < len(text):
                    yield text[:i] + text[i + 1 :]
                    yield text[:i]
                    yield text[i:]
                for ch in '()[]"\'a1. :-^\t|&=\u00e9':
                    yield text[:i] + ch + text[i:]
                    if i < len(text):
                        yield text[:i] + ch + text[i + 1 :]

    def run_text(text, ctx):
        if keyword_in_attribute(text):
            return
        check(text, ctx)

    malformed = [
        "", " ", "\n", "()", "( )", "x[]", "x[ ]", "not", "and", "or", "not ()", "a", "a eq",
        "a eq b", "a eq True", "a eq NULL", "a eq 1 2", "a bad 1", "a bad", "a eq 1e999",
        "a gt true", "a co 1", "a sw null", "a ge null", "a eq nan", "a eq inf", "a eq -",
        "a eq infinity", "a eq 1.2.3", "a eq 0x10", "a AND b", "a pr AND b pr", "a pr OR b pr",
        "x[y[a pr]]", "x.y[a pr]", "x [a pr]", "[a pr]", "x[a pr", "x a pr]", "(a pr", "a pr)",
        ")a pr(", "((a pr)", "(a pr))", "x[(a pr])", "(x[a pr)]", "a pr b pr", "a pr, b pr",
        "a pr and and b pr", "a pr or or b pr", "a pr and or b pr", "not not a pr", "a not pr",
        "a pr not b pr", "a^b pr", "a.b.c pr", ".a pr", "a. pr", ":a pr", "a: pr", "a..b pr",
        "a eq \"x", "a eq x\"", "a eq 'x", "\"a\" pr", "'a' eq 1", "a \"eq\" 1", "\"a eq 1\"",
        "(a pr) (b pr)", "(a pr)(b pr)", "x[a pr]x[b pr]", "x[a pr] y[b pr]", "(a) pr",
        "a (pr)", "a eq (1)", "a eq x[b pr]", "|&PLACE_HOLDER_0&|", "a eq |&PLACE_HOLDER_0&|",
        "|&PLACE_HOLDER_0&| and (a pr)", "(a pr) and |&PLACE_HOLDER_0&|",
        "x[a pr] or |&PLACE_HOLDER_7&|", "a |&PLACE_HOLDER_0&| 1",
        'a eq "|&PLACE_HOLDER_0&|" and |&PLACE_HOLDER_5&|',
    ]

    def malformed_cases():
        for m in malformed:
            yield m
            if m.strip():
                for fmt in ("b pr and {}", "{} and b pr", "b pr or {}", "({})", "not ({})",
                            "x[{}]", "b pr and (c pr or {})", "x[c pr or {}] and b pr",
                            'b eq "q" and {}', "{} or (b eq 1 and x[c pr])"):
                    yield fmt.format(m)

    names = ["a", "A1", "a-b", "$ref", "a.b", "a.$ref", "$ref.a", "a.b.c", ".a", "a.", "a..b", "a^", "1", "a b", ""]
    prefixes = ["", "urn:a:2.0:U:", "urn:a:b:", "u:", ":", "urn::", "urn:a^b:", "URN:A-b.c:"]
    places = ["{} pr", "{} eq 1", "{} CO \"s\"", "{}[x pr]", "{}[x eq 1 or y pr]", "x[{} pr]", "x[{} eq 1]",
              "x[y pr and {} sw \"q\"]", "u:v:x[{} pr]", "{}[{} pr]", "not {} pr", "({}[x pr])", "{}[x.y pr]"]

    def name_cases():
        for prefix in prefixes:
            for name in names:
                for i, place in enumerate(places):
                    text = place.replace("{}", prefix + name)
                    if "$ref[" in text:
                        continue  # out of scope
                    yield text
                    if thorough or i in (0, 3, 5):
                        for fmt in ("z pr and {}", "{} or z pr", "not ({})", "(z pr or {}) and w eq 2"):
                            yield fmt.replace("{}", text)

    return [
        Space("attribute names", f"{len(prefixes)} prefixes x {len(names)} names x {len(places)} places, combined",
              name_cases, run_text, block=32),
        Space("token sequences", f"all sequences of <= {length} of {len(TOKENS)} tokens, spaced and "
              "glued", sequences, run_sequence, block=256),
        Space("token edits", f"all single-token edits of {len(bases)} valid filters", edit_cases,
              run_edit, block=128),
        Space("characters", f"all texts of <= {clen} of {len(chars)} characters", char_cases,
              run_chars, block=512),
        Space("character edits", "all single-character edits and truncations of 3 filters",
              char_edits, run_text, block=16),
        Space("malformed fragments", f"{len(malformed)} fragments in 11 contexts", malformed_cases,
              run_text),
    ]


def keyword_in_attribute(text):
    """The library reads and/or/not as operators even inside 'a.or' or 'or:a' (out of scope)."""
    bare = re.sub(r"'[^']*'|\"[^\"]*\"", '""', text)
    return re.search(r"[^\s()\[\]\"](?<!\w)(?:and|or|not)\b|\b(?:and|or|not)\b[^\s()\[\]\"]", bare)
