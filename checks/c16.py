"""C16: paths of PATCH operations."""
import itertools
import re

from mc import ref_filter as rf
from mc import ref_path as rp
from mc.engine import Space, Violation, expect, short
from mc.sizes import sizes
from src.data.container import AttrRep, Invalid
from src.data.path import PatchPath
from src.filter import Filter

PROPERTY = {
    "title": "Patch paths address exactly the attribute, items and sub-attribute written",
    "statement": (
        "Every text is either accepted as the path of a modification - an attribute or "
        "'attribute.subAttribute', optionally schema-qualified, or an attribute with a value filter in "
        "brackets, optionally followed by '.subAttribute' - or reported with issues; it never raises. "
        "An accepted path has exactly the written schema, attribute, value filter (with its string "
        "values untouched, whatever they contain) and sub-attribute; nothing before, between or after "
        "these parts is ignored. Two paths are equal exactly when these parts are. A path put together "
        "from such parts by a program is refused exactly when they do not belong to one attribute or "
        "could not have been written."
    ),
    "quantifier": {
        "over": ["inputs"],
        "text": "all sequences of up to 4 (5 thorough) path tokens, all single-character edits of valid "
                "paths, all short string contents in the value filter in all positions",
    },
    "why_tests_cant": (
        "Paths embed the filter language and arbitrary strings; the tests list about twenty paths, and "
        "a path that silently addresses something else differs from those in a few characters."
    ),
    "anchors": {
        "files": ["src/data/path.py", "src/filter.py", "src/data/container.py"],
        "mechanism": [{"name": "PatchPath.parse", "where": "src/data/path.py"}],
        "observe_at": ["PatchPath.parse and the properties of the parsed path"],
    },
}

TOKENS = ["a", "urn:x:2.0:a", ".", ".b", "[", "]", "c eq 1", 'd co "s"', "e pr", " and ", "not (", ")",
          " ", "a[c pr]", '"', "$ref", ":"]


def out_of_scope(text, want):
    """Readings of the library beyond the grammar: the attribute repeated after the value filter; a
    quote glued to other text; items of a reference."""
    if "$ref[" in text.lower():
        return True
    tail = text.rpartition("]")[2]
    if want is None and re.fullmatch(r"\.(?:[\w.-]+:)*\w+\.(\w+|\$ref)", tail):
        return True
    bare = re.sub(r"'[^']*'|\"[^\"]*\"", "\x01", text)
    return want is None and bool(re.search(r"\x01(?!and\b|or\b)[^\s()\[\]]|[^\s()\[\]]\x01", bare))


def check(text, ctx):
    want = rp.parse(text)
    ctx.step()
    parsed, issues = PatchPath.parse(text)
    if out_of_scope(text, want):
        return
    if want is None:
        if parsed is not Invalid or not issues.has_issues():
            raise Violation(f"accepted {text!r}")
        ctx.outcome("rejected")
    else:
        if issues.has_issues():
            raise Violation(f"rejected {text!r}: {issues.to_dict(msg=True)}")
        urn, attr, sub, tree, tail = want
        rep = parsed.attr_rep
        got = (rep.schema, rep.attr, rep.sub_attr)
        expect(got == (urn, attr, sub), "%r: attribute %r, want %r", text, got, (urn, attr, sub))
        if tree is None:
            expect(parsed.complex_filter is None, "%r: unexpected filter", text)
        else:
            expect(parsed.complex_filter is not None, "%r: filter lost", text)
            got = parsed.complex_filter.to_dict()
            expect(rf.same(got, tree), "%r: filter %s, want %s", text, short(got), short(tree))
        sub_rep = parsed.complex_filter_attr_rep
        if tail is None:
            expect(sub_rep is None, "%r: unexpected sub-attribute %r", text, sub_rep)
        else:
            expect(sub_rep is not None, "%r: sub-attribute lost", text)
            got = (sub_rep.schema, sub_rep.attr, sub_rep.sub_attr)
            expect(got == (urn, attr, tail), "%r: sub-attribute %r", text, got)
        ctx.outcome("accepted")
    ctx.state(text)


VALID = [
    "a", "a.b", "urn:x:2.0:U:a", "urn:x:2.0:U:a.b", "a[b eq 1]", "a[b eq 1].c", "urn:x:2.0:U:a[b pr].c",
    'emails[type eq "work" and value co "@x.y"].value', 'a[not (b eq "]") or c sw "[x"].$ref',
    "a.$ref", 'a[b eq "x"]', "a[(b pr)].c", "a[b ne null].c_d", 'a[b eq "a.b"].c',
]


def spaces(tier):
    thorough = tier == "thorough"
    length = 5 if thorough else 4

    def sequences():
        for n in range(length + 1):
            for combo in itertools.product(TOKENS, repeat=n):
                yield "".join(combo)

    def edits():
        chars = ["[", "]", ".", " ", '"', "'", "(", ")", ":", "a", "$", "-", "^", "\n", "é", "/", ",",
                 "|&PLACE_HOLDER_0&|", "|&PLACE_HOLDER_9&|", "]]", "[]", "[x pr]", ".x", "\\"]
        for base in VALID:
            yield base
            yield base.upper()
            for i in range(len(base) + 1):
                for ch in chars:
                    yield base[:i] + ch + base[i:]
                    if i < len(base):
                        yield base[:i] + ch + base[i + 1:]
                if i < len(base):
                    yield base[:i] + base[i + 1:]
                    yield base[:i]
                    yield base[i:]
        if thorough:
            for a, b in itertools.product(VALID, repeat=2):
                for sep in ("", ".", " ", " and ", ","):
                    yield a + sep + b

    atoms = ["a", " ", "[", "]", "].x", ".", "(", ")", "and", " or ", " eq ", "|&PLACE_HOLDER_0&|",
             "|&PLACE_HOLDER_8&|", "é", ":", "\\", "0", "\n", "{}", "a[b eq 1]", "emails[", "%s"]
    templates = ["a[b eq {0}]", "a[b eq {0}].c", "a[b eq {0} and c sw {1}].d",
                 "urn:x:2.0:U:a[not (b co {0}) or (c eq {1})]", "a[b eq {1} and (c eq {0} or d eq {1})].$ref"]

    def strings():
        for n in range(4 if thorough else 3):
            for parts in itertools.product(atoms, repeat=n):
                for q in "\"'":
                    yield "".join(parts), q
        for a in atoms:
            for n in (7, 40):
                yield a * n, '"'

    def run_string(case, ctx):
        content, q = case
        others = ["x", content, "]", 'x'] + ([("'" if q == '"' else '"')] if len(content) < 6 else [])
        for template in templates:
            for other in others:
                check(template.format(q + content + q, q + other + q), ctx)

    def large():
        for n in sizes(1025 if thorough else 301, 1):
            name = ("abcDefgHij" * 110)[:n]
            uri = ":".join(["urn"] + ["x2.0"[: 1 + i % 4] for i in range(n)])
            yield from (name, f"a.{name}", f"{uri}:a", f"{uri}:a.b", f"{name}[{name} eq 1].{name}", f"a[b eq 1].{name}.c",
                        f"{uri}:a[b pr].c", f"a[b eq {'1' * n}]", f"a[b eq {' ' * n}1]", f"a[{' ' * n}b pr]", f"{name}..b",
                        f"a[b eq 1]{']' * n}", f"a{'[' * n}b eq 1]", f"a[b eq 1].c{' ' * n}")
            for text in (name, "]" * n, "[" * n, " " * n, "a[b eq 1]" * (n // 4 + 1), "." * n, "\u00e9" * n, "(" * n):
                yield f'a[b eq "{text}"].c'
                yield f'a[b eq "{text}" and c eq "x"]'
                yield f'a[c eq "x" or not (b eq "{text}")].$ref'
                yield f'a[b eq "{text}].c'
        for n in sizes(1025 if thorough else 129, 2):
            for op_ in ("and", "or"):
                for p in (0, n // 2, n - 1):
                    parts = ['b eq "]"' if i == p else f'c{i} eq "{i}"' for i in range(n)]
                    yield f"a[{f' {op_} '.join(parts)}].c"
                    parts[p] = "b xx 1"
                    yield f"a[{f' {op_} '.join(parts)}].c"
        for n in range(1, 25):
            yield f"a[{'(' * n}b pr{')' * n}].c"
            yield f"a[{'(' * n}b pr{')' * (n - 1)}].c"
            yield f"a[{'not (' * n}b pr{')' * n}]"

    eqs = VALID + ["A", "A.B", "a[B eq 1]", "a[b eq 2]", "a[b eq 1].d", "a[b eq 1].C", "b[b eq 1].c",
                   "urn:x:2.0:V:a", "URN:X:2.0:u:A", "a[b ne 1]", "a[(b eq 1)].c", "a[b eq 1 and c pr]"]

    def fold(want):
        """Paths compare up to letter case of names and optional schema."""
        urn, attr, sub, tree, tail = want

        def go(t):
            if isinstance(t, dict):
                return {k: (v.lower() if k == "attr_rep" else go(v)) for k, v in t.items()}
            return [go(x) for x in t] if isinstance(t, list) else t

        return urn.lower(), attr.lower(), sub.lower(), go(tree), (tail or "").lower()

    def run_eq(pair, ctx):
        a, b = pair
        ctx.step()
        x, y = rp.parse(a), rp.parse(b)
        fx_, fy = fold(x), fold(y)
        if bool(fx_[0]) != bool(fy[0]):
            return  # qualified against unqualified: not decided by the texts alone
        if fx_ == fy and (x[3], x[4]) != (y[3], y[4]):
            return  # letter case inside the value filter
        p, q = PatchPath.parse(a)[0], PatchPath.parse(b)[0]
        expect((p == q) == (fx_ == fy), "%r == %r is %r", a, b, p == q)
        ctx.state(pair)

    urn, other = "urn:x:2.0:U", "urn:x:2.0:V"
    reps = list(itertools.product(("", urn, urn.upper(), other), ("a", "A", "b"), ("", "s", "a")))
    filters = [None] + [(u, t) for u in ("", urn, other) for t in (
        "a[b eq 1]", "A[b pr and c eq 2]", "b[c pr]", "a eq 1", "a pr", "not (a[b pr])", "a[b pr] and a[c pr]")]

    def assembled():
        for rep in reps:
            for f in filters:
                for tail in [None] + reps:
                    yield rep, f, tail

    def run_assembled(case, ctx):
        rep, f, tail = case
        used = (rep[0], tail[0] if tail else rep[0])
        uf, bare = f or (rep[0], "")
        if len({bool(u) for u in (*used, uf)}) > 1:
            return  # qualified and unqualified names together: left open
        filter_ = Filter.parse(re.sub(r"[aAb](?=\[| eq| pr)", lambda m: f"{uf and uf + ':'}{m[0]}", bare, count=1)
                               )[0] if f else None
        fine = not (rep[2] and (f or tail))
        if tail:
            fine = fine and tail[2] and (tail[0].lower(), tail[1].lower()) == (rep[0].lower(), rep[1].lower())
        if f:
            fine = (fine and bare[1] == "[" and bare[-1] == "]" and bare.count("[") == 1
                    and (uf.lower(), bare[0].lower()) == (rep[0].lower(), rep[1].lower()))
        one, two = AttrRep(*rep), AttrRep(*tail) if tail else None
        ctx.step()
        try:
            path = PatchPath(attr_rep=one, complex_filter=filter_, complex_filter_attr_rep=two)
        except ValueError:
            path = None
        what = f"path of {rep}, {f!r}, {tail}"
        expect((path is not None) == bool(fine), "%s: %s", what, "refused" if path is None else "accepted")
        if path is not None:
            expect(path.attr_rep == one and path.complex_filter is filter_ and path.complex_filter_attr_rep == two,
                   "%s: parts changed", what)
        ctx.state(case)
        ctx.outcome(bool(fine))

    return [
        Space("assembled paths", f"all combinations of {len(reps)} attributes, {len(filters)} filters and "
              f"{len(reps) + 1} sub-attributes", assembled, run_assembled, block=64),
        Space("token sequences", f"all sequences of <= {length} of {len(TOKENS)} tokens", sequences, check,
              block=256),
        Space("edits", f"all single-character edits, truncations of {len(VALID)} paths", edits, check,
              block=64),
        Space("large paths", "lengths of names, URIs, texts and filters next to boundaries", large, check, block=16),
        Space("string values", f"all words of <= {3 if thorough else 2} of {len(atoms)} fragments, both "
              f"quotes, {len(templates)} paths", strings, run_string, block=8),
        Space("equality", f"all pairs of {len(eqs)} paths",
              lambda: itertools.product(eqs, repeat=2), run_eq, block=8),
    ]
