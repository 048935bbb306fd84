"""C01: a grammatical filter is accepted and parsed to exactly the tree its grammar denotes."""
import itertools

from mc import ref_filter as rf
from mc.engine import Space, Violation, short
from mc.filter_gen import STYLES, Style, exprs, render
from mc.sizes import sizes
from src.filter import Filter

PROPERTY = {
    "title": "Every grammatical filter is accepted and parsed to the tree it denotes",
    "statement": (
        "Every filter text that follows the SCIM filter grammar - attribute comparisons with any "
        "operator in any letter case, qualified and sub-attribute names, 'and', 'or', 'not', groups "
        "in parentheses and value filters in brackets, nested and repeated without limit, with any "
        "amount of white space - is accepted without issues. The parsed filter is exactly the tree "
        "the grammar denotes: 'not' binds tighter than 'and', 'and' tighter than 'or', parentheses "
        "override both, a value filter applies to its own attribute, and operands keep their order. "
        "No operand is lost, duplicated or exchanged with another one, however many there are."
    ),
    "quantifier": {
        "over": ["inputs"],
        "text": "all filters derivable from the grammar within bounds on leaves, nesting depth and "
                "operand count, in all white-space styles and operator letter cases",
    },
    "why_tests_cant": (
        "Filters are an infinite language and the parser works by textual substitution, so a mistake "
        "needs a particular combination of nesting, operand count and position; the tests sample a "
        "few dozen filters."
    ),
    "anchors": {
        "files": ["src/filter.py", "src/data/operator.py"],
        "mechanism": [{"name": "Filter.parse and its sub-expression placeholders",
                       "where": "src/filter.py"}],
        "observe_at": ["Filter.parse", "Filter.to_dict"],
    },
}

U = "urn:ietf:params:scim:schemas:core:2.0:User"
X = "urn:ietf:params:scim:schemas:extension:my-ext.x:2.0:User"


def leaf(attr, op, value=None, rendered=None, sub=""):
    """-> (text, tree)"""
    name = f"{attr}.{sub}" if sub else attr
    if op.lower() == "pr":
        text, tree = f"{name} {op}", {"op": "pr", "attr_rep": sub or attr}
    else:
        text = f"{name} {op} {rendered}"
        tree = {"op": op.lower(), "attr_rep": sub or attr, "value": value}
    if sub:
        tree = {"op": "complex", "attr_rep": attr, "sub_op": tree}
    return text, tree


ATTRS = [
    ("userName", ""), ("name", "familyName"), (f"{U}:userName", ""), (f"{U}:name", "givenName"),
    (f"{X}:order", ""), (f"{X}:members", "$ref"), ("notes", ""), ("candor", "band"), ("and1", ""),
    ("or_", ""), ("x509", "value"), ("a", ""), ("Not1", ""), ("pr", ""), ("eq", "sw"), ("é", ""),
    ("meta", "lastModified"), ("A:b", ""), ("a.b:c", "d"),
]
VALUES = [
    ("work", '"work"'), ("", '""'), ("a b", "'a b'"), ("x and y", '"x and y"'), (1, "1"),
    (-2, "-2"), (2.5, "2.5"), (True, "true"), (False, "false"), (None, "null"),
    ("2011-05-13T04:42:34Z", '"2011-05-13T04:42:34Z"'), ("(", '"("'), ("]", "']'"),
]
OPS = ["eq", "ne", "co", "sw", "ew", "gt", "ge", "lt", "le", "pr"]


def allowed(op, value):
    if op in rf.TEXT_ONLY:
        return isinstance(value, str)
    if op in rf.ORDERED:
        return value is not None and not isinstance(value, bool)
    return True


def cases_of(op):
    """every letter case of a two-letter operator"""
    return ["".join(x) for x in itertools.product(*((c, c.upper()) for c in op))]


def all_leaves():
    out = []
    for attr, sub in ATTRS:
        for op in OPS:
            if op == "pr":
                out.append(leaf(attr, op, sub=sub))
                continue
            for value, rendered in VALUES:
                if allowed(op, value):
                    out.append(leaf(attr, op, value, rendered, sub))
    return out


LEAVES = [
    leaf("a", "eq", 1, "1"), leaf("b", "pr"), leaf("name", "co", "x", '"x"', "familyName"),
    leaf("d", "ne", "or", '"or"'), leaf(f"{U}:userName", "SW", "j", "'j'"), leaf("f", "gt", 2.5, "2.5"),
    leaf("g", "eq", None, "null"), leaf("h", "le", "z)", '"z)"'), leaf("emails", "pr", sub="type"),
    leaf("order", "Eq", True, "true"), leaf("k", "ew", " ", '" "'), leaf("a", "eq", 1, "1"),
    leaf("m", "ge", -3, "-3"), leaf("notes", "lt", 7, "7"), leaf(f"{X}:o", "ne", False, "false"),
]
COMPLEX = ["emails", f"{U}:ims", "c_mv", "emails", f"{X}:xc"]


def check(text, tree, ctx):
    ctx.step()
    parsed, issues = Filter.parse(text)
    if issues.has_issues():
        raise Violation(f"rejected {text!r}: {issues.to_dict(msg=True)}")
    got = parsed.to_dict()
    if not rf.same(got, tree):
        raise Violation(f"{text!r} parsed to {short(got)}, want {short(tree)}")
    ctx.state(text)


def spaces(tier):
    thorough = tier == "thorough"
    shapes = [(1, 3), (2, 2), (3, 1), (4, 0)]
    if thorough:
        shapes += [(3, 2), (4, 1), (5, 0)]

    def structures():
        for k, depth in shapes:
            for n, node in enumerate(exprs(k, depth, False)):
                yield k, n, node

    def run_structure(case, ctx):
        k, n, node = case
        # leaf flavours and whitespace rotate so that every position meets every flavour
        style = STYLES[n % len(STYLES)]
        text, tree = render(
            node,
            lambda i: LEAVES[(i + n) % len(LEAVES)],
            lambda i: COMPLEX[(i + n) % len(COMPLEX)],
            style,
        )
        ref = rf.parse(text)
        assert ref is not None and rf.same(ref, tree), (text, ref, tree)  # the two models agree
        check(style.outer + text + style.outer, tree, ctx)
        ctx.outcome(f"{k} leaves")

    small = [(1, 2), (2, 1)] + ([(2, 2)] if thorough else [])

    def styled():
        for k, depth in small:
            for node in exprs(k, depth, False):
                for s in range(len(STYLES)):
                    for r in range(0, len(LEAVES), 1 if thorough else 4):
                        yield node, s, r

    def run_styled(case, ctx):
        node, s, r = case
        style = STYLES[s]
        text, tree = render(
            node, lambda i: LEAVES[(i + r) % len(LEAVES)], lambda i: COMPLEX[(i + r) % 5], style
        )
        check(style.outer + text + style.outer, tree, ctx)

    leaves = all_leaves()

    def single_leaves():
        for i in range(len(leaves)):
            yield i

    def run_single(i, ctx):
        text, tree = leaves[i]
        for wrapped in (text, f"({text})", f" {text} ", f"(({text}))", text.replace(" ", "  ", 1)):
            check(wrapped, tree, ctx)
        check(f"not {text}", {"op": "not", "sub_op": tree}, ctx)
        check(f"not ({text})", {"op": "not", "sub_op": tree}, ctx)
        check(f"NotX pr and {text}", {"op": "and", "sub_ops": [
            {"op": "pr", "attr_rep": "NotX"}, tree]}, ctx)
        if tree["op"] != "complex":
            check(f"emails[{text}]", {"op": "complex", "attr_rep": "emails", "sub_op": tree}, ctx)

    def op_cases():
        for op in OPS:
            for spelled in cases_of(op):
                yield op, spelled

    def run_op_case(case, ctx):
        op, spelled = case
        for attr, sub in ATTRS:
            text, tree = leaf(attr, op, "v", '"v"', sub)
            parts = text.split(" ")
            parts[1] = spelled
            text = " ".join(parts)
            for sep in (" ", "\t", "\n", "  ", "\r\n", " \t "):
                check(text.replace(" ", sep), tree, ctx)

    pair_leaves = [leaves[i] for i in range(0, len(leaves), 7 if thorough else 23)]

    def pairs():
        return itertools.product(range(len(pair_leaves)), repeat=2)

    def run_pair(case, ctx):
        (t1, d1), (t2, d2) = (pair_leaves[i] for i in case)
        for op in ("and", "or"):
            tree = {"op": op, "sub_ops": [d1, d2]}
            check(f"{t1} {op} {t2}", tree, ctx)
        check(f"({t1}) and not ({t2})",
              {"op": "and", "sub_ops": [d1, {"op": "not", "sub_op": d2}]}, ctx)
        if d1["op"] != "complex" and d2["op"] != "complex":
            check(f"emails[{t1} or {t2}]",
                  {"op": "complex", "attr_rep": "emails",
                   "sub_op": {"op": "or", "sub_ops": [d1, d2]}}, ctx)
            check(f"ims[{t1}] and emails[{t2}]",
                  {"op": "and", "sub_ops": [
                      {"op": "complex", "attr_rep": "ims", "sub_op": d1},
                      {"op": "complex", "attr_rep": "emails", "sub_op": d2}]}, ctx)

    width = 11 if thorough else 9

    def chains():
        """every and/or word of length < width, optionally negated operands"""
        for n in range(2, width + 1):
            for ops in itertools.product(("and", "or"), repeat=n - 1):
                for mask in (0, (1 << n) - 1, 0b10101010101 & ((1 << n) - 1)):
                    yield ops, mask

    def chain_text(ops, mask, wrap):
        n = len(ops) + 1
        texts, trees = [], []
        for i in range(n):
            text, tree = LEAVES[i % len(LEAVES)]
            if wrap == 1 and i % 2:
                text = f"({text})"
            if wrap == 2 and i % 3 == 0 and tree["op"] != "complex":
                text, tree = f"emails[{text}]", {
                    "op": "complex", "attr_rep": "emails", "sub_op": tree}
            if mask >> i & 1:
                text, tree = f"not {text}", {"op": "not", "sub_op": tree}
            texts.append(text)
            trees.append(tree)
        text = texts[0]
        groups = [[trees[0]]]
        for op, t, d in zip(ops, texts[1:], trees[1:]):
            text += f" {op} {t}"
            if op == "and":
                groups[-1].append(d)
            else:
                groups.append([d])
        ands = [g[0] if len(g) == 1 else {"op": "and", "sub_ops": g} for g in groups]
        return text, ands[0] if len(ands) == 1 else {"op": "or", "sub_ops": ands}

    def run_chain(case, ctx):
        ops, mask = case
        for wrap in (0, 1, 2):
            text, tree = chain_text(ops, mask, wrap)
            check(text, tree, ctx)

    depth_max = 40 if thorough else 24

    def depths():
        for depth in range(1, depth_max):
            for kind in range(6):
                yield depth, kind

    def run_depth(case, ctx):
        depth, kind = case
        text, tree = LEAVES[0]
        for i in range(depth):
            t2, d2 = LEAVES[(i + 1) % len(LEAVES)]
            if kind == 0:
                text = f"({text})"
            elif kind == 1:
                text, tree = f"not ({text})", {"op": "not", "sub_op": tree}
            elif kind == 2:
                op = ("and", "or")[i % 2]
                text, tree = f"({text} {op} {t2})", {"op": op, "sub_ops": [tree, d2]}
            elif kind == 3:
                op = ("or", "and")[i % 2]
                text, tree = f"{t2} {op} ({text})", {"op": op, "sub_ops": [d2, tree]}
            elif kind == 4:
                text, tree = f"({text} and {t2})", {"op": "and", "sub_ops": [tree, d2]}
            else:
                text, tree = (f"({t2} or not ( {text} ))",
                              {"op": "or", "sub_ops": [d2, {"op": "not", "sub_op": tree}]})
        check(text, tree, ctx)
        if "[" not in text and "." not in text:
            pass

    def widths():
        for n in range(2, 130 if thorough else 70):
            for op in ("and", "or"):
                yield n, op
        for n in sizes(1100, 70):
            yield n, ("and", "or")[n % 2]

    def run_width(case, ctx):
        n, op = case
        parts = [leaf(f"a{i}", "eq", f"v{i}", f'"v{i}"') for i in range(n)]
        check(f" {op} ".join(t for t, _ in parts),
              {"op": op, "sub_ops": [d for _, d in parts]}, ctx)
        groups = [(f"(a{i} eq {i} or b{i} pr)", {"op": "or", "sub_ops": [
            {"op": "eq", "attr_rep": f"a{i}", "value": i}, {"op": "pr", "attr_rep": f"b{i}"}]})
            for i in range(n)]
        check(f" {op} ".join(t for t, _ in groups),
              {"op": op, "sub_ops": [d for _, d in groups]}, ctx)
        brackets = [(f"c{i % 3}[a{i} eq \"{i}\"]", {
            "op": "complex", "attr_rep": f"c{i % 3}",
            "sub_op": {"op": "eq", "attr_rep": f"a{i}", "value": str(i)}}) for i in range(n)]
        check(f" {op} ".join(t for t, _ in brackets),
              {"op": op, "sub_ops": [d for _, d in brackets]}, ctx)

    blanks = [" ", "  ", "\t", "\n", "\r", "\r\n", "\n\n", " \n ", "\x0b", "\x0c"]
    # "_" is white space that must be there, "~" is white space that may be left out
    templates = [
        'a_eq_1', 'a_pr', '~a_eq_"x"~', 'a_eq_1_and_b_pr', 'a_eq_1_or_b_pr', 'not_a_eq_1', 'not~(~a_eq_1~)',
        'not_(~a_eq_1_and_b_pr~)', 'not_(~a_eq_1_or_not_(~b_pr~)~)', 'a_pr_and_not_b_eq_2', '(~a_pr~)~',
        '~(~a_eq_1~)_and_(~b_pr_or_d_ne_"y"~)', 'emails[~type_eq_"w"~]', 'emails[~type_eq_"w"_and_value_pr~]',
        'emails[~not_(~type_eq_"w"_or_value_pr~)~]_or_b_pr', 'not_(~emails[~a_pr~]~)_and_b_pr',
        'a_pr_and_b_pr_or_not_d_pr_and_e_pr', '((~a_pr_or_b_pr~)_and_d_pr~)', 'not_emails[~a_pr_and_b_pr~]',
    ]

    def fill(template, chosen, default):
        out, k = [], 0
        for c in template:
            if c in "_~":
                out.append(chosen.get(k, default if c == "_" else ""))
                k += 1
            else:
                out.append(c)
        return "".join(out)

    def gaps():
        for template in templates:
            n = sum(c in "_~" for c in template)
            for blank in blanks:
                yield template, dict.fromkeys(range(n), blank)
                for i in range(n):
                    yield template, {i: blank}
                    for j in range(i):
                        for other in blanks if thorough else (blank,):
                            yield template, {i: blank, j: other}

    def run_gap(case, ctx):
        template, chosen = case
        tree = rf.parse(fill(template, {}, " "))
        assert tree is not None, template
        check(fill(template, chosen, " "), tree, ctx)
        ctx.outcome(template)

    return [
        Space("gaps", f"{len(templates)} filters x every gap (and pair of gaps) x {len(blanks)} kinds of "
              "white space", gaps, run_gap, block=32),
        Space("single comparisons", f"{len(leaves)} leaves x 9 placements", single_leaves, run_single),
        Space("operator letter case and whitespace", "every case of every operator", op_cases,
              run_op_case),
        Space("structures", f"all derivations for (leaves, group depth) in {shapes}", structures,
              run_structure, block=64),
        Space("structures x whitespace x leaf flavours", f"{small}", styled, run_styled, block=64),
        Space("pairs of leaves", f"{len(pair_leaves)}^2 pairs x 5 contexts", pairs, run_pair,
              block=16),
        Space("and/or chains", f"all and/or words up to {width} operands", chains, run_chain,
              block=16),
        Space("nesting depth", f"6 nesting kinds to depth {depth_max}", depths, run_depth),
        Space("operand count", "n-ary and/or, groups and brackets, 2..70 and around boundaries up to 1025", widths,
              run_width),
    ]
