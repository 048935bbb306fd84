"""C04: a filter matches a resource exactly when its tree evaluates to true over the resource."""
import itertools

from mc import fixtures as fx
from mc import ref_eval as re_
from mc import ref_filter as rf
from mc.engine import Space, Violation, short
from mc.filter_gen import Style, exprs, render
from mc.sizes import places, sizes
from src.data import type as at
from src.data.attributes import Attribute, ComplexAttribute
from src.data.container import SCIMDataContainer
from src.data.operator import MatchStatus
from src.data.schemas import ResourceSchema, SchemaExtension
from src.filter import Filter

PROPERTY = {
    "title": "A filter matches a resource exactly when it is true of it",
    "statement": (
        "For every filter and resource, the filter matches exactly when its logical expression is "
        "true of the resource's values: each comparison follows the attribute's type (text by letter "
        "case rules, numbers, dates as instants, ordering, presence), a multi-valued attribute "
        "matches if any of its values does, and a value filter needs one and the same item to "
        "satisfy the whole bracketed expression. 'and', 'or' and 'not' combine the outcomes as in "
        "logic, in strict mode and in lenient mode (where attributes missing from the data do not "
        "decide a match). Evaluation never raises and never changes the resource."
    ),
    "quantifier": {
        "over": ["inputs"],
        "text": "every attribute type x operator x literal x stored value (absent, null, empty, wrong "
                "type included); all logical structures up to a bound x all leaf outcomes; all item "
                "lists up to a length",
    },
    "why_tests_cant": (
        "The tests check selected attribute/operator/value triples; the truth table over types, "
        "missing values, strictness and nesting is far larger and its corner entries decide which "
        "resources a query returns."
    ),
    "anchors": {
        "files": ["src/data/operator.py", "src/filter.py"],
        "mechanism": [{"name": "operators' match() and Filter.__call__", "where": "src/data/operator.py"}],
        "observe_at": ["Filter.__call__", "MatchResult"],
    },
}

URN, EXT = "urn:t:core:2.0:F", "urn:t:ext:2.0:F"
TYPES = {
    "string": at.String, "integer": at.Integer, "decimal": at.Decimal, "boolean": at.Boolean,
    "dateTime": at.DateTime, "binary": at.Binary, "reference": at.ExternalReference,
}


def a(type_, multi=False, cs=False, subs=None):
    return dict(type=type_, multi=multi, cs=cs, subs=subs)


CORE = {
    "int": a("integer"), "str": a("string"), "strCs": a("string", cs=True),
    "strMv": a("string", multi=True), "csMv": a("string", multi=True, cs=True),
    "intMv": a("integer", multi=True), "flag": a("boolean"), "when": a("dateTime"),
    "whenMv": a("dateTime", multi=True), "dec": a("decimal"), "bin": a("binary"),
    "ref": a("reference"),
    "c": a("complex", subs={"str": a("string"), "int": a("integer"), "flag": a("boolean"),
                            "strMv": a("string", multi=True)}),
    "mv": a("complex", multi=True, subs={
        "type": a("string", cs=True), "primary": a("boolean"), "value": a("string"),
        "num": a("integer"), "when": a("dateTime"), "$ref": a("reference")}),
    "numMv": a("complex", multi=True, subs={
        "type": a("string"), "b": a("string"), "c": a("string"), "value": a("integer")}),
    "csVal": a("complex", multi=True, subs={"value": a("string", cs=True)}),
    "noval": a("complex", multi=True, subs={"type": a("string")}),
}
XATTRS = {
    "xstr": a("string"), "int": a("integer"), "xc": a("complex", subs={"value": a("string")}),
    "xmv": a("complex", multi=True, subs={"value": a("string"), "type": a("string")}),
}
MODEL = re_.Model(URN, CORE, {EXT: XATTRS})


def build(attrs):
    out = []
    for name, d in attrs.items():
        if d["type"] == "complex":
            out.append(ComplexAttribute(
                sub_attributes=build(d["subs"]), name=name, multi_valued=d["multi"]))
        else:
            out.append(Attribute(name=name, type_=TYPES[d["type"]], case_exact=d["cs"],
                                 multi_valued=d["multi"]))
    return out


class F(ResourceSchema):
    def __init__(self):
        super().__init__(schema=URN, attrs=build(CORE), name="F", plural_name="Fs")
        self.with_extension(SchemaExtension(schema=EXT, attrs=build(XATTRS), name="x"))


SCHEMA = F()

D1, D2 = "2011-05-13T04:42:34+00:00", "2011-05-13T06:42:34+02:00"  # the same instant
VALUES = {
    "string": ["", "a", "A", "ab", "Abc", "bca", "b", "É", "é", "1", "true", "a b", "zz"],
    "integer": [0, 1, -1, 2, 10**18, 2**53, 2**53 + 1, 2**64],
    "decimal": [0.0, 1.0, 1.5, -2.5, 1e10, 0.1 + 0.2, float(2**53)],
    "boolean": [True, False],
    "dateTime": [D1, D2, "2011-05-13T04:42:35+00:00", "2012-01-01T00:00:00", "x", "2011-05-13T04:42:34.000001Z",
                 fx.dt(D1), fx.dt("2010-01-01T00:00:00+00:00")],
    "binary": ["AQID", "aqid", ""],
    "reference": ["https://a.com/X", "https://a.com/x", "../Users/1"],
}
TEXT_LITS = ["", "a", "A", "b", "bc", "abc", "ABC", "É", "é", "1", " ", "true"]
NUM_LITS = [0, 1, -1, 1.5, 2, 10**18, -2.5, 0.3, 2**53, 2**53 + 1, 2**64 + 1]
LITS = {
    "string": TEXT_LITS + [1, True, None],
    "integer": NUM_LITS + ["1", "a", None],
    "decimal": NUM_LITS + ["1.5", None],
    "boolean": [True, False, "true", None],
    "dateTime": [D1, D2, "2011-05-13T04:42:34Z", "2011-05-13T04:42:33Z", "2012-01-01T00:00:00",
                 "2011-05-13T04:42:34.000001+00:00", "2011-05-13T06:42:34.000002+02:00",
                 "2012-01-01", "x", 1, None],
    "binary": ["AQID", "aqid", "A", None],
    "reference": ["https://a.com/X", "https://A.com/x", "a.com", "https", "x", "X", None, 1],
}
OPS = ["eq", "ne", "co", "sw", "ew", "gt", "ge", "lt", "le", "pr"]


def render_lit(v):
    if v is None:
        return "null"
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, str):
        return f'"{v}"'
    return repr(v)


def allowed(op, v):
    if op in rf.TEXT_ONLY:
        return isinstance(v, str)
    if op in rf.ORDERED:
        return v is not None and not isinstance(v, bool)
    return True


def in_scope(op, type_, lit):
    """'ne' between different kinds of values and number/boolean equality are left open."""
    if op in ("eq", "ne"):
        if type_ in ("integer", "decimal"):
            return not isinstance(lit, bool) and not (op == "ne" and isinstance(lit, str))
        if type_ == "boolean":
            return isinstance(lit, bool) or lit is None or op == "eq"
        if type_ == "dateTime":
            return isinstance(lit, str) or (lit is None and op == "eq")
        if not isinstance(lit, str) and lit is not None:
            return op == "eq"
    return True


def check(text, resource, strict, ctx, schema=SCHEMA, model=MODEL):
    tree = rf.parse(text)
    assert tree is not None, text
    want = re_.evaluate(tree, model, resource, strict)
    parsed, issues = Filter.parse(text)
    if issues.has_issues():
        raise Violation(f"rejected {text!r}")
    ctx.step()
    if strict and len(text) % 2:  # strict is what a caller gets who does not choose
        result = parsed(SCIMDataContainer(resource), schema)
    else:
        result = parsed(SCIMDataContainer(resource), schema, strict)
    got = result.status == MatchStatus.PASSED
    if got != (want == "T"):
        raise Violation(
            f"{text!r} over {short(resource)} ({'strict' if strict else 'lenient'}): "
            f"{'match' if got else 'no match'}, want {'match' if want == 'T' else 'no match'}")
    if not strict and bool(result) != got:
        raise Violation(f"{text!r}: truth value of the result differs from its status")
    ctx.state((text, repr(resource), strict))
    ctx.outcome(want)


def targets():
    """-> (filter attribute, type, wrap(value) -> resource)"""
    for prefix, suffix in (("", ""), (f"{URN}:", "")):
        for name, d in CORE.items():
            if d["type"] == "complex":
                continue
            if d["multi"]:
                yield prefix + name, d, lambda v, n=name: {n: [v]}
                yield prefix + name, d, lambda v, n=name, t=d["type"]: {
                    n: [VALUES[t][-1], v]}
            else:
                yield prefix + name, d, lambda v, n=name: {n: v}
        for name, d in CORE["c"]["subs"].items():
            yield f"{prefix}c.{name}", d, lambda v, n=name, m=d["multi"]: {
                "c": {n: [v] if m else v}}
        for name, d in CORE["mv"]["subs"].items():
            yield f"{prefix}mv.{name}", d, lambda v, n=name: {"mv": [{n: v}]}
            yield f"{prefix}mv.{name}", d, lambda v, n=name: {"mv": [{}, {n: v}]}
        for name in ("mv", "numMv", "csVal"):
            d = CORE[name]["subs"]["value"]
            yield prefix + name, d, lambda v, n=name: {n: [{"value": v}]}
            yield prefix + name, d, lambda v, n=name: {n: [{"type": "a"}, {"value": v}]}
    yield f"{EXT}:xstr", XATTRS["xstr"], lambda v: {EXT: {"xstr": v}, "xstr": "other"}
    yield f"{EXT}:int", XATTRS["int"], lambda v: {"int": 77, EXT: {"int": v}}
    yield "int", CORE["int"], lambda v: {"int": v, EXT: {"int": 77}}
    yield f"{EXT}:xc.value", XATTRS["xc"]["subs"]["value"], lambda v: {EXT: {"xc": {"value": v}}}
    yield f"{EXT}:xmv", XATTRS["xmv"]["subs"]["value"], lambda v: {EXT: {"xmv": [{"value": v}]}}
    yield (f"{EXT}:xmv.type", XATTRS["xmv"]["subs"]["type"],
           lambda v: {EXT: {"xmv": [{"type": v}, {"type": "q"}]}})
    yield "STR", CORE["str"], lambda v: {"str": v}
    yield "str", CORE["str"], lambda v: {"STR": v}
    yield f"{URN.upper()}:Str", CORE["str"], lambda v: {"sTr": v}
    yield "Mv.Value", CORE["mv"]["subs"]["value"], lambda v: {"MV": [{"VALUE": v}]}
    yield f"{EXT.upper()}:XSTR", XATTRS["xstr"], lambda v: {EXT: {"xstr": v}}


def spaces(tier):
    thorough = tier == "thorough"
    ts = list(targets())

    def leaf_cases():
        for i, (name, d, _) in enumerate(ts):
            for op in OPS:
                lits = [None] if op == "pr" else LITS[d["type"]]
                for lit in lits:
                    if op != "pr" and not (allowed(op, lit) and in_scope(op, d["type"], lit)):
                        continue
                    yield i, op, lit

    def run_leaf(case, ctx):
        i, op, lit = case
        name, d, wrap = ts[i]
        text = f"{name} pr" if op == "pr" else f"{name} {op} {render_lit(lit)}"
        bare = not thorough and name.startswith(URN)  # the wrapped forms: unqualified names only
        for v in [None] + VALUES[d["type"]]:
            resource = wrap(v)
            for strict in (True,) if bare else (True, False):
                check(text, resource, strict, ctx)
                if bare:
                    continue
                check(f"not ({text})", resource, strict, ctx)
                if thorough:
                    check(f"({text}) and flag eq true", dict(resource, flag=True), strict, ctx)
        others = [{}, {"unrelated": 1}]
        if name.lower().startswith(EXT.lower()):  # equally named core attributes only
            others += [{"int": v, "xstr": v} for v in VALUES[d["type"]] if d["type"] in (
                "integer", "string")]
        for resource in others:
            for strict in (True, False):
                check(text, resource, strict, ctx)
                check(f"not ({text})", resource, strict, ctx)

    # leaves of every possible outcome
    LV = [
        ("int eq 1", "T"), ("int eq 2", "F"), ("str eq \"x\"", "M"), ("nosuch eq 1", "N"),
        ("int pr", "T"), ("str pr", "F"), ("nosuch pr", "N"), ("c.int eq 1", "F"),
    ]
    LVC = [
        ('value eq "a"', "T"), ('value eq "z"', "F"), ("num eq 1", "M"), ("nosuch eq 1", "N"),
        ("value pr", "T"), ("num pr", "F"),
    ]
    RES = {"int": 1, "mv": [{"value": "a"}], "c": {"str": "a"}}
    shapes = [(1, 1), (2, 1), (3, 0)] + ([(3, 1)] if thorough else [])

    def bool_cases():
        for k, depth in shapes:
            for node in exprs(k, depth, False):
                pool = range((4 if thorough else 3) if k >= 3 else 6 if k == 2 else 8)
                for combo in itertools.product(pool, repeat=k):
                    yield node, combo

    def outcome_leaf(combo, complex_leaf):
        pool = LVC if complex_leaf else LV
        return lambda i: (pool[combo[i] % len(pool)][0], None)

    def render_bool(node, combo):
        counter = [0]

        def go(node, inner):
            kind = node[0]
            if kind == "leaf":
                pool = LVC if inner else LV
                text = pool[combo[counter[0]] % len(pool)][0]
                counter[0] += 1
                return text
            if kind == "not":
                return "not " + go(node[1], inner)
            if kind == "group":
                return "(" + go(node[1], inner) + ")"
            if kind == "complex":
                return "mv[" + go(node[1], True) + "]"
            return f" {kind} ".join(go(sub, inner) for sub in node[1])

        return go(node, False)

    def run_bool(case, ctx):
        node, combo = case
        text = render_bool(node, combo)
        for strict in (True, False):
            check(text, RES, strict, ctx)

    # items of multi-valued complex attributes
    ITEMS = [
        {}, {"value": "a"}, {"value": "b", "type": "w"}, {"value": "a", "type": "h"},
        {"type": "w", "primary": True}, {"value": None, "num": 1}, {"value": "", "type": "w"},
    ]
    SUBS = [
        'value eq "a"', 'value ne "a"', 'type eq "w"', "num eq 1", "value pr", "primary eq true",
        'value co "a" and type eq "w"', 'value eq "a" or type eq "w"', 'not (value eq "a")',
        'not (type eq "w" and value eq "b")', 'type pr and not (value pr)', "nosuch eq 1",
        'value eq "a" and (type eq "h" or primary eq true)', 'not value pr', "num gt 0 or num lt 0",
        'type eq "W"', 'VALUE eq "A"', "$ref pr", 'when ge "2011-05-13T04:42:34Z"',
    ]
    nmax = 3 if thorough else 2

    def item_cases():
        lists = [None, "absent"]
        for n in range(0, nmax + 1):
            lists += [list(x) for x in itertools.product(ITEMS, repeat=n)]
        for items in lists:
            yield items
        for n in (3, 4, 7, 12):  # the matching item at every position of longer lists
            for pos in range(n):
                yield [ITEMS[3] if i == pos else ITEMS[4] for i in range(n)]
                yield [ITEMS[0] if i == pos else ITEMS[2] for i in range(n)]

    def run_items(items, ctx):
        resource = {} if items == "absent" else {"mv": items}
        for sub in SUBS:
            for text in (f"mv[{sub}]", f"not (mv[{sub}])", f"{URN}:mv[{sub}] and int eq 1",
                         f"mv[{sub}] or int eq 2"):
                for strict in (True, False):
                    check(text, dict(resource, int=1), strict, ctx)
        xres = {} if items == "absent" else {EXT: {"xmv": [
            {k: v for k, v in i.items() if k in ("value", "type")} for i in items]
            if items is not None else None}}
        for sub in SUBS[:3]:
            for strict in (True, False):
                check(f"{EXT}:xmv[{sub}]", xres, strict, ctx)
        for text in ('mv eq "a"', "mv pr", 'mv co "b"', 'mv.value eq "a"', 'mv.type eq "w"',
                     "not (mv pr)", 'not (mv.type eq "w")', 'noval eq "a"', "c[str pr]",
                     'int[value eq 1]', 'nosuch[value eq 1]', "mv.num gt 0"):
            for strict in (True, False):
                check(text, resource, strict, ctx)

    CVALS = ["absent", None, {}, {"str": "a"}, {"str": "", "int": 0}, {"int": 1, "flag": False},
             {"strMv": ["a", "b"]}, {"strMv": []}, {"str": None, "int": 2}]
    CSUBS = ['str eq "A"', "int eq 0", "int ge 0", "str pr", "int pr", "flag eq false",
             'strMv eq "b"', 'str eq "a" and int eq 1', 'str eq "a" or int eq 1',
             'not (str eq "a")', "not (int eq 1 or str pr)", "nosuch pr", "flag pr", "strMv pr"]

    def run_single_complex(value, ctx):
        resource = {} if value == "absent" else {"c": value}
        for sub in CSUBS:
            for text in (f"c[{sub}]", f"not (c[{sub}])", f"c[{sub}] and not (c[nosuch eq 1])"):
                for strict in (True, False):
                    check(text, resource, strict, ctx)
            if " " in sub and "(" not in sub and " or " not in sub and " and " not in sub:
                for strict in (True, False):
                    check(f"c.{sub}", resource, strict, ctx)
                    check(f"{URN}:c.{sub}", resource, strict, ctx)

    # multi-valued simple attributes
    def mv_cases():
        for n in range(0, 4 if thorough else 3):
            for combo in itertools.product(["a", "B", "", "bc"], repeat=n):
                yield list(combo)
        for n in (5, 9, 33):
            for pos in range(n):
                yield ["x" if i != pos else "B" for i in range(n)]

    def run_mv(values, ctx):
        for name in ("strMv", "csMv"):
            for op in OPS:
                for lit in ("a", "b", "B", ""):
                    text = f"{name} pr" if op == "pr" else f'{name} {op} "{lit}"'
                    for strict in (True, False):
                        check(text, {name: values}, strict, ctx)
                        check(f"not ({text})", {name: values}, strict, ctx)

    # sizes
    def size_cases():
        for n in sizes(1100):
            for pos in places(n):
                yield n, pos

    def run_size(case, ctx):
        n, pos = case
        items = [{"value": "b", "type": "w"}] * n
        resource = {"mv": items[:pos] + [{"value": "a", "type": "h", "num": 1}] + items[pos + 1:],
                    "strMv": ["b"] * pos + ["a"] + ["b"] * (n - pos - 1), "intMv": [2] * pos + [1] + [2] * (n - pos - 1),
                    "str": "b" * pos + "a" + "b" * (n - pos - 1),
                    EXT: {"xmv": items[:pos] + [{"value": "a"}] + items[pos + 1:]}}
        for text in ('mv[value eq "a" and type eq "h"]', 'mv.value eq "a"', 'mv eq "a"', 'mv[num eq 1 or value eq "q"]',
                     'not (mv[type eq "q" or num pr])', "mv.num pr", 'strMv eq "a"', "intMv lt 2",
                     f'{EXT}:xmv[value co "A"]', 'str co "a"', 'str co "A" and not (str co "ac")', 'str sw "a"',
                     'str ew "a"', 'str eq "%s"' % resource["str"].upper(), 'str gt "%s"' % ("b" * pos + "A"),
                     'str lt "%s"' % ("b" * (pos + 1))):
            check(text, resource, True, ctx)
        ctx.outcome("size")

    # the built-in User schema
    user = fx.User()

    def sub_model(attrs):
        out = {}
        for attr in attrs:
            d = a(attr.type.SCIM_NAME, attr.multi_valued, attr.case_exact)
            if d["type"] == "complex":
                d["subs"] = sub_model(attr.attrs)
            out[attr.rep.attr] = d
        return out

    user_model = re_.Model(
        fx.USER, sub_model(x for x in user.attrs.top_level if not x.rep.extension),
        {fx.ENT: sub_model(x for x in user.attrs.top_level if x.rep.extension)})
    USER_FILTERS = [
        'userName eq "BJensen@example.com"', 'userName sw "bj"', 'name.familyName co "JEN"',
        'emails[type eq "work" and value co "@example.com"]', 'emails.value ew ".org"',
        "emails pr", "title pr", 'title pr and userType eq "Employee"',
        'title pr or userType eq "Intern"', 'userType ne "Employee" and not (emails co "jensen.org")',
        'meta.lastModified gt "2011-05-13T04:42:33Z"', 'meta.created lt "2010-01-23T04:56:22Z"',
        'urn:ietf:params:scim:schemas:core:2.0:User:userName sw "b"', "active eq true",
        "active eq false", 'not (active eq true)', f'{fx.ENT}:costCenter eq "4130"',
        f'{fx.ENT}:manager.displayName eq "john smith"', f"{fx.ENT}:manager[value pr]",
        'groups[display eq "tour guides"]', 'members eq "x"', 'externalId eq "1"', 'id pr',
        'profileUrl co "login"', 'x509Certificates.value eq "AQIDBA=="', 'roles[primary eq true]',
        'addresses[country eq "usa" and not (type eq "home")]', 'addresses.formatted pr',
        'password pr', 'nickName gt "a"', 'emails[primary eq true].x', 'schemas eq "x"',
    ]

    def user_cases():
        base = fx.user_response()
        keys = [k for k in base]
        yield base
        for k in keys:
            yield {x: v for x, v in base.items() if x != k}
        for k in keys:
            yield dict(base, **{k: None})
        yield {}
        for k in ("emails", "addresses", "groups", "roles"):
            yield dict(base, **{k: []})
            yield dict(base, **{k: list(reversed(base[k]))})

    def run_user(resource, ctx):
        for text in USER_FILTERS:
            if rf.parse(text) is None:
                continue
            for strict in (True, False):
                check(text, resource, strict, ctx, user, user_model)

    return [
        Space("comparisons", "attribute x operator x literal x stored value x strict/lenient",
              leaf_cases, run_leaf),
        Space("logical structure", f"all structures {shapes} x leaf outcomes", bool_cases, run_bool,
              block=32),
        Space("items of multi-valued complex attributes", f"all lists of <= {nmax} of 7 items",
              item_cases, run_items),
        Space("single-valued complex attributes", "9 values x 14 expressions",
              lambda: iter(CVALS), run_single_complex),
        Space("multi-valued attributes", "all lists", mv_cases, run_mv),
        Space("sizes", "a deviating item (character) at every place of lists (texts) of every boundary size up to 1025",
              size_cases, run_size),
        Space("built-in User", "every attribute absent / null in turn", user_cases, run_user),
    ]
