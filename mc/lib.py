"""Bridges between the reference model and the library; only public names are used."""
from mc import ref_schema as rs
from mc.engine import Violation, short
from src.data import type as at
from src.data.attributes import (
    Attribute,
    AttributeIssuer,
    AttributeMutability,
    AttributeReturn,
    AttributeUniqueness,
    ComplexAttribute,
)
from src.data.container import Invalid, Missing, SCIMDataContainer
from src.data.schemas import ResourceSchema, SchemaExtension

TYPES = {
    "string": at.String, "integer": at.Integer, "decimal": at.Decimal, "boolean": at.Boolean,
    "dateTime": at.DateTime, "binary": at.Binary, "external": at.ExternalReference,
    "uri": at.URIReference, "scim": at.SCIMReference, "unknown": at.Unknown,
    "complex": at.Complex,
}


def lib_attr(a):
    kw = dict(
        name=a.name,
        description=a.desc,
        required=a.req,
        multi_valued=a.mv,
        issuer=AttributeIssuer(a.issuer),
        mutability=AttributeMutability(a.mut),
        returned=AttributeReturn(a.ret),
        uniqueness=AttributeUniqueness(a.uniq),
    )
    if a.type == "complex":
        return ComplexAttribute(sub_attributes=[lib_attr(x) for x in a.subs], **kw)
    return Attribute(
        type_=TYPES[a.type],
        case_exact=a.ce,
        canonical_values=None if a.canon is None else list(a.canon),
        validate_canonical_values=a.strict,
        reference_types=list(a.refs) or None,
        **kw,
    )


class _Custom(ResourceSchema):
    """Resource schema built from a table."""


def lib_schema(s):
    """Library schema for a table whose first attributes are rs.COMMON."""
    assert s.attrs[: len(rs.COMMON)] == rs.COMMON
    out = _Custom(
        schema=s.urn,
        attrs=[lib_attr(a) for a in s.attrs[len(rs.COMMON):]],
        name=s.name,
        plural_name=s.plural or None,
        description=s.desc,
    )
    for urn, attrs in s.exts:
        out.with_extension(SchemaExtension(schema=urn, attrs=[lib_attr(a) for a in attrs]))
    return out


def flatten(issues_dict, prefix=()):
    """to_dict() form -> sorted list of (location, code); indices become strings."""
    out = []
    for key, v in issues_dict.items():
        if key == "_errors":
            out += [(prefix, e["code"]) for e in v]
        else:
            out += flatten(v, prefix + (key,))
    return out


def got_issues(issues):
    return sorted(flatten(issues.to_dict()))


def want_issues(issues, prefix=()):
    return sorted((tuple(str(p) for p in prefix + loc), code) for loc, code in issues)


def check_issues(issues, want, what="", prefix=()):
    got, want = got_issues(issues), want_issues(want, prefix)
    if got != want:
        raise Violation(f"{what}: issues {short(got)}, want {short(want)}")
    if issues.has_issues() != bool(want):
        raise Violation(f"{what}: has_issues() disagrees with the reported issues")


def plain(v):
    """Library value -> plain comparable value."""
    if v is Invalid:
        return rs.INVALID
    if v is Missing:
        return rs.MISSING
    if isinstance(v, SCIMDataContainer):
        v = v.to_dict()
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, list):
        return [plain(x) for x in v]
    return v


def same(a, b):
    """Equality that tells apart True / 1 / 1.0."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, float):
        return a == b or (a != a and b != b)
    return a is b or a == b


def check_value(got, want, what=""):
    got = plain(got)
    if not same(got, want):
        raise Violation(f"{what}: value {short(got)}, want {short(want)}")
