"""Reference tables of the discovery resources (RFC 7643, sections 5, 6, 7)."""
from mc import ref_schema as rs
from mc.ref_schema import A, C, RO

SRV = dict(mut=RO, issuer="SERVER")
ID = A("id", **SRV)


def _attribute_rules(items):
    issues, out = [], []
    for i, item in enumerate(items):
        item = dict(item)
        kind, subs = item.get("type"), item.get("subAttributes")
        if subs is not None:
            if kind != "complex":
                del item["subAttributes"]
            else:
                item["subAttributes"], found = rs.attribute(ATTRIBUTES, subs, "dump")
                issues += [((i, "subAttributes") + loc, code) for loc, code in found]
        if kind == "string":
            if item.get("caseExact") is None:
                issues.append(((i, "caseExact"), rs.ABSENT))
        else:
            item.pop("caseExact", None)
        out.append(item)
    return out, issues


ATTRIBUTES = C(
    "attributes",
    A("name", req=True, **SRV),
    A("type", req=True, strict=True, canon=("string", "integer", "decimal", "boolean", "reference", "dateTime",
                                            "binary", "complex"), **SRV),
    A("subAttributes", "unknown", **SRV), A("multiValued", "boolean", req=True, **SRV),
    A("description", **SRV), A("required", "boolean", req=True, **SRV),
    A("canonicalValues", "unknown", mv=True, **SRV), A("caseExact", "boolean", **SRV),
    A("mutability", req=True, strict=True, canon=("readOnly", "readWrite", "immutable", "writeOnly"), **SRV),
    A("returned", req=True, strict=True, canon=("always", "never", "default", "request"), **SRV),
    A("uniqueness", req=True, strict=True, canon=("none", "server", "global"), **SRV),
    A("referenceTypes", mv=True, **SRV),
    mv=True, mut=RO, post=_attribute_rules,
)
SCHEMA = rs.S(
    urn="urn:ietf:params:scim:schemas:core:2.0:Schema", name="Schema",
    attrs=(rs.SCHEMAS, ID, rs.EXTERNAL_ID, rs.META, A("name", **SRV), A("description", **SRV), ATTRIBUTES),
)
RESOURCE_TYPE = rs.S(
    urn="urn:ietf:params:scim:schemas:core:2.0:ResourceType", name="ResourceType",
    attrs=(
        rs.SCHEMAS, ID, rs.EXTERNAL_ID, rs.META, A("name", req=True, **SRV), A("description", **SRV),
        A("endpoint", "uri", req=True, **SRV), A("schema", req=True, **SRV),
        C("schemaExtensions", A("schema", req=True, **SRV), A("required", "boolean", req=True, **SRV), mv=True),
    ),
)
_SUP = A("supported", "boolean", req=True, mut=RO)


def _option(name, *more):
    return C(name, _SUP, *more, req=True, mut=RO)


PROVIDER = rs.S(
    urn="urn:ietf:params:scim:schemas:core:2.0:ServiceProviderConfig", name="ServiceProviderConfig",
    attrs=(
        rs.SCHEMAS, A("id", ce=True, mut=RO, ret="always", uniq="server", issuer="SERVER", bulkid=True),
        rs.EXTERNAL_ID, rs.META, A("documentationUri", "external", mut=RO), _option("patch"),
        _option("bulk", A("maxOperations", "integer", req=True, mut=RO),
                A("maxPayloadSize", "integer", req=True, mut=RO)),
        _option("filter", A("maxResults", "integer", req=True, mut=RO)), _option("changePassword"),
        _option("sort"), _option("etag"),
        C("authenticationSchemes",
          A("type", req=True, mut=RO, canon=("oauth", "oauth2", "oauthbearertoken", "httpbasic", "httpdigest")),
          A("name", req=True, mut=RO), A("description", req=True, mut=RO), A("specUri", "external", mut=RO),
          A("documentationUri", "external", mut=RO), mv=True, mut=RO, req=True),
    ),
)

_NAMES = {"external": "reference", "uri": "reference", "scim": "reference"}


def describe(a):
    """The published description of an attribute."""
    canon = a.canon if a.ce or a.canon is None else tuple(
        c.lower() if isinstance(c, str) else c for c in a.canon)
    out = {
        "name": a.name, "type": _NAMES.get(a.type, a.type), "multiValued": a.mv, "description": a.desc,
        "required": a.req, "caseExact": a.ce, "mutability": a.mut, "returned": a.ret, "uniqueness": a.uniq,
    }
    if canon:
        out["canonicalValues"] = list(canon)
    if a.refs or a.type in ("external", "uri"):
        out["referenceTypes"] = list(a.refs) or [a.type]
    if a.type == "complex":
        out["subAttributes"] = [describe(x) for x in a.subs]
    return out
