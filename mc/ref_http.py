"""Reference model of the resource endpoints, on top of ref_schema."""
from mc import ref_schema as rs
from mc import ref_sort

NO_HEADER, EQUAL, STATUS = 10, 11, 16


def post_request(s, body):
    """-> (body or None, issues)"""
    data, issues = rs.schema(s, body, "parse")
    if data is not rs.INVALID:
        issues = issues + rs.presence(s, data, "REQUEST", ignore=rs.server_issued(s))
    issues = [(("body",) + loc, code) for loc, code in issues]
    return (None if issues else rs.flat(data)), issues


def put_request(s, body):
    data, issues = rs.schema(s, body, "parse")
    if data is not rs.INVALID:
        issues = issues + rs.presence(s, data, "REQUEST")
    issues = [(("body",) + loc, code) for loc, code in issues]
    return (None if issues else rs.flat(rs.without_read_only(s, data))), issues


def resource_response(s, method, status, body, headers, refs=(), include=None):
    """-> (body or None, issues); headers: None, a dictionary or something else"""
    if method == "POST" and not body:
        return None, []
    if method == "PATCH" and status == 204:
        return None, ([(("status",), STATUS)] if refs else [])
    data, found = rs.dump_resource(s, body)
    if data is not rs.INVALID:
        found = found + rs.presence(s, data, "RESPONSE", refs, include)
    issues = [(("body",) + loc, code) for loc, code in found]
    if status != (201 if method == "POST" else 200):
        issues.append((("status",), STATUS))
    headers = headers if isinstance(headers, dict) else {}
    if method == "POST" and "Location" not in headers:
        issues.append((("headers", "Location"), NO_HEADER))
    meta = data[""].get("meta") if data is not rs.INVALID else None
    location = meta.get("location") if isinstance(meta, dict) else None
    if isinstance(location, str) and headers.get("Location") is not None:
        if location != headers["Location"]:
            issues.append((("body", "meta", "location"), EQUAL))
            issues.append((("headers", "Location"), EQUAL))
    return (None if issues else rs.flat(data)), issues


# ---------------------------------------------------------------- lists

LIST = rs.S(
    urn="urn:ietf:params:scim:api:messages:2.0:ListResponse",
    attrs=(
        rs.SCHEMAS, rs.A("totalResults", "integer", req=True), rs.A("startIndex", "integer"),
        rs.A("itemsPerPage", "integer"), rs.A("Resources", "unknown"),
    ),
)
TOO_MANY, TOTAL, TOO_FEW, PARAMETER, FILTERED, SORTED = 21, 22, 23, 24, 25, 26


def schema_of(schemas, resource):
    """The schema of a listed resource, by its 'schemas' where there is a choice."""
    if len(schemas) == 1:
        return schemas[0]
    if not isinstance(resource, dict):
        return None
    uris = rs.lower_keys(resource).get("schemas")
    if not isinstance(uris, list) or not uris or not all(isinstance(u, str) for u in uris):
        return None
    for s in schemas:
        if {u.lower() for u in uris} <= {k.lower() for k in s.known}:
            return s
    return None


def list_response(schemas, status, body, start_index=1, count=None, matches=None, sort=None, refs=(),
                  include=None):
    """matches: predicate(schema, plain resource) or None; sort: (R, asc) or None"""
    data, found = rs.schema(LIST, body, "dump")
    if data is rs.INVALID:
        return None, [(("body",) + loc, code) for loc, code in found]
    issues = [(("body",) + loc, code) for loc, code in found]
    issues += [(("body",) + loc, code) for loc, code in rs.presence(LIST, data, "RESPONSE")]
    main, where = data[""], ("body", "Resources")
    bad = {loc[1] for loc, _ in issues if len(loc) > 1}
    resources = main.get("Resources", rs.MISSING)
    listed = resources is not rs.MISSING
    if listed and not isinstance(resources, list):
        issues.append((where, rs.BAD_TYPE))
    if status != 200:
        issues.append((("status",), STATUS))
    if "startIndex" not in bad and main.get("startIndex"):
        if main["startIndex"] > start_index:
            issues.append((("body", "startIndex"), PARAMETER))
    if listed and not isinstance(resources, list):
        return None, issues
    dumped, chosen = [], []
    resources = resources if listed else []
    n, below = len(resources), []
    per_page = main.get("itemsPerPage")
    if listed and "itemsPerPage" not in bad and per_page is not None and per_page != n:
        issues.append((("body", "itemsPerPage"), EQUAL))
        below.append((where, EQUAL))
    for i, resource in enumerate(resources):
        s = schema_of(schemas, resource)
        chosen.append(s)
        if s is None:
            below.append((where + (i,), rs.UNKNOWN_SCHEMA))
            dumped.append(rs.INVALID)
            continue
        d, sub = rs.dump_resource(s, resource)
        below += [(where + (i,) + loc, code) for loc, code in sub]
        dumped.append(d)
    if "totalResults" not in bad:
        total = main["totalResults"]
        if total < n:
            below.append((where, TOTAL))
        if count is None and total > n:
            below.append((where, TOO_FEW))
        if count is not None and count < n:
            below.append((where, TOO_MANY))
        if count is not None and count > 0 and total > n and not bad & {"startIndex", "itemsPerPage"}:
            for name in ("startIndex", "itemsPerPage"):
                if main.get(name) is None:
                    issues.append((("body", name), rs.ABSENT))
    issues += below
    if below:
        return None, issues
    for i, (s, d) in enumerate(zip(chosen, dumped)):
        if matches is not None and not matches(s, rs.flat(d)):
            issues.append((where + (i,), FILTERED))
        issues += [(where + (i,) + loc, code)
                   for loc, code in rs.presence(s, d, "RESPONSE", refs, include)]
    if sort is not None:
        ref, asc = sort
        keys = [ref_sort.key(s, d, ref) for s, d in zip(chosen, dumped)]
        if ref_sort.order(keys, asc) != list(range(n)):
            issues.append((where, SORTED))
    if issues:
        return None, issues
    out = dict(main)
    if listed:
        out["Resources"] = [rs.flat(d) for d in dumped]
    return out, []


# ---------------------------------------------------------------- errors

ERROR_RANGE, ERROR_MISMATCH = 12, 13


def error_response(status, body):
    data, found = rs.schema(rs.ERROR, body, "dump")
    if data is not rs.INVALID:
        found = found + rs.presence(rs.ERROR, data, "RESPONSE")
    issues = [(("body",) + loc, code) for loc, code in found]
    if data is not rs.INVALID:
        told = data[""].get("status")
        if isinstance(told, str) and told and told != str(status):
            issues += [(("body", "status"), ERROR_MISMATCH), (("status",), ERROR_MISMATCH)]
    if not 300 <= status < 600:
        issues.append((("status",), ERROR_RANGE))
    return (None if issues else rs.flat(data)), issues
