"""Reference model of PATCH requests.

patch_op() gives the outcome of a single operation: (accepted operation or None, issues); an issue
code of None stands for 'any'.
"""
from mc import ref_path as rp
from mc import ref_schema as rs

URN = "urn:ietf:params:scim:api:messages:2.0:PatchOp"
NO_TARGET, READ_ONLY, FILTER_ADD, UNDELETABLE = 303, 304, 305, 306


def find(s, urn, attr, sub):
    """-> (top-level attribute, addressed attribute) or (None, None)"""
    if urn and urn.lower() != s.urn.lower():
        blocks = [x for x in s.exts if x[0].lower() == urn.lower()]
    else:
        blocks = [("", s.attrs)] + ([] if urn else list(s.exts))
    for _, attrs in blocks:
        for a in attrs:
            if a.name.lower() != attr.lower():
                continue
            if not sub:
                return a, a
            if a.sub(sub):
                return a, a.sub(sub)
    return None, None


def required_subs(a, items, issues, where):
    """Required sub-attributes missing in new items of a multi-valued attribute."""
    out = []
    if a.type != "complex" or not a.mv or not isinstance(items, list):
        return out
    for j, item in enumerate(items):
        here = where + (j,)
        if any(loc[: len(here)] == here for loc, _ in issues):
            continue
        for sub in a.subs:
            if sub.req and sub.issuer != "SERVER":
                v = item.get(sub.name)
                if v is None or v == "" or v == []:
                    out.append((here + (sub.name,), rs.ABSENT))
    return out


def _whole_value(s, value):
    data, issues = rs.schema(s, value, "parse")
    issues = [(loc, code) for loc, code in issues
              if not (loc == ("schemas",) and code in (27, 28, 29))]
    if data is rs.INVALID:
        return None, issues
    for ext, a in s.top():
        v = data.get(ext, {}).get(a.name, rs.MISSING)
        where = (ext, a.name) if ext else (a.name,)
        if a.mut == rs.RO and v is not rs.MISSING and v != []:
            issues.append((where, READ_ONLY))
        for sub in a.subs:
            if sub.mut == rs.RO:
                items = v if isinstance(v, list) else [v]
                if any(isinstance(i, dict) and sub.name in i for i in items) and not (
                        isinstance(v, dict) and v[sub.name] == []):
                    issues.append((where + (sub.name,), READ_ONLY))
    more = []
    for ext, a in s.top():
        v = data.get(ext, {}).get(a.name, rs.MISSING)
        more += required_subs(a, v, issues, (ext, a.name) if ext else (a.name,))
    return rs.flat(data), issues + more


def patch_op(s, op):
    """-> ((op, path parts or None, value or MISSING) or None, issues)"""
    if not isinstance(op, dict):
        return None, [((), rs.BAD_TYPE), (("op",), rs.ABSENT)]
    given = rs.lower_keys(op)
    name, path, value = given.get("op"), given.get("path"), given.get("value", rs.MISSING)
    issues = []
    if name is None:
        issues.append((("op",), rs.ABSENT))
    elif not isinstance(name, str):
        issues.append((("op",), rs.BAD_TYPE))
    elif name.lower() not in ("add", "remove", "replace"):
        issues.append((("op",), rs.NOT_ONE_OF))
    elif name == "":
        issues.append((("op",), rs.NOT_ONE_OF))
    parts = None
    if path is not None:
        if not isinstance(path, str):
            issues.append((("path",), rs.BAD_TYPE))
        else:
            parts = rp.parse(path)
            if parts is None:
                issues.append((("path",), None))
    if issues:
        return None, issues
    name = name.lower()
    no_value = value is rs.MISSING or value is None
    if name == "remove":
        if parts is None:
            return None, [(("path",), rs.ABSENT)]
    elif name == "add":
        if no_value:
            issues.append((("value",), rs.ABSENT))
        if parts is not None and parts[3] is not None and parts[4] is None:
            issues.append((("path",), FILTER_ADD))
        if issues:
            return None, issues
    if parts is None:
        if no_value:
            return None, [(("value",), None)]
        value, issues = _whole_value(s, value)
        issues = [(("value",) + loc, code) for loc, code in issues]
        return (None if issues else (name, None, value)), issues
    urn, attr, sub, tree, tail = parts
    top, target = find(s, urn, attr, sub or tail or "")
    if top is None or (tree is not None and not top.mv):
        return None, [(("path",), NO_TARGET)]
    if name == "remove":
        if rs.RO in (top.mut, target.mut):
            issues.append((("path",), READ_ONLY))
        if target.req and (target.type != "complex"):
            issues.append((("path",), UNDELETABLE))
        return (None if issues else (name, parts, rs.MISSING)), issues
    if rs.RO in (top.mut, target.mut):
        return None, [(("value",), READ_ONLY)]
    if value is rs.MISSING:
        return None, [(("value",), None)]
    value, found = rs.attribute(target, value, "parse")
    if not found and isinstance(value, dict):
        found = [((x.name,), READ_ONLY) for x in target.subs if x.mut == rs.RO and x.name in value]
    if () not in [loc for loc, _ in found]:
        found = found + required_subs(target, value, found, ())
    issues = [(("value",) + loc, code) for loc, code in found]
    return (None if issues else (name, parts, value)), issues


MESSAGE = rs.S(urn=URN, attrs=(
    rs.SCHEMAS,
    rs.C("Operations", rs.A("op"), rs.A("path"), rs.A("value", "unknown"), mv=True, req=True),
))


def patch_request(s, body):
    """-> (list of accepted operations or None, issues below 'body')

    Exact for requests of at most one operation; for more, the issues of each operation on its own.
    """
    if body is None:
        return None, [((), rs.ABSENT)]
    if not isinstance(body, dict):
        return None, [((), rs.BAD_TYPE)]
    given = rs.lower_keys(body)
    _, issues = rs.schema(MESSAGE, {k: v for k, v in body.items() if k.lower() == "schemas"}, "parse")
    if not given.get("schemas"):
        if not issues:
            issues = [(("schemas",), rs.ABSENT)]
    ops = given.get("operations")
    out = []
    if ops is None or ops == []:
        issues = issues + [(("Operations",), rs.ABSENT)]
    elif not isinstance(ops, list):
        issues = issues + [(("Operations",), rs.BAD_TYPE)]
    else:
        for i, op in enumerate(ops):
            accepted, found = patch_op(s, op)
            out.append(accepted)
            issues = issues + [(("Operations", i) + loc, code) for loc, code in found]
    return (None if issues else out), issues
