"""Reference evaluation of filter trees (``Filter.to_dict`` form) over plain dictionaries.

Results: 'T' match, 'F' no match, 'M' data needed for the decision is absent, 'N' no such attribute.
"""
from datetime import datetime

ABSENT = object()
TEXT = {"string", "reference"}
ORDERED = {"string", "dateTime", "integer", "decimal"}


class Model:
    """attrs: name -> dict(type, multi, cs, subs); ext: urn -> same"""

    def __init__(self, urn, attrs, ext=None):
        self.urn, self.attrs, self.ext = urn, attrs, ext or {}

    def lookup(self, rep):
        """-> (attribute or None, getter(resource))"""
        head, _, name = rep.rpartition(":")
        if not head or head.lower() == self.urn.lower():
            return ci_get(self.attrs, name, None), lambda r: ci_get(r, name, ABSENT)
        for urn, attrs in self.ext.items():
            if urn.lower() == head.lower():
                return ci_get(attrs, name, None), lambda r: ci_get(
                    ci_get(r, urn, {}) or {}, name, ABSENT)
        return None, lambda r: ABSENT


def ci_get(d, name, default):
    for key, value in d.items():
        if key.lower() == name.lower():
            return value
    return default


def absent(v):
    return v is ABSENT or v is None


def to_dt(v):
    if isinstance(v, datetime):
        return v
    try:
        return datetime.fromisoformat(v)
    except (ValueError, TypeError):
        return None


def compare(op, a, b):
    try:
        if op == "eq":
            return a == b
        if op == "ne":
            return a != b
        if op == "gt":
            return a > b
        if op == "ge":
            return a >= b
        if op == "lt":
            return a < b
        if op == "le":
            return a <= b
        if not isinstance(a, str) or not isinstance(b, str):
            return False
        if op == "co":
            return b in a
        if op == "sw":
            return a[: len(b)] == b
        if op == "ew":
            return len(b) <= len(a) and a[len(a) - len(b) :] == b
    except TypeError:
        return False
    raise AssertionError(op)


def leaf_values(attr, value):
    """-> (attribute compared, list of values) or None when not comparable"""
    if attr["type"] == "complex":
        if not attr["multi"] or not isinstance(value, list):
            return None
        sub = ci_get(attr["subs"], "value", None)
        if sub is None:
            return None
        values = []
        for item in value:
            v = ci_get(item, "value", ABSENT)
            values.extend(v if isinstance(v, list) else [v])
        return sub, values
    return attr, value if isinstance(value, list) else [value]


def leaf(tree, attr, value, strict):
    op = tree["op"]
    if attr is None:
        return "N"
    if op == "pr":
        if attr["type"] == "complex":
            if not isinstance(value, list):
                return "F"
            values = [ci_get(i, "value", ABSENT) for i in value]
        else:
            values = value if isinstance(value, list) else [value]
        return "T" if any(not absent(v) and v != "" for v in values) else "F"
    if absent(value):
        return "M" if strict else "T"
    found = leaf_values(attr, value)
    if found is None:
        return "F"
    attr, values = found
    kind = attr["type"]
    if op in ("co", "sw", "ew") and kind not in TEXT:
        return "F"
    if op in ("gt", "ge", "lt", "le") and kind not in ORDERED:
        return "F"
    for v in values:
        if absent(v):
            continue
        lit = tree["value"]
        if kind == "dateTime":
            v, lit = to_dt(v), to_dt(lit) if isinstance(lit, str) else lit
            if v is None or lit is None:
                continue
        elif isinstance(lit, str) and not attr["cs"]:
            if not isinstance(v, str):
                continue
            v, lit = v.lower(), lit.lower()
        if compare(op, v, lit):
            return "T"
    return "F"


def evaluate(tree, scope, resource, strict):
    """scope: Model or a dictionary of sub-attributes."""
    op = tree["op"]
    if op == "and":
        results = [evaluate(t, scope, resource, strict) for t in tree["sub_ops"]]
        if any(r in "FN" for r in results):
            return "F"
        return "M" if "M" in results else "T"
    if op == "or":
        results = [evaluate(t, scope, resource, strict) for t in tree["sub_ops"]]
        if "T" in results:
            return "T"
        return "M" if "M" in results else "F"
    if op == "not":
        result = evaluate(tree["sub_op"], scope, resource, True)
        if result == "F" or (result == "M" and not strict):
            return "T"
        return "F"
    if isinstance(scope, Model):
        attr, getter = scope.lookup(tree["attr_rep"])
        value = getter(resource)
    else:
        attr = ci_get(scope, tree["attr_rep"], None)
        value = ci_get(resource, tree["attr_rep"], ABSENT)
    if op != "complex":
        return leaf(tree, attr, value, strict)
    if attr is None or attr["type"] != "complex":
        return "N"
    if attr["multi"]:
        if not strict and (absent(value) or value == []):
            value = [{}]
        if not isinstance(value, list):
            return "F"
        items = value
    else:
        if absent(value):
            value = {}
        if isinstance(value, list):
            return "F"
        items = [value]
    sub = tree["sub_op"]
    results = [evaluate(sub, attr["subs"], item, strict) for item in items]
    if "T" in results:
        return "T"
    if strict:
        return "F"
    if sub["op"] in ("and", "or", "not"):
        return "T" if "M" in results else "F"
    known = [ci_get(item, sub["attr_rep"], ABSENT) for item in items]
    return "T" if all(absent(v) for v in known) else "F"
