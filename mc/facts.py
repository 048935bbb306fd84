"""Reference model of the facts an issue states: derived from the input, never from the library."""
from collections import Counter
from datetime import datetime

from mc import ref_schema as rs
from mc.engine import Violation, expect, short
from src.data.container import SCIMDataContainer

KINDS = {bool: "boolean", int: "integer", float: "decimal", str: "string", dict: "complex",
         SCIMDataContainer: "complex", list: "list", datetime: "datetime"}
STATED = {
    2: {"expected", "provided"}, 3: {"scim_type"}, 7: {"keyword"}, 8: {"value"}, 9: {"primary_entries"},
    10: {"header"}, 11: {"value"}, 12: {"provided"}, 13: {"response_status", "body_status"},
    14: {"expected_values", "provided"}, 16: {"expected", "provided"}, 17: {"resource_type", "provided"},
    21: {"must"}, 22: {"total_results", "n_resources"}, 23: {"must"},
    24: {"response_key", "response_value", "query_param_name", "query_param_value", "reason"},
    29: {"extension"}, 30: {"other"}, 33: {"attr", "sub_attr"}, 37: {"max"}, 38: {"max"},
    104: {"operator", "expression"}, 105: {"operator_type", "operator", "expression"}, 106: {"expression"},
    110: {"attribute"}, 111: {"attribute"}, 112: {"value"}, 113: {"value", "operator"},
}


def kind(v):
    return KINDS.get(type(v), "unknown")


def expected_kind(a, direction, item):
    if a.mv and not item:
        return "list"
    if a.type == "dateTime":
        return "string" if direction == "parse" else "datetime"
    return a.type if a.type in ("boolean", "integer", "decimal", "complex") else "string"


def value_at(v, loc):
    for part in loc:
        v = v[part] if isinstance(part, int) else rs.lower_keys(v)[part.lower()]
    return v


def attribute_at(a, loc):
    """-> (attribute, whether an item of its list is meant)"""
    item = False
    for part in loc:
        if isinstance(part, int):
            item = True
        else:
            a, item = a.sub(part), False
    return a, item


def of_attribute(a, v, direction, loc, code):
    """The facts of an issue at loc below attribute a with value v."""
    a, item = attribute_at(a, loc)
    v = value_at(v, loc)
    if code == rs.BAD_TYPE:
        return {"expected": expected_kind(a, direction, item), "provided": kind(v)}
    if code == rs.BASE64:
        return {"scim_type": "binary"}
    if code == rs.RESERVED:
        return {"keyword": "bulkId"}
    if code == rs.BAD_URL:
        return {"value": v}
    if code == rs.PRIMARY:
        name = a.sub("primary").name.lower()
        return {"primary_entries": {i for i, x in enumerate(v) if rs.lower_keys(x).get(name) is True}}
    if code == rs.NOT_ONE_OF:
        return {"expected_values": [c.lower() if isinstance(c, str) and not a.ce else c for c in a.canon],
                "provided": v}
    return {}


def of_schema(s, body, direction, issues):
    """[(location, code)] of rs.schema / dump_resource / presence -> [(location, code, facts)]"""
    out, extensions = [], []
    if isinstance(body, dict):
        listed = rs.lower_keys(body).get("schemas")
        listed = [u.lower() for u in listed] if isinstance(listed, list) and all(
            isinstance(u, str) for u in listed) else []
        for key in body:
            for urn, _ in s.exts:
                if isinstance(key, str) and key.lower() == urn.lower() and urn.lower() not in listed:
                    extensions.append(urn)
    for loc, code in issues:
        if code in (rs.ABSENT, rs.RESTRICTED, rs.UNKNOWN_SCHEMA, rs.NO_MAIN_SCHEMA):
            facts = {}
        elif not loc:
            facts = {"expected": "complex", "provided": kind(body)}
        elif code == rs.NO_EXTENSION:
            facts = {"extension": extensions.pop(0)}
        elif code == rs.RESOURCE_TYPE:
            facts = {"resource_type": s.name, "provided": value_at(body, loc)}
        elif loc[0] in s.known and len(loc) == 1:
            facts = {"expected": "complex", "provided": kind(value_at(body, loc))}
        else:
            ext = loc[0] if loc[0] in s.known else ""
            block, rest = (value_at(body, loc[:1]), loc[1:]) if ext else (body, loc)
            a = s.find(ext, rest[0])
            facts = of_attribute(a, value_at(block, rest[:1]), direction, rest[1:], code)
        out.append((loc, code, facts))
    return out


def below(prefix, issues):
    return [(tuple(prefix) + loc, code, facts) for loc, code, facts in issues]


def stated(issues):
    """-> [(location of texts, code, facts, message)]; the four forms of reporting must agree."""
    out = []

    def walk(node, plain, messages, contexts, loc):
        expect(plain.keys() == node.keys() == messages.keys() == contexts.keys(), "reports differ in members")
        for key, v in node.items():
            if key != "_errors":
                walk(v, plain[key], messages[key], contexts[key], loc + (key,))
                continue
            expect(len(v) == len(plain[key]) == len(messages[key]) == len(contexts[key]), "reports differ in length")
            for i, e in enumerate(v):
                expect(set(e) == {"code", "error", "context"}, "a report has the members %s", sorted(e))
                expect(plain[key][i] == {"code": e["code"]}, "a plain report is %r", plain[key][i])
                expect(messages[key][i] == {"code": e["code"], "error": e["error"]},
                       "a report with message is %r", messages[key][i])
                expect(contexts[key][i] == {"code": e["code"], "context": e["context"]},
                       "a report with context is %r", contexts[key][i])
                out.append((loc, e["code"], e["context"], e["error"]))

    walk(issues.to_dict(msg=True, ctx=True), issues.to_dict(), issues.to_dict(msg=True),
         issues.to_dict(ctx=True), ())
    return out


def _same(got, want):
    if isinstance(want, set):
        return isinstance(got, str) and sorted(got.replace(" ", "").split(",")) == sorted(map(str, want))
    if isinstance(want, bool) or isinstance(got, bool):
        return got is want
    if isinstance(got, SCIMDataContainer):
        got = got.to_dict()
    return got == want


def _key(issue):
    return issue[0], issue[1], repr(sorted(issue[2].items(), key=lambda x: x[0]))


def check_message(code, facts, message, what):
    expect(isinstance(message, str) and message.strip(), "%s: empty message of %d", what, code)
    expect(set(facts) == STATED.get(code, set()), "%s: issue %d states %s", what, code, sorted(facts))
    expect("PLACE_HOLDER" not in message or "PLACE_HOLDER" in what, "%s: message %r", what, message)
    for name, fact in facts.items():
        expect(str(fact) in message or repr(fact) in message, "%s: message %r does not tell %s %r", what, message,
               name, fact)


def check(issues, want, what):
    """want: [(location, code, facts or None)]; None: any facts will do"""
    got = stated(issues)
    for loc, code, facts, message in got:
        check_message(code, facts, message, what)
    rest = [(tuple(map(str, loc)), code, facts) for loc, code, facts in want]
    if Counter((g[0], g[1]) for g in got) != Counter((w[0], w[1]) for w in rest):
        raise Violation(f"{what}: issues {short(sorted(map(_key, got)))}, want {short(sorted(map(_key, rest)))}")
    for loc, code, facts, _ in got:
        for w in rest:
            if w[:2] == (loc, code) and (w[2] is None or (
                    facts.keys() == w[2].keys() and all(_same(facts[k], w[2][k]) for k in facts))):
                rest.remove(w)
                break
        else:
            raise Violation(f"{what}: issue {code} at {loc} states {short(facts)}, "
                            f"want {short([w[2] for w in rest if w[:2] == (loc, code)])}")
