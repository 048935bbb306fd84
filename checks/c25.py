"""C25: error responses."""
import itertools
from copy import deepcopy

from mc import fixtures as fx
from mc import ref_http as rh
from mc import ref_schema as rs
from mc.engine import Space, expect, short
from mc.lib import check_issues, check_value
from mc.near import near
from mc.sizes import sizes
from src import request_validators as rv
from src.assets import scim_error
from src.assets.schemas.error import Error as ErrorSchema
from src.data.container import SCIMDataContainer

PROPERTY = {
    "title": "Error and delete responses are released exactly when they tell the truth",
    "statement": (
        "An error response is released exactly when its HTTP status is an error status (300 to 599), its "
        "body is a well-formed error message with that same status, and the error type, if any, is one "
        "of the standard ones (in any letter case). Every deviation is reported at the member it "
        "concerns, a status mismatch both at the status and in the body, and the released body holds "
        "exactly the members of the message. An error message that is read yields its status as a "
        "number and is reported exactly when that is no error status. Each error the library offers "
        "ready-made has the error type of its name and is released as it is. The response to a deletion "
        "is released without issue exactly for status 204 and never carries a body."
    ),
    "quantifier": {
        "over": ["inputs"],
        "text": "every HTTP status 0..999 x body statuses; all combinations of member alphabets; every "
                "delete status 0..999; every ready-made error with every member left out",
    },
    "why_tests_cant": "The tests sample three statuses and two bodies.",
    "anchors": {
        "files": ["src/request_validators.py", "src/assets/schemas/error.py", "src/assets/scim_error.py"],
        "mechanism": [
            {"name": "Error.dump_response, ResourceObjectDELETE.dump_response",
             "where": "src/request_validators.py"},
        ],
        "observe_at": ["Error.dump_response", "ResourceObjectDELETE.dump_response", "schemas.Error.parse"],
    },
}

ABSENT = object()


def spaces(tier):
    thorough = tier == "thorough"
    error = rv.Error()
    delete = rv.ResourceObjectDELETE(fx.CONFIG)

    def conform(status, body, ctx, headers=None):
        given = deepcopy(body)
        want, issues_ = rh.error_response(status, body)
        ctx.step()
        data, issues = error.dump_response(status_code=status, body=given, headers=headers)
        what = f"status {status} body {short(body)}"
        read(body, ctx)
        check_issues(issues, issues_, what)
        if want is None:
            expect(data.body is None, "%s: released in spite of issues", what)
        else:
            check_value(data.body, want, what)
        expect(given == body, "%s: body was modified", what)
        expect(data.headers == headers, "%s: headers changed", what)
        ctx.state((status, repr(body)))
        ctx.outcome(tuple(sorted({c for _, c in issues_})))

    schema = ErrorSchema()

    def read(body, ctx):
        """the message as one who receives it would read it"""
        data, found = rs.schema(rs.ERROR, body, "parse")
        if data is not rs.INVALID and isinstance(told := data[""].get("status"), str):
            if set(told) <= set("0123456789") and 0 < len(told) < 20:
                data[""]["status"] = int(told)
                bad = not 300 <= int(told) < 600
            elif any(c.isalpha() for c in told) and not any(c.isdigit() for c in told) or not told:
                data[""]["status"], bad = rs.INVALID, True
            else:
                return  # signs, spaces and digits of other scripts are left open
            if bad:
                found = found + [(("status",), rh.ERROR_RANGE)]
        what = f"reading {short(body)}"
        ctx.step()
        got, issues = schema.parse(SCIMDataContainer(body) if isinstance(body, dict) else body)
        check_issues(issues, found, what)
        if data is not rs.INVALID:
            check_value(got.to_dict(), rs.flat(data), what)

    types_of_names = {
        "INVALID_FILTER": "invalidFilter", "TOO_MANY": "tooMany", "UNIQUENESS": "uniqueness",
        "MUTABILITY": "mutability", "INVALID_SYNTAX": "invalidSyntax", "INVALID_PATH": "invalidPath",
        "NO_TARGET": "noTarget", "INVALID_VALUE": "invalidValue", "INVALID_VERS": "invalidVers",
        "SENSITIVE": "sensitive",
    }

    def ready_made():
        for name in types_of_names:
            for left_out in (None, "status", "scimType", "detail", "schemas"):
                yield name, left_out

    def run_ready_made(case, ctx):
        name, left_out = case
        ready = getattr(scim_error, name)
        before = deepcopy(ready)
        expect(set(ready) == {"status", "scimType", "detail"} and ready["scimType"] == types_of_names[name]
               and ready["status"] in ("400", "403", "409") and isinstance(ready["detail"], str)
               and ready["detail"].strip(), "%s is %s", name, short(ready))
        body = {k: v for k, v in {"schemas": [fx.ERROR], **ready}.items() if k != left_out}
        conform(int(ready["status"]), body, ctx)
        if left_out is None:
            data, issues = error.dump_response(status_code=int(ready["status"]), body=body)
            expect(not issues.has_issues() and data.body == body, "%s is not released as it is", name)
        expect(ready == before, "%s changed by a response", name)

    def statuses():
        for status in range(-1, 1000):
            yield status

    def run_status(status, ctx):
        told = {str(status), f"0{status}", str(status + 1), str(status)[:-1], f" {status}", "400", "x"}
        for t in sorted(told):
            conform(status, {"schemas": [fx.ERROR], "status": t}, ctx)
        ctx.step()
        data, issues = delete.dump_response(status_code=status, headers={"h": 1})
        expect(data.headers == {"h": 1} and data.body is None, "delete %d: headers or body", status)
        check_issues(issues, [] if status == 204 else [(("status",), 16)], f"delete {status}")

    types = rs.ERROR.attrs[2].canon
    scim_types = [ABSENT, None, *types, *(t.lower() for t in types), *(t.upper() for t in types), "", "bad",
                  "invalid", "tooMany ", 5, [], {}, True, ["tooMany"]]
    told = [ABSENT, None, "400", "404", "", 400, [], {}, True, ["400"]]
    details = [ABSENT, None, "d", "", 5, [], {}]
    uris = [[fx.ERROR], [fx.ERROR.upper()], ABSENT, None, [], ["urn:x"], [fx.ERROR, "urn:x"], fx.ERROR, [5]]

    def members():
        for t, s in itertools.product(scim_types, told):
            for d, u in itertools.product(details if thorough else details[:5], uris if thorough else uris[:6]):
                yield t, s, d, u

    def run_members(case, ctx):
        t, s, d, u = case
        body = {"scimType": t, "status": s, "detail": d, "schemas": u, "unknown": 1}
        body = {k: v for k, v in body.items() if v is not ABSENT}
        for status in (400, 200):
            conform(status, body, ctx, headers={"h": 1})
        conform(400, {k.swapcase(): v for k, v in body.items()}, ctx)

    def bodies():
        yield from (None, 5, "t", [], [{}], True, {}, {"status": "400"}, 1.5)

    def run_body(body, ctx):
        for status in (400, 299, 600):
            conform(status, body, ctx)

    def texts():
        for status in (400, 404, 599, 300, 500, 409):
            for t in near(str(status)) + [str(status)[:i] + c + str(status)[i + 1:] for i in range(3) for c in
                                          "\u00b2\u00b9\u0664\uff14\u2460\u4e09+-_. "]:
                yield status, {"schemas": [fx.ERROR], "status": t}
        for t in types:
            for text in near(t):
                yield 400, {"schemas": [fx.ERROR], "status": "400", "scimType": text}
        for text in near(fx.ERROR):
            yield 400, {"schemas": [text], "status": "400"}
            yield 400, {"schemas": [fx.ERROR, text], "status": "400"}
        for name in ("status", "scimType", "detail"):
            for text in near(name):
                body = {"schemas": [fx.ERROR], "status": "400", "scimType": "tooMany", "detail": "d"}
                yield 400, {**{k: v for k, v in body.items() if k != name}, text: body[name]}
        for n in sizes(1025, 1):
            for c in ("d", " ", "\n", "\u00e9", "\U0001f600", "\x00", '"', "%s", "{}"):
                yield 400, {"schemas": [fx.ERROR], "status": "400", "detail": c * n}
            yield 400, {"schemas": [fx.ERROR], "status": "400" + "0" * n}
            yield 400, {"schemas": [fx.ERROR], "status": "400", "scimType": "tooMany" * n}
            yield 400, {"schemas": [fx.ERROR] * n, "status": "400", **{f"x{i}": i for i in range(n)}}
            yield 400, {"schemas": [fx.ERROR] * n + ["urn:x"], "status": "400"}

    return [
        Space("texts", "statuses, error types, URIs and names with every slip; lengths next to boundaries", texts,
              lambda case, ctx: conform(*case, ctx), block=16),
        Space("statuses", "HTTP status -1..999 x 7 body statuses; deletion", statuses, run_status, block=8),
        Space("members", "all combinations of member values", members, run_members, block=8),
        Space("bodies", "all kinds of bodies", bodies, run_body),
        Space("ready-made errors", "all of them, whole and with every member left out", ready_made,
              run_ready_made),
    ]
