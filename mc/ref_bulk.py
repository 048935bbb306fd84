"""Reference model of bulk requests and responses.

Operations are judged one by one.  Issues of the shape (types, unknown method) are always reported;
an operation with such issues may hide the others, of itself and of its neighbours.
"""
import re

from mc import ref_http as rh
from mc import ref_patch as rpt
from mc import ref_schema as rs

METHODS = ("GET", "POST", "PATCH", "PUT", "DELETE")
TYPE_PATH, OBJECT_PATH, UNKNOWN, TOO_MANY_OPS, TOO_MANY_ERRORS = 34, 35, 36, 37, 38

_SHAPE = rs.C(
    "Operations", rs.A("method", canon=METHODS, strict=True), rs.A("bulkId"), rs.A("version"),
    rs.A("path"), rs.A("data", "unknown"), mv=True,
)


def _given(v):
    return v is not rs.MISSING and v is not None


def request_op(schemas, op):
    """-> (accepted operation or None, shape issues, other issues)

    An accepted operation is {name: value}; the data of a PATCH is the list of its operations.
    """
    parsed, shape = rs.attribute(_SHAPE, [op], "parse")
    shape = [(loc[1:], code) for loc, code in shape]
    if not isinstance(op, dict):
        return None, shape, []
    got = {k: v for k, v in parsed[0].items()}
    other = []
    method = got.get("method", rs.MISSING)
    if method is rs.INVALID:
        return None, shape, [(("path",), None), (("data",), None), (("bulkId",), None)]
    if not _given(method):
        other.append((("method",), rs.ABSENT))
        method = None
    else:
        method = got["method"] = method.upper()
    if method == "POST" and not _given(got.get("bulkId")):
        other.append((("bulkId",), rs.ABSENT))
    if method in ("GET", "DELETE"):
        got.pop("data", None)
    path, s = got.get("path", rs.MISSING), None
    if not _given(path):
        other.append((("path",), rs.ABSENT))
    elif path == "":
        other.append((("path",), None))
    elif path is rs.INVALID or method is None:
        pass
    elif method == "POST":
        if not re.fullmatch(r"/\w+", path):
            other.append((("path",), TYPE_PATH))
        else:
            s = next((x for x in schemas if x.plural == path[1:]), None)
            if s is None:
                other.append((("path",), UNKNOWN))
    elif not re.fullmatch(r"/\w+/.*", path):
        other.append((("path",), OBJECT_PATH))
    else:
        s = next((x for x in schemas if x.plural == path.split("/")[1]), None)
        if s is None:
            other.append((("path",), UNKNOWN))
    if method in ("POST", "PUT", "PATCH"):
        data = got.get("data", rs.MISSING)
        if not _given(data):
            # whether such an operation is also blamed for its resource type is left open
            other = [(loc, code) for loc, code in other if code != UNKNOWN]
            other.append((("data",), rs.ABSENT))
        elif s is not None:
            if method == "PATCH":
                got["data"], found = rpt.patch_request(s, data)
            else:
                judge = rh.post_request if method == "POST" else rh.put_request
                got["data"], found = judge(s, data)
                found = [(loc[1:], code) for loc, code in found]
            other += [(("data",) + loc, code) for loc, code in found]
    return (None if shape or other else got), shape, other


_RESPONSE = rs.C(
    "Operations", rs.A("method", canon=METHODS, strict=True), rs.A("bulkId"), rs.A("version"),
    rs.A("location", "external"), rs.A("status"), rs.A("response", "unknown"), mv=True,
)


def response_op(schemas, op):
    """-> (accepted operation or None, shape issues, other issues, whether it is an error)"""
    parsed, shape = rs.attribute(_RESPONSE, [op], "dump")
    shape = [(loc[1:], code) for loc, code in shape]
    if not isinstance(op, dict):
        return None, shape, [], False
    got = dict(parsed[0])
    status = got.get("status", rs.MISSING)
    if isinstance(status, str):
        if not re.fullmatch(r"[0-9]+", status):
            shape.append((("status",), rs.SYNTAX))
            status = rs.INVALID
        else:
            status = int(status)
    method = got.get("method", rs.MISSING)
    if method is not rs.INVALID and _given(method):
        method = got["method"] = method.upper()
    location, response = got.get("location", rs.MISSING), got.get("response", rs.MISSING)
    other = []
    if not _given(method):
        other.append((("method",), rs.ABSENT))
    if method == "POST" and not _given(got.get("bulkId")):
        other.append((("bulkId",), rs.ABSENT))
    if not _given(status):
        other.append((("status",), rs.ABSENT))
    elif isinstance(status, int):
        if not _given(location) and _given(method) and (method != "POST" or status < 300):
            other.append((("location",), rs.ABSENT))
        if status >= 300 and not _given(response):
            other.append((("response",), rs.ABSENT))
    s = None
    if isinstance(location, str) and isinstance(method, str):
        s = next((x for x in schemas if f"/{x.plural}/" in location), None)
        if s is None:
            other.append((("location",), UNKNOWN))
    failed = isinstance(status, int) and status >= 300
    if isinstance(method, str) and _given(response):
        found = []
        if failed:
            got["response"], found = rh.error_response(status, response)
        elif s is not None and isinstance(status, int) and method != "DELETE":
            headers = {"Location": location}
            # an empty object is no resource, not even for POST
            response = {"": None} if response == {} else response
            got["response"], found = rh.resource_response(s, method, status, response, headers)
        for loc, code in found:
            if loc[0] == "body":
                other.append((("response",) + loc[1:], code))
            elif loc[0] == "status":
                other.append((("status",), code))
            else:
                other.append((("location",), code))
        if not found and not failed and isinstance(got["response"], dict) and method != "DELETE":
            meta = got["response"].get("meta")
            told = meta.get("version") if isinstance(meta, dict) else None
            if told and got.get("version") and told != got["version"]:
                other += [(("response", "meta", "version"), rh.EQUAL), (("version",), rh.EQUAL)]
    return (None if shape or other else got), shape, other, failed
