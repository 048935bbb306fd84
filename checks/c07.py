"""C07: value domains of the SCIM types, in both directions."""
import base64
import itertools
from datetime import datetime, timedelta, timezone

from mc import ref_schema as rs
from mc.engine import Space, Violation, expect, short
from mc.lib import TYPES, check_issues, check_value, plain, same
from mc.sizes import places, sizes
from src.data.container import SCIMDataContainer

PROPERTY = {
    "title": "Every SCIM type accepts exactly its value domain and round-trips it",
    "statement": (
        "For every value and every SCIM type, parsing and dumping either return the value, "
        "normalised to the type, without any issue, or report exactly one issue of the right kind "
        "(wrong type, bad syntax, not base64, not an absolute URL) and never raise. The accepted "
        "values are exactly: true/false for boolean; whole numbers (also written as 1.0) for "
        "integer; any number for decimal; text for string and references; canonical base64 text "
        "for binary; absolute URLs for external references; ISO 8601 text (when parsing) or "
        "date-time objects (when dumping) for dateTime; objects for complex - booleans are never "
        "numbers. Parsing what was dumped gives back the dumped value."
    ),
    "quantifier": {
        "over": ["inputs"],
        "text": "all types x both directions x all values of an alphabet of JSON values, all base64-"
                "alphabet strings and URL/date token sequences up to the bound, numeric boundaries",
    },
    "why_tests_cant": (
        "Tests check a few values per type; bool/int/float overlap, padding of base64, partial URLs "
        "and date variants form an unbounded domain."
    ),
    "anchors": {
        "files": ["src/data/type.py"],
        "mechanism": [{"name": "AttributeType.parse / dump and overrides", "where": "src/data/type.py"}],
        "observe_at": ["type.*.parse", "type.*.dump"],
    },
}

UTC = timezone.utc
NAN = float("nan")
VALUES = [
    None, True, False, 0, 1, -1, 2, 2**31, 2**53 + 1, 2**63, 10**30, -(10**30), 10**307, 10**400,
    -(10**400), 0.0, -0.0, 1.0, -1.0, 1.5, 2.0**60, 1e16, 1e300, 0.1, -2.5, 1e-300, float("inf"),
    float("-inf"), NAN, "", "a", "1", "1.0", "true", "AQID", "AQI=", "AQ==", "A", "AQ=", "AQ",
    "AQID\n", "A QID", "é", "AR==", "AQJ=", "-_-_", "+/+/", "====", "=", "AQ==AQ==", "AQID====",
    "http://a", "https://example.com/x?y#z", "https://", "http:///a", "//a.com", "a.com",
    "mailto:a@b", "urn:x:y", "../a", "/a", "ftp://u:p@h:21/p", "http://[", "http://a b",
    "2011-05-13T04:42:34Z", "2011-05-13T04:42:34.123+02:00", "2011-05-13", "2011-05-13T04:42:34",
    "2011-13-13T04:42:34Z", "2011-02-30", "04:42:34", "20110513", "2011-W19-5",
    "2011-05-13T24:00:00Z", "2011-05-13T04:42:34z", "2011-05-13 04:42:34", "2011-05-13T04:42",
    "2011-05-13T04:42:60Z", "now",
    [], ["a"], [1], {}, {"a": 1}, (), b"AQID", "bulkId", "İ", "\u0000", "x" * 1000,
    datetime(2011, 5, 13, 4, 42, 34, tzinfo=UTC), datetime(2011, 5, 13),
    datetime(2011, 5, 13, 4, 42, 34, 5, tzinfo=timezone(timedelta(hours=-3, minutes=-30))),
    datetime.min, datetime.max.replace(tzinfo=UTC), datetime(2011, 5, 13).date(), object, {1}, 1j,
]
ALL = [t for t in TYPES]


def run(case, ctx):
    type_, direction, v = case
    given = v
    if isinstance(v, dict):
        given = SCIMDataContainer(v)
    want, code = rs.value(type_, v, direction)
    if type_ == "unknown":
        want = given
    ctx.step()
    got, issues = getattr(TYPES[type_], direction)(given)
    what = f"{type_} {direction} {short(v, 200)}"
    check_issues(issues, [] if code is None else [((), code)], what)
    expect(issues.can_proceed() is (code is None), "%s: wrong can_proceed()", what)
    if type_ == "unknown":
        expect(got is given, "%s: changed", what)
    else:
        check_value(got, want, what)
    if code is None and type_ not in ("unknown", "complex"):
        # what was accepted survives the way there and back
        other = "dump" if direction == "parse" else "parse"
        ctx.step()
        back, issues = getattr(TYPES[type_], other)(got)
        expect(not issues.has_issues(), "%s: %r does not %s", what, got, other)
        forth, issues = getattr(TYPES[type_], direction)(back)
        expect(not issues.has_issues() and same(plain(forth), want),
               "%s: there and back gives %r", what, forth)
    ctx.state((type_, direction, short(v)))
    ctx.outcome((type_, code))


def run_dict(case, ctx):
    """A plain dictionary is not yet a SCIM object: only containers are accepted."""
    direction, v = case
    ctx.step()
    got, issues = getattr(TYPES["complex"], direction)(SCIMDataContainer(v))
    expect(not issues.has_issues() and plain(got) == v, "complex value %r refused", v)
    ctx.state(short(v))


def table():
    for type_ in ALL:
        for direction in ("parse", "dump"):
            for v in VALUES:
                yield type_, direction, v


def base64_texts(n, alphabet="AQg/+=-\n "):
    for k in range(n + 1):
        for x in itertools.product(alphabet, repeat=k):
            for direction in ("parse", "dump"):
                yield "binary", direction, "".join(x)


def encoded(n):
    """Every byte string over a few bytes, encoded: must be accepted; with a mark flipped too."""
    for k in range(n + 1):
        for x in itertools.product([0, 1, 0x7F, 0x80, 0xFF], repeat=k):
            text = base64.b64encode(bytes(x)).decode()
            yield "binary", "parse", text
            yield "binary", "parse", text.rstrip("=")
            yield "binary", "parse", text + "="


def urls(n):
    tokens = ["http", "a", ":", "/", "//", ".com", "?", "#", "@", "1", "-", "+"]
    for k in range(n + 1):
        for x in itertools.product(tokens, repeat=k):
            yield "external", "parse", "".join(x)


def long_encoded(limit):
    for n in range(limit + 1):
        for body in (bytes(n), bytes((i * 37 + 255) % 256 for i in range(n)), b"\xff" * n):
            text = base64.b64encode(body).decode()
            yield "binary", "parse", text
            for t in (text.rstrip("="), text + "=", text[1:], text + "\n", base64.urlsafe_b64encode(body).decode()):
                yield "binary", "parse", t
            if n in sizes(limit):
                for p in places(len(text)):
                    for c in "=-_ \n\u00e9A":
                        yield "binary", "dump", text[:p] + c + text[p + 1:]
                        yield "binary", "parse", text[:p] + c + text[p:]


def long_urls(limit):
    for n in sizes(limit, 1):
        x = ("abc.def-g1" * 110)[:n]
        for t in (f"https://{x}", f"https://h/{x}", f"{x}://h", f"https://h?{x}", f"https://h#{x}", f"https:/{x}", f"{x}",
                  f"https://u:{x}@h", f"https:///{x}", "https://h/" + "a/" * n, f"a{x}+:{x}//h", f"//{x}"):
            yield "external", "parse", t


def long_texts(limit):
    for n in sizes(limit, 1):
        for c in ("a", "1", "\u00e9", " ", "\n", "\U0001f600", "=", "/", "A"):
            for type_ in ("string", "uri", "scim", "integer", "decimal", "boolean", "dateTime"):
                for direction in ("parse", "dump"):
                    yield type_, direction, c * n


def url_ref(text):
    """scheme "://" authority, written from RFC 3986"""
    scheme, sep, rest = text.partition(":")
    if not sep or not rest.startswith("//"):
        return False
    if not scheme or not (scheme[0].isascii() and scheme[0].isalpha()):
        return False
    if not all(c.isascii() and (c.isalnum() or c in "+-.") for c in scheme):
        return False
    authority = rest[2:]
    for mark in "/?#":
        authority = authority.partition(mark)[0]
    return authority != ""


def run_url(case, ctx):
    type_, direction, v = case
    for direction in ("parse", "dump"):
        ctx.step()
        got, issues = getattr(TYPES[type_], direction)(v)
        want = [] if url_ref(v) else [((), rs.BAD_URL)]
        check_issues(issues, want, f"{direction} {v!r}")
        check_value(got, rs.INVALID if want else v, f"{direction} {v!r}")
    ctx.state(v)
    ctx.outcome(not want)


def dates():
    """dates x times x zones, valid and not"""
    days = ["2011-05-13", "2012-02-29", "2011-02-29", "2011-00-10", "0001-01-01", "9999-12-31",
            "2011-5-13", "99-01-01", ""]
    times = ["", "T00:00:00", "T23:59:59", "T23:59:60", "T24:00:01", "T04:42", "T04:60:00",
             "T04:42:34.5", "T04:42:34.123456", "T", " 04:42:34", "X04:42:34", "T04:42:34.12", "T04:42:34.123",
             "T04:42:34.1234", "T04:42:34.12345", "T04:42:34.1234567", "T04:42:34.", "T04:42:34,5",
             "T00:00:00.000000", "T23:59:59.999999"]
    zones = ["", "Z", "+00:00", "-11:30", "+24:00", "+02", "+0200", "+2:00", "z", "UTC"]
    for x in itertools.product(days, times, zones):
        yield "dateTime", "parse", "".join(x)


def moments():
    for year, month, day in ((1, 1, 1), (2011, 5, 13), (2012, 2, 29), (9999, 12, 31)):
        for h, m, s, us in ((0, 0, 0, 0), (23, 59, 59, 999999), (4, 42, 34, 1), (4, 42, 0, 500000), (4, 42, 34, 1000),
                            (4, 42, 34, 999), (12, 0, 0, 100), (0, 0, 1, 120000)):
            for zone in [None] + [timezone(timedelta(minutes=x)) for x in
                                  (0, 1, -1, 60, -210, 330, 1439, -1439)]:
                yield "dateTime", "dump", datetime(year, month, day, h, m, s, us, zone)


def numbers(n):
    """integers around powers of two and ten, and their float forms"""
    base = {0}
    for k in range(n):
        for b in (2, 10):
            for d in (-1, 0, 1):
                base |= {b**k + d, -(b**k) + d}
    for v in sorted(base):
        forms = [v]
        if abs(v) < 10**300:
            forms += [float(v), float(v) + 0.5, float(v) / 3]
        for x in forms:
            for type_ in ("integer", "decimal", "boolean", "string", "dateTime", "binary"):
                for direction in ("parse", "dump"):
                    yield type_, direction, x


def spaces(tier):
    deep = tier == "thorough"
    n, e, u, k = (7, 6, 6, 330) if deep else (6, 5, 5, 330)
    return [
        Space("values x types", f"{len(VALUES)} values x {len(ALL)} types x 2 directions", table, run),
        Space("base64 strings", f"all strings of <= {n} of 9 characters",
              lambda: base64_texts(n), run, block=256),
        Space("base64 encodings", f"all byte strings of <= {e} of 5 bytes", lambda: encoded(e), run,
              block=64),
        Space("URLs", f"all sequences of <= {u} of 12 tokens", lambda: urls(u), run_url, block=256),
        Space("long base64 texts", "all byte lengths, a wrong character at every telling position",
              lambda: long_encoded(1025 if deep else 301), run, block=64),
        Space("long URLs", "lengths of every part next to boundaries", lambda: long_urls(1025), run_url, block=16),
        Space("long texts", "lengths next to boundaries x 9 characters x types", lambda: long_texts(1025), run, block=64),
        Space("date-time texts", "all days x times x zones", dates, run),
        Space("date-time objects", "all days x times x offsets", moments, run),
        Space("numbers", f"powers of 2 and 10 up to exponent {k}, +-1, in int and float form",
              lambda: numbers(k), run, block=64),
        Space("objects", "objects are accepted as complex values",
              lambda: itertools.product(("parse", "dump"), [{}, {"a": 1}, {"a": {"b": [1]}}]),
              run_dict),
    ]
