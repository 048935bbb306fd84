"""Independent reference model of attribute / schema / presence validation.

Works on plain JSON-like values (dict, list, str, ...); knows nothing of the code under test.
Issues are (location, code) pairs; values that failed validation are INVALID, absent ones MISSING.
"""
import base64
import re
from dataclasses import dataclass, field
from datetime import datetime
from typing import Optional


class _Mark:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


INVALID, MISSING = _Mark("<invalid>"), _Mark("<missing>")

SYNTAX, BAD_TYPE, BASE64, RESERVED, BAD_URL, PRIMARY = 1, 2, 3, 7, 8, 9
NOT_ONE_OF, ABSENT, RESOURCE_TYPE, RESTRICTED = 14, 15, 17, 19
UNKNOWN_SCHEMA, NO_MAIN_SCHEMA, NO_EXTENSION = 27, 28, 29


@dataclass(frozen=True)
class A:
    name: str
    type: str = "string"
    mv: bool = False
    req: bool = False
    ce: bool = False
    canon: Optional[tuple] = None
    strict: bool = False  # canonical values are enforced
    mut: str = "readWrite"
    ret: str = "default"
    uniq: str = "none"
    issuer: str = "NOT_SPECIFIED"
    refs: tuple = ()
    subs: tuple = ()
    desc: str = ""
    bulkid: bool = False  # 'bulkId' must not occur in the value
    post: Optional[object] = None  # further rules for the items of valid complex data being dumped

    def sub(self, name):
        for s in self.subs:
            if s.name.lower() == name.lower():
                return s
        return None


def C(name, *subs, **kw):
    return A(name, "complex", subs=tuple(subs), **kw)


@dataclass(frozen=True)
class S:
    urn: str
    attrs: tuple
    name: str = ""
    plural: str = ""
    exts: tuple = ()  # (urn, attrs)
    desc: str = ""

    def top(self):
        """-> (extension urn or '', attribute)"""
        for a in self.attrs:
            yield "", a
        for urn, attrs in self.exts:
            for a in attrs:
                yield urn, a

    @property
    def known(self):
        return [self.urn] + [urn for urn, _ in self.exts]

    def find(self, ext, name):
        for e, a in self.top():
            if e == ext and a.name.lower() == name.lower():
                return a
        return None


RO, RW, WO, IM = "readOnly", "readWrite", "writeOnly", "immutable"

SCHEMAS = A("schemas", "uri", mv=True, req=True, mut=RO, ret="always")
ID = A("id", ce=True, req=True, mut=RO, ret="always", uniq="server", issuer="SERVER", bulkid=True)
EXTERNAL_ID = A("externalId", ce=True, issuer="CLIENT")
META = C(
    "meta",
    A("resourceType", ce=True, mut=RO, issuer="SERVER"),
    A("created", "dateTime", mut=RO, issuer="SERVER"),
    A("lastModified", "dateTime", mut=RO, issuer="SERVER"),
    A("location", "uri", mut=RO, issuer="SERVER"),
    A("version", ce=True, mut=RO, issuer="SERVER"),
    mut=RO, issuer="SERVER",
)
COMMON = (SCHEMAS, ID, EXTERNAL_ID, META)


def _mv(name, *subs, **kw):
    return C(name, *subs, mv=True, **kw)


def _std(value_type="string", types=None):
    return (
        A("value", value_type), A("display"), A("type", canon=types), A("primary", "boolean"),
    )


# RFC 7643, sections 4 and 8.7
USER = S(
    urn="urn:ietf:params:scim:schemas:core:2.0:User", name="User", plural="Users",
    attrs=COMMON + (
        A("userName", req=True, uniq="server"),
        C("name", A("formatted"), A("familyName"), A("givenName"), A("middleName"),
          A("honorificPrefix"), A("honorificSuffix")),
        A("displayName"), A("nickName"), A("profileUrl", "external"), A("title"), A("userType"),
        A("preferredLanguage"), A("locale"), A("timezone"), A("active", "boolean"),
        A("password", mut=WO, ret="never"),
        _mv("emails", *_std(types=("work", "home", "other"))),
        _mv("phoneNumbers",
            *_std(types=("work", "home", "mobile", "fax", "pager", "other"))),
        _mv("ims", *_std()),
        _mv("photos", *_std("external", ("photo", "thumbnail"))),
        _mv("addresses", A("formatted"), A("streetAddress"), A("locality"), A("region"),
            A("postalCode"), A("country"), A("type", canon=("work", "home", "other"))),
        _mv("groups", A("value", mut=RO), A("$ref", "uri", mut=RO), A("display", mut=RO),
            A("type", mut=RO, canon=("direct", "indirect")), mut=RO),
        _mv("entitlements", *_std()),
        _mv("roles", *_std()),
        _mv("x509Certificates", *_std("binary")),
    ),
    exts=((
        "urn:ietf:params:scim:schemas:extension:enterprise:2.0:User",
        (
            A("employeeNumber"), A("costCenter"), A("organization"), A("division"),
            A("department"),
            C("manager", A("value"), A("$ref", "scim", refs=("User",)),
              A("displayName", mut=RO)),
        ),
    ),),
)
GROUP = S(
    urn="urn:ietf:params:scim:schemas:core:2.0:Group", name="Group", plural="Groups",
    attrs=COMMON + (
        A("displayName", req=True),
        _mv("members", A("value", mut=IM), A("$ref", "uri", mut=IM), A("display", mut=IM)),
    ),
)
ERROR = S(
    urn="urn:ietf:params:scim:api:messages:2.0:Error",
    attrs=(
        SCHEMAS,
        A("status", req=True, ret="always"),
        A("scimType", ret="always", strict=True, canon=(
            "invalidFilter", "tooMany", "uniqueness", "mutability", "invalidSyntax",
            "invalidPath", "noTarget", "invalidValue", "invalidVers", "sensitive")),
        A("detail", ret="always"),
    ),
)


# ---------------------------------------------------------------- values

_URL = re.compile(r"[a-zA-Z][a-zA-Z0-9+.\-]*://[^/?#\[\]]+([/?#].*)?", re.DOTALL)
_B64 = re.compile(r"[A-Za-z0-9+/]*={0,2}")


def lower_keys(d):
    """Case-insensitive view of a JSON object; the last spelling wins."""
    return {k.lower(): v for k, v in d.items() if isinstance(k, str)}


def is_num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def is_b64(text):
    if not _B64.fullmatch(text) or len(text) % 4:
        return False
    return base64.b64encode(base64.b64decode(text)).decode() == text


def value(type_, v, direction, complex_ok=dict):
    """-> (value, code or None)"""
    if type_ == "unknown":
        return v, None
    if type_ == "boolean":
        return (v, None) if isinstance(v, bool) else (INVALID, BAD_TYPE)
    if type_ == "integer":
        if isinstance(v, float) and v == v and abs(v) != float("inf") and v == int(v):
            return int(v), None
        if isinstance(v, int) and not isinstance(v, bool):
            return v, None
        return INVALID, BAD_TYPE
    if type_ == "decimal":
        if isinstance(v, float):
            return v, None
        if isinstance(v, int) and not isinstance(v, bool):
            try:
                return float(v), None
            except OverflowError:
                return INVALID, SYNTAX
        return INVALID, BAD_TYPE
    if type_ == "complex":
        return (v, None) if isinstance(v, complex_ok) else (INVALID, BAD_TYPE)
    if type_ == "dateTime" and direction == "dump":
        return (v.isoformat(), None) if isinstance(v, datetime) else (INVALID, BAD_TYPE)
    if not isinstance(v, str):
        return INVALID, BAD_TYPE
    if type_ == "dateTime":
        try:
            return datetime.fromisoformat(v), None
        except ValueError:
            return INVALID, SYNTAX
    if type_ == "binary":
        return (v, None) if is_b64(v) else (INVALID, BASE64)
    if type_ == "external":
        return (v, None) if _URL.fullmatch(v) else (INVALID, BAD_URL)
    return v, None  # string, uri, scim


def canonical(a, v):
    if a.canon is None or not a.strict or v is INVALID:
        return True
    for c in a.canon:
        if isinstance(c, str) and isinstance(v, str) and not a.ce:
            if c.lower() == v.lower():
                return True
        elif type(c) is type(v) and c == v:
            return True
    return False


def simple(a, v, direction):
    """One value of an attribute -> (value, code or None)"""
    v, code = value(a.type, v, direction)
    if code is None and not canonical(a, v):
        return INVALID, NOT_ONE_OF
    return v, code


def complex_item(a, v, direction):
    """-> (dict with declared spelling, issues)"""
    out, issues = {}, []
    given = lower_keys(v)
    for s in a.subs:
        if s.name.lower() not in given:
            continue
        got, sub_issues = attribute(s, given[s.name.lower()], direction)
        issues += [((s.name,) + loc, code) for loc, code in sub_issues]
        out[s.name] = got
    return out, issues


def attribute(a, v, direction):
    """-> (value, [(location, code)])"""
    if v is None:
        return None, []
    if a.mv:
        if not isinstance(v, list):
            return INVALID, [((), BAD_TYPE)]
        out, issues = [], []
        for i, item in enumerate(v):
            got, code = simple(a, item, direction)
            if code is not None:
                issues.append(((i,), code))
                if a.type == "complex":
                    got = {}
            elif a.type == "complex":
                got, sub_issues = complex_item(a, got, direction)
                issues += [((i,) + loc, code) for loc, code in sub_issues]
            out.append(got)
        if not issues and a.type == "complex" and a.sub("primary"):
            if sum(item.get(a.sub("primary").name) is True for item in out) > 1:
                issues.append(((), PRIMARY))
        if not issues and a.post and direction == "dump":
            out, issues = a.post(out)
        return out, issues
    got, code = simple(a, v, direction)
    if code is not None:
        return INVALID, [((), code)]
    if a.type == "complex":
        return complex_item(a, got, direction)
    if a.bulkid and "bulkId" in got:
        return INVALID, [((), RESERVED)]
    return got, []


# ---------------------------------------------------------------- schemas


def schema(s, body, direction):
    """-> (data, issues); data = {'': {attr: value}, extension: {attr: value}} or INVALID"""
    if body is None:
        return INVALID, [((), ABSENT)]
    if not isinstance(body, dict):
        return INVALID, [((), BAD_TYPE)]
    given, issues = lower_keys(body), []
    blocks = {"": given}
    for urn, _ in s.exts:
        block = given.get(urn.lower())
        if block is None:
            continue
        if isinstance(block, dict):
            blocks[urn] = lower_keys(block)
        else:
            issues.append(((urn,), BAD_TYPE))
    data = {"": {}}
    for ext, a in s.top():
        if a.name.lower() not in blocks.get(ext, {}):
            continue
        got, attr_issues = attribute(a, blocks[ext][a.name.lower()], direction)
        where = (ext, a.name) if ext else (a.name,)
        issues += [(where + loc, code) for loc, code in attr_issues]
        data.setdefault(ext, {})[a.name] = got
    uris = data[""].get("schemas", MISSING)
    if uris not in (MISSING, INVALID, None) and uris and not any(
        loc[:1] == ("schemas",) for loc, _ in issues
    ):
        listed = [u.lower() for u in uris]
        if any(u not in [k.lower() for k in s.known] for u in listed):
            issues.append((("schemas",), UNKNOWN_SCHEMA))
        if s.urn.lower() not in listed:
            issues.append((("schemas",), NO_MAIN_SCHEMA))
        for ext in data:
            if ext and ext.lower() not in listed:
                issues.append((("schemas",), NO_EXTENSION))
    return data, issues


def dump_resource(s, body):
    data, issues = schema(s, body, "dump")
    if data is INVALID:
        return data, issues
    meta = data[""].get("meta")
    if isinstance(meta, dict) and "resourceType" in meta:
        if meta["resourceType"] is not INVALID and meta["resourceType"] != s.name:
            issues.append((("meta", "resourceType"), RESOURCE_TYPE))
    return data, issues


def flat(data):
    """Plain JSON form of the processed data."""
    out = dict(data[""])
    for ext, block in data.items():
        if ext:
            out[ext] = dict(block)
    return out


# ---------------------------------------------------------------- presence


@dataclass(frozen=True)
class R:
    """Reference to an attribute, as a client writes it."""

    attr: str
    sub: str = ""
    urn: str = ""

    def text(self):
        return (f"{self.urn}:" if self.urn else "") + self.attr + (f".{self.sub}" if self.sub else "")

    def same_top(self, urn, attr):
        if self.urn and self.urn.lower() != urn.lower():
            return False
        return self.attr.lower() == attr.lower()

    def same(self, urn, attr, sub):
        return self.same_top(urn, attr) and self.sub.lower() == sub.lower()


def presence(s, data, direction, refs=(), include=None, ignore=()):
    """Issues of absent required attributes and of attributes that must not be returned.

    ignore: set of (extension, attr, sub) whose absence is tolerated.
    """
    issues = []

    def check(v, a, ext, attr, sub, where):
        urn = ext or s.urn
        named = any(r.same(urn, attr, sub) for r in refs)
        whole = any(not r.sub and r.same_top(urn, attr) for r in refs)
        part = any(r.same_top(urn, attr) for r in refs)
        empty = v is MISSING or v is None or v == "" or v == []
        if not empty:
            if direction != "RESPONSE":
                return
            if a.ret == "never":
                issues.append((where, RESTRICTED))
            elif a.ret != "always":
                if include is False and named:
                    issues.append((where, RESTRICTED))
                if include is True and not named and not (whole if sub else part):
                    issues.append((where, RESTRICTED))
            return
        if not a.req or (ext, attr.lower(), sub.lower()) in ignore:
            return
        if (
            include is None
            or (include is False and not named and not whole)
            or (include is True and named)
            or (direction == "RESPONSE" and a.ret == "always")
        ):
            issues.append((where, ABSENT))

    for ext, a in s.top():
        block = data.get(ext, {})
        v = block.get(a.name, MISSING)
        where = (ext, a.name) if ext else (a.name,)
        if v is not INVALID:
            check(v, a, ext, a.name, "", where)
        for sub in a.subs:
            if a.mv:
                if v is INVALID or v is MISSING:
                    continue
                if v is None:
                    check(None, sub, ext, a.name, sub.name, where + (sub.name,))
                    continue
                for i, item in enumerate(v):
                    got = INVALID if item is INVALID else item.get(sub.name, MISSING)
                    if got is not INVALID:
                        check(got, sub, ext, a.name, sub.name, where + (i, sub.name))
            else:
                got = v.get(sub.name, MISSING) if isinstance(v, dict) else MISSING
                if got is not INVALID:
                    check(got, sub, ext, a.name, sub.name, where + (sub.name,))
    return issues


def server_issued(s):
    out = set()
    for ext, a in s.top():
        if a.req and a.issuer == "SERVER":
            out.add((ext, a.name.lower(), ""))
        for sub in a.subs:
            if sub.req and sub.issuer == "SERVER":
                out.add((ext, a.name.lower(), sub.name.lower()))
    return out


def without_read_only(s, data):
    """The data a PUT request hands over: read-only attributes are gone."""
    out = {}
    for ext, block in data.items():
        out[ext] = {}
        for name, v in block.items():
            a = s.find(ext, name)
            if a.mut == RO:
                continue
            dropped = {x.name for x in a.subs if x.mut == RO}
            if isinstance(v, dict):
                v = {k: x for k, x in v.items() if k not in dropped}
            elif isinstance(v, list) and a.subs:
                v = [{k: x for k, x in item.items() if k not in dropped} for item in v]
            out[ext][name] = v
    return out
