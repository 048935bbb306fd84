"""Small schemas covering every combination of few characteristics at every place of a schema.

A case is (place, deviations): the attribute "x" under observation stands at that place and differs
from a plain optional string in the given characteristics ("p..." ones are those of its parent).
"""
import functools
import itertools
from datetime import datetime, timezone

from mc import ref_schema as rs
from mc.lib import lib_schema
from mc.ref_schema import A, C

MAIN, EXT = "urn:t:2.0:Chr", "urn:t:2.0:ChrExt"
PLACES = ("top", "one", "many", "xtop", "xone", "xmany")
OWN = {
    "type": ("integer", "decimal", "boolean", "dateTime", "binary", "external", "uri", "scim", "unknown"),
    "mv": (True,), "req": (True,), "ce": (True,), "canon": ("lax", "strict"),
    "mut": ("readOnly", "writeOnly", "immutable"), "ret": ("always", "never", "request"),
    "uniq": ("server", "global"), "issuer": ("SERVER", "CLIENT"), "name": ("primary", "id", "value", "$ref"),
}
PARENT = {"p" + k: OWN[k] for k in ("req", "mut", "ret", "uniq", "issuer")}
PARENT["pname"] = ("meta2",)
WHEN = datetime(2011, 5, 13, 4, 42, 34, tzinfo=timezone.utc)
GOOD = {
    "string": ("a", "B"), "integer": (1, 0), "decimal": (1.5, 0.0), "boolean": (True, False),
    "dateTime": ("2011-05-13T04:42:34+00:00", "2012-01-01T00:00:00"), "binary": ("AQ==", "AQID"),
    "external": ("https://a.com/a", "ftp://b"), "uri": ("a", "../B"), "scim": ("a", "../B"), "unknown": ("a", 5),
}
CANON = {"string": ("a", "b"), "uri": ("a", "../b"), "scim": ("a", "../b"), "integer": (1, 0),
         "decimal": (1.5, 0.0), "external": ("https://a.com/a", "ftp://b"), "binary": ("AQ==", "AQID")}
BAD = {"boolean": "true", "unknown": None, "integer": 1.5, "decimal": "1.5", "dateTime": "13 May", "binary": "A",
       "external": "a"}


def definitions(depth, own=tuple(OWN), parent=tuple(PARENT), places=PLACES):
    for place in places:
        dims = [(k, OWN[k]) for k in own]
        if "top" not in place:
            dims += [(k, PARENT[k]) for k in parent]
        else:
            dims = [(k, [x for x in v if x != "$ref"] if k == "name" else v) for k, v in dims]
        for n in range(depth + 1):
            for chosen in itertools.combinations(dims, n):
                for values in itertools.product(*(v for _, v in chosen)):
                    dev = tuple(zip((k for k, _ in chosen), values))
                    if _sensible(place, dict(dev)):
                        yield place, dev


def chosen(deep, own, parent):
    """quick: any one special characteristic, any two of the named ones; deep: any three"""
    if deep:
        yield from definitions(3)
    else:
        yield from definitions(1)
        yield from (c for c in definitions(2, own, parent) if len(c[1]) == 2)


def _sensible(place, d):
    t = d.get("type", "string")
    if "canon" in d and t not in CANON:
        return False
    if d.get("name") == "id" and place == "top":
        return False
    if d.get("name") == "primary" and (t == "boolean") and d.get("mv"):
        return False
    return True


@functools.lru_cache(maxsize=64)
def build(place, dev):
    """-> (table, library schema, x, parent or None)"""
    d = dict(dev)
    t = d.get("type", "string")
    canon = CANON[t] if "canon" in d else None
    x = A(d.get("name", "x"), t, mv=d.get("mv", False), req=d.get("req", False), ce=d.get("ce", False),
          canon=canon, strict=d.get("canon") == "strict", mut=d.get("mut", "readWrite"),
          ret=d.get("ret", "default"), uniq=d.get("uniq", "none"), issuer=d.get("issuer", "NOT_SPECIFIED"),
          refs=("User",) if t == "scim" else ())
    parent = None
    if "top" not in place:
        parent = C(d.get("pname", "p"), A("k"), x, A("z", "integer"), mv="many" in place, req=d.get("preq", False),
                   mut=d.get("pmut", "readWrite"), ret=d.get("pret", "default"), uniq=d.get("puniq", "none"),
                   issuer=d.get("pissuer", "NOT_SPECIFIED"))
    block = (parent or x, A("o"))
    if place.startswith("x"):
        # the core schema has an attribute of the same name and another nature
        twin = A(block[0].name, "integer")
        core = (A("o"),) if twin.name == "id" else (twin, A("o"))
        s = rs.S(MAIN, rs.COMMON + core, "Chr", "Chrs", ((EXT, block),))
    else:
        s = rs.S(MAIN, rs.COMMON + block, "Chr", "Chrs", ((EXT, (A("e"), A(block[0].name, "integer"))),))
    return s, lib_schema(s), x, parent


def own_values(x, dump=False):
    """values of x: (label, value)"""
    one, two = GOOD[x.type]
    if x.type == "dateTime" and dump:
        one, two = WHEN, WHEN.replace(year=2012)
    bad = BAD.get(x.type, 7)
    out = [("absent", rs.MISSING), ("null", None), ("one", one), ("two", two), ("bad", bad)]
    if x.type == "string":
        out.append(("other", "q"))
    if x.mv:
        out = out[:2] + [("empty", []), ("one", [one]), ("two", [one, two, one]), ("bad", [one, bad]), ("flat", one)]
    elif x.type in ("string", "uri", "scim", "binary"):
        out.append(("blank", ""))
    return out


def values(place, x, parent, dump=False):
    """values of the top-level attribute"""
    own = own_values(x, dump)
    if parent is None:
        yield from (v for _, v in own)
        return

    def item(v, **more):
        out = {} if v is rs.MISSING else {x.name: v}
        out.update(more)
        return out

    yield rs.MISSING
    yield None
    if not parent.mv:
        yield {}
        for _, v in own:
            yield item(v, k="k")
        yield 5
        return
    yield []
    yield {}
    good = dict(own)["one"]
    for _, v in own:
        yield [item(v, k="k")]
        yield [item(good, z=1), item(v)]
        yield [item(v), item(v, k="k")]
    yield [item(good), 5]


def open_case(x, parent, value):
    """left open: a required part of an optional single-valued object that is absent"""
    return parent is not None and not parent.mv and x.req and not parent.req and not isinstance(value, dict)


def body(place, x, parent, value, more=None):
    top = parent or x
    out = {"schemas": [MAIN], "id": "1", "o": "o"}
    if place.startswith("x"):
        out["schemas"].append(EXT)
        if top.name != "id":
            out[top.name] = 7
        out[EXT] = {"o": "o"}
        if value is not rs.MISSING:
            out[EXT][top.name] = value
    else:
        if value is not rs.MISSING:
            out[top.name] = value
    out.update(more or {})
    return out


def selections(case, deep=False):
    """no selection and, for definitions that presence rules depend on, every interesting one"""
    place, dev = case
    _, _, x, parent = build(place, dev)
    out = [((), None)] + [(r, inc) for r in refs(place, x, parent) for inc in (True, False)]
    if deep or len(dev) < 2:
        return out
    special = {k for k, _ in dev} & {"req", "ret", "preq", "pret"}
    return out if len(special) > 1 else out[:4] if special else out[:1]


def refs(place, x, parent):
    """selections worth trying: tuples of references"""
    top, sub = parent or x, x.name if parent is not None else ""
    urn = EXT if place.startswith("x") else MAIN
    R = rs.R
    out = [(R(top.name),), (R(top.name.upper() if top.name != "$ref" else top.name, "", urn),), (R("o"),),
           (R("o", "", EXT if urn == EXT else MAIN), R(top.name, "", MAIN if urn == EXT else EXT))]
    if sub:
        out += [(R(top.name, sub),), (R(top.name, "k", urn),), (R(top.name, "k"), R("o"))]
    return out
