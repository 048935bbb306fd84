"""Reference sorting."""
from datetime import datetime

from mc import ref_eval as re_
from mc import ref_schema as rs


def order(keys, asc):
    """Indices in sorted order: stable insertion sort; None last (ascending) or first."""
    def before(a, b):  # a strictly before b in ascending order
        if a is None or b is None:
            return a is not None and b is None
        return a < b

    out = []
    for i, k in enumerate(keys):
        pos = len(out)
        while pos and (before(k, keys[out[pos - 1]]) if asc else before(keys[out[pos - 1]], k)):
            pos -= 1
        out.insert(pos, i)
    return out


def find(s, ref):
    """-> (extension urn, attribute) or (None, None)"""
    if ref.urn and ref.urn.lower() != s.urn.lower():
        for urn, _ in s.exts:
            if urn.lower() == ref.urn.lower():
                return urn, s.find(urn, ref.attr)
        return None, None
    return "", s.find("", ref.attr)


def key(s, data, ref):
    """Sort key of processed data ({'': ..., extension: ...}) of a resource of schema s."""
    ext, a = find(s, ref)
    if a is None:
        return None
    v = data.get(ext, {}).get(a.name)
    leaf = a
    if ref.sub or (a.subs and a.mv):
        leaf = a.sub(ref.sub or "value")
        if leaf is None or v is None:
            return None
        if a.mv:
            v = [item for item in v if item.get("primary") is True][:1]
            v = v[0] if v else {}
        v = v.get(leaf.name)
    elif a.mv:
        v = v[0] if v else None
    if v is None or v == "":
        return None
    if leaf.type == "dateTime":
        return datetime.fromisoformat(v).timestamp()
    if isinstance(v, str) and not leaf.ce:
        return v.lower()
    return v


def _attr(a):
    kind = "reference" if a.type in ("uri", "external", "scim") else a.type
    return dict(type=kind, multi=a.mv, cs=a.ce, subs={x.name: _attr(x) for x in a.subs})


def model(s):
    """Filter-evaluation model of a schema table."""
    return re_.Model(s.urn, {a.name: _attr(a) for a in s.attrs},
                     {urn: {a.name: _attr(a) for a in attrs} for urn, attrs in s.exts})
