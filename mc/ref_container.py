"""Reference model of the case-insensitive attribute map."""


class Refused(Exception):
    pass


MISSING = "<missing>"


class Map:
    def __init__(self, d=None):
        self.d = {}  # lower-case key -> (spelling, value)
        for k, v in (d or {}).items():
            if isinstance(k, str):
                self.d[k.lower()] = (k, wrap(v))

    def plain(self):
        return {k: unwrap(v) for k, v in self.d.values()}

    def lower(self):
        return {k: lower(v) for k, (_, v) in self.d.items()}


def wrap(v):
    if isinstance(v, dict):
        return Map(v)
    if isinstance(v, list):
        return [wrap(x) for x in v]
    return v


def unwrap(v):
    if isinstance(v, Map):
        return v.plain()
    if isinstance(v, list):
        return [unwrap(x) for x in v]
    return v


def lower(v):
    if isinstance(v, Map):
        return v.lower()
    if isinstance(v, list):
        return [lower(x) for x in v]
    return v


def block(m, urn, extension):
    """-> key of the nested block an attribute belongs to, or None for the map itself"""
    if urn and (extension or urn.lower() in m.d):
        return urn.lower()
    return None


def get(m, urn, attr, sub="", extension=False):
    key = block(m, urn, extension)
    if key is not None:
        inner = m.d.get(key, (None, None))[1]
        return get(inner, "", attr, sub) if isinstance(inner, Map) else MISSING
    if attr.lower() not in m.d:
        return MISSING
    v = m.d[attr.lower()][1]
    if not sub:
        return v
    if isinstance(v, Map):
        return get(v, "", sub)
    if isinstance(v, list):
        return [get(x, "", sub) if isinstance(x, Map) else MISSING for x in v]
    return MISSING


def put(m, value, urn, attr, sub="", extension=False):
    key = block(m, urn, extension)
    if key is not None:
        if key not in m.d:
            m.d[key] = (urn, Map())
        if not isinstance(m.d[key][1], Map):
            raise Refused()
        return put(m.d[key][1], value, "", attr, sub)
    if not sub:
        m.d[attr.lower()] = (attr, value)
        return None
    if attr.lower() not in m.d:
        m.d[attr.lower()] = (attr, [] if isinstance(value, list) else Map())
    current = m.d[attr.lower()][1]
    if isinstance(current, Map):
        return put(current, value, "", sub)
    if not (isinstance(value, list) and isinstance(current, list)
            and all(isinstance(x, Map) for x in current)):
        raise Refused()
    while len(current) < len(value):
        current.append(Map())
    for item, v in zip(current, value):
        if v != MISSING:
            put(item, v, "", sub)
    return None


def delete(m, urn, attr, sub="", extension=False):
    key = block(m, urn, extension)
    if key is not None:
        inner = m.d.get(key, (None, None))[1]
        if isinstance(inner, Map):
            delete(inner, "", attr, sub)
        return
    if attr.lower() not in m.d:
        return
    if not sub:
        del m.d[attr.lower()]
        return
    v = m.d[attr.lower()][1]
    for x in v if isinstance(v, list) else [v]:
        if isinstance(x, Map):
            delete(x, "", sub)
