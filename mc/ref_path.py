"""Reference reader of PATCH operation paths."""
import re

from mc import ref_filter as rf

_NAME = re.compile(r"\w+|\$ref")


def attr_parts(text):
    """-> (urn, attr, sub) or None"""
    if not re.fullmatch(r"(?:[\w.-]+:)*(?:\w+|\$ref)(?:\.(?:\w+|\$ref))?", text):
        return None
    urn, _, tail = text.rpartition(":")
    attr, _, sub = tail.partition(".")
    return urn, attr, sub


def brackets(text):
    """Positions of square brackets outside of string values; None: unterminated string"""
    out, i = [], 0
    while i < len(text):
        if text[i] in "\"'":
            end = text.find(text[i], i + 1)
            if end < 0:
                return None
            i = end
        elif text[i] in "[]":
            out.append((text[i], i))
        i += 1
    return out


def parse(text):
    """-> (urn, attr, sub, filter tree or None, filter sub-attribute or None) or None"""
    found = brackets(text)
    if found is None:
        return None
    if not found:
        parts = attr_parts(text)
        return None if parts is None else parts + (None, None)
    if [b for b, _ in found] != ["[", "]"]:
        return None
    start, end = found[0][1], found[1][1]
    parts = attr_parts(text[:start])
    if parts is None or parts[2]:
        return None
    tree = rf.parse(text[: end + 1])
    if tree is None or tree["op"] != "complex":
        return None
    tail = text[end + 1 :]
    if not tail:
        return parts + (tree, None)
    if tail[0] != "." or not _NAME.fullmatch(tail[1:]):
        return None
    return parts + (tree, tail[1:])
