"""Reference reader of the SCIM filter language (independent of the code under test).

parse(text) returns the expected tree in the form of the library's public ``Filter.to_dict`` or
None when the text is not a filter.
"""
import re

KEYWORDS = {"and", "or", "not"}
BINARY = {"eq", "ne", "co", "sw", "ew", "gt", "ge", "lt", "le"}
TEXT_ONLY = {"co", "sw", "ew"}
ORDERED = {"gt", "ge", "lt", "le"}
_ATTR = re.compile(r"(?:[\w.-]+:)*(?:\w+|\$ref)(?:\.(?:\w+|\$ref))?")
_NUM = re.compile(r"[+-]?\d+|[+-]?(?:\d+\.\d*|\.\d+|\d+)(?:[eE][+-]?\d+)?")


class Bad(Exception):
    pass


def tokenize(text):
    """-> list of (kind, text, space_before); kinds: str ( ) [ ] word"""
    out, i, n = [], 0, len(text)
    space = True
    while i < n:
        ch = text[i]
        if ch.isspace():
            space = True
            i += 1
            continue
        if ch in "\"'":
            end = text.find(ch, i + 1)
            if end < 0:
                raise Bad("unterminated string")
            out.append(("str", text[i : end + 1], space))
            i = end + 1
        elif ch in "()[]":
            out.append((ch, ch, space))
            i += 1
        else:
            j = i
            while j < n and not text[j].isspace() and text[j] not in "()[]\"'":
                j += 1
            out.append(("word", text[i:j], space))
            i = j
        space = False
    return out


def literal(kind, text):
    if kind == "str":
        return text[1:-1]
    if text == "true":
        return True
    if text == "false":
        return False
    if text == "null":
        return None
    if not _NUM.fullmatch(text):
        raise Bad("bad value")
    try:
        return int(text)
    except ValueError:
        value = float(text)
    if value in (float("inf"), float("-inf")):
        raise Bad("not finite")
    return int(value) if value == int(value) else value


def _split_attr(word):
    m = _ATTR.fullmatch(word)
    if not m:
        raise Bad("bad attribute")
    head, _, tail = word.rpartition(":")
    if "." in tail:
        attr, sub = tail.split(".")
    else:
        attr, sub = tail, ""
    return (f"{head}:{attr}" if head else attr), sub


class _Reader:
    def __init__(self, tokens):
        self.t, self.i = tokens, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ("end", "", True)

    def take(self):
        tok = self.peek()
        self.i += 1
        return tok

    def keyword(self, name):
        kind, text, _ = self.peek()
        return kind == "word" and text == name

    def disj(self, inner):
        ops = [self.conj(inner)]
        while self.keyword("or"):
            self.take()
            ops.append(self.conj(inner))
        return ops[0] if len(ops) == 1 else {"op": "or", "sub_ops": ops}

    def conj(self, inner):
        ops = [self.fact(inner)]
        while self.keyword("and"):
            self.take()
            ops.append(self.fact(inner))
        return ops[0] if len(ops) == 1 else {"op": "and", "sub_ops": ops}

    def fact(self, inner):
        if self.keyword("not"):
            self.take()
            return {"op": "not", "sub_op": self.prim(inner, ("and", "or"))}
        return self.prim(inner, KEYWORDS)

    def prim(self, inner, keywords):
        kind, text, _ = self.take()
        if kind == "(":
            sub = self.disj(inner)
            if self.take()[0] != ")":
                raise Bad("not closed")
            return sub
        if kind != "word" or text in keywords:
            raise Bad("operand expected")
        nkind, ntext, nspace = self.peek()
        if nkind == "[":
            if inner or nspace:
                raise Bad("bracket")
            attr, sub_attr = _split_attr(text)
            if sub_attr:
                raise Bad("sub-attribute can not be complex")
            self.take()
            sub = self.disj(True)
            if self.take()[0] != "]":
                raise Bad("not closed")
            return {"op": "complex", "attr_rep": attr, "sub_op": sub}
        if nkind != "word" or not nspace:
            raise Bad("operator expected")
        op = ntext.lower()
        self.take()
        attr, sub_attr = _split_attr(text)
        if op == "pr":
            leaf = {"op": "pr", "attr_rep": sub_attr or attr}
        elif op in BINARY:
            vkind, vtext, vspace = self.take()
            if vkind not in ("word", "str") or not vspace:
                raise Bad("value expected")
            value = literal(vkind, vtext)
            if op in TEXT_ONLY and not isinstance(value, str):
                raise Bad("text expected")
            if op in ORDERED and (value is None or isinstance(value, bool)):
                raise Bad("ordered value expected")
            leaf = {"op": op, "attr_rep": sub_attr or attr, "value": value}
        else:
            raise Bad("unknown operator")
        if sub_attr:
            return {"op": "complex", "attr_rep": attr, "sub_op": leaf}
        return leaf


def parse(text):
    try:
        tokens = tokenize(text)
        reader = _Reader(tokens)
        tree = reader.disj(False)
        if reader.i != len(tokens):
            return None
        # a word glued to a preceding string is only readable when it is a keyword
        for (pk, _, _), (kind, word, space) in zip(tokens, tokens[1:]):
            if pk == "str" and kind == "word" and not space and word not in ("and", "or"):
                return None
        return tree
    except Bad:
        return None


def same(a, b):
    """Equality that distinguishes 1, 1.0 and True."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b
