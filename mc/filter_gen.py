"""Exhaustive generation of filter structures."""
import functools
import itertools


def compositions(n):
    if n == 0:
        yield ()
        return
    for first in range(1, n + 1):
        for rest in compositions(n - first):
            yield (first,) + rest


@functools.lru_cache(None)
def exprs(k, depth, inner, redundant=True):
    """All expression structures with k leaves and at most `depth` nested groups."""
    return tuple(_join(k, depth, inner, "or", "and"))


def _join(k, depth, inner, op, lower):
    for parts in compositions(k):
        choices = [
            _ands(p, depth, inner) if op == "or" else facts(p, depth, inner) for p in parts
        ]
        for combo in itertools.product(*choices):
            yield combo[0] if len(combo) == 1 else (op, combo)


@functools.lru_cache(None)
def _ands(k, depth, inner):
    return tuple(_join(k, depth, inner, "and", None))


@functools.lru_cache(None)
def facts(k, depth, inner):
    out = []
    for p in prims(k, depth, inner):
        out.append(p)
        out.append(("not", p))
    return tuple(out)


@functools.lru_cache(None)
def prims(k, depth, inner):
    out = []
    if k == 1:
        out.append(("leaf",))
    if depth > 0:
        out.extend(("group", e) for e in exprs(k, depth - 1, inner))
    if not inner:
        out.extend(("complex", e) for e in exprs(k, min(depth, 1) if k > 1 else 0, True))
    return tuple(out)


def render(node, leaves, complexes, style, counter=None):
    """-> (text, tree). leaves(i) -> (text, tree); complexes(i) -> attribute text."""
    counter = counter if counter is not None else [0, 0]
    kind = node[0]
    if kind == "leaf":
        i = counter[0]
        counter[0] += 1
        return leaves(i)
    if kind == "not":
        text, tree = render(node[1], leaves, complexes, style, counter)
        return style.not_(node[1][0] == "group") + text, {"op": "not", "sub_op": tree}
    if kind == "group":
        text, tree = render(node[1], leaves, complexes, style, counter)
        return style.group(text), tree
    if kind == "complex":
        attr = complexes(counter[1])
        counter[1] += 1
        text, tree = render(node[1], leaves, complexes, style, counter)
        return attr + style.bracket(text), {"op": "complex", "attr_rep": attr, "sub_op": tree}
    parts = [render(sub, leaves, complexes, style, counter) for sub in node[1]]
    text = parts[0][0]
    for part, _ in parts[1:]:
        text = style.join(text, kind, part)
    return text, {"op": kind, "sub_ops": [tree for _, tree in parts]}


class Style:
    """Whitespace conventions."""

    def __init__(self, ws=" ", pad="", tight=False, outer=""):
        self.ws, self.pad, self.tight, self.outer = ws, pad, tight, outer

    def not_(self, before_group):
        return "not" + ("" if self.tight and before_group else self.ws)

    def group(self, text):
        return f"({self.pad}{text}{self.pad})"

    def bracket(self, text):
        return f"[{self.pad}{text}{self.pad}]"

    def join(self, left, op, right):
        lsep = "" if self.tight and left[-1] in ")]\"'" else self.ws
        rsep = "" if self.tight and right[0] == "(" else self.ws
        return f"{left}{lsep}{op}{rsep}{right}"


STYLES = [
    Style(),
    Style(ws="  ", pad=" ", outer=" "),
    Style(tight=True),
    Style(ws="\t", pad="\n", outer="\n"),
    Style(ws=" \n ", pad="", outer="\t "),
]
