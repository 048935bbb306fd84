"""C05: the attribute container is a case-insensitive map, for every history of operations."""
import itertools

from mc import ref_container as rc
from mc.engine import Space, Violation, expect, short
from mc.lib import same
from mc.sizes import places, sizes
from src.data.container import AttrRep, Missing, SCIMDataContainer

PROPERTY = {
    "title": "Attribute container is a case-insensitive map over every history",
    "statement": (
        "For every history of reads, writes and deletes, addressed by attribute name, by "
        "'attribute.subAttribute' or by extension-qualified name in any letter case, a data "
        "container returns the value most recently written to that place and reports absence "
        "otherwise; writing or deleting one attribute never changes another. Names differing only "
        "in letter case denote the same attribute: exporting the container as a dictionary yields "
        "each attribute once, spelled as last written, and two containers are equal exactly when "
        "their contents are equal up to letter case of names. The dictionary a container was built "
        "from, and a dictionary exported from it, stay independent of it; a write to a place that "
        "cannot hold the value is refused and changes nothing."
    ),
    "quantifier": {
        "over": ["histories", "inputs"],
        "text": "all sequences of set/get/delete up to the bound, from several initial "
                "dictionaries, over names, sub-attributes, extensions and letter-case variants",
    },
    "why_tests_cant": (
        "Tests perform one or two operations on a fixed container; stale spellings, leftovers of a "
        "delete or interference between keys only appear in particular longer histories."
    ),
    "anchors": {
        "files": ["src/data/container.py"],
        "mechanism": [
            {"name": "SCIMDataContainer.__setitem__/__getitem__/__delitem__",
             "where": "src/data/container.py"},
            {"name": "lower-case to original key map", "where": "src/data/container.py"},
        ],
        "observe_at": ["SCIMDataContainer", "to_dict", "=="],
    },
}

rc.MISSING = Missing  # the model uses the library's marker of absence
X, Y = "urn:x:2.0:E", "urn:y:1"
# (urn, attr, sub, extension flag)
KEYS = [
    ("", "name", "", False), ("", "NAME", "", False), ("", "nAmE", "sub", False),
    ("", "name", "SUB", False), ("", "name", "other", False), ("", "subA", "", False),
    ("", "list", "", False), ("", "list", "sub", False), ("", "LIST", "Sub", False),
    (X, "name", "", True), (X.upper(), "NAME", "", False), (X, "name", "sub", True),
    (X, "list", "sub", False), (Y, "name", "", False), (Y, "name", "sub", True),
    ("", "$ref", "", False), ("", "name", "$ref", False),
]
VALUES = [
    1, None, "", "v", {"sub": 2, "OTHER": None}, [], ["a", "b"], [{"sub": 3}, {"Other": 4}],
    [{"sub": 5}, "x"], {},
]
SUB_VALUES = [7, [8, 9], [8, Missing, 10], None, {"sub": 1}]
INITIAL = [
    {},
    {"name": {"sub": 1, "other": 2}, "list": [{"sub": 1}, {"sub": 2}, {"other": 3}], "subA": "s"},
    {"Name": "x", "NAME": "y", X: {"name": "e", "list": [{"sub": 1}]}},
    {3: "ignored", "LIST": [{"SUB": 1}, {None: 0, "sub": 2}], X.upper(): {5: 6, "NAME": {"sub": 1}}, True: 1, Y: 5},
]
PLAIN = [
    {"sub": 1}, {"sub": {"a": [1, {"b": None}]}}, [{"sub": 1}, {"Sub": [2]}], [[{"a": 1}]], {"a": [[{"b": 1}], "c"]},
    {}, {"sub": {}}, [{}],
]


def plain_cases():
    """objects handed over as plain dictionaries, with containers in between"""
    for initial in range(len(INITIAL)):
        for key in KEYS:
            if not key[2]:
                for v in range(len(PLAIN)):
                    for depth in range(3):
                        yield initial, key, v, depth


def mixed(v, depth):
    """plain down to the given depth, containers below it"""
    if depth <= 0:
        return to_lib(v)
    if isinstance(v, dict):
        return {k: mixed(x, depth - 1) for k, x in v.items()}
    return [mixed(x, depth - 1) for x in v] if isinstance(v, list) else v


def run_plain(case, ctx):
    initial, key, i, depth = case
    lib, model = SCIMDataContainer(copy(INITIAL[initial])), rc.Map(copy(INITIAL[initial]))
    written = mixed(copy(PLAIN[i]), depth)
    try:
        rc.put(model, rc.wrap(copy(PLAIN[i])), *key[:3], extension=key[3])
    except rc.Refused:
        return
    ctx.step(3)
    lib[rep(key)] = written
    got = lib[rep(key)]
    expect(lib.to_dict() == model.plain(), "%s: contents %s, want %s", case, short(lib.to_dict()), short(model.plain()))
    expect(SCIMDataContainer({"x": got}).to_dict() == {"x": PLAIN[i]}, "%s: reads %s", case, short(got))
    spoil(lib.to_dict())
    expect(lib.to_dict() == model.plain(), "%s: changing an exported dictionary changed the container", case)
    ctx.state((initial, repr(model.lower())))


def to_lib(v):
    if isinstance(v, dict):
        return SCIMDataContainer(v)
    if isinstance(v, list):
        return [to_lib(x) for x in v]
    return v


def from_lib(v):
    if isinstance(v, SCIMDataContainer):
        return v.to_dict()
    if isinstance(v, list):
        return [from_lib(x) for x in v]
    return v


def copy(v):
    if isinstance(v, dict):
        return {k: copy(x) for k, x in v.items()}
    return [copy(x) for x in v] if isinstance(v, list) else v


def rep(key):
    urn, attr, sub, ext = key
    return AttrRep(urn, attr, sub, ext)


def text(key):
    urn, attr, sub, _ = key
    return (urn + ":" if urn else "") + attr + ("." + sub if sub else "")


def ops(values, sub_values, keys):
    out = []
    for key in keys:
        out.append(("del", key))
        for v in sub_values if key[2] else values:
            out.append(("set", key, v))
    return out


def swapped(v):
    if isinstance(v, dict):
        return {k.swapcase(): swapped(x) for k, x in v.items()}
    if isinstance(v, list):
        return [swapped(x) for x in v]
    return v


def observe(lib, model, ctx, keys=None):
    """Everything a user can see of the container."""
    ctx.step()
    got, want = lib.to_dict(), model.plain()
    if not same(got, want):
        raise Violation(f"contents {short(got)}, want {short(want)}")
    for key in keys or KEYS:
        want_value = rc.unwrap(rc.get(model, *key[:3], extension=key[3]))
        got_value = from_lib(lib[rep(key)])
        if not same(got_value, want_value):
            raise Violation(f"[{key}] = {short(got_value)}, want {short(want_value)}")
        if not key[3]:
            got_value = from_lib(lib[text(key)])
            if not same(got_value, want_value):
                raise Violation(f"[{text(key)!r}] = {short(got_value)}, want {short(want_value)}")
    expect(lib == want, "not equal to its own contents")
    expect(lib == swapped(want), "not equal to its contents in other letter case")
    expect(lib == SCIMDataContainer(swapped(want)), "not equal to a container in other letter case")
    expect(not lib == dict(want, unrelated=1), "equal to contents with an extra attribute")
    for k in want:
        less = {a: b for a, b in want.items() if a != k}
        expect(not lib == less, "equal to contents without %r", k)
        expect(not SCIMDataContainer(less) == want, "equal to contents with an extra %r", k)
        expect(not lib == dict(want, **{k: "changed"}), "equal to contents with other %r", k)
        expect(not dict(want, **{k: "changed"}) == lib, "equal to contents with other %r", k)


def spoil(v):
    """Overwrites everything reachable in an exported dictionary."""
    if isinstance(v, dict):
        for x in v.values():
            spoil(x)
        v["spoiled"] = 1
    elif isinstance(v, list):
        for x in v:
            spoil(x)
        v.append("spoiled")


def run(case, ctx):
    initial, history = case
    execute(INITIAL[initial], history, ctx)


def execute(initial, history, ctx, keys=None):
    source = copy(initial)
    lib, model = SCIMDataContainer(source), rc.Map(copy(initial))
    if not history:
        observe(lib, model, ctx, keys)
    for i, op in enumerate(history):
        key = op[1]
        # alternate the two ways of addressing
        lib_key = text(key) if not key[3] and (i + len(history)) % 2 else rep(key)
        ctx.step()
        if op[0] == "del":
            del lib[lib_key]
            rc.delete(model, *key[:3], extension=key[3])
        else:
            value = copy(op[2])
            try:
                rc.put(model, rc.wrap(copy(value)), *key[:3], extension=key[3])
                refused = False
            except rc.Refused:
                refused = True
            try:
                lib[lib_key] = to_lib(value)
                if refused:
                    raise Violation(f"{op}: accepted, want a refusal")
            except KeyError:
                if not refused:
                    raise Violation(f"{op}: refused")
        if i == len(history) - 1:
            observe(lib, model, ctx, keys)
    expect(same(source, initial) and list(source) == list(initial),
           "the source dictionary was modified: %r", source)
    exported = lib.to_dict()
    spoil(exported)
    expect(lib.to_dict() == model.plain(), "changing an exported dictionary changed the container")
    spoil(source)
    expect(lib.to_dict() == model.plain(), "changing the source dictionary changed the container")
    ctx.state((repr(initial), repr(model.lower())))
    ctx.outcome(len(model.d))


def histories(depth, alphabet, initials=range(len(INITIAL))):
    for initial in initials:
        for n in range(depth + 1):
            for history in itertools.product(alphabet, repeat=n):
                yield initial, history


# values that are easily taken for absence, and lists of every length
FALSY = [False, 0, 0.0, "", None, [], {}]
WIDE = FALSY + [
    True, 1.5, -1, " ", "Missing", "null", "name", [None], [False], [""], [0, 1], [[]], [["a"], []], [{}], [{}, {}],
    [{"sub": False}, {"sub": 0}], [{"sub": ""}, {"sub": None}], [{"sub": [1]}, {"SUB": {"a": 1}}], {"sub": False},
    {"sub": [False]}, {"sub": [{"sub": 1}]}, {"a": {"b": {"c": 1}}}, {"name": 1, "list": 2}, {"SUB": None},
    ["a", {"sub": 1}, None, 3],
]
WIDE_SUB = FALSY + [True, "x", ["x"], [False], [0], [None], ["", "y"], [True, False], [False, True, 0],
                    [Missing, False], [None, None, None, None], [[], {}], [{"a": 1}, {}], ["a", "b", "c", "d", "e"],
                    [Missing, Missing], {"sub": False}]


NESTED = [
    [[]], [[1]], [["a"], ["b", "c"]], [[{"sub": 1}]], [[[{"sub": 1}]]], [[{"sub": [{"sub": [1]}]}], {"sub": [[2]]}],
    {"sub": [[{"a": 1}]]}, {"sub": {"a": {"b": [1]}}}, [{"sub": {"a": [{"b": 1}]}}], {"sub": {"a": {"b": {"c": {"d": 1}}}}},
]


def value_cases():
    """a value of every kind, then a write of every kind of value into (or next to) it"""
    for v in NESTED + WIDE:
        for wrap in (lambda x: {"name": x}, lambda x: {X: {"name": x, "list": 1}}, lambda x: {"name": {"sub": x}},
                     lambda x: {"list": [{"sub": x}, x]}, lambda x: {"list": [x] * 3, "NAME": {"SUB": 1}}):
            yield wrap(v), []
            yield wrap(v), [("set", ("", "subA", "", False), v)]
            yield wrap(v), [("del", ("", "name", "", False))]
            yield wrap(v), [("set", (X, "list", "", True), v)]
    tops = [("", "name", "", False), (X, "list", "", True)]
    subs = [("", "name", "sub", False), ("", "NAME", "Sub", False), ("", "name", "new", False),
            (X.upper(), "list", "sub", True), (X, "list", "new", False), ("", "list", "sub", False)]
    for initial in INITIAL[:2]:
        for top in tops:
            for v in WIDE:
                yield initial, [("set", top, v)]
                for sub in subs:
                    yield initial, [("set", top, v), ("del", sub)]
                    for w in WIDE_SUB:
                        yield initial, [("set", top, v), ("set", sub, w)]
                for other in tops:
                    for w in WIDE:
                        yield initial, [("set", top, v), ("set", other, w)]


def run_value(case, ctx):
    execute(case[0], case[1], ctx)


# names that resemble one another, or the names of things inside of the code
NAMES = ["name", "nam", "names", "name1", "na_me", "_name", "value", "primary", "schemas", "meta", "id", "_data", "d",
         "1", "$ref", "ref", "keys", "sub_attr", "urn", "x"]


def name_cases():
    def upper(x):
        return x if x.startswith("$") else x.upper()  # '$ref' is a fixed spelling

    for a, b in itertools.permutations(NAMES, 2):
        ka, kb = ("", a, "", False), ("", b, "", False)
        sa, sb = ("", a, b, False), ("", b, a, False)
        keys = [ka, kb, sa, sb, ("", a, a, False), ("", upper(a), upper(b), False), (X, a, "", True), (X, b, a, True)]
        base = {"first": 0, a: {a: 1, b: [2]}, "last": 3}
        for history in (
            [("set", ka, 1), ("set", kb, 2)], [("set", ka, 1), ("set", kb, 2), ("del", ka)],
            [("set", sa, 1), ("set", sb, 2), ("del", ("", upper(a), b, False))],
            [("set", sa, 1), ("set", ("", a, a, False), 2)], [("set", kb, {a: 1, b: 2}), ("del", sb)],
            [("set", kb, [{a: 1, b: 2}, {b: 3}]), ("set", sb, [4, 5, 6])],
            [("set", (X, a, "", True), 1), ("set", ka, 2), ("set", (X, b, a, True), [3]), ("del", ka)],
            [("del", sa)], [("del", ("", a, a, False))], [("set", ("", upper(a), "", False), 5)],
        ):
            yield base, history, keys
            yield {}, history, keys


def size_cases():
    for n in sizes(520):
        for p in places(n):
            yield n, p


def run_size(case, ctx):
    """long lists, long names, many attributes"""
    n, p = case
    items = [{"sub": i, "other": -i} for i in range(n)]
    keys = [("", "list", "", False), ("", "LIST", "Sub", False), ("", "list", "other", False)]
    values = list(range(n))
    values[p] = Missing
    execute({"list": items}, [("set", ("", "list", "sub", False), values)], ctx, keys)
    execute({"list": items}, [("set", ("", "list", "new", False), ["x"] * p)], ctx, keys)
    execute({"list": items[:p]}, [("set", ("", "list", "Sub", False), values)], ctx, keys)
    execute({"list": items}, [("del", ("", "list", "sub", False))], ctx, keys)
    execute({"list": items, "name": "x" * n}, [("set", ("", "list", "", False), items[:p] + items[p + 1:])], ctx, keys)
    if n > 130:
        return
    names = {f"a{i}": i for i in range(n)}
    keys = [("", f"a{p}", "", False), ("", f"A{p}", "", False), ("", "a0", "", False), ("", f"a{n - 1}", "", False),
            ("", f"a{n}", "", False)]
    for target, spelled in (("a", "a"), ("a", "A")):
        execute(names, [("set", ("", f"{spelled}{p}", "", False), "new")], ctx, keys)
        execute(names, [("del", ("", f"{spelled}{p}", "", False))], ctx, keys)
    long, other = "n" * n, "n" * p + "m" * (n - p)
    execute({}, [("set", ("", long, "", False), 1), ("set", ("", other, "", False), 2),
                 ("set", ("", long.upper(), "", False), 3)], ctx,
            [("", long, "", False), ("", other, "", False), ("", other.upper(), "", False)])


def run_name(case, ctx):
    execute(*case[:2], ctx, keys=case[2])


SMALL_KEYS = [KEYS[i] for i in (0, 1, 2, 5, 7, 9, 10, 13)]


def spaces(tier):
    full = ops(VALUES, SUB_VALUES, KEYS)
    small = ops([1, {"sub": 2}, [{"sub": 3}]], [7, [8, 9]], SMALL_KEYS)
    tiny = ops([1, {"sub": 2}], [7], SMALL_KEYS[:5])
    deep = tier == "thorough"
    return [
        Space("all operations", f"all histories of <= 2 of {len(full)} operations, "
              f"{len(INITIAL)} initial contents", lambda: histories(2, full), run, block=64),
        Space("values", f"every pair of writes of {len(WIDE)} x {len(WIDE)}/{len(WIDE_SUB)} values, core and "
              "extension, whole attributes and sub-attributes", value_cases, run_value, block=64),
        Space("plain objects", "plain dictionaries written, containers from any depth", plain_cases, run_plain, block=32),
        Space("names", f"all ordered pairs of {len(NAMES)} names, 10 histories each", name_cases, run_name, block=16),
        Space("sizes", "lists up to 513 items, up to 129 attributes, names up to 129 letters", size_cases, run_size),
        Space("core operations", f"all histories of <= {4 if deep else 3} of {len(small)} "
              "operations", lambda: histories(4 if deep else 3, small, (0, 1) if not deep else (0, 1, 3)), run, block=64),
        Space("deep histories", f"all histories of <= {5 if deep else 4} of {len(tiny)} "
              "operations", lambda: histories(5 if deep else 4, tiny, (0,) if not deep else (0, 2)), run, block=64),
    ]
