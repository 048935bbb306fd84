"""C10: the collection of validation issues, for every history of operations."""
import itertools

from mc.engine import Space, Violation, expect, short
from mc.sizes import places, sizes
from src.error import ValidationError, ValidationIssues

PROPERTY = {
    "title": "Collected validation issues stay exact under any history of operations",
    "statement": (
        "For every history of adding, merging, extracting and removing validation issues, a "
        "collection reports precisely the issues added or merged and not yet removed, each at its "
        "location (prefixed by the location given on merging), in order of arrival. A location has "
        "issues exactly when one is recorded at or below it, and processing may proceed at a "
        "location exactly when no blocking issue is recorded at it or above it. Merged, extracted "
        "and removed collections are independent: later changes to one never show in another, and "
        "removing one kind of issue at a location leaves every other issue, and its blocking "
        "effect, in place."
    ),
    "quantifier": {
        "over": ["histories"],
        "text": "all histories of add/merge/get/pop on two collections up to the bound, over nested "
                "locations, several issue kinds, blocking or not",
    },
    "why_tests_cant": (
        "Tests never combine more than a couple of operations; aliasing between merged collections "
        "and blocking marks left behind by removal need specific sequences."
    ),
    "anchors": {
        "files": ["src/error.py"],
        "mechanism": [{"name": "ValidationIssues.add/merge/get/pop/can_proceed/has_issues/to_dict",
                       "where": "src/error.py"}],
        "state": [{"name": "_issues, _stop_proceeding", "meaning": "issues and blocking codes per "
                   "location", "where": "src/error.py"}],
        "observe_at": ["ValidationIssues"],
    },
}

LOCATIONS = [(), ("a",), ("a", 0), ("a", "b"), ("b",), ("a", 0, "c")]
CODES = {15: ValidationError.missing, 27: ValidationError.unknown_schema, 1: ValidationError.bad_value_syntax}


class Model:
    def __init__(self):
        self.issues = []  # (location, code) in order
        self.stops = set()

    def add(self, loc, code, proceed):
        self.issues.append((loc, code))
        if not proceed:
            self.stops.add((loc, code))

    def merge(self, other, loc):
        self.issues += [(loc + x, c) for x, c in list(other.issues)]
        self.stops |= {(loc + x, c) for x, c in other.stops}

    def get(self, loc):
        out, n = Model(), len(loc)
        out.issues = [(x[n:], c) for x, c in self.issues if x[:n] == loc]
        out.stops = {(x[n:], c) for x, c in self.stops if x[:n] == loc}
        return out

    def pop(self, loc, code):
        out = Model()
        for x in self.issues:
            if x == (loc, code):
                out.add((), code, x not in self.stops)
        self.issues = [x for x in self.issues if x != (loc, code)]
        self.stops.discard((loc, code))
        return out

    def has(self, *locs):
        return any(x[: len(loc)] == loc for loc in locs or [()] for x, _ in self.issues)

    def proceed(self, *locs):
        return not any(loc[: len(x)] == x for loc in locs or [()] for x, _ in self.stops)

    def to_dict(self, msg=False, ctx=False):
        out = {}
        for loc, code in self.issues:
            node = out
            for part in loc:
                node = node.setdefault(str(part), {})
            item = {"code": code}
            if msg:
                item["error"] = str(CODES[code]())
            if ctx:
                item["context"] = {}
            node.setdefault("_errors", []).append(item)
        return out


def observe(lib, model, what):
    for msg, ctx in ((False, False), (True, False), (False, True), (True, True)):
        got, want = lib.to_dict(msg=msg, ctx=ctx), model.to_dict(msg=msg, ctx=ctx)
        if got != want:
            raise Violation(f"{what}: {short(got)}, want {short(want)}")
    expect(lib.has_issues() is model.has(), "%s: has_issues() is wrong", what)
    expect(lib.can_proceed() is model.proceed(), "%s: can_proceed() is wrong", what)
    for loc in LOCATIONS + [("a", 1), ("z",), ("a", 0, "c", "d"), ("b", "a")]:
        expect(lib.has_issues(loc) is model.has(loc), "%s: has_issues(%r) is wrong", what, loc)
        expect(lib.can_proceed(loc) is model.proceed(loc), "%s: can_proceed(%r) is wrong", what, loc)
        expect(lib.has_issues(("z",), list(loc)) is model.has(("z",), loc),
               "%s: has_issues(z, %r) is wrong", what, loc)
        expect(lib.can_proceed(("z",), loc) is model.proceed(("z",), loc),
               "%s: can_proceed(z, %r) is wrong", what, loc)


def run(case, ctx):
    libs = [ValidationIssues(), ValidationIssues()]
    models = [Model(), Model()]
    extra = []  # collections handed out on the way
    for op in case:
        ctx.step()
        kind, r = op[0], op[1]
        if kind == "add":
            _, _, loc, code, proceed = op
            libs[r].add(issue=CODES[code](), proceed=proceed, location=loc)
            models[r].add(loc, code, proceed)
        elif kind == "merge":
            libs[r].merge(libs[1 - r], location=op[2])
            models[r].merge(models[1 - r], op[2])
        elif kind == "get":
            extra.append((libs[r], models[r]))
            libs[r], models[r] = libs[r].get(op[2]), models[r].get(op[2])
        else:
            extra.append((libs[r].pop(op[2], code=op[3]), models[r].pop(op[2], op[3])))
    for i in (0, 1):
        observe(libs[i], models[i], f"collection {i}")
    for lib, model in extra:
        observe(lib, model, "handed-out collection")
    ctx.state((tuple(models[0].issues), frozenset(models[0].stops), tuple(models[1].issues)))
    ctx.outcome(len(models[0].issues))


def alphabet(locs, codes, merges, regs=(0, 1)):
    out = [("add", r, loc, code, p) for r in regs for loc in locs for code in codes
           for p in (True, False)]
    out += [("merge", r, loc) for r in regs for loc in merges]
    out += [("pop", r, loc, code) for r in regs for loc in locs for code in codes]
    out += [("get", r, loc) for r in regs for loc in merges if loc]
    return out


WIDE = [(), ("a",), ("A",), ("",), ("a", ""), ("ab",), ("a", "b"), ("a", "b", "c"), ("a", "b", "c", "d"), ("b", "a"),
        ("a", 0), ("a", 1), ("a", 10), ("a", 11), ("a", 0, "b"), ("a", 10, "b"), ("a", 1, 0), (0,), (1, "a"),
        ("a", "a"), ("a", "a", "a"), ("_errors_",), ("a.b",), ("urn:x:y", "a"), ("urn:x:y", "a", 3, "b"), ("__",),
        ("a", "0"), ("a", "10", "b"), ("0",)]


def alike(lib, model):
    got, want = lib.to_dict(), model.to_dict()
    locations = {loc for loc, _ in model.issues}
    if len({tuple(map(str, loc)) for loc in locations}) < len(locations):
        # position 0 and member "0" are shown in one place, one after the other in any order
        got, want = unordered(got), unordered(want)
    return got == want


def unordered(d):
    return {k: sorted(repr(x) for x in v) if k == "_errors" else unordered(v) for k, v in d.items()}


def run_locations(case, ctx):
    """two issues at any two locations; observed, extracted, removed and merged at any third"""
    one, two, stop1, stop2, same_kind = case
    for third in WIDE:
        lib, model = ValidationIssues(), Model()
        for loc, code, proceed in ((one, 15, stop1), (two, 15 if same_kind else 27, stop2)):
            lib.add(issue=CODES[code](), proceed=proceed, location=loc)
            model.add(loc, code, proceed)
        ctx.step(4)
        for loc in (third, third + ("x",)):
            expect(lib.has_issues(loc) is model.has(loc), "has_issues(%r) is wrong", loc)
            expect(lib.can_proceed(loc) is model.proceed(loc), "can_proceed(%r) is wrong", loc)
            expect(lib.has_issues(loc, one) is model.has(loc, one), "has_issues(%r, %r) is wrong", loc, one)
            expect(lib.can_proceed(loc, two) is model.proceed(loc, two), "can_proceed(%r, %r)", loc, two)
        part, part_model = lib.get(third), model.get(third)
        expect(alike(part, part_model), "get(%r) is wrong", third)
        expect(part.can_proceed() is part_model.proceed(), "get(%r) blocks wrongly", third)
        other, other_model = ValidationIssues(), Model()
        other.add(issue=CODES[1](), proceed=True, location=two)
        other_model.add(two, 1, True)
        other.merge(lib, location=third)
        other_model.merge(model, third)
        expect(alike(other, other_model), "merging below %r is wrong", third)
        for loc in (third, third + one, third + two, two):
            expect(other.can_proceed(loc) is other_model.proceed(loc), "merged: can_proceed(%r)", loc)
        popped, popped_model = lib.pop(third, code=15), model.pop(third, 15)
        expect(alike(popped, popped_model), "pop(%r) is wrong", third)
        expect(alike(lib, model), "after pop(%r): %r", third, lib.to_dict())
        for loc in (third, one, two, ()):
            expect(lib.can_proceed(loc) is model.proceed(loc), "after pop(%r): can_proceed(%r)", third, loc)
    ctx.state(case)


def run_many(case, ctx):
    """many issues, repeated or not, keep their number and order"""
    n, period, loc, proceed = case
    lib, model = ValidationIssues(), Model()
    for i in range(n):
        code = list(CODES)[i % period % 3]
        where = loc + (i % (period + 1),) if period > 1 else loc
        lib.add(issue=CODES[code](), proceed=proceed, location=where)
        model.add(where, code, proceed)
        ctx.step()
        expect(lib.to_dict() == model.to_dict(), "after %d issues: %s", i + 1, short(lib.to_dict()))
    copy, copy_model = ValidationIssues(), Model()
    for _ in range(2):
        copy.merge(lib)
        copy_model.merge(model, ())
    expect(copy.to_dict() == copy_model.to_dict(), "merged twice: %s", short(copy.to_dict()))
    ctx.state(case)


def run_places(case, ctx):
    """issues at many locations, written as tuples or lists; asked for singly and together"""
    n, depth, blocking, as_list = case
    form = list if as_list else tuple
    for k in places(n):
        lib, model = ValidationIssues(), Model()
        where = [("a",) * (depth - 1) + (f"x{i}",) for i in range(n)]
        for i, loc in enumerate(where):
            proceed = i != k if blocking == "one" else i == k if blocking == "others" else blocking == "none"
            lib.add(issue=CODES[15](), proceed=proceed, location=form(loc))
            model.add(loc, 15, proceed)
        ctx.step(n)
        absent = [("z", i) for i in range(n)]
        for locs in (where, where[::-1], absent[:k] + [where[k]] + absent[k + 1:], absent, where[:k], where[k:]):
            if locs:
                given = [form(x) for x in locs]
                expect(lib.has_issues(*given) is model.has(*locs), "has_issues of %d locations", len(locs))
                expect(lib.can_proceed(*given) is model.proceed(*locs), "can_proceed of %d locations", len(locs))
        for above in {(), ("a",), where[k]}:
            part, part_model = lib.get(form(above)), model.get(above)
            expect(part.to_dict() == part_model.to_dict(), "get(%r)", above)
            for loc in [(), *where, *(x[len(above):] for x in where)]:
                expect(part.can_proceed(form(loc)) is part_model.proceed(loc), "get(%r).can_proceed(%r)", above, loc)
                expect(part.has_issues(form(loc)) is part_model.has(loc), "get(%r).has_issues(%r)", above, loc)
        other, other_model = ValidationIssues(), Model()
        other.merge(lib, location=("m",))
        other_model.merge(model, ("m",))
        for loc in [("m",), *where, *(("m",) + x for x in where)]:
            expect(other.can_proceed(form(loc)) is other_model.proceed(loc), "merged: can_proceed(%r)", loc)
        lib.pop(form(where[k]), code=15), model.pop(where[k], 15)
        expect(lib.to_dict() == model.to_dict(), "after pop of location %d", k)
        for loc in where:
            expect(lib.can_proceed(form(loc)) is model.proceed(loc), "after pop: can_proceed(%r)", loc)
    ctx.state(case)


def histories(ops, n):
    for k in range(n + 1):
        yield from itertools.product(ops, repeat=k)


def spaces(tier):
    deep = tier == "thorough"
    full = alphabet(LOCATIONS, list(CODES), [(), ("a",), ("a", 0)])
    mid = alphabet([(), ("a",), ("a", 0)], [15, 27], [(), ("a",)])
    tiny = alphabet([("a",)], [15, 27], [()], )
    n2, n3, n4 = (3, 4, 5) if deep else (2, 3, 4)
    return [
        Space("all operations", f"all histories of <= {n2} of {len(full)} operations",
              lambda: histories(full, n2), run, block=64),
        Space("locations", f"all triples of {len(WIDE)} locations x blocking x kinds",
              lambda: itertools.product(WIDE, WIDE, (True, False), (True, False), (True, False)), run_locations,
              block=16),
        Space("many locations", "issues at 1..130 locations of depth 1..3, any one asked for alone or among the rest, "
                                "as tuples and as lists",
              lambda: itertools.product(sizes(130 if deep else 70, 1), (1, 2, 3), ("one", "others", "all", "none"),
                                        (False, True)), run_places, block=1),
        Space("many issues", "1..140 issues, repeated with every period up to 7",
              lambda: itertools.product((1, 2, 5, 12, 40, 140), range(1, 8), [(), ("a",), ("a", 0, "c")],
                                        (True, False)), run_many, block=4),
        Space("core operations", f"all histories of <= {n3} of {len(mid)} operations",
              lambda: histories(mid, n3), run, block=64),
        Space("deep histories", f"all histories of <= {n4} of {len(tiny)} operations",
              lambda: histories(tiny, n4), run, block=64),
    ]
