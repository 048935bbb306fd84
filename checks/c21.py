"""C21: no call leaves anything behind that changes the answer to a later one."""
import gc
import os
import pickle
import signal

from mc import more_ops as mo
from mc import ops
from mc.engine import CASE_TIMEOUT, Space, Violation, expect, short
from mc.sizes import places

PROPERTY = {
    "title": "Every answer depends on its own inputs only, whatever was asked before",
    "statement": (
        "A validator, schema, attribute, filter, sorter or presence checker gives the same answer - data, issues "
        "with their messages and context - to the same call at any time: after any history of accepted and "
        "rejected calls to it and to the other objects of the library, after new schemas, attributes and "
        "extensions have been defined, and whatever callers did to the data, issues and descriptions handed to "
        "them. A call never changes the bodies, headers, lists and containers it is given (query parameters are "
        "annotated in place), and lists given when defining attributes remain the caller's."
    ),
    "quantifier": {
        "over": ["histories"],
        "text": "a menu of over 180 calls over shared objects in near-miss groups; quick: for every call a, every other "
                "call after it, immediately and after all others (over 360 histories of over 180 calls); thorough: "
                "all histories of two calls, repeated, and all histories of three of the 60 shortest calls",
    },
    "why_tests_cant": (
        "Each test uses fresh objects and asks one question; what an earlier, differing question leaves in a "
        "shared object, a cache, a class-level list or a default argument only shows in the next answer."
    ),
    "anchors": {
        "files": ["src/request_validators.py", "src/data/schemas.py", "src/data/attributes.py", "src/filter.py",
                  "src/sorter.py", "src/attributes_presence.py", "src/error.py", "src/data/container.py"],
        "mechanism": [
            {"name": "validators, schemas, Filter, Sorter and AttributePresenceChecker hold no per-call state",
             "where": "src/request_validators.py"},
            {"name": "ComplexAttribute, BaseSchema._bound_attr_to_schema, with_extension copy definitions",
             "where": "src/data/attributes.py, src/data/schemas.py"},
        ],
        "observe_at": ["every public call"],
    },
}


def in_child(fn):
    """Runs fn in a forked process (the explorer's own process never runs a call) and returns its result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        signal.alarm(CASE_TIMEOUT)
        try:
            out = fn()
        except BaseException as e:  # noqa
            import traceback

            out = ("died", traceback.format_exc())
        with os.fdopen(w, "wb") as f:
            f.write(pickle.dumps(out))
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if not data:
        raise Violation(f"the process executing the history ended with {status}")
    out = pickle.loads(data)
    if isinstance(out, tuple) and out and out[0] == "died":
        raise Violation(out[1])
    return out


def answer(world, name):
    try:
        return ops.OPS[name](world)
    except Exception as e:  # noqa
        if isinstance(e, Violation):
            raise
        raise Violation(f"'{name}' raised {type(e).__name__}: {e}")


ALONE = {}  # answers of processes that have done nothing else


def explore(calls, ctx, what):
    """calls: [(key, function)] in order; each answer must be the one of a process that has done nothing else."""
    want = {}
    for key, fn in calls:
        if key not in want:
            if (what, key) not in ALONE:
                ALONE[what, key] = in_child(lambda: attempt(fn))
            want[key] = ALONE[what, key]
            if want[key][0] == "raised":
                raise Violation(f"{what} {key}: {want[key][1]}")

    def go():
        for k, (key, fn) in enumerate(calls):
            got = attempt(fn)
            if got != want[key]:
                return k, key, got
        return None

    bad = in_child(go)
    ctx.step(len(calls))
    if bad:
        k, key, got = bad
        raise Violation(f"{what}: call {k} of the history, {key}, after {[c[0] for c in calls[max(0, k - 4):k]]}: got "
                        f"{short(got)}, want {short(want[key])}")


def attempt(fn):
    try:
        return "answer", fn()
    except Violation:
        raise
    except Exception as e:  # noqa
        return "raised", f"{type(e).__name__}: {e}"


def more_spaces(world, thorough):
    values = mo.VALUES + mo.LIKE

    def value_cases():
        for family in mo.value_families():
            yield family

    def run_values(family, ctx):
        for i in range(len(values)):
            run_value(family, i, ctx)

    def run_value(family, i, ctx):
        def one(v):
            return repr(v), lambda: mo.value_call(*family, v)

        first = one(values[i])
        calls = []
        for v in values:
            calls += [first, one(v), first] if thorough else [one(v), first]
        ctx.state((family, i))
        explore(calls, ctx, f"{family}")

    def filter_cases():
        for schema in ("flat", "exact"):
            for i in range(len(mo.FILTERS)):
                yield schema, i

    def run_filters(case, ctx):
        schema, i = case

        def one(s, t):
            return (s, t), lambda: mo.filter_call(s, t)

        first = one(schema, mo.FILTERS[i])
        calls = []
        for t in mo.FILTERS:
            calls += [one(schema, t), first]
        calls += [one("exact" if schema == "flat" else "flat", mo.FILTERS[i]), first]
        ctx.state(case)
        explore(calls, ctx, "filters")

    variants = 12

    def drop_cases():
        for name in mo.DROP:
            for a in range(variants):
                for b in range(variants):
                    if a != b:
                        yield name, a, b

    def run_drop(case, ctx):
        name, a, b = case
        fn = mo.DROP[name]
        calls = [(i, lambda i=i: fn(i)) for i in [a, b] * 6 + [a, a, b, b]]
        ctx.state(case)
        explore(calls, ctx, name)

    def run_dropped(name, ctx):
        fn = mo.DROP[name]
        ctx.state(name)
        explore([(i % variants, lambda i=i % variants: fn(i)) for k in range(30) for i in range(k, k + variants)], ctx, name)

    total = 4200 if thorough else 1100

    def many_cases():
        for name in mo.MANY:
            yield name, "forwards"
            yield name, "backwards"

    def run_many(case, ctx):
        name, order = case
        fn = mo.MANY[name]
        asked = set(places(total)) | {total // 3, 7, 127, 257}
        order = range(total) if order == "forwards" else range(total - 1, -1, -1)
        want = {k: in_child(lambda: attempt(lambda: fn(world, k))) for k in asked}
        for k, w in want.items():
            if w[0] == "raised":
                raise Violation(f"{name} {k}: {w[1]}")

        def go():
            for n, k in enumerate(order):
                got = attempt(lambda: fn(world, k))
                if k in asked and got != want[k]:
                    return n, k, got
            for k in sorted(asked) + sorted(asked, reverse=True):
                got = attempt(lambda: fn(world, k))
                if got != want[k]:
                    return "again", k, got
            return None

        bad = in_child(go)
        ctx.step(total + 2 * len(asked))
        ctx.state(case)
        expect(bad is None, "%s: call %s with %s different answer: %s", name, *(bad or (0, 0, 0))[:2], bad and short(bad[2]))

    return [
        Space("equal values of other types", f"attributes of {len(mo.TYPES)} types x 4 kinds x 2 directions: every value "
              f"of {len(values)} before and after each other", value_cases, run_values),
        Space("filters after filters", f"every filter of {len(mo.FILTERS)} before and after each other, 2 schemas",
              filter_cases, run_filters),
        Space("objects made and dropped", f"{len(mo.DROP)} kinds of objects, all ordered pairs of {variants} variants, "
              "alternating", drop_cases, run_drop, block=4),
        Space("objects made and dropped, long", "30 rounds of all variants", lambda: iter(mo.DROP), run_dropped),
        Space("many inputs", f"{len(mo.MANY)} kinds of calls with {total} distinct inputs in both directions, then "
              "selected ones again", many_cases, run_many),
    ]


def spaces(tier):
    thorough = tier == "thorough"
    world = ops.World()
    gc.collect()
    gc.freeze()
    names = list(ops.OPS)
    first = {}

    def baseline(name):
        """The answer of a process that has done nothing else."""
        if name not in first:
            first[name] = in_child(lambda: answer(world, name))
        return first[name]

    def run_history(history, ctx):
        want = {n: baseline(n) for n in set(history)}

        def go():
            for k, n in enumerate(history):
                try:
                    got = answer(world, n)
                except Violation as e:
                    return k, str(e)
                if got != want[n]:
                    return k, got
            return None

        bad = in_child(go)
        ctx.step(len(history))
        if bad:
            k, got = bad
            raise Violation(f"call {k} of the history, '{history[k]}', after {history[max(0, k - 5):k]}: got "
                            f"{short(got)}, want {short(want[history[k]])}")

    def run_alone(name, ctx):
        ctx.step(2)
        a = baseline(name)
        b = in_child(lambda: answer(ops.World(), name))
        expect(a == b, "'%s' answers %s, on newly made objects %s", name, short(a), short(b))
        ctx.state(a)
        ctx.outcome("with issues" if "_errors" in a else "without issues")

    def from_each(step):
        def cases():
            for i in range(len(names)):
                yield i

        def run(i, ctx):
            order = [names[(i + step * k) % len(names)] for k in range(len(names))]
            # the first call again and again in between
            history = [names[i]] + order + [names[i]]
            ctx.state((i, step))
            run_history(history, ctx)

        return cases, run

    out = [Space("each call alone", f"{len(names)} calls, on shared and on newly made objects",
                 lambda: iter(names), run_alone)]
    for step, text in ((1, "forwards"), (-1, "backwards")):
        cases, run = from_each(step)
        out.append(Space(f"every call first, all others after it, {text}", f"{len(names)} histories of {len(names) + 2} calls", cases, run))
    def run_repeated(name, ctx):
        ctx.state(name)
        run_history([name] * repeats, ctx)

    repeats = 1100 if thorough else 130
    out.append(Space("repetition", f"each call {repeats} times in a row", lambda: iter(names), run_repeated))
    out += more_spaces(world, thorough)
    # calls that are near misses of each other stand next to each other in the menu
    window = 8

    def neighbours():
        for i in range(len(names)):
            for j in range(max(0, i - window), min(len(names), i + window + 1)):
                yield i, j

    def run_pair(case, ctx):
        a, b = names[case[0]], names[case[1]]
        ctx.state(case)
        run_history([a, b, a, b, b], ctx)

    if not thorough:
        out.append(Space("near misses", f"all ordered pairs at most {window} apart in the menu, as a b a b b",
                         neighbours, run_pair))
    else:
        out.append(Space("pairs", "all ordered pairs of calls, as a b a b b",
                         lambda: ((i, j) for i in range(len(names)) for j in range(len(names))), run_pair))
        quick_ones = [n for n in names if not n.startswith(("user ", "thing "))]
        chosen = quick_ones[::2][:60]

        def triples():
            for a in range(len(chosen)):
                for b in range(len(chosen)):
                    yield a, b

        def run_triples(case, ctx):
            a, b = chosen[case[0]], chosen[case[1]]
            want = {n: baseline(n) for n in chosen}

            def go():
                for n in (a, b):
                    if answer(world, n) != want[n]:
                        return n
                for c in chosen:
                    got = in_child(lambda: answer(world, c))
                    if got != want[c]:
                        return c
                return None

            bad = in_child(go)
            ctx.step(2 + len(chosen))
            ctx.state(case)
            expect(bad is None, "'%s' answers differently after '%s', '%s'", bad, a, b)

        out.append(Space("triples", "all histories of three calls of 60, each third call in a process of its own",
                         triples, run_triples))
    return out
