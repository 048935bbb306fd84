"""C22: concurrent use of shared objects; every schedule up to a preemption bound."""
import gc
import os
import sys
import threading
import traceback

from checks.c21 import answer, in_child
from mc import ops
from mc.engine import REPO, Space, Violation, short

PROPERTY = {
    "title": "Concurrent calls on shared objects never influence each other",
    "statement": (
        "Any number of threads may use the same validators, schemas, attributes, filters, sorters and presence "
        "checkers at the same time: whatever the interleaving of two calls, each of them gives exactly the answer "
        "- data, issues, messages - that it gives when it runs alone, and none of them raises, blocks the other "
        "for good or disturbs a later call."
    ),
    "quantifier": {
        "over": ["schedules"],
        "text": "ordered pairs of calls; every schedule in which the first call is suspended at a source line of "
                "the library (its first and its last execution of each line) while the other call runs to completion "
                "(preemption bound 1); thorough: more pairs, every line executed up to 3 times, and bound 2",
    },
    "why_tests_cant": "The tests are single-threaded, and even threads would sample a handful of interleavings.",
    "anchors": {
        "files": ["src/request_validators.py", "src/filter.py", "src/data/schemas.py", "src/data/attributes.py",
                  "src/attributes_presence.py", "src/sorter.py", "src/error.py"],
        "mechanism": [{"name": "no call keeps its working state in shared objects",
                       "where": "src/request_validators.py"}],
        "observe_at": ["every public call"],
    },
}

SRC = os.path.join(REPO, "src") + os.sep

PAIRS = [
    ("mini POST ok", "mini POST missing"), ("mini POST two primaries", "mini POST ok"),
    ("mini PUT full", "mini PUT missing"), ("mini POST missing", "mini PUT missing"),
    ("mini POST unknown schema", "mini POST ok"), ("mini POST upper", "mini POST bad"),
    ("mini GET response selected ('tags.value', True)", "mini GET response selected ('tags.value', False)"),
    ("mini GET response ok", "mini GET response missing"), ("mini GET response ok", "mini GET response selected ('id', True)"),
    ("mini POST ok", "mini GET response missing"), ("mini GET response ok", "mini GET response second"),
    ("mini PATCH filtered", "mini PATCH filtered other case"), ("mini PATCH replace name", "mini PATCH replace ro"),
    ("mini PATCH no path", "mini PATCH no path bad"), ("mini PATCH remove name", "mini PATCH remove color"),
    ("mini PATCH two", "mini PATCH bad path"),
    ("root query filter a", "root query filter bad"), ("root query filter a", "root query filter A"),
    ("root query sort desc", "root query sort asc"), ("root query include", "root query exclude"),
    ("root query both", "root query page"), ("search plain", "search bad"),
    ("list filter a", "list filter b"), ("list asc", "list desc"), ("list only", "list without"),
    ("list mixed", "list unknown"), ("list count", "list plain"),
    ("bulk mini", "bulk post bad"), ("bulk patch", "bulk put group"), ("bulk limited two", "bulk two"),
    ("bulk response ok", "bulk response bad"), ("bulk response too many", "bulk response allowed"),
    ("error mismatch", "error 500"), ("describe mini", "mini POST ok"),
    ("parse filter a pr and (b pr or c pr) and d[e pr or f eq ')']",
     "parse filter a pr and (b pr or c pr) and d[e pr or f eq '(']"),
    ('parse filter userName eq "a"', 'parse filter userName eq "A"'), ("parse filter not (a pr)", "parse filter (a pr"),
    ('parse path emails[type eq "a"]', 'parse path emails[type eq "A"]'),
    ('parse path emails[type eq "a"].value', "parse path emails["),
    ("parse attribute name.familyName", "parse attribute name.x"),
    ("match A", "match a"), ("match none", "match A"),
    ("sort emails True", "sort emails False"), ("sort userName True", "sort userName False"),
    ("check presence id True", "check presence id False"), ("check presence bare", "check presence exempt"),
    ("color parse", "mini POST bad"), ("email parse", "color parse"),
    ("build schema", "extend own copy"), ("build attributes from own lists", "mini POST two primaries"),
    ('apply name eq "A" to low as kin', 'apply name eq "A" to low as mini'),
    ('apply name eq "A" to low as kin', 'apply name eq "A" to up as kin'),
    ('apply name eq "A" to low as kin', 'apply name eq "A" to low as twin'),
    ("apply tags.value gt 1 to low as kin", "apply tags.value gt 1 to up as mini"),
    (f"apply {ops.KINX}:name pr to up as kin", f"apply {ops.KINX}:name pr to low as kin"),
    ("sort kin True", "sort mini True"), ("sort kin True", "sort twin True"), ("sort kin True", "sort kin False"),
    ("presence None kin REQUEST", "presence None kin RESPONSE"), ("presence None kin RESPONSE", "presence None mini RESPONSE"),
    ("presence ('secret', False) kin RESPONSE", "presence ('secret', False) kin REQUEST"),
    ("presence ('secret', True) kin RESPONSE", "presence ('secret', False) kin RESPONSE"),
    ("presence ('tags.secret,always', True) kin RESPONSE", "presence ('tags.secret,always', True) kin REQUEST"),
    ("presence ('tags.secret,always', True) kin RESPONSE", "presence ('tags.secret,always', True) mini RESPONSE"),
    ("look up name", f"look up {ops.KINX}:name"), ("look up tags.value", f"look up {ops.KINX}:tags.value"),
    ("look up TAGS.VALUE", "look up tags.need"),
    ("kin POST low", "kin POST up"), ("kin PUT low", "kin PUT up"), ("kin GET response low", "kin GET response up"),
    ("kin parse low", "kin parse up"), ("kin parse low", "kin dump up"), ("kin dump low", "kin dump up"),
    ("kin tags parse low", "kin tags parse up"), ("kin tags parse low", "kin tags dump up"),
    ("kin POST low", "kin GET response up"), ("kin POST low", "mini POST ok"),
    ("collect issues", "container"), ("schemas response", "describe mini"), ("schemas response", "schemas query"),
]


def code_key(code):
    return code.co_filename, code.co_firstlineno, code.co_name


def points(world, name, keep):
    """Executions of source lines of the library during the call: (code, line, which execution)."""

    def go():
        seen = {}

        def local(frame, event, _):
            if event == "line":
                key = code_key(frame.f_code), frame.f_lineno
                seen[key] = seen.get(key, 0) + 1
            return local

        def tracer(frame, event, _):
            return local if frame.f_code.co_filename.startswith(SRC) else None

        sys.settrace(tracer)
        try:
            answer(world, name)
        finally:
            sys.settrace(None)
        return seen

    out = []
    for (code, line), n in in_child(go).items():
        out += [(code, line, k) for k in range(1, n + 1) if k <= keep or k == n]
    return out


def suspended(point, action):
    """Trace function that performs the action right before the given execution of a line, once."""
    (file, first, name), line, k = point
    count = [0]

    def local(frame, event, _):
        if event == "line" and frame.f_lineno == line and count[0] < k:
            count[0] += 1
            if count[0] == k:
                sys.settrace(None)
                action()
                return None
        return local

    def tracer(frame, event, _):
        code = frame.f_code
        if code.co_firstlineno == first and code.co_name == name and code.co_filename == file:
            return local
        return None

    return tracer


class Call(threading.Thread):
    def __init__(self, world, name, trace=None):
        super().__init__(daemon=True)
        self.world, self.name_, self.trace, self.result = world, name, trace, "did not end"

    def run(self):
        if self.trace:
            sys.settrace(self.trace)
        try:
            self.result = answer(self.world, self.name_)
        except Violation as e:
            self.result = str(e)
        except BaseException:  # noqa
            self.result = traceback.format_exc()
        finally:
            sys.settrace(None)


def schedule(world, a, b, point):
    """a runs up to the point, then b runs, then a continues."""
    second = Call(world, b)

    def preempt():
        second.start()
        second.join(0.5)  # a call that waits for the first one goes on after it

    first = Call(world, a, suspended(point, preempt))
    first.run()
    if second.ident is not None:
        second.join(30)
    return first.result, second.result, second.ident is not None


def schedule2(world, a, b, p, q):
    """a up to p, b up to q, a to its end, b to its end."""
    go_on, parked = threading.Event(), threading.Event()

    def park():
        parked.set()
        go_on.wait(0.5)

    second = Call(world, b, suspended(q, park))

    def preempt():
        second.start()
        for _ in range(500):
            if parked.wait(0.001) or not second.is_alive():
                break

    first = Call(world, a, suspended(p, preempt))
    first.start()
    first.join(30)
    go_on.set()
    if second.ident is not None:
        second.join(30)
    return first.result, second.result, second.ident is not None


def spaces(tier):
    thorough = tier == "thorough"
    world = ops.World()
    gc.collect()
    gc.freeze()
    alone = {}

    def baseline(name):
        if name not in alone:
            alone[name] = in_child(lambda: answer(world, name))
        return alone[name]

    pairs = PAIRS + [(b, a) for a, b in PAIRS]
    pairs += [(a, a) for a in dict.fromkeys(x for p in PAIRS for x in p) if thorough or "kin" in a]
    if thorough:
        pairs += [(a, b) for a in ops.SMALL for b in ops.SMALL if (a, b) not in pairs]
    pairs = list(dict.fromkeys(pairs))
    parts = 8
    keep = 3 if thorough else 1

    def cases():
        for a, b in pairs:
            for k in range(parts):
                yield a, b, k

    known = {}

    def points_of(name, keep):
        if (name, keep) not in known:
            known[name, keep] = points(world, name, keep)
        return known[name, keep]

    def judge(ctx, a, b, what, got):
        want = baseline(a), baseline(b)
        first, second, started = got
        ctx.step(2)
        if not started:
            ctx.outcome("the point was not reached again")
            second = want[1]
        else:
            ctx.outcome("both as alone")
        for name, x, y in ((a, first, want[0]), (b, second, want[1])):
            if x != y:
                raise Violation(f"'{a}' suspended at {what} for '{b}': '{name}' answers {short(x)}, alone {short(y)}")

    def run(case, ctx):
        a, b, part = case
        for p in points_of(a, keep)[part::parts]:
            ctx.state((a, b, p))
            judge(ctx, a, b, p, in_child(lambda: schedule(world, a, b, p)))

    def cases2():
        for a, b in PAIRS:
            for k in range(64):
                yield a, b, k

    def run2(case, ctx):
        a, b, part = case
        mine, other = entries(a)[part::64], entries(b)
        for p in mine:
            for q in other:
                ctx.state((a, b, p, q))
                judge(ctx, a, b, (p, q), in_child(lambda: schedule2(world, a, b, p, q)))

    def entries(name):
        """First executed line of every function of the library that the call enters."""
        firsts = {}
        for code, line, k in points_of(name, 1):
            if k == 1 and line >= firsts.get(code, (0, 0, 0))[1]:
                firsts[code] = code, line, k
        return list(firsts.values())

    out = [Space("schedules", f"{len(pairs)} ordered pairs, preemption bound 1, "
                              f"first {keep} and last execution of every line", cases, run)]
    if thorough:
        out.append(Space("schedules with two preemptions",
                         f"{len(PAIRS)} pairs, both calls suspended at the last new line of each function", cases2, run2))
    return out
