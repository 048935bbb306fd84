"""Bounded exhaustive explorer.

A check is a list of *spaces*.  A space is a deterministic, finite generator of cases (inputs,
operation histories, schedules) plus a function that executes one case on the real code of /repo
and compares every observation with an independent reference model.  The explorer runs every case
of every space (never a sample), partitioned over worker processes, and reports the first violating
case in enumeration order.  Nothing is random: VERIF_SEED is only recorded.
"""
import itertools
import json
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_OUT", VERIF)  # evidence and replays of scratch runs go elsewhere
CASE_TIMEOUT = 60  # seconds; an ordinary case takes well below 100 ms
MEM_LIMIT = 3 << 30


class CaseTimeout(BaseException):
    pass


class Violation(Exception):
    pass


class Ctx:
    """Counters of one worker."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = {}

    def state(self, key):
        self.states.add(hash(key))

    def step(self, n=1):
        self.transitions += n

    def outcome(self, key):
        self.outcomes[key] = self.outcomes.get(key, 0) + 1


class Space:
    def __init__(self, name, bound, cases, run, block=1):
        """cases: callable returning a fresh deterministic iterator; run(case, ctx) -> None | str

        block: consecutive cases handed to the same worker.
        """
        self.name, self.bound, self.cases, self.run, self.block = name, bound, cases, run, block


def expect(condition, message, *args):
    if not condition:
        raise Violation(message % args if args else message)


def expect_eq(got, want, what=""):
    if got != want or type(got) is not type(want):
        raise Violation(f"{what}: got {short(got)}, want {short(want)}")


def short(value, limit=1500):
    text = repr(value)
    return text if len(text) <= limit else text[:limit] + "..."


def _alarm(_signum, _frame):
    raise CaseTimeout()


def run_case(space, case, ctx):
    """Executes one case; any exception of the code under test is a violation."""
    signal.alarm(CASE_TIMEOUT)
    try:
        message = space.run(case, ctx)
        ctx.traces += 1
        return message
    except Violation as e:
        return str(e)
    except CaseTimeout:
        return f"did not terminate within {CASE_TIMEOUT} s"
    except MemoryError:
        return "memory exhausted"
    except Exception as e:  # noqa
        tail = traceback.format_exc().strip().splitlines()[-8:]
        return f"raised {type(e).__name__}: {e}\n" + "\n".join(tail)
    finally:
        signal.alarm(0)


def _worker(spaces, k, n, queue):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    except (ValueError, OSError):
        pass
    signal.signal(signal.SIGALRM, _alarm)
    out = []
    try:
        for s, space in enumerate(spaces):
            ctx = Ctx()
            total, first, samples = 0, None, []
            t0 = time.time()
            iterator, i = iter(space.cases()), -1
            while True:
                try:
                    case = next(iterator)
                except StopIteration:
                    break
                except Exception:  # noqa  (the code under test failed on a valid set-up)
                    if first is None:
                        first = (i + 1, "preparation of the case", traceback.format_exc())
                    break
                i += 1
                total += 1
                if (i // space.block) % n != k:
                    continue
                if first is not None:
                    continue
                message = run_case(space, case, ctx)
                if message is not None:
                    first = (i, short(case, 4000), message)
                if len(samples) < 2 and (i == 0 or i % 997 == 0):
                    samples.append(short(case, 300))
            out.append(
                dict(
                    space=s,
                    total=total,
                    first=first,
                    states=ctx.states,
                    transitions=ctx.transitions,
                    traces=ctx.traces,
                    outcomes=ctx.outcomes,
                    samples=samples,
                    wall=time.time() - t0,
                )
            )
            if first is not None:
                break
        queue.put((k, out, None))
    except BaseException:  # noqa
        queue.put((k, out, traceback.format_exc()))


def explore(spaces, workers=None):
    """Returns (per-space statistics, first violation or None)."""
    workers = workers or min(8, os.cpu_count() or 1)
    queue = multiprocessing.Queue()
    processes = [
        multiprocessing.Process(target=_worker, args=(spaces, k, workers, queue))
        for k in range(workers)
    ]
    for p in processes:
        p.start()
    results, pending = {}, set(range(workers))
    while pending:
        try:
            k, out, error = queue.get(timeout=5)
        except Exception:  # noqa
            dead = [k for k in pending if not processes[k].is_alive()]
            if dead:
                try:
                    k, out, error = queue.get(timeout=5)
                except Exception:  # noqa
                    raise RuntimeError(f"worker {dead} died (exit {processes[dead[0]].exitcode})")
            else:
                continue
        if error:
            for p in processes:
                p.terminate()
            raise RuntimeError(error)
        results[k] = out
        pending.discard(k)
    for p in processes:
        p.join()

    stats, violation = [], None
    for s, space in enumerate(spaces):
        parts = [r[s] for r in results.values() if len(r) > s]
        if not parts:
            break
        states = set().union(*(p["states"] for p in parts))
        outcomes = {}
        for p in parts:
            for key, count in p["outcomes"].items():
                outcomes[key] = outcomes.get(key, 0) + count
        samples = [x for p in parts for x in p["samples"]][:4]
        stats.append(
            dict(
                space=space.name,
                bound=space.bound,
                cases=parts[0]["total"],
                traces=sum(p["traces"] for p in parts),
                transitions=sum(p["transitions"] for p in parts),
                states=len(states),
                distinct_outcomes=len(outcomes),
                outcomes={
                    str(k): v for k, v in sorted(outcomes.items(), key=lambda x: -x[1])[:12]
                },
                samples=samples,
                wall=round(max(p["wall"] for p in parts), 2),
            )
        )
        firsts = [p["first"] for p in parts if p["first"] is not None]
        if firsts:
            index, case, message = min(firsts, key=lambda x: x[0])
            violation = dict(
                space=space.name, space_index=s, index=index, case=case, message=message
            )
            break
    return stats, violation


def known_findings(property_id):
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        data = json.load(f)
    return [x for x in data["findings"] if x["property"] == property_id]


def replay_one(spaces, space_index, index):
    """Executes a single case in this process."""
    signal.signal(signal.SIGALRM, _alarm)
    space = spaces[space_index]
    try:
        case = next(itertools.islice(space.cases(), index, None))
    except Exception:  # noqa
        return "preparation of the case", traceback.format_exc()
    return case, run_case(space, case, Ctx())


def main(property_id, build, argv=None):
    argv = sys.argv[1:] if argv is None else argv
    tier = "quick"
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)

    if "--replay" in argv:
        with open(argv[argv.index("--replay") + 1]) as f:
            rec = json.load(f)
        if rec["space"] == "set-up":
            try:
                build(rec["tier"])()
            except Exception:  # noqa
                print(traceback.format_exc())
                return 1
            return 0
        spaces = build(rec["tier"])()
        case, message = replay_one(spaces, rec["space_index"], rec["index"])
        print("space:", rec["space"])
        print("case:", short(case, 4000))
        print("result:", message or "property holds for this case")
        return 1 if message else 0

    t0 = time.time()
    try:
        spaces = build(tier)()
    except Exception:  # noqa  (building valid definitions with the code under test failed)
        stats, violation = [], dict(space="set-up", space_index=0, index=0, case="set-up",
                                    message=traceback.format_exc())
    else:
        stats, violation = explore(spaces)

    for finding in known_findings(property_id):
        print(f"KNOWN-FINDING: property={property_id} {finding['what']}")

    evidence = dict(
        property=property_id,
        tier=tier,
        seed=seed,
        level="model_checking",
        coverage=dict(
            states=sum(s["states"] for s in stats),
            transitions=sum(s["transitions"] for s in stats),
            traces_validated_against_impl=sum(s["traces"] for s in stats),
            samples=[x for s in stats for x in s["samples"][:2]],
            exhaustive=violation is None,
            rule=(
                "every case of every listed space was executed on the code in /repo; states = "
                "distinct model states/inputs reached, transitions = calls into the implementation, "
                "traces = complete cases whose every observation was compared with the model"
            ),
            spaces=stats,
        ),
        assumptions=[
            "values outside the stated alphabets and sizes beyond the stated bounds are not covered",
            "CPython executes /repo's source as written (no other interpreter is modelled)",
        ],
        wall_s=round(time.time() - t0, 2),
        violations=0 if violation is None else 1,
    )
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", f"{property_id}.json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)

    for s in stats:
        print(
            f"{property_id} {s['space']}: cases={s['cases']} states={s['states']} "
            f"transitions={s['transitions']} outcomes={s['distinct_outcomes']} ({s['wall']}s)"
        )
    if violation is None:
        print(f"{property_id} holds on everything explored in {evidence['wall_s']} s")
        return 0

    os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
    path = os.path.join(OUT, "replays", f"{property_id}.json")
    with open(path, "w") as f:
        json.dump(dict(property=property_id, tier=tier, **violation), f, indent=1)
    print(f"space: {violation['space']}\ncase: {violation['case']}\n{violation['message']}")
    print(f"to replay: {VERIF}/check {property_id} --replay {path}")
    print(f"VIOLATION property={property_id} replay={path}")
    return 1
