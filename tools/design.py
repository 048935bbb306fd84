"""Writes DESIGN.md: tools/design_head.md, one section per property, planted bugs, tools/design_tail.md."""
import glob
import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [VERIF, "/repo"]

HOW = {
    "C01": ("Derivations of the filter grammar are enumerated top-down (leaves, and/or/not, groups, value filters), "
            "rendered in several white-space styles; the tree known from the derivation is the oracle, compared with "
            "Filter.to_dict."),
    "C02": ("Words over fragments that are special to the parser (operators, brackets, keywords, quotes, placeholder "
            "texts, white space, control and Unicode characters) are put into string literals at every placement; all number "
            "spellings up to a size. Oracle: the literal itself."),
    "C03": ("All token sequences and character strings up to a length and all one-step edits of valid filters are "
            "classified by an independent recursive-descent reader (mc/ref_filter.py); verdicts must agree, and for "
            "accepted ones the trees too."),
    "C04": ("Filters (rendered and parsed by the real parser) x resources; oracle: three-valued reference evaluator "
            "(mc/ref_eval.py) over attribute definitions; strict and lenient mode; the resource must stay unchanged."),
    "C05": ("Breadth-first search over operation histories of the real container, next to a reference map "
            "(mc/ref_container.py); after each step every read, the export, equality with differently spelled copies and "
            "independence of source and export are compared."),
    "C06": ("All short strings and token sequences; oracle: one regular grammar of notations; all pairs for equality; "
            "every attribute of three schemas in every spelling and with every slip for lookup."),
    "C07": ("Value domains per type enumerated (all short base64 texts, URL token sequences, dates x times x zones, "
            "numbers around powers); oracle: set-theoretic domain predicates and the round trip."),
    "C08": ("Definitions x values; oracle mc/ref_schema.py (expected value and expected set of (location, code)); "
            "processing steps are recording stand-ins, so order and number of calls are observed."),
    "C09": ("Bodies over schemas lists, extension blocks, spellings, and kinds of values; oracle mc/ref_schema.py: dumped data "
            "and exact issue set. Attributes with the user's own steps: in a schema as on their own (differential); all "
            "histories of added extensions up to 4 against a list model."),
    "C10": ("Breadth-first search over histories of add/merge/get/pop on several real collections; model: list of "
            "(location, code, blocking) records; after each step all queries at all locations are compared."),
    "C11": ("Complete decision table (required x returned x mutability x place x value x direction x selection), "
            "all selections up to 2 (3) names; oracle: decision rules written down once in mc/ref_schema.py."),
    "C12": ("Deviation-bounded: every 1- and 2-point change of a full body, all definitions of mc/chars, built-in "
            "schemas; oracle mc/ref_http.py."),
    "C13": ("Product of operation x status x headers x meta x selection x body, all statuses 100..599, near misses of "
            "locations and type names; oracle mc/ref_http.py."),
    "C14": ("Lists of resources (good, and bad in each way) x paging x filter x sort x selection, offenders at all sets of "
            "positions; up to 33 (129) resource types behind one endpoint; oracle composed of the reference filter, "
            "sorter, presence and schema models."),
    "C15": ("All lists up to length 4 (5) over values of each attribute kind, with ties and missing values, all schema "
            "assignments; oracle: order relation per kind and stability, by index."),
    "C16": ("All token sequences up to 4 (5), all one-character edits, string contents; oracle mc/ref_path.py "
            "(grammar) with the reference filter reader for the bracket part. All combinations of parts for paths put "
            "together by a program."),
    "C17": ("Every path of the test schema and of User/Group x operation x value, all sequences up to 3 (4) of 19 "
            "operations, a bad one at every position; oracle mc/ref_patch.py."),
    "C18": ("Operation alphabets and all sequences up to 3 (4); oracle mc/ref_bulk.py which delegates data to the reference "
            "models of the endpoints; up to 33 (129) resource types."),
    "C19": ("Result alphabets, all sequences up to 3 (4), failure patterns x tolerated failures, up to 33 (129) resource "
            "types; oracle mc/ref_bulk.py."),
    "C20": ("All pairs of parameter values and all combinations over reduced alphabets, each asked both by URL and by "
            "search body; oracle: per-parameter reference plus agreement of both ways."),
    "C21": ("Histories of calls on a shared world; oracle: the answer of the same call in a process that has done nothing "
            "else (forked from the same image)."),
    "C22": ("Schedules of two threads with preemption bound 1 (thorough: 2) at line granularity; oracle: the answers alone."),
    "C23": ("Every node (and pairs of nodes) of a valid body of each endpoint replaced by each of a set of JSON-like atoms, "
            "all query and header values; invariant: no exception, no hang, serialisable, never body and issues both."),
    "C24": ("All combinations of characteristics, described and compared with the definition; every one-point change and "
            "pairs of changes of discovery documents; oracle mc/ref_discovery.py."),
    "C25": ("All statuses x body statuses, all member combinations, each released and read back; every ready-made error; "
            "oracle: rules of the statement."),
    "C26": ("All values, statuses, totals, names, malformed filters and operations in alphabets x places; oracle: "
            "mc/facts.py derives each stated fact from the input at the issue's location (never from the library)."),
}


def spaces(module, tier):
    return {s.name: s.bound for s in module.spaces(tier)}


def main():
    out = [open(os.path.join(VERIF, "tools", "design_head.md")).read(), "## 3. Properties\n"]
    bugs = {}
    for f in sorted(glob.glob(os.path.join(VERIF, "seeded", "*", "meta.json"))):
        meta = json.load(open(f))
        bugs.setdefault(meta["property"], []).append((os.path.basename(os.path.dirname(f)), meta))
    costs = json.load(open(os.path.join(VERIF, "tools", "costs.json")))
    for c in sorted(HOW):
        m = importlib.import_module(f"checks.{c.lower()}")
        p = m.PROPERTY
        quick, thorough = spaces(m, "quick"), spaces(m, "thorough")
        out.append(f"### {c} {p['title']}\n")
        out.append(f"{HOW[c]}\n")
        out.append("Quick bounds: " + "; ".join(f"*{k}*: {v}" for k, v in quick.items()) + ".\n")
        more = {k: v for k, v in thorough.items() if quick.get(k) != v}
        if more:
            out.append("Thorough in addition: " + "; ".join(f"*{k}*: {v}" for k, v in more.items()) + ".\n")
        out.append(f"Beyond the tests: {p['why_tests_cant']}\n")
        cost = costs.get(c, {})
        out.append(f"Cost (8 cores): quick about {cost.get('quick', '?')} s, thorough about "
                   f"{cost.get('thorough', cost.get('quick', '?'))} s.\n")
    out.append("## 4. Planted bugs\n\nEach was written from a property's text and the code, passes the test suite, and is "
               "kept in `seeded/`. 'caught' names the check of its own property (quick tier); bugs marked * were missed by the "
               "check as it was when the bug was written, and the check was strengthened.\n")
    out.append("| bug | property | needs | caught by |\n|---|---|---|---|")
    results = json.load(open(os.path.join(VERIF, "tools", "caught.json")))
    for c in sorted(bugs):
        for name, meta in bugs[c]:
            star = "*" if name in results["missed_at_first"] else ""
            got = c if name not in results["missed"] else "-"
            out.append(f"| {name}{star} | {c} | {meta['needs']} | {got} |")
    out.append("")
    out.append(open(os.path.join(VERIF, "tools", "design_tail.md")).read())
    open(os.path.join(VERIF, "DESIGN.md"), "w").write("\n".join(out))


main()
