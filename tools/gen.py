"""Writes properties.jsonl and MANIFEST.json from the PROPERTY declarations of checks/c*.py."""
import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [VERIF, os.environ.get("VERIF_REPO", "/repo")]
sys.dont_write_bytecode = True

NOT_APPLICABLE = []


def main():
    ids = sorted(
        f[:-3].upper() for f in os.listdir(os.path.join(VERIF, "checks"))
        if f.startswith("c") and f.endswith(".py")
    )
    props, checks = [], []
    for id_ in ids:
        p = importlib.import_module(f"checks.{id_.lower()}").PROPERTY
        assert len(p["title"]) <= 80, (id_, len(p["title"]))
        props.append(dict(id=id_, title=p["title"], statement=p["statement"],
                          quantifier=p["quantifier"], why_tests_cant=p["why_tests_cant"],
                          anchors=p["anchors"]))
        checks.append(dict(
            property=id_,
            quick_cmd=f"./check {id_} --tier quick",
            thorough_cmd=f"./check {id_} --tier thorough",
            technique=p.get("technique",
                            "bounded exhaustive exploration of the implementation against an "
                            "independent reference model (explicit-state model checking)"),
            level="model_checking",
            level_note=p.get("level_note", "") or (
                "Every case of the stated finite spaces is executed on the real code and every "
                "observation compared with a hand-written reference model; covered: "
                + p["quantifier"]["text"] + ". Trusts the reference model, the bounds and CPython."),
        ))
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in props:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(dict(version=1, setup_cmd="./setup", checks=checks,
                       not_applicable=NOT_APPLICABLE,
                       notes="No hooks in /repo; checks import the working tree of /repo directly."),
                  f, indent=1, ensure_ascii=False)
        f.write("\n")


if __name__ == "__main__":
    main()
