"""Planted bugs: tools/seed.py new ID PROPERTY  (from the diff of the scratch copy /tmp/seedwork)
                 tools/seed.py test [ID...]   (tests, demo and checks in scratch copies)
                 tools/seed.py sweep ID...    (every check against the bug)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, env=None, timeout=1200):
    p = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True,
                       env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1", **(env or {})}, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def scratch(patch=None):
    d = tempfile.mkdtemp(prefix="seed-")
    repo = os.path.join(d, "repo")
    subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
    if patch:
        rc, out = sh(["git", "apply", patch], repo)
        assert rc == 0, out
    return d, repo


def stable_tests(repo):
    """names of baseline tests that do not pass"""
    junit = os.path.join(repo, "..", "junit.xml")
    sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-o", "junit_family=xunit2",
        f"--junitxml={junit}", "tests"], repo)
    out = os.path.join(repo, "..", "out.json")
    sh([PY, "/opt/vp/results.py", out, f"junit:{junit}"], repo)
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = set(base.get("stable") or base.get("passed") or base.get("tests"))
    return sorted(stable - set(json.load(open(out))["passed"]))


def demo(folder, repo):
    """the demos run in /repo; here the scratch copy stands for it"""
    d = tempfile.mkdtemp(prefix="demo-")
    try:
        for f in os.listdir(folder):
            if not f.endswith((".diff", ".patch")) and f != "meta.json":
                shutil.copy(os.path.join(folder, f), d)
        return sh(["bash", os.path.join(d, "demo.sh")], repo)
    finally:
        shutil.rmtree(d)


def run_check(prop, repo, tier="quick"):
    rc, out = sh([os.path.join(VERIF, "check"), prop, "--tier", tier], VERIF, {"VERIF_REPO": repo,
                 "VERIF_OUT": os.path.join(repo, "..", "out")})
    line = [x for x in out.splitlines() if x.startswith("VIOLATION")]
    return rc, bool(line), out


def test(id_, with_check=True, every=False):
    folder = os.path.join(SEEDED, id_)
    meta = json.load(open(os.path.join(folder, "meta.json")))
    clean_dir, clean = scratch()
    d, repo = scratch(os.path.join(folder, "patch.diff"))
    try:
        failing = stable_tests(repo)
        rc0, out0 = demo(folder, clean)
        rc1, out1 = demo(folder, repo)
        ok = not failing and rc0 == 0 and rc1 != 0
        res = f"{id_} [{meta['property']}] tests={'ok' if not failing else failing[:3]} demo={rc0}/{rc1}"
        if rc0 != 0:
            res += "\n" + out0[-800:]
        if rc1 == 0:
            res += "\n(not shown by the demo)"
        if ok and with_check:
            rc, v, out = run_check(meta["property"], repo)
            res += f" check={'CAUGHT' if rc == 1 and v else f'MISSED rc={rc}'}"
            if rc not in (0, 1):
                res += out[-1500:]
        if ok and every:
            ids = [json.loads(x)["id"] for x in open(os.path.join(VERIF, "properties.jsonl"))]
            caught = [i for i in ids if i != meta["property"] and run_check(i, repo)[0] == 1]
            res += f" also={','.join(caught)}"
        return res
    finally:
        shutil.rmtree(d)
        shutil.rmtree(clean_dir)


def main():
    if sys.argv[1] == "test":
        ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
        for i in ids:
            print(test(i), flush=True)
    elif sys.argv[1] == "sweep":
        for i in sys.argv[2:] or sorted(os.listdir(SEEDED)):
            print(test(i, every=True), flush=True)
    elif sys.argv[1] == "valid":
        with ThreadPoolExecutor(6) as ex:
            for r in ex.map(lambda i: test(i, False), sys.argv[2:] or sorted(os.listdir(SEEDED))):
                print(r, flush=True)


if __name__ == "__main__":
    main()
