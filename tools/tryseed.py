"""tryseed.py [--tests] [--nocheck] [ids]: tries planted bugs in a scratch copy (used by hand, never by a check)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

args = [a for a in sys.argv[1:] if not a.startswith("--")]
ids = args or sorted(os.listdir("/verif/seeded"))
tmp = tempfile.mkdtemp(prefix="seedtry")
W = os.path.join(tmp, "repo")
subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
subprocess.run(["cp", "-a", "/repo", W], check=True)


def demo(i):
    env = dict(os.environ, PYTHONPATH=W + "/src", PYTHONDONTWRITEBYTECODE="1")
    return subprocess.run(["bash", f"/verif/seeded/{i}/demo.sh"], cwd=W, env=env, capture_output=True, text=True)


def apply(i, rev=False):
    subprocess.run(["git", "-C", W, "apply"] + (["-R"] if rev else []) + [f"/verif/seeded/{i}/patch.diff"], check=True)


try:
    for i in ids:
        prop = json.load(open(f"/verif/seeded/{i}/meta.json"))["property"]
        good = demo(i)
        apply(i)
        bad = demo(i)
        line = f"{i} {prop}: demo clean={good.returncode} patched={bad.returncode}"
        if good.returncode or not bad.returncode:
            line += " BAD DEMO " + (good.stderr[-300:] if good.returncode else "")
        if "--nocheck" not in sys.argv:
            env = dict(os.environ, PYVC_SRC=W + "/src", VERIF_SEED="1", PYVC_EVIDENCE=tmp)
            r = subprocess.run(["python3", "check.py", prop, "quick"], cwd="/verif", env=env, capture_output=True, text=True)
            v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
            line += f"  check exit={r.returncode} {v[:1]}"
        print(line, flush=True)
        apply(i, True)
    if "--tests" in sys.argv:
        for i in ids:
            try:
                apply(i)
            except subprocess.CalledProcessError:
                print("not together:", i)
        env = dict(os.environ, PYTHONPATH=f"{W}/src:/opt/vp/env", PYTHONHASHSEED="0", TZ="UTC", LANG="C.UTF-8", OMP_NUM_THREADS="1",
                   PYTHONDONTWRITEBYTECODE="1")
        x = os.path.join(tmp, "junit.xml")
        shutil.rmtree(W + "/test/.vm-output", ignore_errors=True)
        subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-n", "8", "-p", "no:cacheprovider", "-p", "pygerber_offline",
                        "--timeout=300", "--continue-on-collection-errors", "-o", "junit_family=xunit2", f"--junitxml={x}", "test/"],
                       cwd=W, env=env, capture_output=True)
        o = os.path.join(tmp, "o.json")
        subprocess.run(["python3", "/opt/vp/results.py", o, f"junit:{x}"], check=True)
        res = json.load(open(o))
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        print("stable tests not passing:", sorted(base - set(res["passed"])))
finally:
    shutil.rmtree(tmp)
