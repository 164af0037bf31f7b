"""Helper to write a planted bug into /verif/seeded (used by hand, never by a check)."""
import difflib
import json
import os
import subprocess

ROOT = "/verif/seeded"


def seed(id, prop, edits, demo, needs, breaks):
    """edits: [(file, old, new)], each old occurring exactly once."""
    d = os.path.join(ROOT, id)
    os.makedirs(d, exist_ok=True)
    by = {}
    for f, old, new in edits:
        path = os.path.join("/repo", f)
        src = by.get(f) or open(path, encoding="utf-8").read()
        assert src.count(old) == 1, (id, f, src.count(old))
        by[f] = src.replace(old, new)
    out = []
    for f, new in by.items():
        a = open(os.path.join("/repo", f), encoding="utf-8").read()
        out += list(difflib.unified_diff(a.splitlines(True), new.splitlines(True), "a/" + f, "b/" + f))
    with open(os.path.join(d, "patch.diff"), "w", encoding="utf-8") as h:
        h.write("".join(out))
    with open(os.path.join(d, "demo.py"), "w", encoding="utf-8") as h:
        h.write(demo.lstrip("\n"))
    with open(os.path.join(d, "demo.sh"), "w", encoding="utf-8") as h:
        h.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    with open(os.path.join(d, "meta.json"), "w", encoding="utf-8") as h:
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, h, indent=1)
        h.write("\n")
    subprocess.run(["git", "-C", "/repo", "apply", "--check", os.path.join(d, "patch.diff")], check=True)
    print("seeded", id)
