#!/usr/bin/env python3
"""Decide one property:  check.py C01 [quick|thorough]      (exit 0 held, 1 violated, 2 error)
Replay a violation:      check.py --replay FILE
"""
from __future__ import annotations

import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
SRC = os.environ.get("PYVC_SRC", "/repo/src")

ASSUMPTIONS = [
    "floats are treated as mathematical reals and decimal literals as their decimal value (no rounding, overflow, NaN)",
    "math.sin/cos/sqrt/atan2/radians/degrees/pi satisfy the assumed contracts in pyvc/smath.py",
    "pydantic validation is the identity on well-typed field values (bypassed only for symbolic values; ge/gt/le/lt constraints kept)",
    "CPython executes the rewritten module text (f(x) -> shim, f-string -> shim, `import math` -> smath, `in` -> shim) as the original; cross-checked concretely each run",
    "decorators, imports, module-level constants and third-party packages (PIL, shapely, pyparsing, pydantic) are trusted",
]


def env():
    e = dict(os.environ)
    e["PYTHONPATH"] = HERE
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONHASHSEED"] = "0"
    e["PYVC_SRC"] = SRC
    return e


BOOT = ("import sys; sys.path.append(%r); sys.argv=['runner']+sys.argv[1:]; "
        "import runpy; runpy.run_module('pyvc.runner', run_name='__main__')" % VT)


def start(mode, prop, opts, tmp, tag):
    spec = os.path.join(tmp, f"{tag}.spec.json")
    out = os.path.join(tmp, f"{tag}.out.json")
    with open(spec, "w", encoding="utf-8") as f:
        json.dump(opts, f)
    log = open(os.path.join(tmp, f"{tag}.log"), "w", encoding="utf-8")
    p = subprocess.Popen([PY, "-c", BOOT, mode, prop, spec, out], env=env(), stdout=log,
                         stderr=subprocess.STDOUT, cwd=HERE)
    return p, out, log.name


def finish(h, limit):
    p, out, log = h
    try:
        p.wait(timeout=limit)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
    if not os.path.exists(out):
        with open(log, encoding="utf-8") as f:
            return None, f.read()[-3000:]
    with open(out, encoding="utf-8") as f:
        return json.load(f), ""


def write_replay(prop, name, payload):
    d = os.path.join(HERE, "replays", prop)
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps(payload, sort_keys=True, default=str).encode()).hexdigest()[:10]
    safe = "".join(ch if ch.isalnum() else "_" for ch in name)[:60]
    path = os.path.join(d, f"{safe}-{h}.json")
    with open(path, "w", encoding="utf-8") as f:
        json.dump(payload, f, indent=1, default=str)
    return path


def replay(path):
    with open(path, encoding="utf-8") as f:
        r = json.load(f)
    tmp = tempfile.mkdtemp(prefix="pyvc-")
    try:
        opts = {"seed": r.get("seed", 1), "only": [r["contract"]], "replay_only": True, "con_time": 1, "jobs": 1,
                "hard_limit": 60, "replay": {r["contract"]: [{"inputs": r["inputs"], "label": r["label"]}]}}
        res, err = finish(start("con", r["property"], opts, tmp, "rep"), 100)
        print(json.dumps(res["results"] if res else err, indent=1))
        return 1 if res and res["results"].get(r["contract"], {}).get("fails") else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def known_findings(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p, encoding="utf-8") as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3:] or None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    quick = tier == "quick"
    tmp = tempfile.mkdtemp(prefix="pyvc-")
    try:
        opts = {"seed": seed, "jobs": 8,
                "sym_budget": 150 if quick else 1200, "prove_timeout": 12 if quick else 120,
                "scale": 1 if quick else 6,
                "hard_limit": 300 if quick else 3000, "deadline": 420 if quick else 19000, "con_time": 5 if quick else 60, "only": only}
        if os.environ.get("PYVC_FAST"):  # campaigns: a quick look at the run-time checks first
            qres, _ = finish(start("con", prop, {**opts, "con_time": 2}, tmp, "fast"), 200)
            bad = [(n, r["fails"][0]) for n, r in (qres or {"results": {}})["results"].items() if r.get("fails")]
            if bad:
                print(f"  contract '{bad[0][0]}' obligation '{bad[0][1]['label']}'\nVIOLATION property={prop} replay=-")
                return 1
        hs = start("sym", prop, opts, tmp, "sym")
        sres, serr = finish(hs, 500 if quick else 20000)
        hc = start("con", prop, {**opts, "deadline": 150 if quick else 19000}, tmp, "con")
        cres, cerr = finish(hc, 200 if quick else 20000)
        if sres is None and cres is not None:
            sres = {"results": {}, "meta": {}}
        if cres is None:
            # the code under verification does not even import, or the checker crashed
            print("CHECKER ERROR", serr or cerr)
            return 2
        S, C, meta = sres["results"], cres["results"], {**cres["meta"], **sres["meta"]}
        # replay refutations on the real code
        rp = {}
        for n, r in S.items():
            for f in r.get("failures", []):
                for m in f["models"]:
                    rp.setdefault(n, []).append({"inputs": m, "label": f["label"]})
        if rp:
            o2 = {**opts, "replay": rp, "replay_only": True, "only": list(rp), "deadline": 80 if quick else 3000}
            rres, rerr = finish(start("con", prop, o2, tmp, "rep"), 100 if quick else 3100)
            if rres:
                for n, r in rres["results"].items():
                    if r.get("fails"):
                        C.setdefault(n, {}).setdefault("fails", [])
                        C[n]["fails"] = r["fails"] + C[n]["fails"]
            # second chance: more concrete search for the refuted contracts
            missing = [n for n in rp if not C.get(n, {}).get("fails")]
            if missing:
                o3 = {**opts, "only": missing, "con_time": 30, "seed": seed + 1000, "deadline": 80 if quick else 3000}
                r3, _ = finish(start("con", prop, o3, tmp, "search"), 100 if quick else 3100)
                if r3:
                    for n, r in r3["results"].items():
                        if r.get("fails"):
                            C.setdefault(n, {}).setdefault("fails", []).extend(r["fails"])
        known = known_findings(prop)
        violations, kf, und, functions = [], [], [], set()
        tot = {"obligations": 0, "discharged": 0, "paths": 0, "solver_s": 0.0, "by": {}}
        proved, bounded = [], []
        con_checks = 0
        for n, m in sorted(meta.items()):
            functions.update(m["fns"])
            r, c = S.get(n), C.get(n, {})
            con_checks += c.get("checked", 0)
            fails = c.get("fails") or []
            for f in fails[:1]:
                k = next((k for k in known if k["contract"] == n and k["label"] == f["label"]), None)
                payload = {"property": prop, "contract": n, "label": f["label"], "detail": f.get("detail"),
                           "inputs": f.get("inputs"), "found_by": f.get("from"), "seed": seed,
                           "functions": m["fns"],
                           "verifier": (r or {}).get("failures", [])[:3],
                           "how": "python3 /verif/check.py --replay <this file> re-runs the contract on the code in /repo"}
                if k:
                    kf.append(k)
                    continue
                violations.append((n, f["label"], write_replay(prop, n, payload), True, f.get("detail", "")))
            if c.get("errors"):
                und.append((n, "harness", c["errors"][0]["detail"]))
            if c.get("crash"):
                und.append((n, "harness", c["crash"]))
            if not m["bounded"] and not c.get("crash") and not fails and c.get("ok", 0) == 0:
                und.append((n, "harness", "no concrete sample satisfied the precondition"))
            if m["bounded"]:
                bounded.append(n)
                continue
            if r is None or r.get("crash"):
                und.append((n, "*", (r or {}).get("crash", "missing")))
                bounded.append(n)
                continue
            st = r["stats"]
            tot["obligations"] += st["obligations"]
            tot["discharged"] += st["discharged"]
            tot["paths"] += st["paths"]
            tot["solver_s"] += st["solver_s"]
            for k2, v in st["by"].items():
                tot["by"][k2] = tot["by"].get(k2, 0) + v
            if r["n_failures"] and not fails:
                f = r["failures"][0]
                if any(k["contract"] == n and k["label"] == f["label"] for k in known):
                    kf += [k for k in known if k["contract"] == n and k["label"] == f["label"]]
                elif f.get("axioms"):
                    und.append((n, f["label"], "refuted only modulo assumed axioms; not reproduced on the real code"))
                    bounded.append(n)
                else:
                    payload = {"property": prop, "contract": n, "label": f["label"], "inputs": f["models"][0] if f["models"] else {},
                               "seed": seed, "functions": m["fns"], "verifier": r["failures"][:5],
                               "note": "obligation refuted by the solver; no failing concrete input found"}
                    violations.append((n, f["label"], write_replay(prop, n, payload), False, ""))
                continue
            if r["n_undecided"]:
                u = r["undecided"][0]
                und.append((n, u["label"], u["why"]))
                bounded.append(n)
            elif not r["n_failures"]:
                if st["obligations"] == 0 or not r["reached"].get("end"):
                    und.append((n, "*", "vacuous: no obligation or no completed path"))
                    bounded.append(n)
                else:
                    proved.append(n)
        status = "VIOLATED" if violations else "HELD"
        print(f"{prop} [{tier}] contracts={len(meta)} proved={len(proved)} bounded={len(bounded)} "
              f"paths={tot['paths']} obligations={tot['obligations']} discharged={tot['discharged']} "
              f"by={tot['by']} solver={tot['solver_s']:.1f}s runtime-checks={con_checks} wall={time.time()-t0:.1f}s {status}")
        for n, l, why in und:
            print(f"UNDECIDED {n} [{l}]: {why} -> bounded run-time check of the contract stands in")
        for k in kf:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
        for n, l, path, rep, detail in violations:
            print(f"  contract '{n}' obligation '{l}' {detail[:300]}")
            print(f"VIOLATION property={prop} replay={path}" + ("" if rep else " no-failing-input-found"))
        if not only and SRC == "/repo/src":
            ev(prop, tier, seed, tot, proved, bounded, und, functions, violations, meta, S, C, con_checks, time.time() - t0)
        if not meta:
            print("CHECKER ERROR no contracts")
            return 2
        return 1 if violations else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def ev(prop, tier, seed, tot, proved, bounded, und, functions, violations, meta, S, C, con_checks, wall):
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    extra = sorted({a for m in meta.values() for a in m["assumes"]})
    data = {
        "property": prop, "tier": tier, "seed": seed,
        "level": level_of(prop),
        "coverage": {
            "obligations": tot["obligations"], "discharged": tot["discharged"],
            "checker_cmd": f"python3 /verif/check.py {prop} {tier}",
            "trusted_base": ["pyvc (this verifier: /verif/pyvc)", "z3 5.3.2", "cvc5 (fallback)", "CPython 3.12", *extra],
            "functions_under_contract": sorted(functions),
            "contracts_proved": proved, "contracts_bounded": sorted(set(bounded)),
            "undecided": [list(u) for u in und],
            "paths": tot["paths"], "discharged_by": tot["by"], "solver_s": round(tot["solver_s"], 2),
            "runtime_contract_checks": con_checks,
            "per_contract": {n: {"obligations": (S.get(n) or {}).get("stats", {}).get("obligations"),
                                 "paths": (S.get(n) or {}).get("stats", {}).get("paths"),
                                 "wall_s": round((S.get(n) or {}).get("wall", 0), 2),
                                 "concrete_samples": (C.get(n) or {}).get("ok"),
                                 "note": m["note"]} for n, m in meta.items()},
        },
        "assumptions": ASSUMPTIONS + extra,
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    with open(os.path.join(d, f"{prop}.json"), "w", encoding="utf-8") as f:
        json.dump(data, f, indent=1)


def level_of(prop):
    try:
        with open(os.path.join(HERE, "MANIFEST.json"), encoding="utf-8") as f:
            for c in json.load(f)["checks"]:
                if c["property"] == prop:
                    return c["level"]
    except (OSError, ValueError):
        pass
    return "proof"


if __name__ == "__main__":
    sys.exit(main())
