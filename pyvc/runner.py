"""Runs contracts: `python -m pyvc.runner MODE PROP SPEC.json OUT.json`.

MODE sym: symbolic (hook installed, z3).   MODE con: concrete on the untouched code.
Each contract runs in a forked child (8 at a time), with a hard wall-clock limit.
"""
from __future__ import annotations

import json
import os
import random
import signal
import sys
import time
import traceback

REPO = os.environ.get("PYVC_SRC", "/repo/src")


def load(prop):
    import importlib

    from . import registry

    here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts")
    sys.path.insert(0, os.path.dirname(here))
    with open(os.path.join(here, "INDEX.json"), encoding="utf-8") as f:
        index = json.load(f)
    for m in index[prop]:
        importlib.import_module(f"contracts.{m}")
    return [c for c in registry.CONTRACTS if c.prop == prop]


def blame_repo(tb):
    """True if the last /repo-or-/verif frame of the traceback is code under verification."""
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    last = None
    for fr in traceback.extract_tb(tb):
        if fr.filename.startswith(REPO):
            last = ("repo", fr)
        elif fr.filename.startswith(here):
            if os.sep + "pyvc" + os.sep in fr.filename:
                continue
            last = ("verif", fr)
    return last is not None and last[0] == "repo", last


def run_sym(ct, opts):
    from . import sym
    from .ctx import SymC, artifact

    ex = sym.Explorer(ct.id, max_paths=ct.max_paths, time_budget=opts["sym_budget"],
                      prove_timeout=opts["prove_timeout"])
    errors = []

    def body(e):
        c = SymC(e)
        try:
            ct.fn(c)
        except Exception as err:  # noqa: BLE001
            repo, fr = blame_repo(err.__traceback__)
            where = f"{os.path.relpath(fr[1].filename, REPO)}:{fr[1].name}" if fr else "?"
            if artifact(err):
                e.undecided.append({"label": "*", "why": f"{type(err).__name__}: {err} at {where}", "inputs": e.model_inputs_concrete_only()})
            elif repo:
                e.prove(False, f"no unexpected {type(err).__name__} (raised in {where})")
            else:
                errors.append(f"harness {type(err).__name__}: {err} at {where} {fr[1].lineno if fr else ''}")
                e.undecided.append({"label": "*", "why": errors[-1], "inputs": e.model_inputs_concrete_only()})

    ex.run(body)
    return {
        "stats": ex.stats, "failures": ex.failures[:20], "n_failures": len(ex.failures),
        "undecided": ex.undecided[:20], "n_undecided": len(ex.undecided),
        "reached": ex.reached, "labels": ex.labels,
    }


def one_concrete(ct, values, rng):
    from .ctx import ConC, ContractFailed, Skip, standin

    c = ConC(values, rng)
    try:
        ct.fn(c)
        return "ok", None, c
    except Skip:
        return "skip", None, c
    except ContractFailed as e:
        return "fail", {"label": e.label, "detail": str(e.detail)[:2000]}, c
    except Exception as e:  # noqa: BLE001
        repo, fr = blame_repo(e.__traceback__)
        where = f"{os.path.relpath(fr[1].filename, REPO)}:{fr[1].name}" if fr else "?"
        if repo and not standin(e):
            return "fail", {"label": f"no unexpected {type(e).__name__} (raised in {where})",
                            "detail": str(e)[:2000]}, c
        return "error", {"label": "harness", "detail": f"{type(e).__name__}: {e} at {where} {fr[1].lineno if fr else ''}"}, c


def alarmed(seconds):
    class T(BaseException):
        pass

    def h(s, f):
        raise T

    signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    return T


def run_con(ct, opts):
    rng = random.Random(f"{opts['seed']}/{ct.id}")
    t0 = time.time()
    n = ok = skip = checked = 0
    fails, errs, labels = [], [], {}
    limit = opts["con_time"] * ct.weight
    maxn = opts.get("con_samples") or 10**9
    if ct.samples:
        maxn = min(maxn, ct.samples)
    for rep in opts.get("replay", {}).get(ct.name, []):
        T = alarmed(20)
        try:
            st, info, c = one_concrete(ct, rep["inputs"], random.Random(1))
        except T:
            st, info, c = "fail", {"label": rep["label"], "detail": "did not terminate within 20 s"}, None
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if st == "fail":
            fails.append({**info, "inputs": c.used if c else rep["inputs"], "from": "counterexample"})
            break
    if not opts.get("replay_only"):
        while time.time() - t0 < limit and n < maxn:
            n += 1
            before = rng.getstate()
            for allow in (20, 90):  # a single contract instance never legitimately takes 20 s of a free core
                rng.setstate(before)
                T = alarmed(allow)
                try:
                    st, info, c = one_concrete(ct, None, rng)
                    break
                except T:
                    st, info, c = "hang", {"label": "terminates", "detail": f"still running after {allow} s"}, None
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
            if c is not None:
                checked += c.checked
                for k, v in c.labels.items():
                    labels[k] = labels.get(k, 0) + v
            if st == "ok":
                ok += 1
            elif st == "skip":
                skip += 1
            elif st == "fail":
                fails.append({**info, "inputs": c.used, "from": "sampling"})
                break
            elif st == "hang":
                fails.append({**info, "inputs": {}, "from": "sampling", "nth": n})
                break
            else:
                errs.append(info)
                if len(errs) > 5:
                    break
    return {"n": n, "ok": ok, "skip": skip, "checked": checked, "fails": fails, "errors": errs[:3],
            "labels": labels, "wall": time.time() - t0}


def main():
    mode, prop, spec, out = sys.argv[1:5]
    with open(spec, encoding="utf-8") as f:
        opts = json.load(f)
    sys.setrecursionlimit(20000)
    if mode == "sym":
        from . import hook

        hook.install()
    else:
        sys.path.insert(0, REPO)
    cts = load(prop)
    if opts.get("only"):
        cts = [c for c in cts if c.name in opts["only"]]
    if mode == "sym":
        cts = [c for c in cts if not c.bounded]
    import pygerber

    assert os.path.realpath(pygerber.__file__).startswith(os.path.realpath(REPO)), pygerber.__file__
    results = {}
    pending = sorted(cts, key=lambda c: -c.weight)
    running = {}
    tmpdir = os.path.dirname(out)
    os.makedirs(tmpdir, exist_ok=True)
    hard = opts["hard_limit"]
    seq = 0
    begin, deadline = time.time(), opts.get("deadline", 10**9)
    while pending or running:
        if pending and time.time() - begin > deadline:
            for ct in pending:
                results[ct.name] = {"crash": "out of time", "wall": 0}
            pending = []
        while pending and len(running) < opts.get("jobs", 8):
            ct = pending.pop(0)
            seq += 1
            fn = os.path.join(tmpdir, f"{mode}-{os.getpid()}-{seq}.json")
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    o = dict(opts)
                    if ct.budget:
                        o["sym_budget"] = min(opts["sym_budget"] if opts.get("cap") else 10**9, ct.budget * opts.get("scale", 1))
                    r = run_sym(ct, o) if mode == "sym" else run_con(ct, o)
                except BaseException as e:  # noqa: BLE001
                    r = {"crash": f"{type(e).__name__}: {e}", "tb": traceback.format_exc()[-3000:]}
                try:
                    with open(fn, "w", encoding="utf-8") as f:
                        json.dump(r, f, default=str)
                finally:
                    os._exit(code)
            running[pid] = (ct, fn, time.time())
        pid, _ = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            time.sleep(0.01)
            now = time.time()
            for p, (ct, fn, t) in list(running.items()):
                if now - t > hard or now - begin > deadline:
                    os.kill(p, signal.SIGKILL)
            continue
        ct, fn, t = running.pop(pid)
        try:
            with open(fn, encoding="utf-8") as f:
                results[ct.name] = json.load(f)
        except (OSError, ValueError):
            results[ct.name] = {"crash": "killed (hard time limit or memory)"}
        if os.path.exists(fn):
            os.unlink(fn)
        results[ct.name]["wall"] = time.time() - t
    meta = {c.name: {"fns": c.fns, "bounded": c.bounded, "note": c.note, "assumes": c.assumes} for c in cts}
    with open(out, "w", encoding="utf-8") as f:
        json.dump({"results": results, "meta": meta}, f)


if __name__ == "__main__":
    main()
