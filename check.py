#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--case SUBSTR] [-v]
Decides one property: symbolic execution of the current source of /repo under every registered case."""
import sys
import os

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

import json
import time
import signal
import argparse
import subprocess
import contextlib
import importlib
import hashlib
import traceback
import faulthandler

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PLAIN = os.environ.get("VERIF_PLAIN_PYTHON", "/opt/venv/bin/python")


class PathHang(BaseException):
    pass


_SNAP = None


def run_case(job):
    """Worker: explores one case."""
    global _SNAP
    modname, fn, kwargs, opts = job
    from symx.engine import Engine, PathAbort, BudgetExceeded
    from symx.api import Symbolic
    from symx import instr
    from symx.state import Snapshot
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception:
        pass
    t0 = time.time()
    mod = importlib.import_module(modname)
    if _SNAP is None:
        _SNAP = Snapshot()
    instr.ENTERED.clear()
    e = Engine(budget_s=opts["budget"], max_paths=opts.get("max_paths", 10 ** 7), conc_limit=opts.get("conc", 3))
    S = Symbolic(e)
    f = getattr(mod, fn)
    npath = [0]
    errors = []
    state = {"hang": 0}

    def on_alarm(*a):
        state["hang"] += 1
        # a path that runs much longer than any path should: the code may not terminate
        if state["hang"] > 3:
            e.deadline = 0
        e.dead = True
        raise PathHang()
    signal.signal(signal.SIGALRM, on_alarm)

    def body():
        S.reset()
        _SNAP.restore()
        npath[0] += 1
        if os.environ.get("SX_TRACE"):
            print("path", npath[0], len(e.trail), file=sys.stderr)
        signal.setitimer(signal.ITIMER_REAL, opts.get("path_s", 40))
        try:
            f(S, **kwargs)
        except Exception as ex:
            if e.dead:
                raise PathAbort("dead")
            signal.setitimer(signal.ITIMER_REAL, 0)
            m = S.current_model()
            if m is not None:
                S._candidate("exception " + type(ex).__name__, m, traceback.format_exc()[-1500:], "exception")
            return
        except PathHang:
            e.dead = False
            m = S.current_model()
            if m is not None:
                S._candidate("does not terminate", m, "", "hang")
            e.mark_incomplete("path time limit")
            e.dead = True
            return
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        n = npath[0]
        if n <= 2 or (n & (n - 1)) == 0:
            if len(S.witnesses) < opts.get("witnesses", 6) and not e.dead and e.model is not None:
                S.witnesses.append((S.inputs_of(e.model), list(S.covered)))
        if len(S.candidates) >= S.max_candidates:
            e.mark_incomplete("stopped after candidates")
            e.deadline = 0
    try:
        e.explore(body)
    except BaseException as ex:
        errors.append(traceback.format_exc()[-3000:])
        e.mark_incomplete("checker error")
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return {"module": modname, "fn": fn, "kwargs": kwargs, "stats": e.stats.as_dict(), "complete": e.complete,
            "reasons": e.incomplete_reasons, "candidates": S.candidates, "known": S.known_hits, "covers": S.covers,
            "witnesses": S.witnesses, "functions": sorted(instr.ENTERED), "wall": time.time() - t0, "errors": errors}


def lost_case(job, why):
    from symx.engine import Stats
    modname, fn, kwargs, opts = job
    return {"module": modname, "fn": fn, "kwargs": kwargs, "stats": Stats().as_dict(), "complete": False, "reasons": {why: 1},
            "candidates": [], "known": {}, "covers": {}, "witnesses": [], "functions": [], "wall": 0.0, "errors": [why]}


def batch_replay(items, timeout=600):
    if not items:
        return []
    d = os.path.join(HERE, "evidence", "tmp")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"batch-{os.getpid()}-{time.time_ns()}.json")
    with open(p, "w") as fh:
        json.dump(items, fh)
    out = [None] * len(items)
    try:
        env = dict(os.environ)
        env["PYTHONHASHSEED"] = "0"
        r = subprocess.run([PLAIN, os.path.join(HERE, "replay.py"), "--batch", p], capture_output=True, text=True, timeout=timeout, env=env)
        for ln in r.stdout.splitlines():
            try:
                o = json.loads(ln)
                out[o["i"]] = o["r"]
            except Exception:
                pass
        if not r.stdout and r.stderr:
            print("replay:", r.stderr[-500:], file=sys.stderr)
    except subprocess.TimeoutExpired:
        pass
    finally:
        os.unlink(p)
        try:
            os.rmdir(d)
        except OSError:
            pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case", default=None)
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    from symx.boot import boot
    boot()
    reg = json.load(open(os.path.join(HERE, "harness", "registry.json")))
    modname = "harness." + reg[a.id]
    known_file = json.load(open(os.path.join(HERE, "known_findings.json")))
    known = {k["id"]: k for k in known_file["findings"] if k["property"] == a.id}
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    setup_error = None
    try:
        mod = importlib.import_module(modname)
        prop = mod.PROPS[a.id]
        cases = [c if len(c) == 3 else (*c, {}) for c in prop["cases"](tier)]
    except Exception:
        # the harness cannot be loaded against this tree (e.g. an entry point vanished)
        setup_error = traceback.format_exc()
        print(setup_error, file=sys.stderr)
        cases, prop = [], {"bounds": "", "assumptions": []}
    if a.case:
        cases = [c for c in cases if a.case in c[0] + json.dumps(c[1])]
    total = prop.get("budget", {}).get(tier, 60 if tier == "quick" else 600)
    jobs = []
    for fn, kw, opt in cases:
        o = {"budget": total, "witnesses": 6 if tier == "quick" else 10}
        o.update(opt)
        jobs.append((modname, fn, kw, o))
    jobs.sort(key=lambda j: -j[3].get("weight", 1))
    results = []
    confirmed = []
    spurious = []
    if jobs:
        from symx import pool
        gen = pool.run(run_case, jobs, min(a.jobs, len(jobs)), lambda j: j[3]["budget"] + j[3].get("path_s", 40) + 120,
                       lost_case, t0 + (600 if tier == "quick" else 6 * 3600))
        with contextlib.closing(gen):
            for r in gen:
                results.append(r)
                if a.v:
                    print(f"{r['fn']} {json.dumps(r['kwargs'])[:100]} {r['wall']:.1f}s paths={r['stats']['paths']} aborted={r['stats']['aborted']} "
                          f"q={r['stats']['queries']} solver={r['stats']['solver_s']:.1f}s req={r['stats']['requires']} conc={r['stats']['concretized']} "
                          f"{'' if r['complete'] else 'INCOMPLETE ' + str(r['reasons'])} {r['errors'] or ''} covers={r['covers']}", flush=True)
                    for c in r["candidates"]:
                        print("   CAND", c[0], json.dumps(c[1])[:300], str(c[2])[-600:])
                if r["candidates"]:
                    items = [{"property": a.id, "module": r["module"], "fn": r["fn"], "kwargs": r["kwargs"], "inputs": c[1],
                              "label": c[0]} for c in r["candidates"]]
                    for c, it, v in zip(r["candidates"], items, batch_replay(items, 200)):
                        if v and v["verdict"] == "failed":
                            it["result"] = v
                            confirmed.append(it)
                        else:
                            spurious.append({"item": it, "verdict": v, "detail": str(c[2])[-600:]})
                    if confirmed and not a.v:
                        break
    # encoding validation: witnesses of explored paths are run on the plain code
    wit = [{"property": a.id, "module": r["module"], "fn": r["fn"], "kwargs": r["kwargs"], "inputs": i, "covered": c}
           for r in results for i, c in r["witnesses"]]
    validated = mismatched = 0
    mism = []
    if not confirmed:
        import random
        rnd = random.Random(1)
        cap = 160 if tier == "quick" else 600
        if len(wit) > cap:
            wit = rnd.sample(wit, cap)
        chunks = [wit[i::8] for i in range(8) if wit[i::8]]
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            for chunk, vs in zip(chunks, ex.map(batch_replay, chunks)):
                for it, v in zip(chunk, vs):
                    if v is None:
                        continue
                    validated += 1
                    if v["verdict"] == "failed":
                        it["label"] = v["label"]
                        it["result"] = v
                        it["note"] = "found when a path witness was replayed on the plain code"
                        confirmed.append(it)
                    elif v["verdict"] != "held" or v["covered"] != it["covered"]:
                        mismatched += 1
                        if len(mism) < 5:
                            mism.append({"item": it, "verdict": v})
    known_seen = {}
    for r in results:
        for k, inp in r["known"].items():
            if k not in known_seen:
                known_seen[k] = {"property": a.id, "module": r["module"], "fn": r["fn"], "kwargs": r["kwargs"], "inputs": inp}
    kr = batch_replay(list(known_seen.values()))
    known_ok = []
    for (k, it), v in zip(known_seen.items(), kr):
        if v and k in v.get("known", []):
            if k in known:
                known_ok.append(k)
                print(f"KNOWN-FINDING: property={a.id} {known[k]['what']}")
            else:
                it["label"] = "unlisted known-finding " + k
                it["result"] = v
                confirmed.append(it)
    # report
    tot = {}
    for r in results:
        for k, v in r["stats"].items():
            tot[k] = tot.get(k, 0) + v
    complete = bool(results) and all(r["complete"] for r in results) and len(results) == len(jobs) and not setup_error
    reasons = {}
    for r in results:
        for k, v in r["reasons"].items():
            reasons[k] = reasons.get(k, 0) + v
    covers = {}
    for r in results:
        for k, v in r["covers"].items():
            covers[k] = covers.get(k, 0) + v
    funcs = sorted({f for r in results for f in r["functions"]})
    vac = [f"{r['fn']} {json.dumps(r['kwargs'])}" for r in results if r["stats"]["paths"] == 0 or r["stats"]["requires"] == 0]
    missing = sorted(set(prop.get("must_cover", [])) - set(covers))
    replay_path = None
    for n, it in enumerate(confirmed[:5]):
        h = hashlib.sha1(json.dumps([it["fn"], it["kwargs"], it["inputs"]], sort_keys=True).encode()).hexdigest()[:10]
        p = os.path.join(evdir, "replay", f"{a.id}-{h}.json")
        with open(p, "w") as fh:
            json.dump(it, fh, indent=1)
        if n == 0:
            replay_path = p
    wall = time.time() - t0
    ev = {
        "property": a.id, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
        "coverage": {
            "states": tot.get("paths", 0), "transitions": tot.get("branches", 0),
            "traces_validated_against_impl": validated,
            "samples": [{"case": w["fn"], "kwargs": w["kwargs"], "inputs": w["inputs"], "covered": w["covered"]} for w in wit[:5]],
            "explanation": "states = feasible paths of the real code fully explored; transitions = symbolic branch decisions; "
                           "each require() on each path is discharged by z3 for all inputs of that path",
            "cases": len(jobs), "cases_finished": len(results), "exhaustive_within_bounds": complete,
            "incomplete_reasons": reasons, "paths": tot.get("paths", 0), "paths_infeasible_or_cut": tot.get("aborted", 0),
            "assertions_checked": tot.get("requires", 0), "assertion_queries": tot.get("require_queries", 0),
            "solver_queries": tot.get("queries", 0), "sat": tot.get("sat", 0), "unsat": tot.get("unsat", 0),
            "unknown": tot.get("unknown", 0), "solver_s": round(tot.get("solver_s", 0.0), 2),
            "concretizations": tot.get("concretized", 0), "functions_encoded": funcs, "bounds": prop.get("bounds", ""),
            "reachability": covers, "vacuous_cases": vac, "covers_missing": missing,
            "encoding_mismatches": mismatched, "mismatch_samples": mism, "spurious_counterexamples": len(spurious),
            "spurious_samples": spurious[:3], "known_findings_seen": known_ok,
            "checker_errors": [e for r in results for e in r["errors"]][:3] + ([setup_error] if setup_error else []),
        },
        "assumptions": prop.get("assumptions", []) + COMMON,
        "wall_s": round(wall, 2), "violations": len(confirmed),
    }
    with open(os.path.join(evdir, f"{a.id}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    print(f"{a.id} {tier}: cases={len(results)}/{len(jobs)} paths={tot.get('paths', 0)} assertions={tot.get('requires', 0)} "
          f"queries={tot.get('queries', 0)} solver={tot.get('solver_s', 0):.1f}s wall={wall:.1f}s "
          f"exhaustive={complete} validated={validated} mismatched={mismatched} spurious={len(spurious)} violations={len(confirmed)}")
    if reasons:
        print("incomplete:", reasons)
    if vac and not confirmed:
        print("vacuous:", vac[:5])
    if missing and not confirmed:
        print("not covered:", missing)
    if a.v:
        for m in mism:
            print("MISMATCH", json.dumps(m)[:600])
        for m in spurious[:4]:
            print("SPURIOUS", json.dumps(m, default=str)[:1500])
        for e in ev["coverage"]["checker_errors"]:
            print("ERROR", e)
    if confirmed:
        it = confirmed[0]
        print(f"violated: {it['label']} in {it['fn']} {json.dumps(it['kwargs'])} inputs={json.dumps(it['inputs'])[:600]}")
        print(str(it["result"].get("detail", ""))[-1200:])
        print(f"reproduce: {PLAIN} {HERE}/replay.py {replay_path}")
        print(f"VIOLATION property={a.id} replay={replay_path}")
        sys.exit(1)
    sys.exit(0)


COMMON = [
    "z3 is sound; the instrumenting interpreter (symx) models CPython semantics of the modelled builtins (cross-checked by replaying path witnesses on the plain interpreter)",
    "library calls without a model are executed on concretised arguments; such paths are counted under incomplete_reasons",
]

if __name__ == "__main__":
    main()
