# -*- coding: utf-8 -*-
"""run one property's check:  python -m sx.runner --property C01 --tier quick"""
import argparse
import concurrent.futures as cf
import importlib
import json
import multiprocessing
import os
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SX_REPO", "/repo")
VENV_PY = "/opt/venv/bin/python"
Z3_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
PREFIXES = ["syncany", "syncanysql", "harness"]
EXTRA = {"C23": ["sqlglot"], "C25": ["sqlglot"], "C03": ["sqlglot"]}      # statements whose text is symbolic: their tokenizer and parser too

HARN = []          # filled before the fork
DEVNULL = None


def scratch_env():
    d = tempfile.mkdtemp(prefix="sxrun")
    os.environ["HOME"] = d
    os.environ["TZ"] = "UTC"
    os.chdir(d)
    time.tzset()
    return d


def quiet():
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter("ignore")


def load_symbolic(prop):
    sys.path.insert(0, REPO)
    if Z3_SITE not in sys.path:
        sys.path.append(Z3_SITE)
    from sx import instrument
    instrument.load_pure_datetime()
    instrument.install(PREFIXES + EXTRA.get(prop.upper(), []))
    quiet()
    import syncanysql
    assert os.path.realpath(syncanysql.__file__).startswith(os.path.realpath(REPO) + os.sep), syncanysql.__file__
    m = importlib.import_module("harness." + prop.lower())
    quiet()
    from harness import lib
    lib.setup_symbolic()
    return m


def load_concrete(prop):
    sys.path.insert(0, REPO)
    if Z3_SITE not in sys.path:
        sys.path.append(Z3_SITE)
    quiet()
    import syncanysql
    assert os.path.realpath(syncanysql.__file__).startswith(os.path.realpath(REPO) + os.sep), syncanysql.__file__
    m = importlib.import_module("harness." + prop.lower())
    quiet()
    return m


def worker(idx, prefixes, max_paths, max_seconds, profile):
    from sx import core, ops
    global DEVNULL
    if DEVNULL is None and not os.environ.get("SX_DEBUG"):
        DEVNULL = sys.stdout = open(os.devnull, "w")
    h = HARN[idx]
    st = core.Stats()
    out = {"idx": idx, "violations": [], "funcs": [], "notes": [], "sample": None}
    ops.UNKNOWN_CALLS.clear()
    funcs = set()
    root = os.path.realpath(REPO) + os.sep + "syncanysql" + os.sep

    def prof(frame, event, arg):
        if event == "call":
            c = frame.f_code
            if c.co_filename.startswith(root):
                funcs.add(c.co_filename[len(root):] + ":" + c.co_qualname)

    def fn(ctx):
        try:
            h["fn"](ctx)
        except (core.PathAbort, KeyboardInterrupt):
            raise
        except RecursionError:
            raise core.PathLimit("recursion")
        except BaseException as e:
            if os.environ.get("SX_DEBUG"):
                traceback.print_exc()
            ctx.check(False, "unexpected %s" % type(e).__name__)
            out["notes"].append("exception %s: %s" % (type(e).__name__, "".join(
                traceback.format_exception_only(type(e), e))[:300]))

    def on_path(ctx):
        for msg, vals in ctx.violations:
            out["violations"].append((msg, vals))
        for n in ctx.notes:
            out["notes"].append(n)
        if out["sample"] is None and ctx.meta.get("ok", True) and ctx.inputs:
            try:
                m = ctx._ensure_model()
                out["sample"] = ctx.decode(m)
            except BaseException:
                pass

    left = []
    t0 = time.time()
    first = True
    todo = list(prefixes)
    while todo:
        p = todo.pop()
        if not first and time.time() - t0 > max_seconds:
            left.append(p)
            continue
        if first and profile:
            sys.setprofile(prof)
            try:
                l2 = core.explore(fn, p, st, 1, max_seconds, on_path)
            finally:
                sys.setprofile(None)
        else:
            l2 = core.explore(fn, p, st, max_paths, max(0.1, max_seconds - (time.time() - t0)), on_path)
        first = False
        if time.time() - t0 > max_seconds:
            left.extend(l2)
        else:
            todo.extend(l2)
        if len(out["violations"]) >= 20:
            left.extend(todo)
            break
    out["left"] = left
    out["stats"] = st.as_dict()
    out["funcs"] = sorted(funcs)
    out["unknown_calls"] = dict(ops.UNKNOWN_CALLS)
    out["notes"] = sorted(set(out["notes"]))[:20]
    return out


def replay_file(prop, harness, inputs, msg):
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    import hashlib
    body = json.dumps({"property": prop, "harness": harness, "inputs": inputs, "message": msg},
                      ensure_ascii=True, sort_keys=True, indent=1)
    path = os.path.join(d, "%s-%s.json" % (prop, hashlib.sha1(body.encode()).hexdigest()[:12]))
    with open(path, "w") as fp:
        fp.write(body)
    return path


def run_replay(path, timeout=120):
    env = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "PYTHONHOME")}
    env.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", TZ="UTC")
    try:
        p = subprocess.run([VENV_PY, os.path.join(VERIF, "sx", "replay.py"), path], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, "timeout"
    out = p.stdout.decode("utf-8", "replace")
    return p.returncode, out + p.stderr.decode("utf-8", "replace")[-2000:]


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as fp:
        return [k for k in json.load(fp)["findings"] if k["property"] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("SX_JOBS", "8")))
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    sys.argv = sys.argv[:1]        # the engine reads options from it
    t0 = time.time()
    prop = a.property
    seed = int(os.environ.get("VERIF_SEED", "1"))
    budget = a.budget or (420 if a.tier == "quick" else 840)
    scratch = scratch_env()
    try:
        rc = run(a, prop, seed, budget, t0)
    finally:
        import shutil
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def run(a, prop, seed, budget, t0):
    global HARN
    m = load_symbolic(prop)
    from sx import core
    HARN = m.harnesses(a.tier)
    for h in HARN:
        h.setdefault("known", ())
    if a.only:
        HARN = [h for h in HARN if a.only in h["name"]]
    names = [h["name"] for h in HARN]
    assert len(set(names)) == len(names), "duplicate harness names"
    per = [{"name": h["name"], "bounds": h.get("bounds", ""), "stats": core.Stats(), "open": 0, "left": 0,
            "violations": [], "notes": set(), "sample": None, "start": None, "wall": 0.0} for h in HARN]
    funcs, unknown_calls = set(), {}
    confirmed, bad, seen = [], [], {}
    deadline = t0 + budget
    ctxm = multiprocessing.get_context("fork")
    sys.stdout.flush()
    pool = cf.ProcessPoolExecutor(a.jobs, mp_context=ctxm)
    rpool = cf.ThreadPoolExecutor(4)
    queue = [(i, [()]) for i in range(len(HARN))]
    running, replays = {}, {}
    profiled = set()
    stop = False
    qn = 0
    while queue or running or replays:
        now = time.time()
        while queue and len(running) < a.jobs + 4 and not stop and now < deadline:
            i, pf = queue.pop(0)
            prof = i not in profiled
            profiled.add(i)
            slice_s = 2.0 if qn < 400 else 4.0
            qn += 1
            running[pool.submit(worker, i, pf, 100000, slice_s, prof)] = i
        if (stop or now >= deadline) and not running and not replays:
            break
        done, _ = cf.wait(list(running) + list(replays), timeout=5, return_when=cf.FIRST_COMPLETED)
        for f in done:
            if f in running:
                i = running.pop(f)
                r = f.result()
                p = per[i]
                p["stats"].add(r["stats"])
                p["notes"].update(r["notes"])
                if p["sample"] is None:
                    p["sample"] = r["sample"]
                funcs.update(r["funcs"])
                for k, v in r["unknown_calls"].items():
                    unknown_calls[k] = unknown_calls.get(k, 0) + v
                left = r["left"]
                nv = 0
                for msg, vals in r["violations"]:
                    key = (i, msg)
                    seen.setdefault(key, 0)
                    if seen[key] < (6 if a.tier == "quick" else 20):
                        seen[key] += 1
                        path = replay_file(prop, p["name"], vals, msg)
                        replays[rpool.submit(run_replay, path)] = (i, msg, vals, path)
                if left:
                    n = max(1, min(len(left), 8))
                    # work splitting: hand the leftover prefixes out again
                    chunks = [left[j::n] for j in range(n)]
                    for c in chunks:
                        queue.append((i, c))
            else:
                i, msg, vals, path = replays.pop(f)
                rc, out = f.result()
                if rc == 1:
                    confirmed.append((i, msg, vals, path, out))
                    per[i]["violations"].append(msg)
                    if a.tier == "quick" and not a.verbose:
                        stop = True
                else:
                    bad.append((i, msg, vals, path, out))
        if stop:
            queue = [q for q in queue]
            if not replays:
                break
    incomplete = {}
    for i, pf in queue:
        incomplete[per[i]["name"]] = incomplete.get(per[i]["name"], 0) + len(pf)
    if running or stop:
        for pr in list(getattr(pool, "_processes", {}).values()):
            pr.terminate()
    pool.shutdown(wait=False, cancel_futures=True)
    rpool.shutdown(wait=False)

    # known findings: each listed witness is replayed on the real code
    known_lines, kf_bad = [], []
    for k in load_known(prop):
        path = replay_file(prop, k["harness"], k["inputs"], k["what"])
        rc, out = run_replay(path)
        if rc == 1 or rc == 3:
            known_lines.append("KNOWN-FINDING: property=%s %s: %s" % (prop, k["id"], k["what"]))
        else:
            kf_bad.append(k["id"])

    total = core.Stats()
    for p in per:
        total.add(p["stats"].as_dict())
    vac = [p["name"] for p in per if p["stats"].reach == 0 and p["name"] not in incomplete and not stop]
    cov = {
        "explanation": "Symbolic execution of the real, instrumented source of /repo (and of the syncany "
                       "library it runs on): every feasible path of each harness within its bounds is "
                       "executed with z3-backed symbolic inputs; branch feasibility and every assertion "
                       "are z3 queries. A satisfiable negated assertion is replayed on the unmodified code.",
        "harnesses": [{"name": p["name"], "bounds": p["bounds"], "exhausted": p["name"] not in incomplete,
                       "unexplored_prefixes": incomplete.get(p["name"], 0),
                       "notes": sorted(p["notes"])[:10], "sample_path_inputs": p["sample"],
                       **p["stats"].as_dict()} for p in per],
        "paths": total.paths, "queries_discharged": total.queries, "solver_seconds": round(total.solver_s, 3),
        "assertions_checked": total.asserts, "solver_unknown": total.unknown,
        "enumerated_sites": total.concretized, "path_limits": total.limits, "nondeterministic_paths": total.nondet,
        "functions_encoded": sorted(funcs), "functions_encoded_count": len(funcs),
        "unmodelled_c_calls_enumerated": unknown_calls,
        "not_reproduced": [{"harness": per[i]["name"], "message": msg, "inputs": vals, "output": out[-600:]}
                           for i, msg, vals, path, out in bad[:20]],
        "vacuous_harnesses": vac,
        "known_findings": known_lines, "exhaustive": not incomplete and not total.limits,
    }
    ev = {"property": prop, "tier": a.tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": list(getattr(m, "ASSUMPTIONS", [])) + [
              "floats are modelled as exact rationals; replay is on real floats",
              "logging and human-readable debug formatting are stubbed"],
          "wall_s": round(time.time() - t0, 3), "violations": len(confirmed)}
    if not a.only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fp:
            json.dump(ev, fp, indent=1, default=str)
    for line in known_lines:
        print(line)
    if a.verbose:
        for p in per:
            print("%-50s %s %s" % (p["name"], p["stats"].as_dict(), sorted(p["notes"])[:4]))
    print("%s tier=%s harnesses=%d paths=%d queries=%d solver=%.1fs asserts=%d unknown=%d enum=%d limits=%d "
          "incomplete=%d wall=%.1fs" % (prop, a.tier, len(per), total.paths, total.queries, total.solver_s,
                                        total.asserts, total.unknown, total.concretized, total.limits,
                                        len(incomplete), time.time() - t0))
    if incomplete:
        print("not exhausted within the time budget:", incomplete)
    if unknown_calls:
        print("enumerated C calls:", unknown_calls)
    if confirmed:
        shown = set()
        for i, msg, vals, path, out in confirmed:
            if (i, msg) in shown:
                continue
            shown.add((i, msg))
            print("counterexample in %s: %s inputs=%s" % (per[i]["name"], msg, json.dumps(vals, ensure_ascii=True)))
            print(out.strip()[-800:])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if bad:
        # the real code refutes the counterexample: the model is imprecise there, the
        # path is inconclusive (listed in the evidence), not a violation
        for i, msg, vals, path, out in bad[:10]:
            print("INCONCLUSIVE (counterexample refuted by the real code): %s: %s inputs=%s\n%s" % (
                per[i]["name"], msg, json.dumps(vals, ensure_ascii=True), out.strip()[-1500:]))
        if a.verbose:
            return 2
    if vac and not incomplete:
        print("VACUOUS harnesses (assertion never reached):", vac)
        return 2
    if kf_bad:
        print("known findings that no longer reproduce:", kf_bad)
    return 0


if __name__ == "__main__":
    sys.path.insert(0, VERIF)
    sys.dont_write_bytecode = True
    sys.modules.setdefault("sx.runner", sys.modules["__main__"])
    sys.setrecursionlimit(20000)
    main()
