#!/usr/bin/env python3
"""Run the solver-based check of one property against /repo's current tree.

usage: run.py PROPERTY [quick|thorough]      exit 0: held, 1: violation
       run.py --build                        build the harness only
       run.py --replay FILE                  replay a recorded counterexample
"""
import json, os, subprocess, sys, time, threading, queue, fcntl, re

HERE = os.path.dirname(os.path.abspath(__file__))
SYMX = os.path.join(HERE, "symx")
BUILD = os.environ.get("VERIF_BUILD_DIR", os.path.join(HERE, ".build"))
EVID = os.path.join(HERE, "evidence")
GROUPS = json.load(open(os.path.join(HERE, "groups.json")))
NCPU = min(8, os.cpu_count() or 8)


def env():
    """the toolchain settings of the sandbox, with our own target directory"""
    e = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"],
                         capture_output=True).stdout
    for kv in out.split(b"\0"):
        if b"=" in kv:
            k, v = kv.decode(errors="replace").split("=", 1)
            e[k] = v
    e["CARGO_TARGET_DIR"] = BUILD
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    flags = "--cap-lints allow"
    e["RUSTFLAGS"] = flags
    e["RAYON_NUM_THREADS"] = "1"
    return e


def build(features):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".verif-lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    lockfile = os.path.join(SYMX, "Cargo.lock")
    before = open(lockfile, "rb").read()
    cmd = ["cargo", "build", "--offline", "-p", "harness", "--no-default-features",
           "--features", ",".join(features)]
    r = subprocess.run(cmd, cwd=SYMX, env=env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if open(lockfile, "rb").read() != before:
        open(lockfile, "wb").write(before)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        return None
    # private copy, so that parallel checks do not replace it under us
    src = os.path.join(BUILD, "debug", "harness")
    dst = os.path.join(BUILD, "harness-" + "-".join(features))
    subprocess.run(["cp", "-f", src, dst + ".tmp%d" % os.getpid()], check=True)
    os.replace(dst + ".tmp%d" % os.getpid(), dst)
    fcntl.flock(lock, fcntl.LOCK_UN)
    return dst


def known_findings():
    p = os.path.join(HERE, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                out.append(json.loads(l))
    return out


def matches(k, prop, v):
    return (k.get("status") == "known" and k["property"] == prop
            and re.fullmatch(k["job"], v["job"]) and re.search(k["message"], v["message"]))


def main():
    if sys.argv[1] == "--build":
        b = build(sorted({g for gs in GROUPS.values() for g in gs}))
        return 0 if b else 2
    if sys.argv[1] == "--replay":
        f = json.load(open(sys.argv[2]))
        b = build(GROUPS[f["property"]])
        return subprocess.run([b, "replay", sys.argv[2]], env=env()).returncode
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    t0 = time.time()
    binary = build(GROUPS[prop])
    build_s = time.time() - t0
    if binary is None:
        print(f"ERROR property={prop}: the harness does not build against /repo")
        return 2
    os.makedirs(EVID, exist_ok=True)
    jobs = [json.loads(l) for l in subprocess.run(
        [binary, "list"], env=env(), capture_output=True, text=True).stdout.splitlines()]
    jobs = [j for j in jobs if j["property"] == prop and (tier == "thorough" or not j["thorough"])]
    only = os.environ.get("VERIF_ONLY")
    if only:
        jobs = [j for j in jobs if re.search(only, j["job"])]
    budget = float(os.environ.get("VERIF_BUDGET", 780 if tier == "thorough" else 75))
    budget = max(60.0, min(budget, 840 - build_s))
    start = time.time()
    end = start + budget
    lockv = threading.Lock()
    stop = threading.Event()
    procs = set()
    known = known_findings()
    env_ = env()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1

    def run_one(j, dl, order):
        """explore one job for at most dl seconds"""
        stub = {"job": j["job"], "complete": False, "bounds": j["bounds"], "functions": j["functions"]}
        try:
            p = subprocess.Popen([binary, "run", j["job"], str(dl), str(order)], env=env_,
                                 stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            with lockv:
                procs.add(p)
            if stop.is_set():
                p.kill()
            hard = max(5.0, min(dl + 75, end + 40 - time.time()))
            try:
                out, err = p.communicate(timeout=hard)
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                out, err = "", "no report (time limit)"
            with lockv:
                procs.discard(p)
            try:
                return json.loads(out.strip().splitlines()[-1])
            except Exception:
                return dict(stub, error=(err or "no report (time limit)")[-500:])
        except Exception as ex:  # noqa
            return dict(stub, error=repr(ex))

    def confirmed(v):
        rp = v["replay"]
        return bool(rp["real_failed"] if rp["has_real"] else rp["failed"])

    def phase(todo, deadline_for, order):
        """run all jobs of `todo`; returns their reports"""
        out = []

        def worker():
            while not stop.is_set():
                with lockv:
                    if not todo:
                        return
                    left = end - time.time()
                    if left < 2:
                        return
                    j = todo.pop(0)
                    dl = deadline_for(j, todo, left)
                r = run_one(j, dl, order)
                with lockv:
                    out.append((j, r))
                    v = r.get("violation")
                    if v and confirmed(v) and not any(matches(k, prop, v) for k in known):
                        stop.set()
                        for q in list(procs):
                            q.kill()

        ts = [threading.Thread(target=worker) for _ in range(NCPU)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return out

    # 1: every job, depth first, for a short while; 2: the jobs that are not
    # exhausted, taking open branches in random order, for the rest of the time
    jobs.sort(key=lambda j: -j["cost"])
    d1 = int(max(3, min(30, budget * NCPU * 0.5 / max(1, len(jobs)))))
    d1 = min(d1, 8) if tier == "quick" else d1
    final = {}
    for j, r in phase(list(jobs), lambda j, todo, left: int(max(2, min(d1, left))), 0):
        final[j["job"]] = r
    rest = [j for j in jobs if not (final.get(j["job"]) or {}).get("complete")
            and not (final.get(j["job"]) or {}).get("violation")]

    def share(j, todo, left):
        s = left * NCPU * j["cost"] / (j["cost"] + sum(x["cost"] for x in todo))
        return int(max(4, min(left - 2, max(s, 6))))

    if not stop.is_set():
        for j, r in phase(list(rest), share, seed + 1):
            old = final.get(j["job"])
            if r.get("error") and old and not old.get("error"):
                continue
            if old and not r.get("complete"):
                # both explorations count
                for k in ("checks", "checks_trivial", "queries", "sat", "unsat", "unknown", "solver_s",
                          "cache_hits", "undecided_checks", "wall_s"):
                    if k in r:
                        r[k] = r[k] + (old.get(k) or 0)
                for k, n in (old.get("covers") or {}).items():
                    r.setdefault("covers", {})[k] = r.get("covers", {}).get(k, 0) + n
            final[j["job"]] = r
    results = []
    for j in jobs:
        results.append(final.get(j["job"]) or {"job": j["job"], "skipped": True, "complete": False,
                                               "bounds": j["bounds"], "functions": j["functions"]})

    violations, unconfirmed, seen_known = [], [], []
    for r in results:
        v = r.get("violation")
        if not v:
            continue
        if not confirmed(v):
            unconfirmed.append(v)
            continue
        ks = [k for k in known if matches(k, prop, v)]
        if ks:
            seen_known.append((ks[0], v))
        else:
            violations.append(v)

    def tot(k):
        return sum(r.get(k, 0) or 0 for r in results)

    covers = {}
    for r in results:
        for k, n in (r.get("covers") or {}).items():
            covers[k] = covers.get(k, 0) + n
    complete = [r["job"] for r in results if r.get("complete")]
    incomplete = [r["job"] for r in results if not r.get("complete")]
    ev = {
        "property": prop, "tier": tier, "seed": seed,
        "level": "model_checking",
        "coverage": {
            "technique": "bounded symbolic execution of the compiled generic Rust code with Z3 deciding every branch and assertion",
            "functions_encoded": sorted({f for r in results for f in (r.get("functions") or [])}),
            "bounds": sorted({r.get("bounds", "") for r in results}),
            "states": tot("paths"), "transitions": tot("branches"),
            "traces_validated_against_impl": tot("validated"),
            "samples": [x for r in results for x in (r.get("samples") or [])[:1]][:6],
            "exhaustive": not incomplete,
            "jobs": len(results), "jobs_exhausted": len(complete),
            "jobs_not_exhausted": incomplete,
            "assertions": tot("checks"),
            "assertions_decided_by_simplification": tot("checks_trivial"),
            "assertions_undecided": tot("undecided_checks"),
            "queries": tot("queries"), "queries_sat": tot("sat"), "queries_unsat": tot("unsat"),
            "queries_unknown": tot("unknown"), "queries_answered_from_cache": tot("cache_hits"),
            "solver_s": round(tot("solver_s"), 2),
            "covers": covers,
            "solver": next((r["z3"] for r in results if r.get("z3")), "z3"),
            "per_job": [{k: r.get(k) for k in ("job", "bounds", "paths", "checks", "queries", "solver_s",
                         "wall_s", "complete", "limit_msgs", "error", "skipped", "symbolic_inputs") if r.get(k) not in (None, [], "")}
                        for r in sorted(results, key=lambda r: r["job"])],
        },
        "assumptions": [
            "the claim covers the stated bounds only; jobs listed in jobs_not_exhausted were explored partially",
            "powdr's generic code is executed with a symbolic field type implementing powdr's own field traits; the integer library is replaced by an exact symbolic one",
            "hash-map seeds are fixed per path",
        ],
        "wall_s": round(time.time() - t0, 2),
        "build_s": round(build_s, 2),
        "violations": 0, "violation_details": [],
        "unconfirmed_counterexamples": unconfirmed,
    }
    rc = 0
    for k, v in seen_known:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for u in unconfirmed:
        print(f"note: property={prop} job={u['job']}: solver counterexample did not reproduce on concrete values ({u['message']})")
    for i, v in enumerate(violations):
        d = os.path.join(EVID, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{prop}-{re.sub('[^A-Za-z0-9.]', '_', v['job'])}.json")
        json.dump(v, open(path, "w"), indent=1)
        ev["violations"] += 1
        ev["violation_details"].append({"job": v["job"], "message": v["message"], "replay": path,
                                 "notes": v["replay"].get("notes")})
        print(f"{prop}: {v['message']} [{v['job']}]")
        for n in v["replay"].get("notes") or []:
            print("   ", n)
        print(f"VIOLATION property={prop} replay={path}")
        rc = 1
    json.dump(ev, open(os.path.join(EVID, f"{prop}.json"), "w"), indent=1)
    print(f"{prop} {tier}: jobs={len(results)} exhausted={len(complete)} paths={ev['coverage']['states']} "
          f"assertions={ev['coverage']['assertions']} queries={ev['coverage']['queries']} "
          f"solver_s={ev['coverage']['solver_s']} wall_s={ev['wall_s']} (build {build_s:.0f}s)")
    return rc


sys.exit(main())
