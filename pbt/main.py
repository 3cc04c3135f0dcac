"""Entry point of every check.

  main.py --property C01            run the check (VERIF_SEED, VERIF_TIER from the environment)
  main.py --replay FILE             run one saved case again
"""
import argparse
import hashlib
import json
import os
import signal
import subprocess
import sys
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import servers
import plan

PY = "/opt/venv/bin/python"


def derived(seed, prop, backend, k):
    h = hashlib.sha256(("%s/%s/%s/%s" % (seed, prop, backend, k)).encode()).digest()
    return int.from_bytes(h[:6], "big")


def worker_env():
    env = {k: v for k, v in os.environ.items() if not k.startswith(("PG", "MYSQL", "DJANGO", "DENORM", "PYTHON"))}
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONHASHSEED"] = "0"
    env["LC_ALL"] = "C.UTF-8"
    return env


def start(prop, backend, k, seed, examples, limit, shrink, srv, case=None):
    scratch = os.path.join(srv.root, "w-%s-%s-%d" % (prop, backend, k))
    os.makedirs(scratch)
    out = os.path.join(scratch, "result.json")
    cmd = [PY, os.path.join(HERE, "worker.py"), "--prop", prop, "--backend", backend,
           "--name", "p%s_%s_%d" % (prop.lower(), backend, k), "--host", srv.hosts.get(backend, ""),
           "--seed", str(seed), "--examples", str(examples), "--limit", str(limit), "--shrink", str(shrink),
           "--out", out, "--scratch", scratch]
    if case:
        cmd += ["--case", case]
    log = open(os.path.join(scratch, "log"), "wb")
    p = subprocess.Popen(cmd, cwd=scratch, env=worker_env(), stdout=log, stderr=subprocess.STDOUT)
    return {"p": p, "out": out, "log": os.path.join(scratch, "log"), "backend": backend, "k": k}


def collect(w, timeout):
    try:
        w["p"].wait(timeout=max(1, timeout))
    except subprocess.TimeoutExpired:
        w["p"].kill()
        w["p"].wait()
        return {"error": "worker did not end in time", "backend": w["backend"], "fail": None}
    if not os.path.exists(w["out"]):
        with open(w["log"], "rb") as f:
            return {"error": "worker died (%s): %s" % (w["p"].returncode, f.read().decode("utf-8", "replace")[-3000:]),
                    "backend": w["backend"], "fail": None}
    with open(w["out"]) as f:
        return json.load(f)


def replay_path(prop, backend):
    return os.path.join(VERIF, "out", "replay", "%s-%s.json" % (prop, backend))


def terminated(*a):
    raise SystemExit(3)


def check(prop, seed, tier, only=None, scale=1.0, shrink=None):
    t0 = time.time()
    for b in plan.ALL:
        if os.path.exists(replay_path(prop, b)):
            os.remove(replay_path(prop, b))
    cfg = plan.PLAN[prop]
    jobs = [(b, k) for b in cfg["backends"] if not only or b in only for k in range(cfg["workers"].get(b, 1))]
    examples = cfg["examples"][tier]
    total_limit = 780
    limit = cfg.get("limit", {}).get(tier, 420 if tier == "quick" else 600)
    shrink = shrink if shrink is not None else 60
    with servers.Servers({b for b, _ in jobs}) as srv:
        results = []
        running = srv.workers
        todo = list(jobs)
        # at most 8 at a time
        while todo or running:
            while todo and len(running) < 8:
                b, k = todo.pop(0)
                n = max(1, int(examples.get(b, examples.get("*", 50)) * scale))
                left = total_limit - (time.time() - t0)
                running.append(start(prop, b, k, derived(seed, prop, b, k), n, min(limit, left), shrink, srv))
            time.sleep(0.02)
            for w in list(running):
                if w["p"].poll() is not None or time.time() - t0 > total_limit + 60:
                    running.remove(w)
                    results.append(collect(w, 1))
    return finish(prop, seed, tier, results, t0, cfg)


def finish(prop, seed, tier, results, t0, cfg):
    errors = [r for r in results if r.get("error")]
    fails = [r for r in results if r.get("fail")]
    known = {}
    for r in results:
        for k, n in (r.get("known") or {}).items():
            known[k] = known.get(k, 0) + n
    ok = [r for r in results if "evaluations" in r]
    classes = {}
    for r in ok:
        for c, n in r["classes"].items():
            classes[c] = classes.get(c, 0) + n
    nontrivial = set()
    for r in ok:
        nontrivial |= {r["backend"] + x for x in r["nontrivial"]}
    samples = []
    for r in ok:
        for s in r["samples"][:1]:
            samples.append({"backend": r["backend"], "case": s})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
          "coverage": {"evaluations": sum(r["evaluations"] for r in ok),
                       "distinct_nontrivial": len(nontrivial),
                       "rule": cfg["rule"], "samples": samples[:4],
                       "per_backend": {b: sum(r["evaluations"] for r in ok if r["backend"] == b)
                                       for b in sorted({r["backend"] for r in ok})},
                       "classes": classes,
                       "stopped_by_time_limit": sum(1 for r in ok if r.get("skipped") and not r.get("fail")),
                       "known_findings_met": known},
          "assumptions": cfg.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(fails)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k, n in sorted(known.items()):
        print("KNOWN-FINDING: property=%s %s: %s (met %d times)" % (prop, k, plan.known_findings(prop)[k], n))
    print("%s %s seed=%s: %d cases, %d distinct non-trivial, %.1f s" % (
        prop, tier, seed, ev["coverage"]["evaluations"], len(nontrivial), ev["wall_s"]))
    if fails:
        best = min(fails, key=lambda r: r["fail"]["size"])
        path = replay_path(prop, best["backend"])
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            json.dump({"property": prop, "backend": best["backend"], "kind": best["fail"]["kind"],
                       "detail": best["fail"]["detail"], "case": best["fail"]["case"]}, f, indent=1)
        print("%s on %s: %s" % (best["fail"]["kind"], best["backend"], best["fail"]["detail"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        for r in errors:
            print("ERROR on %s: %s" % (r.get("backend"), r["error"]), file=sys.stderr)
        return 2
    if ev["coverage"]["evaluations"] == 0 or not nontrivial:
        print("ERROR: nothing was explored", file=sys.stderr)
        return 2
    return 0


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    prop, backend = rec["property"], rec["backend"]
    with servers.Servers({backend}) as srv:
        w = start(prop, backend, 0, 1, 1, 600, 1, srv, case=os.path.abspath(path))
        r = collect(w, 300)
    if r.get("error"):
        print(r["error"], file=sys.stderr)
        return 2
    for k in r["known"]:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, plan.known_findings(prop)[k]))
    if r["fail"]:
        print("%s on %s: %s" % (r["fail"]["kind"], backend, r["fail"]["detail"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("held")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--replay")
    ap.add_argument("--only", default="")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--shrink", type=float)
    a = ap.parse_args()
    signal.signal(signal.SIGTERM, terminated)
    signal.signal(signal.SIGHUP, terminated)
    if a.replay:
        return replay(a.replay)
    return check(a.property, int(os.environ.get("VERIF_SEED", "1")), os.environ.get("VERIF_TIER", "quick"),
                 set(a.only.split(",")) if a.only else None, a.scale, a.shrink)


if __name__ == "__main__":
    sys.exit(main())
