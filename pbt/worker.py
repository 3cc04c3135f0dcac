"""One worker process: one property on one backend with one derived seed."""
import argparse
import hashlib
import json
import os
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import boot
import plan

boot.paths()

CASE_LIMIT_S = 120


def digest(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True, default=str).encode("utf-8")).hexdigest()


def listed(prop, v, case, backend):
    """The known finding a violation is an instance of, if the file lists it for this property."""
    k = prop.known(v, case, backend)
    return k if k in plan.known_findings(prop.id) else None


class Run(object):
    def __init__(self, prop, args):
        self.prop = prop
        self.args = args
        self.t0 = time.time()
        self.evaluations = 0
        self.nontrivial = set()
        self.distinct = set()
        self.classes = {}
        self.samples = []
        self.known = {}
        self.fail = None            # smallest failing case
        self.fail_at = None
        self.error = None
        self.skipped = 0

    def execute(self, case):
        """Runs one case; returns a Violation or None.  Anything else is an error of the harness."""
        from world import Violation

        def boom(*a):
            raise Violation("hang", "one case took more than %d s" % CASE_LIMIT_S)
        old = signal.signal(signal.SIGALRM, boom)
        signal.alarm(CASE_LIMIT_S)
        try:
            info = self.prop.run(case, self.args.backend)
            return None, info
        except Violation as e:
            return e, getattr(e, "info", None)
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)

    def one(self, case):
        now = time.time()
        if self.error:
            return
        if self.fail is not None and now - self.fail_at > self.args.shrink:
            self.skipped += 1
            return
        if self.fail is None and now - self.t0 > self.args.limit:
            self.skipped += 1
            return
        if os.environ.get("PBT_TRACE"):
            with open(os.environ["PBT_TRACE"], "w") as f:
                json.dump(case, f)
        try:
            v, info = self.execute(case)
        except BaseException:
            self.error = traceback.format_exc() + "\ncase: " + json.dumps(case)
            raise
        if self.fail is None:
            self.evaluations += 1
            h = digest(case)
            self.distinct.add(h)
            info = info or {}
            for c in info.get("classes", ()):
                self.classes[c] = self.classes.get(c, 0) + 1
            for c, n in info.get("count", {}).items():
                self.classes[c] = self.classes.get(c, 0) + n
            if info.get("nontrivial"):
                self.nontrivial.add(h)
                if len(self.samples) < 2:
                    self.samples.append(case)
        if v is None:
            return
        k = listed(self.prop, v, case, self.args.backend)
        if k:
            self.known[k] = self.known.get(k, 0) + 1
            return
        size = len(json.dumps(case))
        if self.fail is None:
            self.fail_at = now
        if self.fail is None or size <= self.fail["size"]:
            self.fail = {"size": size, "case": case, "kind": v.kind, "detail": v.detail}
        raise v

    def result(self):
        return {"property": self.prop.id, "backend": self.args.backend, "seed": self.args.seed,
                "evaluations": self.evaluations, "distinct": len(self.distinct),
                "nontrivial": sorted(x[:16] for x in self.nontrivial), "classes": self.classes,
                "samples": self.samples, "known": self.known, "fail": self.fail, "error": self.error,
                "skipped": self.skipped, "wall_s": time.time() - self.t0}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop", required=True)
    ap.add_argument("--backend", required=True)
    ap.add_argument("--name", required=True)
    ap.add_argument("--host", default="")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--examples", type=int, default=50)
    ap.add_argument("--limit", type=float, default=600)
    ap.add_argument("--shrink", type=float, default=60)
    ap.add_argument("--out", required=True)
    ap.add_argument("--case")
    ap.add_argument("--scratch", required=True)
    args = ap.parse_args()
    os.environ["PBT_DB"] = args.backend
    os.environ["PBT_HOST"] = args.host
    os.environ["PBT_SCRATCH"] = args.scratch
    if args.backend == "sqlite":
        os.environ["PBT_NAME"] = os.path.join(args.scratch, args.name + ".db")
        os.environ["PBT_OTHER"] = os.path.join(args.scratch, args.name + "_other.db")
    else:
        os.environ["PBT_NAME"] = args.name
        os.environ["PBT_OTHER"] = args.name + "_other"
        boot.create_database(args.backend, args.name, args.host)
        boot.create_database(args.backend, args.name + "_other", args.host)
    boot.django()
    import props
    import props2  # noqa: registers more
    import props3  # noqa: registers more
    import props4  # noqa: registers more
    import props5  # noqa: registers more
    import props6  # noqa: registers more
    import props7  # noqa: registers more
    import props8  # noqa: registers more
    prop = props.PROPS[args.prop]
    run = Run(prop, args)
    prop.prepare(args.backend)
    try:
        if args.case:
            with open(args.case) as f:
                case = json.load(f)["case"]
            v, info = run.execute(case)
            run.evaluations = 1
            if v is not None:
                k = listed(prop, v, case, args.backend)
                if k:
                    run.known[k] = 1
                else:
                    run.fail = {"size": 0, "case": case, "kind": v.kind, "detail": v.detail}
        else:
            search(prop, run, args)
    except BaseException:
        if not run.fail:
            run.error = run.error or traceback.format_exc()
    with open(args.out, "w") as f:
        json.dump(run.result(), f)


def search(prop, run, args):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings, Verbosity
    from hypothesis.internal.conjecture.engine import ConjectureRunner
    from world import Violation

    # Five of six cases would be slight variations of the one before.
    ConjectureRunner.generate_mutations_from = lambda self, data: None
    for case in prop.fixed(args.backend):
        try:
            run.one(case)
        except Violation:
            return

    @hypothesis.seed(args.seed)
    @settings(max_examples=args.examples, database=None, deadline=None, derandomize=False,
              phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False,
              suppress_health_check=list(HealthCheck), verbosity=Verbosity.quiet, print_blob=False)
    @given(prop.strategy(args.backend))
    def test(case):
        run.one(case)
    try:
        test()
    except BaseException:
        if run.fail is None:
            raise


if __name__ == "__main__":
    main()
