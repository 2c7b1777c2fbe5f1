import argparse
import json
import os
import sys


def main():
    from sim import env

    # a fixed environment: threads of BLAS, hash seed
    wanted = dict(env.ENV)
    if os.environ.get("VERIF_HASHSEED"):
        wanted["PYTHONHASHSEED"] = os.environ["VERIF_HASHSEED"]
    if any(os.environ.get(k) != v for k, v in wanted.items()):
        os.environ.update(wanted)
        os.execv(sys.executable, [sys.executable, "-B", "-m", "sim"] + sys.argv[1:])
    ap = argparse.ArgumentParser(prog="sim")
    sub = ap.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("property")
    c.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    c.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    c.add_argument("--runs", type=int)
    c.add_argument("--workers", type=int)
    r = sub.add_parser("replay")
    r.add_argument("path")
    d = sub.add_parser("digests")
    d.add_argument("property")
    d.add_argument("--seed", type=int, default=1)
    d.add_argument("--runs", type=int, default=50)
    d.add_argument("--workers", type=int, default=8)
    d.add_argument("--tier", default="quick")
    o = sub.add_parser("one")
    o.add_argument("property")
    o.add_argument("run", type=int)
    o.add_argument("--seed", type=int, default=1)
    o.add_argument("--tier", default="quick")
    sub.add_parser("selftest")
    k = sub.add_parser("determinism")
    k.add_argument("properties", nargs="*")
    k.add_argument("--runs", type=int, default=40)
    a = ap.parse_args()
    from sim import runner

    if a.cmd == "selftest":
        env.load()
        print("the code under test loads from", env.REPO)
        return 0
    if a.cmd == "determinism":
        return runner.determinism(a.properties, a.runs)

    if a.cmd == "check":
        return runner.check(a.property, a.tier, a.seed, a.workers, a.runs)
    if a.cmd == "replay":
        return runner.replay(a.path)
    if a.cmd == "digests":
        print(json.dumps(runner.digests(a.property, a.tier, a.seed, a.runs, a.workers), sort_keys=True))
        return 0
    if a.cmd == "one":
        env.load()
        prop = runner.get_prop(a.property)
        plan = runner.make_plan(prop, a.seed, a.run, a.tier)
        print(json.dumps(plan))
        out = runner.execute(prop, plan)
        for e in out["events"]:
            print("  ", e)
        print(out["status"], out["kind"], out["detail"], out["faults"], out["probes"])
        return 0


sys.exit(main())
