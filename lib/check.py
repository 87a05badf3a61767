#!/usr/bin/env python3
"""check <property> [--tier quick|thorough] | check --replay FILE"""
import json, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine
from engine import Enough, Run, ToolError, note
import plan


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        return replay(a[1])
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    start = time.time()
    while True:
        run = Run(prop, tier, seed)
        try:
            try:
                plan.PLAN[prop](run)
            except Enough:
                pass
            return run.finish(plan.LEVEL.get(prop, "model_checking"))
        except ToolError as e:
            if any(run.violations):
                # what was found before the tool failed was observed on the real code
                return run.finish(plan.LEVEL.get(prop, "model_checking"))
            note("ERROR: %s" % e)
            with open(os.path.join(engine.VERIF, "evidence", "errors.log"), "a") as f:
                f.write("%s %s %s %s\n" % (time.ctime(), prop, tier, e))
            # a tool that was killed or starved deserves a second chance
            if e.final or time.time() - start > 300:
                return 2
            start = 0
        finally:
            run.close()


def replay(f):
    """Runs the case of a violation again."""
    d = json.load(open(f))
    print(json.dumps(d["detail"], indent=1)[:3000])
    if d.get("index") is None:
        return 1
    run = Run(d["property"], "quick", d["seed"])
    try:
        path = os.path.join(run.tmp, "case")
        # the concrete values depend on the case's number
        with open(path, "w") as o:
            o.write("\n" * d["index"] + d["case"] + "\n")
        import subprocess
        b = run.build(d["flavour"])
        out = os.path.join(run.tmp, "out")
        subprocess.run([b, "run", "-suite", d["suite"], "-in", path, "-out", out, "-variants", str(d["variants"]), "-seed", str(d["seed"]),
                        "-only", str(d["index"]), "-onlyv", str(d["variant"])])
        print(open(out).read() if os.path.exists(out) else "no output")
    finally:
        run.close()
    return 0


sys.exit(main())
