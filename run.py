#!/usr/bin/env python3
"""run.py <ID> [--tier quick|thorough] [--replay file]: decides one property on /repo's working tree."""
import sys, os, json, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import vbuild, driver
import checks

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = checks.CHECKS[pid]
    if "--replay" in sys.argv:
        r = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        print(" ".join(r["cmd"]))
        return subprocess.run(r["cmd"], env=dict(os.environ, **driver.ASAN_ENV)).returncode
    ctx = driver.Ctx(pid, tier, seed)
    try:
        for r in spec["runs"]: r(ctx)
        return driver.finish(ctx, spec)
    except vbuild.BuildError as e:
        print("build error:", e); return 2
    finally:
        ctx.close(); vbuild.prune()

sys.exit(main())
