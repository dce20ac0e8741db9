#!/usr/bin/env python3
"""check.py <property>: run the check of one property (VERIF_TIER, VERIF_SEED).  check.py setup: build what can be built once.
check.py replay <file>: re-run a recorded violation."""
import json, os, sys, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "gen"))
import vlib, props


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "setup":
        vlib.java_dir()
        return 0
    if a[0] == "replay":
        r = json.load(open(a[1]))
        spec = props.get(r["property"])
        os.makedirs(vlib.BUILD, exist_ok=True)
        w = tempfile.mkdtemp(dir=vlib.BUILD)
        try:
            exe = vlib.build_driver(spec["driver"], spec.get("sources", ()), spec.get("opt", "-O0"),
                                    list(spec.get("flags", ["-DKOKKOS_ENABLE_DEBUG_BOUNDS_CHECK"])), spec.get("parts", ()), spec.get("mesh", False))
            ev = vlib.run_driver(exe, [r["scenario"]], w, "r", ranks=spec.get("ranks", 0))
            v, _, _ = vlib.validate(spec["trace"], ev, w, "r")
            for e, verdict, why in v:
                print(verdict, why, json.dumps(e)[:3000])
            return 1 if v else 0
        finally:
            shutil.rmtree(w, ignore_errors=True)
    return vlib.run_check(a[0], props.get(a[0]))


sys.exit(main())
