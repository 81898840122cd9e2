#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property on /repo's current tree."""
import sys, os, argparse
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vf
import props

ap = argparse.ArgumentParser()
ap.add_argument("property", nargs="?")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--setup", action="store_true")
a = ap.parse_args()
if a.setup:
    for e in ("symx",):
        vf.log("engine:", vf.engine(e))
    sys.exit(0)
fn = props.PROPS[a.property]
c = vf.Check(a.property, a.tier)
try:
    fn(c, a.tier == "thorough")
    rc = c.finish()
finally:
    c.work.close()
sys.exit(rc)
