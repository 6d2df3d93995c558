#!/usr/bin/env python3
"""run.py <property id>: decide one property on /repo's current tree (VERIF_TIER, VERIF_SEED)."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib, checks
if len(sys.argv) == 2 and sys.argv[1] == "setup":
    try:
        for c in sorted(os.listdir(os.path.join(vlib.VERIF, "harness"))):
            if os.path.exists(os.path.join(vlib.VERIF, "harness", c, "Cargo.toml")):
                vlib.build_crate(c)
        print("setup done")
        sys.exit(0)
    except vlib.ToolError as e:
        print("ERROR", e)
        sys.exit(2)
vlib.main(checks.CHECKS[sys.argv[1]])
