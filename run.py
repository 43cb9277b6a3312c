#!/usr/bin/env python3
"""usage: run.py <property id> [thorough] | setup   (VERIF_SEED, VERIF_TIER in the environment)"""
import importlib, os, shutil, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(here, "lib"), os.path.join(here, "checks")]
import vlib
pid = sys.argv[1]
if pid == "setup":
    missing = [x for x in (vlib.CXX, "java", "protoc") if shutil.which(x) is None] + [x for x in vlib.TLAJARS.split(":") if not os.path.exists(x)]
    if missing:
        sys.exit("missing tools: " + " ".join(missing))
    sys.exit(0)
if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]
mod = importlib.import_module(pid.lower())
vlib.main(pid, mod.check, getattr(mod, "LEVEL", "model_checking"))
