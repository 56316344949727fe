#!/usr/bin/env python3
"""check.py <property id> [--test NAME] [--replay FILE]: decides one property.

The tier comes from VERIF_TIER (quick, thorough), the seed from VERIF_SEED."""
import os, sys

PY = "/opt/veriftools/pyvenv/bin/python3"
if __name__ == "__main__":
    here = os.path.dirname(os.path.abspath(__file__))
    try:
        import hypothesis
    except ImportError:
        if os.environ.get("VERIF_PY") or not os.path.exists(PY):
            raise
        os.environ["VERIF_PY"] = "1"
        os.execv(PY, [PY, "-B", os.path.abspath(__file__)] + sys.argv[1:])
    sys.dont_write_bytecode = True
    sys.path.insert(0, here)
    from vlib import runner
    if len(sys.argv) < 2:
        print(__doc__)
        sys.exit(2)
    if sys.argv[1] == "--setup":
        # nothing to prepare: every check builds what it needs from /repo
        print("ready, hypothesis", hypothesis.__version__)
        sys.exit(0)
    sys.exit(runner.main(sys.argv[1].lower(), sys.argv[2:]))
