#!/usr/bin/env python3
"""check.py <property id> [--replay FILE | --case N]

Environment: VERIF_SEED (default 1), VERIF_TIER (quick or thorough).
Exit 0 held, 1 violated (with a VIOLATION line), anything else: error."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from hapsim import engine

if __name__ == '__main__':
    engine.reexec_if_needed(os.path.abspath(__file__))
    from hapsim import runner
    rc = 2
    try:
        rc = runner.main(sys.argv[1], sys.argv[2:])
    except SystemExit as e:
        rc = 2
    except BaseException:
        import traceback
        traceback.print_exc()
    sys.stdout.flush()
    os._exit(rc)
