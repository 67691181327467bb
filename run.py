#!/usr/bin/env python3-vt
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"): os.environ[v] = "1"
import common
if __name__ == "__main__":
    try:
        rc = common.main(sys.argv[1], sys.argv[2:])
    except SystemExit: raise
    except BaseException:
        import traceback; traceback.print_exc(); rc = 2
    sys.stdout.flush(); sys.exit(rc)
