#!/usr/bin/env python3-vt
"""checks/run.py <property id>: runs that property's check."""
import importlib, os, signal, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
if __name__ == "__main__":
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
    signal.signal(signal.SIGINT, signal.default_int_handler)  # where it is ignored, programs would inherit that
    try:
        mod = importlib.import_module("checks." + sys.argv[1].lower())
        rc = mod.main()
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
