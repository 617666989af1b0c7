import os
import sys

from vlib import core

if __name__ == "__main__":
    prop = sys.argv[1]
    code = 2
    try:
        code = core.main(f"checks.{prop}", sys.argv[2:])
    except Exception:
        import traceback

        traceback.print_exc()
        print(f"INCONCLUSIVE property={prop}: harness failed")
    sys.stdout.flush()
    os._exit(code)
