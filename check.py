#!/opt/venv/bin/python
"""check.py PXX [--replay FILE]: decide one property by simulation."""
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

if __name__ == "__main__":
    try:
        from sim import runner

        rep = None
        if "--replay" in sys.argv:
            rep = sys.argv[sys.argv.index("--replay") + 1]
        code = runner.check(sys.argv[1].upper(), rep)
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
