"""Entry point: checks/run.py <property id>."""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import common  # noqa: E402

if __name__ == "__main__":
    pid = sys.argv[1]

    def fn():
        return importlib.import_module("checks." + pid.lower()).check()

    code = common.run_check(fn, pid)
    sys.stdout.flush()
    os._exit(code)
