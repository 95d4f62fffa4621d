"""Entry point of every check: `python3 check.py C02 [--replay FILE]`."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import harness  # noqa: E402

if __name__ == '__main__':
    if sys.argv[1:2] == ['--worker']:
        rc = harness.worker_main(sys.argv[2:])
        sys.stdout.flush()
        os._exit(rc)
    sys.exit(harness.driver())
