import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = sys.pycache_prefix is None
import harness  # noqa

if __name__ == "__main__":
    rc = harness.main(sys.argv[1:])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
