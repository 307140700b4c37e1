"""Entry point of the checks: python3-vt run.py C01 [-v] [--only=unit,...]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from checks import core     # noqa: E402

if __name__ == '__main__':
    sys.exit(core.main(sys.argv[1], sys.argv[2:]))
