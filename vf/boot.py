"""entry point: make the solver bindings of the tooling venv visible, then run"""
import os
import sys
import warnings

warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
try:
    import amaranth_soc, lambdasoc, minerva  # noqa
except ImportError:
    sys.path.append(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "stubs"))
from vf import runner  # noqa

if __name__ == "__main__":
    runner.main()
