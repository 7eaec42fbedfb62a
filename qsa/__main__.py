import os
import sys

from .core import run
from .registry import MODULES

if __name__ == "__main__":
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(run(prop, MODULES[prop], tier))
