import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def tier():
    return sys.argv[1] if len(sys.argv) > 1 else os.environ.get("VERIF_TIER", "quick")
