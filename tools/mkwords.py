"""Records the constants of the current tree's source. Inputs that use constants
not recorded are tried more often (rv/harvest.py); no verdict depends on them."""
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
P = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "rv", "constants.json")
json.dump({"words": [], "ints": []}, open(P, "w"))
from rv import harvest  # noqa: E402

with open(P, "w") as f:
    json.dump({"words": sorted(set(harvest.WORDS)), "ints": harvest.INTS}, f, indent=0, ensure_ascii=True)
    f.write("\n")
