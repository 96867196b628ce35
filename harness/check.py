"""python3 harness/check.py <property> [thorough]: decides one property against /repo's working tree."""

import importlib
import os
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent))

if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]

import vlib  # noqa: E402

if __name__ == "__main__":
    prop = sys.argv[1]
    mod = importlib.import_module(f"props.{prop.lower()}")
    sys.exit(vlib.main(prop, mod.run))
