import importlib
import os
import sys

from . import core


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED") or "1")
    except ValueError:
        seed = 1
    mod = importlib.import_module("mc.checks." + prop.lower())
    rc = core.main(mod, tier, seed, verbose=bool(os.environ.get("VERIF_VERBOSE")))
    sys.stdout.flush()
    return rc


if __name__ == "__main__":
    sys.exit(main())
