"""python -m vt.main ID: run the check of one property."""

import importlib
import os
import sys

os.environ.setdefault("MPLBACKEND", "Agg")

from vt import core


def load(prop):
    import tvemoves_rufbad.simulation as s

    if not s.__file__.startswith("/repo/src/") and not os.environ.get("VT_ANY_SOURCE"):
        raise SystemExit(f"package imported from {s.__file__}, not from /repo/src")
    import logging

    logging.getLogger("pyomo").setLevel(logging.CRITICAL)
    return importlib.import_module(f"vt.checks.{prop.lower()}")


def main():
    prop = sys.argv[1].upper()
    mod = load(prop)
    sys.exit(core.run_check(prop, mod.parts(), mod.LEVEL, mod.RULE, mod.ASSUMPTIONS))


if __name__ == "__main__":
    main()
