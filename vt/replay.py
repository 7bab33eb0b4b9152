"""python -m vt.replay FILE: repeat the execution recorded in a replay file, without the explorer."""

import json
import os
import sys
import traceback

from vt import core
from vt.main import load


def main():
    data = json.load(open(sys.argv[1]))
    want = data.get("hashseed")
    if want is not None and os.environ.get("PYTHONHASHSEED") != want:
        os.environ["PYTHONHASHSEED"] = want
        os.environ["VERIF_TIER"] = data.get("tier", "quick")
        os.execv(sys.executable, [sys.executable, "-W", "ignore", "-m", "vt.replay", sys.argv[1]])
    mod = load(data["property"])
    bodies = {name: body for name, body, _ in mod.parts()}
    print("configuration:", data["cfg"])
    for c in data["choices"]:
        print(f"  {c['name']} = {c['value']}")
    try:
        core.replay(bodies[data["part"]], data["cfg"], data["choices"])
    except Exception:
        traceback.print_exc()
        print("reproduced")
        sys.exit(1)
    print("not reproduced: the property holds in this execution")


if __name__ == "__main__":
    main()
