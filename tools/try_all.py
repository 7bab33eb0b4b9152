"""Run planted bugs against checks in scratch copies: python3 tools/try_all.py [-j N] [-c CHECK,...] [BUG ...]

Prints, per bug, whether the check of its property (or the given ones) reports it, the time and the first line.
-r DIR: take patches DIR/*/patch.diff instead of seeded/ (e.g. behaviour-preserving edits; DIR/*/checks lists the checks).
"""

import concurrent.futures as cf
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = pathlib.Path(__file__).resolve().parent.parent


def one(bug, checks, tier, base):
    tmp = pathlib.Path(tempfile.mkdtemp(prefix="try-"))
    res = []
    try:
        subprocess.run(["git", "clone", "-q", "/repo", str(tmp / "repo")], check=True)
        if bug is not None:
            p = base / bug / "patch.diff"
            a = subprocess.run(["git", "-C", str(tmp / "repo"), "apply", str(p)])
            if a.returncode:
                return bug, [("-", "does not apply", 0, "")]
        v = tmp / "verif"
        v.mkdir()
        shutil.copytree(ROOT / "vt", v / "vt")
        for f in ("KNOWN_FINDINGS.txt", "properties.jsonl", "MANIFEST.json", "replay.sh"):
            shutil.copy(ROOT / f, v / f)
        env = dict(os.environ, PYTHONPATH=f"{v}:{tmp}/repo/src", VT_ANY_SOURCE="1", PYTHONDONTWRITEBYTECODE="1",
                   MPLBACKEND="Agg", VERIF_TIER=tier, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), PYTHONHASHSEED="1",
                   TQDM_DISABLE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
        for c in checks:
            t = time.time()
            try:
                r = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "-m", "vt.main", c], cwd=v, env=env,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900 * (20 if tier != "quick" else 1))
                viol = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
                msg = r.stdout.strip().splitlines()[-4:]
                res.append((c, f"rc{r.returncode}" + ("+V" if viol else ""), round(time.time() - t), " | ".join(msg)[:int(os.environ.get("W", "240"))]))
            except subprocess.TimeoutExpired:
                res.append((c, "TIMEOUT", round(time.time() - t), ""))
    finally:
        shutil.rmtree(tmp)
    return bug, res


def main():
    args = sys.argv[1:]
    j, checks, tier, base = 3, None, "quick", ROOT / "seeded"
    while args and args[0].startswith("-"):
        o = args.pop(0)
        if o == "-j":
            j = int(args.pop(0))
        elif o == "-c":
            checks = args.pop(0).split(",")
        elif o == "-t":
            tier = args.pop(0)
        elif o == "-r":
            base = pathlib.Path(args.pop(0)).resolve()
    bugs = args or sorted(p.parent.name for p in base.glob("*/patch.diff"))
    with cf.ThreadPoolExecutor(j) as ex:
        fs = []
        for b in bugs:
            if b == "none":
                fs.append(ex.submit(one, None, checks, tier, base))
                continue
            cs = checks
            if cs is None:
                if (base / b / "checks").exists():
                    cs = (base / b / "checks").read_text().split()
                else:
                    cs = [json.loads((base / b / "meta.json").read_text())["property"]]
            fs.append(ex.submit(one, b, cs, tier, base))
        for f in cf.as_completed(fs):
            b, res = f.result()
            for c, s, t, m in res:
                print(f"{b} {c} {s} {t}s {m}", flush=True)


main()
