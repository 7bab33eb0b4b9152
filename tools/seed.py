"""Create a planted bug: python3 tools/seed.py SPEC.py [ID ...]

SPEC.py defines BUGS, a list of dicts: id, property, edits [(file, old, new)], demo (python source), needs, breaks.
Every bug is tried in a scratch copy of /repo: the patch applies, the stable tests pass, the demo succeeds without and fails
with it. Bugs that do not satisfy this are reported and not kept.
"""

import json
import pathlib
import shutil
import subprocess
import sys
import tempfile

ROOT = pathlib.Path(__file__).resolve().parent.parent
DEMO_SH = """#!/bin/bash
# run with cwd = repository; exit 0 iff the property holds in the demonstrated situation
d=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=$PWD/src PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec /opt/venv/bin/python -W ignore "$d/demo.py"
"""


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    ns = {}
    exec(pathlib.Path(sys.argv[1]).read_text(), ns)
    want = sys.argv[2:]
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    ok = True
    for b in ns["BUGS"]:
        if want and b["id"] not in want:
            continue
        out = ROOT / "seeded" / b["id"]
        tmp = pathlib.Path(tempfile.mkdtemp(prefix="seed-"))
        repo = tmp / "repo"
        run(["git", "clone", "-q", "/repo", str(repo)])
        try:
            for f, old, new in b["edits"]:
                p = repo / "src/tvemoves_rufbad" / f
                s = p.read_text()
                assert s.count(old) == 1, f"{b['id']}: {s.count(old)} occurrences of {old!r}"
                p.write_text(s.replace(old, new))
            patch = run(["git", "-C", str(repo), "diff"]).stdout
            # at least one changed line must be of the original repository
            original = set()
            for f in {f for f, _, _ in b["edits"]}:
                original |= {x.strip() for x in run(["git", "-C", str(repo), "show", f"8fcc6bd:src/tvemoves_rufbad/{f}"]).stdout.splitlines()}
            removed = [x[1:].strip() for x in patch.splitlines() if x.startswith("-") and not x.startswith("---") and x[1:].strip()]
            assert any(x in original for x in removed), f"{b['id']}: no original line is changed"
            d = tmp / "bug"
            d.mkdir()
            (d / "demo.py").write_text(b["demo"].lstrip())
            (d / "demo.sh").write_text(DEMO_SH)
            with_bug = run(["bash", str(d / "demo.sh")], cwd=repo)
            tests = run(
                ["/opt/venv/bin/python", "-W", "ignore", "-m", "pytest", "-q", "-p", "no:cacheprovider"]
                + [t.replace(".", "/", 1).replace("::", ".py::", 1) for t in stable],
                cwd=repo, env={"PYTHONPATH": str(repo / "src"), "PATH": "/usr/bin:/bin", "MPLBACKEND": "Agg"},
            )
            run(["git", "-C", str(repo), "checkout", "-q", "--", "."])
            without = run(["bash", str(d / "demo.sh")], cwd=repo)
            good = with_bug.returncode != 0 and without.returncode == 0 and tests.returncode == 0
            print(b["id"], "ok" if good else "BAD", with_bug.returncode, without.returncode, tests.returncode,
                  with_bug.stdout.strip().splitlines()[-1:])
            if not good:
                ok = False
                print("  with:", with_bug.stdout[-600:], "\n  without:", without.stdout[-600:], "\n  tests:", tests.stdout[-600:])
                continue
            out.mkdir(parents=True, exist_ok=True)
            (out / "patch.diff").write_text(patch)
            shutil.copy(d / "demo.py", out / "demo.py")
            shutil.copy(d / "demo.sh", out / "demo.sh")
            (out / "demo.sh").chmod(0o755)
            (out / "meta.json").write_text(json.dumps(
                {"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")
        except AssertionError as e:
            print("BAD", e)
            ok = False
        finally:
            shutil.rmtree(tmp)
    sys.exit(not ok)


main()
