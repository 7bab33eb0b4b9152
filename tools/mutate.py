"""Systematic mutants of the library against the checks: python3 tools/mutate.py OUT.jsonl [-j N] [FILE ...]

Every mutant (one operator, constant, condition, statement) is tried in a scratch copy with the checks of its file, in order,
until one reports a violation. Survivors are printed; they are equivalent, or show what the checks cannot see.
"""

import ast
import concurrent.futures as cf
import json
import os
import pathlib
import shutil
import signal
import subprocess
import sys
import tempfile
import time

ROOT = pathlib.Path(__file__).resolve().parent.parent
SRC = pathlib.Path("/repo/src/tvemoves_rufbad")
CHECKS = {
    "helpers.py": "C15 C16 C17 C30 C32 C23",
    "mechanical_step.py": "C18 C22 C36 C20 C19 C23 C24 C25 C33",
    "thermal_step.py": "C21 C22 C23 C31",
    "simulation.py": "C24 C37 C29 C26 C30 C34 C25 C27 C28",
    "interpolation.py": "C11 C14 C12 C37 C13",
    "integrators.py": "C09 C18",
    "quadrature_rules.py": "C08",
    "tensors.py": "C10",
    "bell_finite_element.py": "C12 C13",
    "domain.py": "C01 C02 C04 C05 C06 C35 C07 C32 C03 C20",
}


def checks(name, line):
    """The checks to try, for a line of a file."""
    text = (SRC / name).read_text().splitlines()
    first = lambda s: next(i for i, x in enumerate(text, 1) if x.startswith(s))
    if name == "mechanical_step.py":
        regular = first("def _model_regularized") <= line < first("def mechanical_step")
        return "C20 C19 C22 C23" if regular else "C25 C18 C22 C20 C23"
    if name == "simulation.py":
        if line < first("@dataclass"):
            return "C37 C30"
        if line < first("class Simulation:"):
            return "C29 C24"
        if first("    def max_temp") <= line < first("    def save_animation") or first("    def _append_step") <= line < first("        # Add newest"):
            return "C30"
        if first("    def save_animation") <= line < first("    def _update_mechanical_step"):
            return "C34"
        return "C24 C26 C25"
    return CHECKS[name]


LIMIT = 120  # seconds per check, in a spread order of the configurations
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.FloorDiv: "/", ast.Mod: "//", ast.MatMult: None}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in",
       ast.Is: "is not", ast.IsNot: "is"}


def mutants(name):
    text = (SRC / name).read_text()
    lines = text.splitlines(keepends=True)
    starts = [0]
    for x in lines:
        starts.append(starts[-1] + len(x.encode()))
    raw = text.encode()
    at = lambda line, col: starts[line - 1] + col
    seg = lambda n: (at(n.lineno, n.col_offset), at(n.end_lineno, n.end_col_offset))
    out = []

    def add(a, b, new, kind, line):
        s = raw[:a] + new.encode() + raw[b:]
        try:
            ast.parse(s)
        except SyntaxError:
            return
        if s != raw:
            out.append((f"{name}:{line}:{kind}: {raw[a:b].decode()[:60]!r} -> {new[:60]!r}", s.decode()))

    tree = ast.parse(text)
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.AnnAssign, ast.arg)) and n.annotation is not None:
            skip |= {id(x) for x in ast.walk(n.annotation)}
        if isinstance(n, ast.FunctionDef) and n.returns is not None:
            skip |= {id(x) for x in ast.walk(n.returns)}
        if isinstance(n, ast.JoinedStr):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.ClassDef) and any(isinstance(b, ast.Name) and b.id == "Protocol" for b in n.bases):
            skip |= {id(x) for x in ast.walk(n)}
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.BinOp) and BIN.get(type(n.op)):
            a, b = seg(n.left)[1], seg(n.right)[0]
            gap = raw[a:b].decode()
            op = {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "Pow": "**", "FloorDiv": "//", "Mod": "%"}[type(n.op).__name__]
            if gap.count(op) >= 1:
                k = gap.index(op)
                add(a + k, a + k + len(op), BIN[type(n.op)], "bin", n.lineno)
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            l, r = ast.get_source_segment(text, n.left), ast.get_source_segment(text, n.comparators[0])
            a, b = seg(n)
            add(seg(n.left)[1], seg(n.comparators[0])[0], f" {CMP[type(n.ops[0])]} ", "cmp", n.lineno)
        elif isinstance(n, ast.BoolOp):
            a, b = seg(n.values[0])[1], seg(n.values[1])[0]
            gap = raw[a:b].decode()
            w, o = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            if w in gap:
                add(a, b, gap.replace(w, o), "bool", n.lineno)
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            a, b = seg(n)
            v = n.value
            add(a, b, repr(v + 1 if isinstance(v, int) else v * 1.03 if v else 0.5), "const", n.lineno)
            if isinstance(v, int) and v > 0:
                add(a, b, repr(v - 1), "const", n.lineno)
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(*seg(n), repr(not n.value), "const", n.lineno)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            a, b = seg(n)
            add(a, seg(n.operand)[0], "", "unary", n.lineno)
        elif isinstance(n, (ast.If, ast.IfExp)):
            a, b = seg(n.test)
            add(a, b, "True", "if", n.lineno)
            add(a, b, "False", "if", n.lineno)
        elif isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords and not any(isinstance(x, ast.Starred) for x in n.args):
            (a, b), (c, d) = seg(n.args[0]), seg(n.args[1])
            add(a, d, raw[c:d].decode() + raw[b:c].decode() + raw[a:b].decode(), "swap", n.lineno)
        elif isinstance(n, (ast.Raise, ast.AugAssign)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) or \
                isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            add(*seg(n), "pass", "delete", n.lineno)
        elif isinstance(n, ast.keyword) and n.arg is not None:
            pass
    return out


def one(name, what, source, base):
    tmp = pathlib.Path(tempfile.mkdtemp(prefix="mut-"))
    t0 = time.time()
    try:
        shutil.copytree(base, tmp, dirs_exist_ok=True)
        (tmp / "repo/src/tvemoves_rufbad" / name).write_text(source)
        env = dict(os.environ, PYTHONPATH=f"{tmp}/verif:{tmp}/repo/src", VT_ANY_SOURCE="1", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
                   VT_WORKERS="1", VT_ORDER="spread", VERIF_TIER="quick", VERIF_SEED="1", PYTHONHASHSEED="1", TQDM_DISABLE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
        for c in checks(name, int(what.split(":")[1])).split():
            r = subprocess.Popen(["/opt/venv/bin/python", "-W", "ignore", "-m", "vt.main", c], cwd=tmp / "verif", env=env,
                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
            try:
                text, _ = r.communicate(timeout=LIMIT)
            except subprocess.TimeoutExpired:
                os.killpg(r.pid, signal.SIGKILL)
                r.communicate()
                continue
            if r.returncode:
                v = [x for x in text.splitlines() if x.startswith("VIOLATION")]
                return dict(mutant=what, killed=c, how="violation" if v else f"rc{r.returncode}", t=round(time.time() - t0), tail="" if v else text[-300:])
        return dict(mutant=what, killed=None, t=round(time.time() - t0))
    finally:
        shutil.rmtree(tmp)


def main():
    args = sys.argv[1:]
    out = pathlib.Path(args.pop(0))
    j = 4
    if args[:1] == ["-j"]:
        j = int(args[1])
        args = args[2:]
    done = {json.loads(x)["mutant"] for x in out.read_text().splitlines()} if out.exists() else set()
    base = pathlib.Path(tempfile.mkdtemp(prefix="mutbase-"))
    shutil.copytree(SRC, base / "repo/src/tvemoves_rufbad", ignore=shutil.ignore_patterns("__pycache__"))
    (base / "verif").mkdir()
    shutil.copytree(ROOT / "vt", base / "verif/vt", ignore=shutil.ignore_patterns("__pycache__"))
    for f in ("KNOWN_FINDINGS.txt", "properties.jsonl", "MANIFEST.json", "replay.sh"):
        shutil.copy(ROOT / f, base / "verif" / f)
    work = []
    for name in args or CHECKS:
        for what, source in mutants(name):
            if what not in done:
                work.append((name, what, source))
    print(len(work), "mutants", flush=True)
    with cf.ThreadPoolExecutor(j) as pool, out.open("a") as f:
        for fut in cf.as_completed([pool.submit(one, *w, base) for w in work]):
            r = fut.result()
            f.write(json.dumps(r) + "\n")
            f.flush()
            if r["killed"] is None or r["how"] != "violation":
                print(r, flush=True)
    shutil.rmtree(base)


if __name__ == "__main__":
    main()
