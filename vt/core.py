"""Exhaustive exploration of choices on the real code.

A check consists of a list of JSON-able configurations and a body `body(cfg, ch)`. The body draws every decision
(operation, argument, environment answer, fault) with `ch.pick(...)`; the explorer runs it once for every possible
sequence of decisions (stateless depth-first search: the prefix is replayed, the last decision that still has an
untried option is advanced). Configurations are distributed over processes. The first violation is written to a
replay file; `python -m vt.replay FILE` repeats exactly that execution without the explorer.
"""

import concurrent.futures as cf
import hashlib
import json
import multiprocessing as mp
import os
import random
import pathlib
import signal
import sys
import time
import traceback

ROOT = pathlib.Path(__file__).resolve().parent.parent
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
SEED = int(os.environ.get("VERIF_SEED", "0") or 0)
# No configuration takes longer than a few seconds on the unchanged tree; code that hangs is reported, not awaited.
CFG_TIMEOUT_S = 240 if not THOROUGH else 7200
WORKERS = int(os.environ.get("VT_WORKERS", "0")) or min(8, os.cpu_count() or 1)


class Violation(Exception):
    """The property does not hold in this execution."""

    def __init__(self, message, key=None):
        super().__init__(message)
        self.key = key


class Diverged(Exception):
    """Replaying a prefix met other options than before: the harness does not own all nondeterminism."""


class Hang(Exception):
    """A configuration did not end."""


def digest(obj) -> int:
    return int.from_bytes(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), "big")


class Chooser:
    """Source of decisions of one execution."""

    def __init__(self, prefix, stats):
        self._prefix = prefix  # list of (number of options, index)
        self.trace = []  # list of (name, number of options, index, repr of option)
        self._stats = stats

    def pick(self, name, options):
        options = list(options)
        if not options:
            raise RuntimeError(f"no options for {name}")
        k = len(self.trace)
        index = 0
        if k < len(self._prefix):
            n, index = self._prefix[k]
            if n != len(options):
                raise Diverged(f"{name}: {len(options)} options, {n} when first explored")
        self.trace.append((name, len(options), index, repr(options[index])[:200]))
        return options[index]

    # -- what is counted ------------------------------------------------------------------------------
    def case(self, key, n=1):
        """An evaluation of the property on a non-trivial case identified by key."""
        self._stats.evaluations += n
        self._stats.cases.add(digest(key))

    def evals(self, n=1):
        self._stats.evaluations += n

    def state(self, key):
        """A state reached (canonical observation); returns True if it is new in this process."""
        d = digest(key)
        new = d not in self._stats.states
        self._stats.states.add(d)
        return new

    def transition(self, n=1):
        self._stats.transitions += n

    def validated(self, n=1):
        """A complete trace whose every step was compared with the reference model on the implementation."""
        self._stats.traces += n

    def outcome(self, key):
        self._stats.outcomes.add(digest(key))

    def count(self, name, n=1):
        self._stats.extra[name] = self._stats.extra.get(name, 0) + n

    def finding(self, key, message):
        """A violation that is identified by a key and might be listed as a known finding."""
        if key in self._stats.known:
            self._stats.found[key] = message
        else:
            raise Violation(message, key)


class Stats:
    def __init__(self, known=()):
        self.known = frozenset(known)
        self.evaluations = 0
        self.cases = set()
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.executions = 0
        self.outcomes = set()
        self.extra = {}
        self.found = {}
        self.samples = []
        self.violation = None

    def merge(self, other):
        self.evaluations += other.evaluations
        self.cases |= other.cases
        self.states |= other.states
        self.transitions += other.transitions
        self.traces += other.traces
        self.executions += other.executions
        self.outcomes |= other.outcomes
        for k, v in other.extra.items():
            self.extra[k] = self.extra.get(k, 0) + v
        self.found.update(other.found)
        if len(self.samples) < 6:
            self.samples.extend(other.samples[: 6 - len(self.samples)])


def _alarm(signum, frame):
    raise Hang(f"no end within {CFG_TIMEOUT_S} s")


def explore(body, cfg, known=(), max_executions=None):
    """All executions of body for one configuration."""
    stats = Stats(known)
    prefix = []
    # computing time, so that a busy machine raises no alarm; and for code that waits for ever, real time
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CFG_TIMEOUT_S)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(3 * CFG_TIMEOUT_S)
    ch = Chooser([], stats)
    try:
        while True:
            ch = Chooser(prefix, stats)
            stats.executions += 1
            body(cfg, ch)
            if len(stats.samples) < 1 and (ch.trace or stats.executions == 1):
                stats.samples.append({"cfg": _short(cfg), "choices": [f"{n}={r}" for n, _, _, r in ch.trace[:12]]})
            # advance
            prefix = [(n, i) for _, n, i, _ in ch.trace]
            while prefix and prefix[-1][1] + 1 >= prefix[-1][0]:
                prefix.pop()
            if not prefix:
                break
            prefix[-1] = (prefix[-1][0], prefix[-1][1] + 1)
            if max_executions is not None and stats.executions >= max_executions:
                raise RuntimeError("execution cap reached: exploration would not be exhaustive")
    except (Exception, KeyboardInterrupt, SystemExit) as e:  # any failure where the body expects none
        tb = traceback.format_exc()
        # Diverged: the same decisions led to other options, the code depends on what ran before
        message = str(e) if isinstance(e, Violation) else f"unexpected {type(e).__name__}: {e}"
        stats.violation = {
            "cfg": cfg,
            "choices": [{"name": n, "options": k, "index": i, "value": r} for n, k, i, r in ch.trace],
            "message": message,
            "key": getattr(e, "key", None),
            "traceback": tb,
        }
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.alarm(0)
    return stats


def replay(body, cfg, choices):
    """One execution with given decisions; raises what the execution raises."""
    stats = Stats()
    ch = Chooser([(c["options"], c["index"]) for c in choices], stats)
    body(cfg, ch)
    return ch


def _short(cfg):
    s = json.dumps(cfg, default=repr)
    return cfg if len(s) < 400 else s[:400] + "..."


# -- known findings -------------------------------------------------------------------------------------


def known_findings(prop):
    """Keys of the findings listed for a property (lines `finding: property=ID key=KEY text`)."""
    keys = {}
    path = ROOT / "KNOWN_FINDINGS.txt"
    if path.exists():
        for line in path.read_text().splitlines():
            if not line.startswith("finding:"):
                continue
            fields = dict(f.split("=", 1) for f in line.split()[1:3])
            if fields.get("property") == prop:
                keys[fields["key"]] = line.split(None, 3)[3]
    return keys


# -- parallel driver ------------------------------------------------------------------------------------

_BODIES = None


def _work(args):
    name, cfg, known = args
    return explore(_BODIES[name], cfg, known)


def run_check(prop, parts, level, rule, assumptions, exhaustive=True):
    """parts: list of (name, body, configurations). Returns the exit code."""
    global _BODIES
    started = time.time()
    _BODIES = {name: body for name, body, _ in parts}
    known = known_findings(prop)
    total = Stats(known)
    per_part = {}
    tasks = [(name, cfg, tuple(known)) for name, _, cfgs in parts for cfg in cfgs]
    if os.environ.get("VT_ORDER") == "spread":  # for tools/mutate.py: all kinds of configurations early
        random.Random(1).shuffle(tasks)
    violation = None
    error = None
    ctx = mp.get_context("fork")
    executor = cf.ProcessPoolExecutor(max_workers=min(WORKERS, max(1, len(tasks))), mp_context=ctx)
    try:
        pending = {}
        queue = list(reversed(tasks))
        while queue or pending:
            while queue and len(pending) < 4 * WORKERS:
                t = queue.pop()
                pending[executor.submit(_work, t)] = t
            done, _ = cf.wait(pending, return_when=cf.FIRST_COMPLETED)
            for f in done:
                t = pending.pop(f)
                stats = f.result()
                total.merge(stats)
                p = per_part.setdefault(t[0], {"configurations": 0, "executions": 0, "evaluations": 0})
                p["configurations"] += 1
                p["executions"] += stats.executions
                p["evaluations"] += stats.evaluations
                if stats.violation and violation is None:
                    violation = dict(stats.violation, part=t[0])
            if violation:
                break
    except Exception as e:
        error = e
        traceback.print_exc()
    finally:
        procs = list((executor._processes or {}).values())
        executor.shutdown(wait=False, cancel_futures=True)
        if violation or error:
            for p in procs:
                p.terminate()
        for p in procs:
            p.join(timeout=10)
            if p.is_alive():
                p.kill()

    wall = time.time() - started
    for key, message in sorted(total.found.items()):
        print(f"KNOWN-FINDING: property={prop} key={key} {known[key]}")
    coverage = {
        "evaluations": total.evaluations,
        "distinct_nontrivial": len(total.cases),
        "rule": rule,
        "samples": total.samples,
        "executions": total.executions,
        "parts": per_part,
        "exhaustive": bool(exhaustive and not violation and not error),
        "workers": WORKERS,
    }
    if total.states:
        coverage["states"] = len(total.states)
        coverage["transitions"] = total.transitions
        coverage["traces_validated_against_impl"] = total.traces
    if total.outcomes:
        coverage["distinct_outcomes"] = len(total.outcomes)
    coverage.update(total.extra)
    write_evidence(prop, level, coverage, assumptions, wall, 1 if violation else 0, total)
    if error:
        print(f"ERROR property={prop} {error!r}")
        return 2
    if violation:
        path = write_replay(prop, violation)
        print(f"{prop}: {violation['message']}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print(
        f"OK property={prop} tier={TIER} configurations={len(tasks)} executions={total.executions}"
        f" evaluations={total.evaluations} distinct={len(total.cases)} states={len(total.states)}"
        f" transitions={total.transitions} traces={total.traces} outcomes={len(total.outcomes)} wall={wall:.1f}s"
    )
    return 0


def write_evidence(prop, level, coverage, assumptions, wall, violations, total):
    path = ROOT / "evidence"
    path.mkdir(exist_ok=True)
    (path / f"{prop}.json").write_text(
        json.dumps(
            {
                "property": prop,
                "tier": "thorough" if THOROUGH else "quick",
                "seed": SEED,
                "level": level,
                "coverage": coverage,
                "assumptions": list(assumptions),
                "wall_s": round(wall, 2),
                "violations": violations,
            },
            indent=1,
            default=repr,
        )
    )


def write_replay(prop, violation):
    path = ROOT / "evidence" / "replays"
    path.mkdir(parents=True, exist_ok=True)
    out = path / f"{prop}-{violation['part']}.json"
    out.write_text(
        json.dumps(
            dict(violation, property=prop, hashseed=os.environ.get("PYTHONHASHSEED"), tier=TIER),
            indent=1,
            default=repr,
        )
    )
    return out


# -- comparisons ----------------------------------------------------------------------------------------


def require(cond, message, key=None):
    if not cond:
        raise Violation(message, key)


def close(a, b, tol, what):
    d = abs(a - b)
    if not d <= tol:  # also catches NaN
        raise Violation(f"{what}: got {a!r}, expected {b!r} (difference {d:.3g}, tolerance {tol:.3g})")


def raises(exc, f, what):
    """f() must raise exc (or a subclass)."""
    try:
        r = f()
    except exc:
        return
    except Exception as e:
        raise Violation(f"{what}: raised {type(e).__name__} ({e}) instead of {_names(exc)}")
    raise Violation(f"{what}: returned {r!r} instead of raising {_names(exc)}")


def _names(exc):
    return " or ".join(e.__name__ for e in (exc if isinstance(exc, tuple) else (exc,)))
