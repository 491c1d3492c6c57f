"""Exploration driver: one forked, pristine process per task; replayable violations; evidence."""

from __future__ import annotations

import argparse
import collections
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import pickle
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CASE_TIMEOUT = 120
JOBS = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)


class Violation(Exception):
    """The code under test broke the property."""

    def __init__(self, message: str, case=None):
        super().__init__(message)
        self.message, self.case = message, case


class Hang(BaseException):
    """Raised by the watchdog inside a case that does not end."""


class Cov:
    """What one task explored."""

    def __init__(self):
        self.evaluations = 0  # complete executions compared with the reference
        self.transitions = 0  # single API calls (or schedule steps) executed on the real code
        self.states = set()  # distinct reference-model states (hashable)
        self.outcomes = collections.Counter()
        self.distinct = set()  # distinct non-trivial executions (see the check's rule)
        self.samples = []
        self.extra = collections.Counter()

    def note(self, case, limit=2):
        if len(self.samples) < limit:
            self.samples.append(case)

    def seen(self, key):
        """Count one distinct non-trivial execution."""
        self.distinct.add(hash(key))

    def state(self, key):
        self.states.add(hash(key))

    def pack(self):
        # Workers are forked from one parent, so hash() agrees between them.
        return (self.evaluations, self.transitions, self.states, self.outcomes, self.distinct, self.samples, self.extra)


def load_repo():
    """Import the library from the working tree (never from stale byte code)."""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent-verif-pycache"
    for path in ("", ".", os.getcwd()):
        while path in sys.path and path != ROOT:
            sys.path.remove(path)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import atoparser  # pylint: disable=import-outside-toplevel
    import atoparser.reader  # noqa: F401 pylint: disable=import-outside-toplevel
    import atoparser.parsers.atop_1_26  # noqa: F401 pylint: disable=import-outside-toplevel

    assert os.path.realpath(atoparser.__file__).startswith(os.path.realpath(REPO) + "/"), atoparser.__file__
    return atoparser


def attempt(func, *args, **kwargs):
    """Run code under test: ('ok', value) or ('exc', exception)."""
    try:
        return "ok", func(*args, **kwargs)
    except (Violation, Hang):
        raise
    except BaseException as exc:  # pylint: disable=broad-except
        return "exc", exc


def expect_ok(what: str, func, *args, **kwargs):
    kind, val = attempt(func, *args, **kwargs)
    if kind == "exc":
        raise Violation(f"{what}: unexpected {type(val).__name__}: {str(val)[:300]}")
    return val


def check(cond, message):
    if not cond:
        raise Violation(message() if callable(message) else message)


class Check:
    """Base of all checks: a property id, tasks (sub-spaces) and cases (single executions)."""

    prop = "P00"
    level = "exploration"
    rule = ""
    bounds: dict = {}
    assumptions: list[str] = []
    case_timeout = CASE_TIMEOUT
    exhaustive = True

    def __init__(self, tier: str):
        self.tier = tier
        self.thorough = tier == "thorough"

    def tasks(self) -> list:
        raise NotImplementedError

    def cases(self, task):
        """Cases of one task, simplest first. Must be JSON compatible."""
        yield task

    def run_case(self, case, cov: Cov) -> None:
        raise NotImplementedError

    def run_task(self, task, cov: Cov) -> None:
        for case in self.cases(task):
            self.guarded(case, cov)

    def guarded(self, case, cov: Cov) -> None:
        """Run one case under the watchdog, attaching the case to whatever it reports."""
        if self.case_timeout:
            signal.alarm(self.case_timeout)
        try:
            self.run_case(case, cov)
        except Violation as exc:
            if exc.case is None:
                exc.case = case
            raise
        except Hang:
            raise Violation(f"no result within {self.case_timeout} s (does not terminate)", case) from None
        except MemoryError:
            raise Violation("ran out of memory", case) from None
        except Exception as exc:  # pylint: disable=broad-except
            # The harness runs clean on a correct library: what it cannot examine is not what was promised.
            where = traceback.extract_tb(exc.__traceback__)[-1]
            msg = f"results cannot be examined: {type(exc).__name__}: {str(exc)[:300]} (at {os.path.basename(where.filename)}:{where.lineno})"
            raise Violation(msg, case) from exc
        finally:
            signal.alarm(0)


def _alarm(_sig, _frm):
    raise Hang()


def _worker(chk: Check, task, conn) -> None:
    signal.signal(signal.SIGALRM, _alarm)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except (ValueError, OSError):
        pass
    cov = Cov()
    try:
        chk.run_task(task, cov)
        msg = ("ok", cov.pack())
    except Violation as exc:
        msg = ("violation", (exc.message, exc.case, cov.pack()))
    except BaseException:  # pylint: disable=broad-except
        msg = ("error", traceback.format_exc())
    conn.send(msg)
    conn.close()
    sys.stdout.flush()
    os._exit(0)


def explore(chk: Check):
    """Run all tasks. Returns (merged coverage, violation or None)."""
    tasks = chk.tasks()
    ctx = multiprocessing.get_context("fork")
    pending = collections.deque(enumerate(tasks))
    live = {}
    tot = Cov()
    tot.samples = []
    violation = None
    done = 0
    while (pending or live) and violation is None:
        while pending and len(live) < JOBS:
            idx, task = pending.popleft()
            recv, send = ctx.Pipe(False)
            proc = ctx.Process(target=_worker, args=(chk, task, send), daemon=True)
            proc.start()
            send.close()
            live[recv] = (proc, idx, task)
        for conn in multiprocessing.connection.wait(list(live), timeout=5):
            proc, idx, task = live.pop(conn)
            try:
                kind, val = conn.recv()
            except EOFError:
                proc.join()
                kind, val = "violation", (f"the process died (exit code {proc.exitcode}) while exploring this task", None, None)
            conn.close()
            proc.join()
            done += 1
            if kind == "error":
                for other in live.values():
                    other[0].kill()
                raise RuntimeError("harness error in task %r:\n%s" % (task, val))
            if kind == "violation":
                violation = {"message": val[0], "task": task, "case": val[1]}
                val = val[2]
            if val is not None:
                tot.evaluations += val[0]
                tot.transitions += val[1]
                tot.states |= val[2]
                tot.outcomes += val[3]
                tot.distinct |= val[4]
                if len(tot.samples) < 6:
                    tot.samples += val[5][: 6 - len(tot.samples)]
                tot.extra += val[6]
            if violation:
                break
    for proc, _idx, _task in live.values():
        proc.kill()
        proc.join()
    tot.extra["tasks"] = done
    return tot, violation


def known_findings(prop: str) -> list[str]:
    out = []
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as handle:
            for line in handle:
                if line.startswith(f"KNOWN-FINDING: property={prop} "):
                    out.append(line.strip())
    return out


def write_evidence(chk: Check, seed: int, tot: Cov, wall: float, violation) -> None:
    if chk.level == "model_checking":
        cov = {"states": len(tot.states), "transitions": tot.transitions, "traces_validated_against_impl": tot.evaluations}
    else:
        cov = {"evaluations": tot.evaluations, "distinct_nontrivial": len(tot.distinct)}
    cov |= {
        "rule": chk.rule,
        "samples": tot.samples[:6],
        "exhaustive": bool(chk.exhaustive and violation is None),
        "bounds": chk.bounds,
        "outcomes": {str(k): v for k, v in tot.outcomes.most_common(40)},
        "counters": dict(tot.extra),
    }
    doc = {
        "property": chk.prop, "tier": chk.tier, "seed": seed, "level": chk.level, "coverage": cov,
        "assumptions": chk.assumptions, "wall_s": round(wall, 3), "violations": 0 if violation is None else 1,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", chk.prop + ".json"), "w") as handle:
        json.dump(doc, handle, indent=1, default=repr)
        handle.write("\n")


def save_replay(chk: Check, violation) -> str:
    folder = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f"{chk.prop}.json")
    with open(path, "w") as handle:
        json.dump({"property": chk.prop, "tier": chk.tier, **violation}, handle, indent=1, default=repr)
        handle.write("\n")
    return path


def replay(chk: Check, path: str) -> int:
    with open(path) as handle:
        doc = json.load(handle)
    signal.signal(signal.SIGALRM, _alarm)
    if doc.get("case") is not None:
        print("replaying case:", json.dumps(doc["case"])[:500])
        try:
            chk.guarded(doc["case"], Cov())
        except Violation as exc:
            print("VIOLATION reproduced:", exc.message)
            return 1
        print("the case alone passes; replaying the whole task (history dependent)")
    try:
        chk.run_task(doc["task"], Cov())
    except Violation as exc:
        print("VIOLATION reproduced:", exc.message)
        return 1
    print("not reproduced")
    return 0


def main(argv=None) -> int:
    parser = argparse.ArgumentParser()
    parser.add_argument("prop")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    parser.add_argument("--replay")
    args = parser.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    start = time.time()
    module = importlib.import_module(f"mc.checks.{args.prop.lower()}")
    chk: Check = module.CHECK(args.tier)
    for line in known_findings(chk.prop):
        print(line)
    try:
        load_repo()
    except BaseException as exc:  # pylint: disable=broad-except
        # The tree compiles and imports (build.sh checks that), so a failure here is the library's.
        if args.replay is None:
            violation = {"message": f"the library cannot be imported: {type(exc).__name__}: {exc}", "task": None, "case": None}
            path = save_replay(chk, violation)
            write_evidence(chk, seed, Cov(), time.time() - start, violation)
            print(violation["message"])
            print(f"VIOLATION property={chk.prop} replay={path}")
            return 1
        raise
    if args.replay:
        return replay(chk, args.replay)
    scratch = tempfile.mkdtemp(prefix=f"verif-{chk.prop.lower()}-")
    tempfile.tempdir = scratch  # killed workers leave their files here, and only here
    try:
        tot, violation = explore(chk)
    finally:
        tempfile.tempdir = None
        shutil.rmtree(scratch, ignore_errors=True)
    wall = time.time() - start
    write_evidence(chk, seed, tot, wall, violation)
    print(
        f"{chk.prop} [{chk.tier}] evaluations={tot.evaluations} distinct={len(tot.distinct)} states={len(tot.states)} transitions={tot.transitions} "
        f"tasks={tot.extra['tasks']} wall={wall:.1f}s"
    )
    for key, num in tot.outcomes.most_common(12):
        print(f"  outcome {key}: {num}")
    if violation is not None:
        path = save_replay(chk, violation)
        print("case:", json.dumps(violation["case"], default=repr)[:1000])
        print("message:", violation["message"][:2000])
        print(f"VIOLATION property={chk.prop} replay={path}")
        return 1
    if tot.evaluations == 0:
        print("nothing was explored")
        return 2
    return 0


def fork_call(func, timeout: int = CASE_TIMEOUT):
    """Run func in a forked copy of this process, so that it starts from exactly the present state and leaves no trace."""
    rfd, wfd = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(timeout)
        try:
            msg = ("ok", func())
        except Violation as exc:
            msg = ("violation", (exc.message, exc.case))
        except Hang:
            msg = ("violation", (f"no result within {timeout} s (does not terminate)", None))
        except BaseException as exc:  # pylint: disable=broad-except
            msg = ("error", "%s: %s\n%s" % (type(exc).__name__, exc, traceback.format_exc()))
        try:
            with os.fdopen(wfd, "wb") as out:
                pickle.dump(msg, out)
        finally:
            os._exit(0)
    os.close(wfd)
    try:
        with os.fdopen(rfd, "rb") as inp:
            data = inp.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        _pid, status = os.waitpid(pid, 0)
    if not data:
        raise Violation(f"the process died (status {status:#x})")
    kind, val = pickle.loads(data)
    if kind == "violation":
        raise Violation(*val)
    if kind == "error":
        raise Violation("results cannot be examined: " + val[:1500])
    return val
