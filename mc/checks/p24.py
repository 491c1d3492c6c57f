"""P24: an interrupted call leaves nothing behind."""

from __future__ import annotations

import contextlib
import gc
import io
import json
import os
import sys
import tempfile

from mc import core
from mc.checks.p14 import expected
from mc.checks.p17 import rich
from mc.core import Check, Cov, Violation, attempt, check, expect_ok, fork_call
from mc.oracle import CG_VERSIONS, VERSIONS, canon, diff, drain, exact, first_json_diff, header, lib, log, plain_sample, raw, ref_cgroup, ref_dict, same, snap, want
from mc.parse126 import ALL, summary


class Interrupt(KeyboardInterrupt):
    """Raised at one point inside of the library."""


class NoMemory(MemoryError):
    """Raised at one point inside of the library."""


KINDS = {"interrupt": Interrupt, "memory": NoMemory}


class Injector:
    """Counts the lines (or instructions) of library code that are executed; raises before a chosen one."""

    def __init__(self, at=None, exc=None, opcodes=False):
        self.at, self.exc, self.opcodes, self.num, self.fired = at, exc, opcodes, 0, False

    def _local(self, frame, event, _arg):
        if event == ("opcode" if self.opcodes else "line"):
            self._point()
        return self._local

    def _global(self, frame, event, _arg):
        if event != "call" or not frame.f_code.co_filename.startswith(self.root):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self._local

    def _point(self):
        num, self.num = self.num, self.num + 1
        if num == self.at:
            self.fired = True
            raise self.exc

    def run(self, func):
        self.root = os.path.realpath(core.REPO) + os.sep
        gc.disable()
        sys.settrace(self._global)
        try:
            return attempt(func)
        finally:
            sys.settrace(None)
            gc.enable()


class World:
    """The objects of one log, read before anything is interrupted (or not at all)."""

    def __init__(self, v):
        self.v = v
        self.samples = [rich(0), rich(1)] if v == "1.26" else [plain_sample(v, 5, 2), plain_sample(v, 6, 1)]
        self.head = header(v)
        self.data = self.head + b"".join(s.blob for s in self.samples)

    def read(self):
        stream = io.BytesIO(self.data)
        self.hdr = expect_ok("get_header", lib().get_header, stream)
        out, exc = drain(lib().generate_statistics(stream, self.hdr))
        check(exc is None and len(out) == 2, f"{self.v}: reading failed: {exc!r}")
        self.rec, self.sst, self.tasks, self.cgs = out[0]
        self.rec2 = out[1][0]

    def unchanged(self, what):
        smp = self.samples[0]
        check(raw(self.hdr) == self.head and diff(snap((self.rec, self.sst, self.tasks, self.cgs)), want(smp)) is None, f"{what}: the caller's objects changed")


class CHECK(Check):
    prop = "P24"
    level = "fault_enumeration"
    rule = (
        "One evaluation interrupts one call at one executed line (thorough: also at each bytecode instruction) of library code by an exception, in a forked so far unused process, then checks that "
        "exactly this exception reached the caller and the arguments are unchanged, repeats the call on the same objects, and reads and converts logs of the same and of another version. "
        "Distinct by version, call, point and exception."
    )
    bounds = {
        "calls": "get_header, version properties, each section function, the first, second and last step of a reader (own and given header), conversions of header, record, task, cgroup, system statistics, 15 summaries, the command",
        "points": "every line executed (conversion of whole system statistics, whole command: the first 200 and last 60; on versions other than 1.26 and 2.12 the first 60 and last 20; long conversions in a used process on those versions: every fourth line); thorough: every instruction of all calls but the conversions, and two interruptions in a row for the short calls",
        "series": "each call interrupted at the first, second, third... line in one process, one after the other (up to 400), then completed",
        "exceptions": "keyboard interrupt and memory error (quick: alternating from point to point)",
        "caches": "each call when it is the first use of the library in the process, and when everything was used before",
    }
    assumptions = ["An exception takes effect between two lines (instructions) of Python code, as it does in CPython."]

    def calls(self, v):
        names = ["header", "version", "major", "minor", "record", "sstat", "tstat", "first", "first-own", "second", "last", "tolerant"]
        names += ["dict-header", "dict-record", "dict-task", "dict-sstat", "command"]
        if v in CG_VERSIONS:
            names += ["cstat", "dict-cgroup"]
        if v == "1.26":
            names += ["summary-" + n for n in ALL] + ["command-summary"]
        return names

    def tasks(self):
        return [[v, name, warm] for v in VERSIONS for name in self.calls(v) for warm in (False, True)]

    def cases(self, task_):
        v, name, warm = task_
        self.prepare(v, name, warm)
        total = fork_call(lambda: self.count(v, name, warm, False))
        points = range(total)
        if name in ("dict-sstat", "command"):
            points = sorted({*range(min(total, 200)), *range(max(0, total - 60), total)})
            if not self.thorough:
                points = [p for p in points if p < 60 or p > total - 20 or v in ("1.26", "2.12")]
        if warm and name in ("dict-task", "dict-header", "dict-cgroup") and not self.thorough and v not in ("1.26", "2.12"):
            points = points[::4]
        for kind in KINDS:
            yield [v, name, warm, "all", kind, False, None]
        for point in points:
            for num, kind in enumerate(KINDS):
                if self.thorough or (point + warm) % 2 == num:
                    yield [v, name, warm, point, kind, False, None]
        if self.thorough and not name.startswith(("dict", "command")):
            total = fork_call(lambda: self.count(v, name, warm, True))
            for point in range(total):
                yield [v, name, warm, point, "interrupt", True, None]
            if total < 120:
                total = fork_call(lambda: self.count(v, name, warm, False))
                for point in range(total):
                    for second in range(total):
                        yield [v, name, warm, point, "memory", False, second]

    _prepared: dict = {}

    def prepare(self, v, name, warm):
        """(world, callable, judge of its result), built once in the process from which each point is forked."""
        key = (v, name, warm)
        if key not in self._prepared:
            self._prepared.clear()
            self.material(v)
            self._prepared[key] = self.build(*key)
        return self._prepared[key]

    def build(self, v, name, warm):
        api = lib()
        world = World(v)
        if warm:
            self.battery(v, "before")
            for other in (v, "1.26", "2.12"):
                w = World(other)
                w.read()
                for obj in (w.hdr, w.rec, *w.tasks):
                    api.struct_to_dict(obj)
            if v == "1.26":
                world.read()
                for n in ALL:
                    list(getattr(self.parsers(), "parse_" + n)(world.hdr, world.rec, world.sst, world.tasks))
        world.read() if name not in ("header", "first-own") else None
        smp = world.samples[0]
        size = len(world.head)
        rec_len = len(smp.record)
        secs = [len(s) for s in smp.sections]

        def at(pos):
            stream = io.BytesIO(world.data)
            stream.seek(pos)
            return stream

        def same_bytes(exp, get=raw):
            def judge(val, what):
                check(expect_ok(what, get, val) == exp, f"{what}: wrong content")

            return judge

        def same_doc(exp):
            text = canon(exp)

            def judge(val, what):
                if canon(val) != text:
                    raise Violation(f"{what}: {first_json_diff(val, exp)}")

            return judge

        if name == "header":
            return world, lambda: api.get_header(io.BytesIO(world.data)), same_bytes(world.head)
        if name in ("version", "major", "minor"):
            major, minor = (int(x) for x in v.split("."))
            attr, exp = {"version": ("semantic_version", v), "major": ("major_version", major), "minor": ("minor_version", minor)}[name]
            if not warm:
                # A header whose version was never asked for.
                world.hdr = type(world.hdr).from_buffer_copy(world.head)
            return world, lambda: getattr(world.hdr, attr), same_bytes(exp, lambda x: x)
        if name == "record":
            return world, lambda: api.get_record(at(size), world.hdr), same_bytes(smp.record)
        if name == "sstat":
            return world, lambda: api.get_sstat(at(size + rec_len), world.hdr, world.rec), same_bytes(smp.sstat)
        if name == "tstat":
            return world, lambda: api.get_tstat(at(size + rec_len + secs[0]), world.hdr, world.rec), same_bytes(list(smp.tasks), lambda ts: [raw(t) for t in ts])
        if name == "cstat":
            return world, lambda: api.get_cstat(at(size + rec_len + secs[0] + secs[1]), world.hdr, world.rec), same_bytes(
                [(c.stat, c.pids) for c in smp.cgroups], lambda cs: [(raw(c.cstat), list(c.proclist)) for c in cs]
            )
        if name in ("first", "first-own", "second", "last", "tolerant"):
            skip = {"second": 1, "last": 2}.get(name, 0)

            def step():
                stream = at(0)
                if name == "first-own":
                    world.gen = iter(api.generate_statistics(stream))
                else:
                    world.gen = iter(api.generate_statistics(stream, api.get_header(stream), name != "tolerant"))
                for _ in range(skip):
                    next(world.gen)
                return next(world.gen, None)

            def judge(val, what):
                if skip == 2:
                    check(val is None, f"{what}: a sample behind the last one")
                else:
                    same(val, world.samples[skip], what)

            return world, step, judge
        if name.startswith("dict-"):
            part = name[5:]
            obj, exp = {
                "header": lambda: (world.hdr, ref_dict("Header", v, world.head)), "record": lambda: (world.rec, ref_dict("Record", v, smp.record)),
                "task": lambda: (world.tasks[0], ref_dict("TStat", v, smp.tasks[0])), "sstat": lambda: (world.sst, ref_dict("SStat", v, smp.sstat)),
                "cgroup": lambda: (world.cgs[0], ref_cgroup(smp.cgroups[0], v)),
            }[part]()
            return world, lambda: api.struct_to_dict(obj), same_doc(exp)
        if name.startswith("summary-"):
            func = getattr(self.parsers(), "parse_" + name[8:])
            return world, lambda: list(func(world.hdr, world.rec, world.sst, world.tasks)), same_doc(summary(name[8:], world.head, smp.record, smp.sstat, smp.tasks))
        assert name in ("command", "command-summary"), name
        reader = sys.modules["atoparser.reader"]
        small = [plain_sample(v, 3, 1)]
        path = os.path.join(tempfile.mkdtemp(prefix="verif-p24-"), "a.log")  # inside the scratch folder of this run
        with open(path, "wb") as handle:
            handle.write(log(v, small))
        pars = ["CPL", "PRG"] if name != "command" else None
        tag, exp = expected(v, header(v), small, ["--tstats"], pars or [], path)

        def run():
            world.out = io.StringIO()
            with contextlib.redirect_stdout(world.out):
                reader.parse_file(path, pars, False, True, False)
            return world.out.getvalue()

        def judge(text, what):
            doc = json.loads(text)
            if tag == "error":
                check(len(doc) == 1 and "error" in doc[0], f"{what}: {text[:200]}")
            elif canon(doc) != canon(exp):
                raise Violation(f"{what}: {first_json_diff(doc, exp)}")

        return world, run, judge

    @staticmethod
    def parsers():
        return sys.modules["atoparser.parsers.atop_1_26"]

    _material: dict = {}

    def material(self, v):
        """Logs of the same and of another version, and the reference conversions of some objects (made without the library)."""
        if v not in self._material:
            out = []
            for other in (v, "2.7" if v != "2.7" else "2.12"):
                samples = [plain_sample(other, 7, 1), plain_sample(other, 8, 2)]
                refs = [canon(ref_dict("Record", other, samples[0].record)), canon(ref_dict("TStat", other, samples[1].tasks[0]))]
                out.append((other, samples, log(other, samples), refs))
            self._material[v] = out
        return self._material[v]

    def battery(self, v, when):
        """Logs of the same and of another version."""
        for other, samples, data, refs in self.material(v):
            what = f"{other} {when}"
            hdr, out = exact(data, samples, what)
            check(hdr.semantic_version == other and (hdr.major_version, hdr.minor_version) == tuple(int(x) for x in other.split(".")), f"{what}: version {hdr.semantic_version}")
            for obj, ref in zip((out[0][0], out[1][2][0]), refs):
                got = expect_ok(what, lib().struct_to_dict, obj)
                check(canon(got) == ref, f"{what}: another conversion")

    def count(self, v, name, warm, opcodes):
        _world, func, judge = self.prepare(v, name, warm)
        inj = Injector(opcodes=opcodes)
        kind, val = inj.run(func)
        if kind == "exc":
            raise Violation(f"{v}: {name}: {val!r}", [v, name, warm])
        judge(val, f"{v}: {name}")
        return inj.num

    def run_case(self, case, cov: Cov) -> None:
        self.prepare(*case[:3])
        fork_call(lambda: self.many(*case[:3], case[4]) if case[3] == "all" else self.interrupted(*case), 30)
        cov.evaluations += 1
        cov.seen(tuple(case))
        cov.note(case, 1)
        cov.outcomes[f"{case[1]} interrupted"] += 1

    def many(self, v, name, warm, kind):
        """The same call, interrupted again and again, each time at the next line."""
        _world, func, judge = self.prepare(v, name, warm)
        point = 0
        while point < 400:
            inj = Injector(point, KINDS[kind]("injected"))
            res, val = inj.run(func)
            what = f"{v}: {name} interrupted at line {point} after it was interrupted at all lines before ({kind})"
            if not inj.fired:
                judge(expect_ok(what, lambda: val) if res == "ok" else expect_ok(what, func), what)
                break
            check(res == "exc" and val is inj.exc, lambda: f"{what}: the exception did not reach the caller ({val!r:.200})")
            del val
            point += 1
        what = f"{v}: {name} after {point} interrupted calls ({kind})"
        judge(expect_ok(what, func), what)
        self.battery(v, f"after {what}")

    def interrupted(self, v, name, warm, point, kind, opcodes, second):
        world, func, judge = self.prepare(v, name, warm)
        what = f"{v}: {name} interrupted at {'instruction' if opcodes else 'line'} {point} ({kind})"
        for at in (point,) if second is None else (point, second):
            exc = KINDS[kind]("injected")
            inj = Injector(at, exc, opcodes)
            res, val = inj.run(func)
            if inj.fired:
                check(res == "exc" and val is exc, lambda: f"{what}: the exception did not reach the caller ({val!r:.200})")
            else:
                check(res == "ok", lambda: f"{what}: {val!r}")
        del val
        if hasattr(world, "out"):
            text = world.out.getvalue()
            if text:
                judge(text, f"{what}: the output printed before")
        if hasattr(world, "gen"):
            out, _exc = drain(world.gen, 10)
            for got in out:
                snapped = expect_ok(what, snap, got)
                check(any(diff(snapped, want(s)) is None for s in world.samples), f"{what}: the interrupted reader went on with a sample that was never stored")
        if hasattr(world, "sst"):
            world.unchanged(what)
        judge(expect_ok(f"{what}, repeated", func), f"{what}, repeated")
        self.battery(v, f"after {what}")
        judge(expect_ok(f"{what}, repeated again", func), f"{what}, repeated again")
