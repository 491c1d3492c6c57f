"""P11: concurrent threads do not affect each other (every schedule up to a preemption bound, on the real code)."""

from __future__ import annotations

import io
import sys

from mc.checks.p12 import limited
from mc.checks.p14 import texts
from mc.checks.p17 import rich
from mc.core import Check, Cov, Violation, check, expect_ok, fork_call
from mc.oracle import CG_VERSIONS, VERSIONS, Cgroup, Sample, canon, diff, drain, first_json_diff, header, layout, lib, log, plain_sample, raw, ref_cgroup, ref_dict, snap, sstat, want
from mc.parse126 import summary
from mc.sched import Scheduler

_MEMO: dict = {}


def memo(key, fun):
    if key not in _MEMO:
        _MEMO[key] = fun()
    return _MEMO[key]


ODD = 9
SUMMARIES = ["cpu", "CPL", "CPU", "DSK", "LVM", "MDD", "MEM", "NETL", "NETU", "PAG", "PRC", "PRD", "PRG", "PRM", "PRN", "SWP"]
EDGES = 120  # of the long conversions of full arrays: switches at the first and last lines of the first thread


def odd(v):
    """Stored counts beyond the capacities, texts that are no UTF-8."""
    lay = layout(v)
    _head, (smp,) = texts(v, b"ab\xffcd")
    stat = bytearray(smp.sstat)
    for path, _arr, cnt, cap in limited(v, "SStat"):
        lay.put(stat, "SStat", (*path, cnt), cap + 7)
    return Sample(v, bytes(stat), smp.tasks, smp.cgroups, level=1)


def stored(v, who, n=1):
    """Samples of one log: deterministic, different for every (version, who)."""
    def build():
        if who == ODD:
            return [odd(v)]
        if v == "1.26":
            return [rich(who)] + [plain_sample(v, 5 + 3 * who + i, 1 + (who + i) % 2) for i in range(n - 1)]
        return [plain_sample(v, 5 + 3 * who + i, 1 + (who + i) % 2) for i in range(n)]
    return memo(("stored", v, who, n), build)


def head_of(v, who):
    return memo(("head", v, who), lambda: header(v, hertz=100 + 50 * who, pagesize=4096 << who))


def flood_material():
    """Very many different things: whatever is remembered of what was seen before is pushed out by them."""
    def build():
        logs, texts_ = [], []
        for v in VERSIONS:
            kinds = [header(v, hertz=h) for h in (100, 250, 1000)]
            samples = [plain_sample(v, 40 + i, i, rec={"interval": 1 + i}) for i in range(0, 24 if v in ("1.26", "2.12") else 4)]
            if v in CG_VERSIONS:
                # What is usual comes first, so that it is not what is seen last.
                groups = [Cgroup(v, i % 200, i, range(1000, 1000 + i)) for i in range(300)]
                samples += [Sample(v, sstat(v, "plain", 1), [], groups[k : k + 100], level=1) for k in (0, 100, 200)]
            logs.append((v, kinds[0] + b"".join(s.blob for s in samples), samples))
            texts_.extend(kinds)
        strange = [header("2.12", aversion=0x8000 | n) for n in range(1, 32000, 113)]
        return logs, texts_, strange

    return memo("flood", build)


# ---- programs: build(world) -> callable run by one thread; verify(result) -------------------------------------------
# Every program is (kind, version, who, arguments...). The world holds objects shared by several threads.
class World:
    def __init__(self):
        self.headers, self.samples = {}, {}

    def header(self, v):
        """A shared header nobody has used yet."""
        if v not in self.headers:
            self.headers[v] = lib().get_header(io.BytesIO(head_of(v, 0)), check_compatibility=False)
        return self.headers[v]

    def sample(self, v, base=0):
        if (v, base) not in self.samples:
            data = head_of(v, 0) + stored(v, base)[0].blob
            stream = io.BytesIO(data)
            hdr = lib().get_header(stream)
            out, exc = drain(lib().generate_statistics(stream, hdr))
            check(exc is None and len(out) == 1, f"{v}: reading the sample failed: {exc!r}")
            self.samples[v, base] = (hdr, *out[0])
        return self.samples[v, base]


def program(world: World, spec):
    """(thread body, verification of its value)."""
    kind, v, who = spec[:3]
    api = lib()
    if kind == "flood":  # all of that, without scheduling points of its own
        logs, heads, strange = flood_material()
        parsers = sys.modules["atoparser.parsers.atop_1_26"]

        def body():
            tracer = sys.gettrace()
            sys.settrace(None)
            try:
                res = []
                for _version, data, _samples in logs:
                    stream = io.BytesIO(data)
                    hdr = api.get_header(stream)
                    got = list(api.generate_statistics(stream, hdr))
                    res.append([snap(g) for g in got])
                    if spec[3] == "convert":
                        for g in got[:: 4 if len(got) > 8 else 1]:
                            for obj in (hdr, g[0], *g[2][:6], *g[3][:6]):
                                api.struct_to_dict(obj)
                            api.struct_to_dict(g[1])
                    elif spec[3] == "sum" and _version == "1.26":
                        for g in got:
                            for name in SUMMARIES:
                                list(getattr(parsers, "parse_" + name)(hdr, *g[:3]))
                return res, [api.get_header(io.BytesIO(h), False).semantic_version for h in heads + strange]
            finally:
                sys.settrace(tracer)

        def verify(res):
            for (version, _data, samples), got in zip(logs, res[0]):
                check(len(got) == len(samples), f"{spec}: {len(got)} samples of {version} instead of {len(samples)}")
                for i, (g, smp) in enumerate(zip(got, samples)):
                    msg = diff(g, want(smp))
                    check(msg is None, lambda: f"{spec}: {version}, sample {i}: {msg}")
            exp = [v for v in VERSIONS for _ in range(3)] + [f"{n >> 8}.{n & 255}" for n in range(1, 32000, 113)]
            check(res[1] == exp, f"{spec}: versions differ")

        return body, verify
    if kind == "log":  # own log from its first byte
        num = spec[3]
        samples = stored(v, who, num)
        data = head_of(v, who) + b"".join(s.blob for s in samples)

        def body():
            stream = io.BytesIO(data)
            hdr = api.get_header(stream)
            return hdr, list(api.generate_statistics(stream, hdr)), hdr.semantic_version

        def verify(res):
            check(raw(res[0]) == data[:480] and res[2] == v, f"{spec}: header differs")
            check(len(res[1]) == num, f"{spec}: {len(res[1])} samples instead of {num}")
            for i, (got, smp) in enumerate(zip(res[1], samples)):
                msg = diff(snap(got), want(smp))
                check(msg is None, lambda: f"{spec}: sample {i}: {msg}")

        return body, verify
    if kind == "shared":  # own stream, shared header object
        num = spec[3]
        samples = stored(v, who, num)
        data = b"".join(s.blob for s in samples)
        hdr = world.header(v)

        def body():
            out = list(api.generate_statistics(io.BytesIO(data), hdr))
            return out

        def verify(res):
            check(raw(hdr) == head_of(v, 0), f"{spec}: shared header changed")
            check(len(res) == num, f"{spec}: {len(res)} samples instead of {num}")
            for i, (got, smp) in enumerate(zip(res, samples)):
                msg = diff(snap(got), want(smp))
                check(msg is None, lambda: f"{spec}: sample {i}: {msg}")

        return body, verify
    if kind == "header":
        data = head_of(v, who)

        def body():
            hdr = api.get_header(io.BytesIO(data))
            return hdr, hdr.major_version, hdr.minor_version, hdr.semantic_version

        def verify(res):
            major, minor = (int(x) for x in v.split("."))
            check(raw(res[0]) == data and res[1:] == (major, minor, v), lambda: f"{spec}: header {res[1:]} or its content differs")

        return body, verify
    if kind == "attr":  # lazily computed attributes of a shared, so far unused header
        hdr = world.header(v)
        name = spec[3]
        major, minor = (int(x) for x in v.split("."))
        exp = {"major_version": major, "minor_version": minor, "semantic_version": v, "check_compatibility": None}[name]

        def body():
            val = getattr(hdr, name)
            return val() if name == "check_compatibility" else val

        return body, lambda res: check(res == exp, f"{spec}: {res!r} instead of {exp!r}")
    if kind == "section":  # record, sstat or tstat of an own stream with a shared header
        smp = stored(v, who)[0]
        hdr = world.header(v)

        def body():
            stream = io.BytesIO(smp.blob)
            rec = api.get_record(stream, hdr)
            if spec[3] == "record":
                return raw(rec)
            sst = api.get_sstat(stream, hdr, rec)
            tasks = api.get_tstat(stream, hdr, rec)
            if v in CG_VERSIONS:
                groups = api.get_cstat(stream, hdr, rec)
                return [raw(sst), [raw(t) for t in tasks], [(raw(c.cstat), list(c.proclist)) for c in groups]]
            return [raw(sst), [raw(t) for t in tasks]]

        exp = smp.record if spec[3] == "record" else [smp.sstat, smp.tasks] + ([[(c.stat, c.pids) for c in smp.cgroups]] if v in CG_VERSIONS else [])
        return body, lambda res: check(res == exp, f"{spec}: result differs")
    base = ODD if who == ODD else 0
    hdr, rec, sst, tasks, groups = world.sample(v, base)
    smp = stored(v, base)[0]
    if kind == "dict":
        part = spec[3]
        obj = {"Header": hdr, "Record": rec, "SStat": sst, "TStat": tasks[0], "CStat": groups[0].cstat if groups else None}[part]
        data = {"Header": head_of(v, 0), "Record": smp.record, "SStat": smp.sstat, "TStat": smp.tasks[0], "CStat": smp.cgroups[0].stat if smp.cgroups else None}[part]
        if spec[4:]:  # only one nested structure
            lay_path = spec[4]
            obj = getattr(obj, lay_path)
            exp = memo(("dict", v, base, part, lay_path), lambda: ref_dict(part, v, data)[lay_path])
        else:
            exp = memo(("dict", v, base, part), lambda: ref_dict(part, v, data))
        body = lambda: api.struct_to_dict(obj)  # noqa: E731
    else:  # summary
        mod = sys.modules["atoparser.parsers.atop_1_26"]
        fun = getattr(mod, "parse_" + spec[3])
        exp = memo(("summary", base, spec[3]), lambda: summary(spec[3], head_of(v, 0), smp.record, smp.sstat, smp.tasks))
        body = lambda: list(fun(hdr, rec, sst, tasks))  # noqa: E731

    def verify(res):
        if canon(res) != canon(exp):
            raise Violation(f"{spec}: {first_json_diff(res, exp)}")
        check(raw(rec) == smp.record and raw(sst) == smp.sstat and [raw(t) for t in tasks] == smp.tasks, f"{spec}: shared sample changed")

    return body, verify


# name: (programs, mode, preemption bound, number of tasks)
def harnesses(thorough):
    out = {}

    def add(name, progs, mode, bound, parts):
        out[name] = (progs, mode, bound, parts)

    for a, b in (("1.26", "1.26"), ("2.12", "2.12"), ("1.26", "2.12"), ("2.11", "2.12"), ("2.7", "2.3"), ("2.10", "2.11")):
        add(f"logs {a} {b}", [("log", a, 0, 1), ("log", b, 1, 1)], "line", 1, 2)
    add("logs 1.26 1.26, 2 samples", [("log", "1.26", 0, 2), ("log", "1.26", 1, 2)], "line", 1, 2)
    add("logs 2.12 2.12, 2 samples", [("log", "2.12", 0, 2), ("log", "2.12", 1, 2)], "line", 1, 4)
    add("logs 1.26 1.26, opcodes", [("log", "1.26", 0, 1), ("log", "1.26", 1, 1)], "opcode", 1, 6)
    add("logs 2.12 2.12, opcodes", [("log", "2.12", 0, 1), ("log", "2.12", 1, 1)], "opcode", 1, 8)
    for v in ("1.26", "2.6", "2.11", "2.12"):
        add(f"shared header {v}", [("shared", v, 0, 1), ("shared", v, 1, 1)], "line", 1, 2)
    add("shared header 1.26, bound 2", [("section", "1.26", 0, "all"), ("section", "1.26", 1, "all")], "line", 2, 6)
    add("shared header 2.12, bound 2", [("section", "2.12", 0, "all"), ("section", "2.12", 1, "all")], "line", 2, 12)
    add("record 1.26, opcodes", [("section", "1.26", 0, "record"), ("section", "1.26", 1, "record")], "opcode", 2, 2)
    for a, b in (("1.26", "1.26"), ("1.26", "2.12"), ("2.12", "2.12")):
        add(f"headers {a} {b}, opcodes", [("header", a, 0), ("header", b, 1)], "opcode", 1, 2)
    add("headers 1.26 2.5, bound 2", [("header", "1.26", 0), ("header", "2.5", 1)], "line", 2, 8)
    names = ("major_version", "minor_version", "semantic_version", "check_compatibility")
    for a in names:
        for b in names:
            deep = "check_compatibility" not in (a, b)
            add(f"attributes {a} {b}", [("attr", "1.26", 0, a), ("attr", "1.26", 1, b)], "opcode", 2 if deep or thorough else 1, 2 if deep else 1)
    add("three attributes", [("attr", "2.7", 0, names[0]), ("attr", "2.7", 1, names[1]), ("attr", "2.7", 2, names[2])], "line", 3 if thorough else 2, 2)
    add("attribute while reading", [("section", "2.6", 0, "all"), ("attr", "2.6", 1, "minor_version")], "line", 2, 2)
    for v, part in (("1.26", "Record"), ("1.26", "Header"), ("2.12", "Record"), ("2.12", "CStat"), ("2.7", "Header"), ("2.11", "Record")):
        add(f"convert {v} {part}", [("dict", v, 0, part), ("dict", v, 1, part)], "line", 1, 1)
    for v, sub in (("1.26", "intf"), ("2.12", "gpu"), *((("1.26", "dsk"), ("2.12", "intf"), ("2.7", "dsk")) if thorough else ())):
        add(f"convert counts beyond capacity, {v} {sub}", [("dict", v, ODD, "SStat", sub), ("dict", v, ODD, "SStat", sub)], "line", 1, 4)
    add("convert texts, opcodes", [("dict", "1.26", ODD, "TStat", "gen"), ("dict", "1.26", ODD, "TStat", "gen")], "opcode", 1, 1)
    for name in ("PRG", "PRC", "NETL"):
        add(f"summary {name} of odd texts", [("sum", "1.26", ODD, name), ("sum", "1.26", ODD, name)], "line", 1, 1)
    add("convert nested, bound 2", [("dict", "1.26", 0, "TStat", "mem"), ("dict", "1.26", 1, "TStat", "mem")], "line", 2, 12)
    add("convert 1.26 TStat", [("dict", "1.26", 0, "TStat"), ("dict", "1.26", 1, "TStat")], "line", 1, 2)
    add("convert 1.26 interfaces", [("dict", "1.26", 0, "SStat", "intf"), ("dict", "1.26", 1, "SStat", "cpu")], "line", 1, 2)
    add("convert different versions", [("dict", "1.26", 0, "Record"), ("dict", "2.12", 1, "Record")], "line", 1, 1)
    add("convert 1.26 Record, opcodes", [("dict", "1.26", 0, "Record"), ("dict", "1.26", 1, "Record")], "opcode", 1, 2)
    add("read and convert", [("log", "1.26", 0, 1), ("dict", "1.26", 1, "Header")], "line", 1, 1)
    for v in ("1.26", "2.6", "2.11", "2.12"):
        add(f"flood while reading {v}", [("log", v, 1, 2), ("flood", "all", 0, "read")], "opcode" if v == "2.12" and thorough else "line", 1, 3)
        add(f"flood while reading with a shared header {v}", [("shared", v, 1, 1), ("flood", "all", 0, "read")], "line", 1, 1)
    for v in ("2.5", "2.12"):
        add(f"flood while opening {v}", [("header", v, 1), ("flood", "all", 0, "read")], "opcode", 1, 1)
    for v, part in (("1.26", "Record"), ("2.12", "Record"), ("2.12", "CStat"), ("1.26", "TStat")):
        add(f"flood while converting {v} {part}", [("dict", v, 0, part), ("flood", "all", 0, "convert")], "line", 1, 6)
    sums = SUMMARIES
    for name in sums:
        add(f"flood while summarising {name}", [("sum", "1.26", 0, name), ("flood", "all", 0, "sum")], "line", 1, 1)
    for name in sums:
        add(f"summary {name}", [("sum", "1.26", 0, name), ("sum", "1.26", 1, name)], "line", 1, 1)
    for a, b in (("cpu", "PRC"), ("DSK", "LVM"), ("LVM", "MDD"), ("PRG", "PRM"), ("NETL", "NETU"), ("MEM", "SWP")):
        add(f"summaries {a} {b}", [("sum", "1.26", 0, a), ("sum", "1.26", 1, b)], "line", 2 if thorough else 1, 1)
    for name in ("CPL", "MEM", "NETU"):
        add(f"summary {name}, opcodes", [("sum", "1.26", 0, name), ("sum", "1.26", 1, name)], "opcode", 1, 1)
    add("summary while reading", [("sum", "1.26", 0, "PRC"), ("log", "1.26", 1, 1)], "line", 1, 1)
    add("three threads", [("section", "1.26", 0, "record"), ("header", "2.5", 1), ("sum", "1.26", 2, "CPL")], "line", 1, 2)
    if thorough:
        add("convert different nested, bound 2", [("dict", "1.26", 0, "TStat", "mem"), ("dict", "1.26", 1, "TStat", "dsk")], "line", 2, 12)
        add("convert 1.26 Record, bound 2", [("dict", "1.26", 0, "Record"), ("dict", "1.26", 1, "Record")], "line", 2, 12)
        add("logs 1.26 1.26, bound 2", [("log", "1.26", 0, 1), ("log", "1.26", 1, 1)], "line", 2, 40)
        add("logs 1.26 2.12, bound 2", [("log", "1.26", 0, 1), ("log", "2.12", 1, 1)], "line", 2, 40)
        add("logs 2.12 2.12, bound 2", [("log", "2.12", 0, 1), ("log", "2.12", 1, 1)], "line", 2, 60)
        add("headers 1.26 1.26, opcodes, bound 2", [("header", "1.26", 0), ("header", "1.26", 1)], "opcode", 2, 60)
        for name in sums:
            add(f"summary {name}, bound 2", [("sum", "1.26", 0, name), ("sum", "1.26", 1, name)], "line", 2, 4)
            add(f"summary {name}, opcodes", [("sum", "1.26", 0, name), ("sum", "1.26", 1, name)], "opcode", 1, 2)
        add("three headers", [("header", "1.26", 0), ("header", "2.5", 1), ("header", "2.12", 2)], "line", 2, 24)
        for v in ("2.3", "2.4", "2.5", "2.8", "2.9", "2.10"):
            add(f"shared header {v}", [("shared", v, 0, 1), ("shared", v, 1, 1)], "line", 1, 2)
            add(f"convert {v} TStat", [("dict", v, 0, "TStat"), ("dict", v, 1, "TStat")], "line", 1, 2)
    return out


class CHECK(Check):
    prop = "P11"
    level = "model_checking"
    rule = (
        "Stateless model checking of the implementation: real threads run one at a time under a tracing scheduler, every schedule within the preemption bound is executed in a "
        "forked, so far unused copy of the process, and each thread's result is compared with the reference result. A state is a vector of code positions of all threads of a harness, "
        "a transition one scheduling point executed; traces are complete schedules."
    )
    bounds = {
        "granularity": "every line of library code (all harnesses) and every bytecode instruction (harnesses marked opcodes)",
        "preemptions": "1 for whole logs, 2 for section reads/headers/records, 2-3 for lazily computed attributes; thorough: 2 for whole logs, summaries and three threads",
        "threads": "2 (all harnesses), 3 (attributes, mixed; thorough: headers)",
        "flood": "a thread that reads, converts or summarises very many different things (all versions, 300 process groups, strange names) in one go, placed at every line (thorough: opcode) of the other",
    }
    assumptions = ["Switches inside C functions (readinto, decompress, ctypes copies) are not explored; each is one step, as CPython executes it while other threads hold no reference to its target."]

    def tasks(self):
        out = []
        self.menu = harnesses(self.thorough)
        for name, (progs, mode, bound, parts) in self.menu.items():
            firsts = [0] if self.symmetric(progs) or progs[-1][0] == "flood" else range(len(progs))
            for first in firsts:
                out.extend([name, first, part, parts] for part in range(parts))
        out.sort(key=lambda t: -self.menu[t[0]][2] * self.menu[t[0]][3])
        return out

    @staticmethod
    def symmetric(progs):
        return len(progs) == 2 and progs[0][:2] + progs[0][3:] == progs[1][:2] + progs[1][3:]

    def run_task(self, task, cov):
        name, first, part, parts = task
        menu = harnesses(self.thorough)
        progs, mode, bound, _parts = menu[name]
        steps, ended = self.schedule(name, mode, progs, [first], cov)
        window = EDGES if name.startswith("convert counts") else steps
        points = [(p, t) for p in range(1, steps + 1) if p <= window or p > steps - window for t in range(len(progs)) if t != first or ended[first] < p]
        for idx, (step, target) in enumerate(points):
            if idx % parts == part:
                self.extend(name, mode, progs, [first, [step, target]], bound - 1, cov)
        cov.outcomes[f"{name} ({mode}, bound {bound})"] += 0

    def extend(self, name, mode, progs, schedule, left, cov):
        out = self.schedule(name, mode, progs, schedule, cov)
        if out is None or left == 0:
            return
        steps, ended = out
        for step in range(schedule[-1][0] + 1, steps + 1):
            for target in range(len(progs)):
                # Switching to a thread which has ended by then is no switch.
                if ended[target] is not None and ended[target] < step:
                    continue
                self.extend(name, mode, progs, [*schedule, [step, target]], left - 1, cov)

    def schedule(self, name, mode, progs, schedule, cov):
        """Execute one schedule; its length and where threads ended, or None if it equals a shorter one."""
        case = {"harness": name, "mode": mode, "programs": [list(p) for p in progs], "schedule": schedule}
        box = []
        self.guarded_with(case, cov, box)
        return box[0]

    def guarded_with(self, case, cov, box):
        self._box = box
        self.guarded(case, cov)

    def run_case(self, case, cov: Cov) -> None:
        progs = [tuple(p) for p in case["programs"]]
        # References are computed once per worker; the library stays unused in this process.
        if case["harness"] not in _MEMO:
            if progs[-1][0] == "flood":
                for _v, _data, samples in flood_material()[0]:
                    for smp in samples:
                        want(smp)
            for spec in progs:
                if spec[0] == "flood":
                    continue
                for num in (1, 2) if spec[2] != ODD else (1,):
                    stored(spec[1], spec[2], num)
                stored(spec[1], 0)
                head_of(spec[1], spec[2])
            for spec in progs:
                if spec[0] in ("dict", "sum"):
                    base = ODD if spec[2] == ODD else 0
                    v, smp = spec[1], stored(spec[1], base)[0]
                    if spec[0] == "sum":
                        memo(("summary", base, spec[3]), lambda: summary(spec[3], head_of(v, 0), smp.record, smp.sstat, smp.tasks))
                    else:
                        data = {"Header": head_of(v, 0), "Record": smp.record, "SStat": smp.sstat, "TStat": smp.tasks[0], "CStat": smp.cgroups[0].stat if smp.cgroups else None}[spec[3]]
                        full = ref_dict(spec[3], v, data)
                        memo(("dict", v, base, spec[3], *spec[4:]), lambda: full[spec[4]] if spec[4:] else full)
            _MEMO[case["harness"]] = True

        def body():
            world = World()
            pairs = [program(world, spec) for spec in progs]
            sched = Scheduler([p[0] for p in pairs], case["schedule"], case["mode"])
            results = sched.run()
            for spec, (kind, val), (_body, verify) in zip(progs, results, pairs):
                if kind == "exc":
                    raise Violation(f"{spec}: {val}")
                verify(val)
            return sched.steps, sched.ended, sched.stalls, sched.states

        steps, ended, stalls, states = fork_call(body)
        cov.evaluations += 1
        cov.transitions += steps
        mark = hash(case["harness"])
        cov.states.update(mark ^ pos for pos in states)
        cov.seen(canon(case["schedule"]) + case["harness"])
        cov.outcomes[f"{case['harness']} ({case['mode']}, {len(case['schedule']) - 1} preemptions)"] += 1
        cov.extra["stalled"] += stalls
        cov.note(case, 1)
        if getattr(self, "_box", None) is not None:
            self._box.append((steps, ended))
