"""P10: returned objects are independent of each other and of later reads."""

from __future__ import annotations

import copy
import ctypes
import gc
import io
import itertools
import struct

from mc import alike
from mc.core import Check, Cov, Violation, attempt, check, expect_ok
from mc.oracle import CG_VERSIONS, VERSIONS, Cgroup, Sample, diff, exact, header, layout, lib, log, pattern, plain_sample, raw, ref_dict, same, same_json, snap, task, want

# Steps of one reader: open its header, read samples, end; a step list is a program over its own stream.
PROGRAMS = {
    "stream": ["open", "next", "next", "next", "end", "close"],
    "stop": ["open", "next", "next", "close"],
    "short": ["open", "next", "next", "end"],
    "sections": ["open", "record", "sstat", "tstat", "cstat", "next", "close"],
    "own": ["gen", "next", "next", "close"],
    "grow": ["open", "end", "eof", "grow", "record"],
}


class Reader:
    """One reader executing its program on the real library, remembering everything it got."""

    def __init__(self, world, slot, v, program, shared=None):
        self.world, self.slot, self.v = world, slot, v
        self.program = PROGRAMS[program]
        self.samples = [plain_sample(v, slot * 7 + i, (2, 0, 1)[(i + slot) % 3], **self.groups(v, i + slot)) for i in range(3)]
        self.data = log(v, self.samples, hertz=100 + slot)
        self.header_raw = self.data[:480]
        self.stream = io.BytesIO(self.data)
        self.shared = shared
        self.hdr = None
        self.gen = None
        self.pos = 0
        self.kept = []  # (name, object, expected snapshot function)
        self.rec = None

    @staticmethod
    def groups(v, num):
        """Samples without tasks have no cgroups either, so that every kind of empty list is returned."""
        return {"cgs": []} if v in CG_VERSIONS and num % 3 == 1 else {}

    def do(self, step):
        api = lib()
        what = f"reader {self.slot} ({self.v}) {step} {self.pos}"
        if step == "gen":
            self.gen = iter(expect_ok(what, api.generate_statistics, self.stream))
        elif step == "open":
            if self.shared is not None:
                self.hdr = self.shared
                self.stream.seek(480)
            else:
                self.hdr = expect_ok(what, api.get_header, self.stream)
                self.keep("header", self.hdr, lambda o: raw(o), self.header_raw)
        elif step == "next":
            if self.gen is None:
                self.gen = iter(expect_ok(what, api.generate_statistics, self.stream, self.hdr))
            got = expect_ok(what, next, self.gen)
            smp = self.samples[self.pos]
            msg = diff(snap(got), want(smp))
            check(msg is None, lambda: f"{what}: {msg}")
            self.keep(f"sample {self.pos}", got, snap, want(smp))
            self.pos += 1
        elif step == "end":
            if self.gen is None:
                self.gen = iter(expect_ok(what, api.generate_statistics, self.stream, self.hdr))
            while True:
                kind, val = attempt(next, self.gen)
                if kind == "exc":
                    check(isinstance(val, StopIteration), lambda: f"{what}: {val!r}")
                    break
                check(self.pos < 3, f"{what}: additional sample")
                msg = diff(snap(val), want(self.samples[self.pos]))
                check(msg is None, lambda: f"{what}: {msg}")
                self.keep(f"sample {self.pos}", val, snap, want(self.samples[self.pos]))
                self.pos += 1
            check(self.pos == 3, f"{what}: ended after {self.pos} samples")
        elif step == "eof":
            # Reading behind the last sample gives an empty record.
            kind, rec = attempt(api.get_record, self.stream, self.hdr)
            if kind == "ok" and rec is not None:
                self.keep("empty record", rec, raw, raw(rec))
        elif step == "grow":
            pos = self.stream.tell()
            self.stream.write(self.samples[0].blob)
            self.stream.seek(pos)
        elif step == "record":
            self.rec = expect_ok(what, api.get_record, self.stream, self.hdr)
            self.keep("record", self.rec, raw, self.samples[0].record)
        elif step == "sstat":
            self.keep("sstat", expect_ok(what, api.get_sstat, self.stream, self.hdr, self.rec), raw, self.samples[0].sstat)
        elif step == "tstat":
            self.keep("tstats", expect_ok(what, api.get_tstat, self.stream, self.hdr, self.rec), lambda o: [raw(x) for x in o], self.samples[0].tasks)
        elif step == "cstat":
            if self.v in CG_VERSIONS:
                exp = [(c.stat, c.pids) for c in self.samples[0].cgroups]
                self.keep("cgroups", expect_ok(what, api.get_cstat, self.stream, self.hdr, self.rec), lambda o: [(raw(c.cstat), list(c.proclist)) for c in o], exp)
            self.pos = 1
        elif step == "close":
            if self.gen is not None and hasattr(self.gen, "close"):
                expect_ok(what, self.gen.close)
            self.gen = None
            expect_ok(what, self.stream.close)
            # Freed memory is reused at once, so that views into it would show.
            gc.collect(0)
        else:
            raise AssertionError(step)

    def keep(self, name, obj, fun, exp):
        self.kept.append([name, obj, fun, exp])
        check(fun(obj) == exp, lambda: f"reader {self.slot} ({self.v}): {name} is wrong when returned")

    def verify(self, when):
        for name, obj, fun, exp in self.kept:
            if exp is not None:
                check(fun(obj) == exp, lambda: f"reader {self.slot} ({self.v}): {name} changed {when}")


def scribble(obj) -> None:
    """Overwrite everything a caller can overwrite in a returned object."""
    if isinstance(obj, ctypes.Structure):
        ctypes.memset(ctypes.addressof(obj), 0xEE, ctypes.sizeof(obj))
    elif isinstance(obj, ctypes.Array):
        if ctypes.sizeof(obj):
            ctypes.memset(ctypes.addressof(obj), 0xEE, ctypes.sizeof(obj))
    elif isinstance(obj, tuple):
        for part in obj:
            scribble(part)
    elif isinstance(obj, list):
        for part in obj:
            scribble(part)
        obj.clear()
        obj.extend([None, None, None])
    elif hasattr(obj, "proclist"):
        scribble(obj.cstat)
        scribble(obj.proclist)
        obj.proclist = None


MANY = ["one after the other", "shared header", "sections", "mixed", "1.26", "2.4", "2.11", "2.12"]
INNER = ["log", "sections", "step", "convert"]


class Calling(io.BytesIO):
    """A stream that calls a function during one of its reads."""

    def __init__(self, data, at, func):
        super().__init__(data)
        self.left, self.func = at, func

    def _count(self):
        self.left -= 1
        if self.left == -1:
            self.func()

    def read(self, size=-1):
        self._count()
        out = super().read(size)
        return out

    def readinto(self, target):
        num = super().readinto(target)
        self._count()
        return num


class CHECK(Check):
    prop = "P10"
    level = "model_checking"
    rule = (
        "A state is the vector of program positions of all readers; a transition is one step of one reader on the real library. Every complete interleaving is "
        "executed; each result is compared when returned, after every later step of another reader, and after everything is closed."
    )
    bounds = {
        "two readers": "all interleavings of 2 programs (4-6 steps) for all 121 version pairs (program pair varies), section-wise programs for 6 version pairs (thorough: all program pairs); shared header for all versions",
        "three readers": "all 1,680 interleavings of 3x3 steps for 2 version triples (thorough: 9 triples)",
        "many": "400 (thorough: 2,000) readers alive at a time in alternating rounds - one version, all versions, shared headers, section by section - or one after the other, every result kept",
        "alike": f"all kinds of objects x {len(alike.WAYS)} ways equal to another one in length and more (record, check sums, ends, sum of bytes...), in one log and in logs read in turns",
        "equal objects": "logs, samples, tasks and cgroups of equal content: each single object (or list) of two logs is overwritten in turn in 3 ways, all others are compared",
        "nested": "at every read of a log, the caller's stream reads another log (whole, by sections, one step of a live reader) or converts a header: all version pairs",
        "modification": "each subset position: after any step, everything returned so far by one reader is overwritten, later reads must not notice",
    }

    def tasks(self):
        out = []
        names = list(PROGRAMS)
        for i, a in enumerate(VERSIONS):
            row = []
            for j, b in enumerate(VERSIONS):
                progs = ("short", "stop") if (i + j) % 2 else ("stop", "own")
                row.append(["mix", [[a, progs[0]], [b, progs[1]]], False, False])
            out.append(row)
            out.append([["mix", [[a, "short"], [a, "stop"]], True, False], ["mix", [[a, "grow"], [a, "three"]], True, False]])
            out.append([["mix", [[a, "grow"], [a, "grow"]], True, False]])
        for a, b in (("1.26", "1.26"), ("2.12", "2.12"), ("2.11", "2.12"), ("1.26", "2.11"), ("2.7", "2.7"), ("2.4", "2.6")):
            full = list(itertools.product(("stream", "sections"), ("short", "sections")))
            for pa, pb in full if self.thorough or a == b == "1.26" else [("stop", "sections")]:
                out.append([["mix", [[a, pa], [b, pb]], False, False]])
            out.append([["mix", [[a, "short"], [b, "sections"]], False, True]])
            out.append([["mix", [[a, "stop"], [b, "own"]], False, True]])
        trios = [("1.26", "2.5", "2.11"), ("2.12", "2.12", "2.12")]
        if self.thorough:
            trios += [("2.11", "2.12", "2.3"), ("1.26", "1.26", "2.10"), ("2.3", "2.4", "2.5"), ("2.6", "2.7", "2.8"), ("2.9", "2.10", "2.11"), ("2.12", "1.26", "2.12"), ("2.8", "2.8", "2.9")]
        for trio in trios:
            out.extend([["three", list(trio), part]] for part in range(4))
        for v in VERSIONS:
            out.append([["scribble", v]])
            out.append([["nested", v]])
            out.append([["twins", v]])
            out.append([["alike", v]])
        return [[["many", kind]] for kind in MANY] + out

    def cases(self, task_):
        for item in task_:
            if item[0] == "mix":
                steps = [len(PROGRAMS[p]) for _v, p in item[1]]
                for first in itertools.combinations(range(sum(steps)), steps[0]):
                    order = [1] * sum(steps)
                    for i in first:
                        order[i] = 0
                    yield ["mix", item[1], item[2], item[3], order]
            elif item[0] == "three":
                n = 3
                for num, order in enumerate(self.orders3(n)):
                    if num % 4 == item[2]:
                        yield ["mix", [[v, "three"] for v in item[1]], False, False, order]
            elif item[0] == "many":
                yield ["many", item[1], 400 if not self.thorough else 2000]
            elif item[0] == "twins":
                for form in ("tasks", "groups", "samples", "logs", "empty"):
                    for when in ("end", "between"):
                        for how in range(3):
                            yield ["twins", item[1], form, when, how]
            elif item[0] == "alike":
                for role in ("sstat", "task 0", "task 1", "task 2", "record", "header", *(("cstat 0", "cstat 1", "pids 0", "pids 1") if item[1] in CG_VERSIONS else ())):
                    for way in alike.WAYS:
                        yield ["alike", item[1], role, way]
            elif item[0] == "nested":
                v = item[1]
                for other in VERSIONS:
                    for inner in INNER:
                        for at in range(11 if v in CG_VERSIONS or self.thorough else 8):
                            yield ["nested", v, other, inner, at]
            else:
                v = item[1]
                for prog in PROGRAMS:
                    for mask in range(1 << len(PROGRAMS[prog])):
                        yield ["scribble", v, prog, mask]

    @staticmethod
    def orders3(n):
        for a in itertools.combinations(range(3 * n), n):
            rest = [i for i in range(3 * n) if i not in a]
            for b in itertools.combinations(rest, n):
                order = [2] * (3 * n)
                for i in a:
                    order[i] = 0
                for i in b:
                    order[i] = 1
                yield order

    def run_case(self, case, cov: Cov) -> None:
        if case[0] == "scribble":
            self.scribbled(case, cov)
        elif case[0] == "many":
            self.many(case, cov)
        elif case[0] == "alike":
            self.alike(case, cov)
        elif case[0] == "twins":
            self.twins(case, cov)
        elif case[0] == "nested":
            self.nested(case, cov)
        else:
            self.mixed(case, cov)
        cov.evaluations += 1
        cov.note(case, 1)

    def mixed(self, case, cov):
        _kind, specs, shared, overwrite, order = case
        hdr = None
        if shared:
            hdr = expect_ok("header", lib().get_header, io.BytesIO(header(specs[0][0])))
        readers = [Reader(self, i, v, p, hdr) for i, (v, p) in enumerate(specs)]
        at = [0] * len(readers)
        for who in order:
            reader = readers[who]
            step = reader.program[at[who]]
            reader.do(step)
            at[who] += 1
            cov.transitions += 1
            cov.state((str(specs), shared, overwrite, tuple(at)))
            if overwrite:
                for entry in reader.kept:
                    if entry[3] is not None and entry[0] not in ("header", "record"):
                        scribble(entry[1])
                        entry[3] = None
            else:
                for other in readers:
                    if other is not reader:
                        other.verify(f"by step '{step}' of reader {who} ({reader.v})")
        for reader in readers:
            reader.verify("after everything was read and closed")
        # The kept objects still convert to what was stored.
        reader = readers[0]
        for name, obj, _fun, exp in reader.kept:
            if name.startswith("sample") and exp is not None:
                same_json(lib().struct_to_dict(obj[0]), ref_dict("Record", reader.v, exp[0]), f"{name} of reader 0")
        cov.outcomes["interleaving" + (", shared header" if shared else "") + (", overwritten results" if overwrite else "")] += 1

    def many(self, case, cov):
        """Hundreds of readers alive at a time, or one after the other, everything they returned being kept."""
        _kind, kind, num = case
        if kind == "one after the other":
            readers = []
            for i in range(num):
                readers.append(Reader(self, i, VERSIONS[i * 5 % 11], ("stream", "sections", "own", "short")[i % 4]))
                for step in readers[-1].program:
                    readers[-1].do(step)
                    cov.transitions += 1
                readers[i * 7 % (i + 1)].verify(f"by reader {i}")
                cov.state((kind, i))
        elif kind == "shared header":
            readers = []
            hdrs = {v: expect_ok("header", lib().get_header, io.BytesIO(header(v))) for v in VERSIONS}
            for i in range(num):
                v = VERSIONS[i % 11]
                readers.append(Reader(self, i, v, "short", hdrs[v]))
            self.rounds(readers, cov, kind)
        elif kind == "sections":
            # The section readers themselves, each many times in a row, with objects that differ.
            readers = [Reader(self, i, VERSIONS[i % 11], "sections") for i in range(num)]
            self.rounds(readers, cov, kind)
        else:
            readers = [Reader(self, i, VERSIONS[i * 3 % 11] if kind == "mixed" else kind, ("stream", "stop")[i % 2]) for i in range(num)]
            self.rounds(readers, cov, kind)
        for reader in readers:
            reader.verify("in the end")
        cov.outcomes["many readers: " + (kind if " " in kind else "alive together")] += 1

    @staticmethod
    def rounds(readers, cov, kind):
        turn = 0
        while True:
            todo = [r for r in readers if turn < len(r.program)]
            if not todo:
                return
            for i, reader in enumerate(todo if turn % 2 == 0 else reversed(todo)):
                reader.do(reader.program[turn])
                cov.transitions += 1
                cov.state((kind, turn, i))
                todo[(i * 13 + turn) % len(todo)].verify(f"by step {turn} of reader {reader.slot}")
            turn += 1

    def nested(self, case, cov):
        """The caller's stream itself uses the library while it is being read."""
        _kind, v, other, inner, at = case
        outer = Reader(self, 0, v, "stream")
        aside = Reader(self, 2, other, "stream" if inner == "log" else "sections" if inner == "sections" else "own")
        if inner == "step":
            aside.do("gen")
            aside.do("next")

        def use():
            if inner == "step":
                aside.do("next")
            elif inner == "convert":
                for entry in outer.kept:
                    if entry[0] == "header":
                        same_json(lib().struct_to_dict(entry[1]), ref_dict("Header", v, entry[3]), "header converted while reading")
                same_json(lib().struct_to_dict(aside.hdr), ref_dict("Header", other, aside.header_raw), "header converted while reading")
            else:
                for step in aside.program:
                    aside.do(step)

        if inner == "convert":
            aside.do("open")
        outer.stream = Calling(outer.data, at, use)
        for step in outer.program:
            outer.do(step)
            cov.transitions += 1
            outer.verify(f"by {step}")
            aside.verify(f"by {step}")
            cov.state((v, other, inner, at, step))
        cov.outcomes["nested use: " + inner] += 1

    def alike(self, case, cov):
        """Contents that are easily taken for one another, read in turns."""
        _kind, v, role, way = case
        made = look_alike(v, role, way)
        if made is None:
            cov.outcomes["no such contents"] += 1
            return
        (head, one), (head2, two) = made
        api = lib()
        # In one log, if the header is the same.
        if head == head2:
            exact(head + one.blob + two.blob + one.blob + two.blob, [one, two, one, two], f"{v}: {role} alike ({way}) in one log")
        # In two logs read in turns, twice; objects are compared in the end.
        kept = []
        for turn in range(2):
            streams = [io.BytesIO(head + one.blob * 2), io.BytesIO(head2 + two.blob * 2)]
            hdrs = [expect_ok("get_header", api.get_header, s) for s in streams]
            gens = [iter(expect_ok("generate_statistics", api.generate_statistics, s, h)) for s, h in zip(streams, hdrs)]
            for num in range(4):
                kept.append((expect_ok(f"{v}: {role} alike ({way})", next, gens[num % 2]), (one, two)[num % 2], f"log {num % 2} in turn {turn}"))
                cov.transitions += 1
                cov.state((v, role, way, turn, num))
            for hdr, data in zip(hdrs, (head, head2)):
                check(raw(hdr) == data, f"{v}: header, {role} alike ({way})")
        for got, smp, where in kept:
            same(got, smp, f"{v}: {role} alike ({way}), {where}")
        cov.outcomes["alike"] += 1

    def twins(self, case, cov):
        """Objects of equal content: each one is overwritten in turn, all others must stay."""
        _kind, v, form, when, how = case
        api = lib()
        groups = {}
        if v in CG_VERSIONS:
            groups = {"cgs": [] if form == "empty" else [[8, [1, 2]], [8, [1, 2]]]}
        one = plain_sample(v, 3, 0 if form == "empty" else 3, **groups)
        if form != "empty":
            lay = layout(v)
            cgs = [one.cgroups[0], one.cgroups[0], one.cgroups[0]] if form in ("groups", "logs") and one.cgroups else one.cgroups
            one = Sample(v, one.sstat, [one.tasks[0]] * 3 if form != "groups" else one.tasks, cgs, rec={f.name: lay.get(one.record, "Record", (f.name,)) for f in lay.roots["Record"].fields if f.name in ("curtime", "interval")})
        data = header(v) + 2 * one.blob

        def parts(got, name):
            """Every object of a sample that can be changed on its own: (name, object, what it holds)."""
            rec, stat, tasks, cgs = got
            exp = want(one)
            yield f"{name} record", rec, raw, exp[0]
            yield f"{name} system", stat, raw, exp[1]
            yield f"{name} task list", tasks, len, len(exp[2])
            yield f"{name} cgroup list", cgs, len, len(exp[3])
            for i, task in enumerate(tasks):
                yield f"{name} task {i}", task, raw, one.tasks[i]
            for i, cgrp in enumerate(cgs):
                yield f"{name} cgroup {i}", cgrp.cstat, raw, one.cgroups[i].stat
                yield f"{name} processes {i}", cgrp.proclist, list, list(one.cgroups[i].pids)

        def everything():
            out, later = [], []
            for num in range(2):
                stream = io.BytesIO(data)
                hdr = expect_ok("header", api.get_header, stream)
                out.append((f"log {num} header", hdr, raw, data[:480]))
                gen = iter(expect_ok("generate_statistics", api.generate_statistics, stream, hdr))
                out += parts(expect_ok("sample", next, gen), f"log {num} sample 0")
                if when == "end":
                    out += parts(expect_ok("sample", next, gen), f"log {num} sample 1")
                else:
                    later.append((gen, f"log {num} sample 1"))
            return out, later

        num = len(everything()[0])
        for pick in range(num):
            objs, later = everything()
            name, obj, fun, exp = objs[pick]
            if later and name.endswith(("header", "record")):
                continue  # still in use by the readers
            if how == 2 and not isinstance(obj, ctypes.Structure):
                continue
            if how == 0 or not isinstance(obj, (list, ctypes.Structure)):
                if isinstance(obj, list):
                    obj.clear()
                else:
                    scribble(obj)
            elif isinstance(obj, list):
                obj.append(None)
                obj.reverse()
            elif how == 1:
                ctypes.memset(ctypes.addressof(obj), 0, ctypes.sizeof(obj))
            else:
                ctypes.memset(ctypes.addressof(obj) + ctypes.sizeof(obj) // 2, 0x55, 8)
            for gen, label in later:
                objs += parts(expect_ok(f"{v}: sample after {name} was changed", next, gen), label)
            for i, (other, thing, look, value) in enumerate(objs):
                if i != pick:
                    check(look(thing) == value, lambda: f"{v}, equal {form}: changing {name} changes {other}")
            cov.transitions += 1
            cov.state((v, form, when, how, pick))
        cov.outcomes["equal objects"] += 1

    def scribbled(self, case, cov):
        _kind, v, prog, mask = case
        reader = Reader(self, 0, v, prog)
        for i, step in enumerate(reader.program):
            reader.do(step)
            cov.transitions += 1
            cov.state((v, prog, i, mask & ((2 << i) - 1)))
            if mask >> i & 1:
                for entry in reader.kept:
                    # The header and the record being read from are arguments of later calls, not only results.
                    if entry[3] is not None and entry[0] not in ("header", "record"):
                        scribble(entry[1])
                        entry[3] = None
            reader.verify(f"after step {step}")
        # A new reader of the same log is not affected either, nor by an overwritten header.
        for entry in reader.kept:
            scribble(entry[1])
        again = Reader(self, 0, v, "stream")
        for step in again.program:
            again.do(step)
            again.verify("reading the log again")
        cov.outcomes["modified results"] += 1


def look_alike(v, role, way):
    """Two (header, sample) that differ in one object only, which agrees in length and more; their records are equal."""
    lay = layout(v)
    heads = [header(v, hertz=250)] * 2
    parts = {"sstat": pattern("ramp", 3, lay.size("SStat")), "task 0": task(v, "ramp", 1), "task 1": task(v, "ramp", 2), "task 2": task(v, "ramp", 3)}
    cgs = {}
    if v in CG_VERSIONS:
        cgs = {0: Cgroup(v, 1, 8, range(1, 40), "ramp"), 1: Cgroup(v, 2, 8, range(1, 40), "ramp")}
    rec = {"curtime": 0x0102030405060708}

    def build(which=None, data=None):
        now = dict(parts)
        groups = [copy.copy(cgs[i]) for i in cgs]
        more = rec
        if which in now:
            now[which] = data
        elif which == "record":
            more = {"curtime": int.from_bytes(data, "little")}
        elif which and which.startswith("cstat"):
            group = groups[int(which[-1])]
            group.raw = data + group.raw[len(data) :]
            group.stat = data
        elif which and which.startswith("pids"):
            groups[int(which[-1])].pids = list(struct.unpack(f"<{len(data) // 4}i", data))
        return Sample(v, now["sstat"], [now[f"task {i}"] for i in range(3)], groups, rec=more, level=0)

    if role == "header":
        off, fld = lay.locate("Header", ("utsname",))
        made = alike.ways(heads[0], [(off, off + fld.size)])
        return None if way not in made else ((heads[0], build()), (made[way], build()))
    if role in parts:
        data = parts[role]
        spans = [(0, len(data))]
    elif role == "record":
        data = rec["curtime"].to_bytes(8, "little")
        spans = [(0, 7)]
    elif role.startswith("cstat"):
        data = cgs[int(role[-1])].stat
        fixed = [lay.locate("CStat", ("gen", name)) for name in ("structlen", "nprocs")]
        spans = [(p, p + 1) for p in range(len(data)) if not any(off <= p < off + fld.size for off, fld in fixed)]
    else:
        pids = cgs[int(role[-1])].pids
        data = struct.pack(f"<{len(pids)}i", *pids)
        spans = [(0, len(data))]
    made = alike.ways(data, spans)
    if way not in made:
        return None
    one, two = build(), build(role, made[way])
    if role != "record":
        assert one.record == two.record and len(one) == len(two)
    return (heads[0], one), (heads[1], two)


PROGRAMS["three"] = ["open", "next", "end"]
