"""P21: nothing that was read is retained."""

from __future__ import annotations

import contextlib
import gc
import gzip
import io
import itertools
import os
import shutil
import sys
import tempfile
import tracemalloc
import weakref
import zlib

from mc.checks.p19 import Faulty
from mc.core import Check, Cov, Violation, attempt, check, expect_ok, fork_call
from mc.oracle import CG_VERSIONS, VERSIONS, Cgroup, Sample, header, lib, layout, log, plain_sample
from mc.parse126 import CLI

WARM, ROUNDS = 200, 400
SLACK = 16 * 1024  # 40 bytes for each of the 400 further rounds


class Stream:
    """Only read and readinto; can be watched by a weak reference."""

    def __init__(self, data):
        self._inner = io.BytesIO(data)

    def read(self, size):
        return self._inner.read(size)

    def readinto(self, target):
        return self._inner.readinto(target)


class CHECK(Check):
    prop = "P21"
    level = "exploration"
    rule = (
        "One evaluation repeats one sequence of operations (each time on different contents) 600 times in a fresh process: after a warm-up of 200 rounds, 400 more rounds must not make traced "
        "memory grow by more than 16 KiB (40 bytes per round) nor leave open files; or reads one log and checks after each sample which earlier objects still exist. Distinct by version and sequence."
    )
    bounds = {
        "loops": "all operations and all ordered pairs of 10 operations (reading whole, by sections, partly, cut, damaged, from failing streams...) per version (thorough: triples for 1.26 and 2.12), 600 rounds each",
        "long reads": "one reader over a log of 600 samples per version, results dropped or converted",
        "objects": "after every sample of logs of 6 samples, for all subsets of samples that the caller keeps: objects of samples that were dropped no longer exist (the reader itself may hold the latest one)",
        "single objects": "each kind of object is kept alone after a reader ended, failed or was abandoned, in both modes: nothing else lives on",
        "readers": "abandoned, exhausted, failed and closed readers do not hold their stream",
        "command": "300 files in a row: no growth, no open files",
    }
    assumptions = ["Memory is what tracemalloc sees (all allocations of CPython and ctypes); garbage is collected before each measurement."]
    case_timeout = 400

    OPS = ["header", "sample", "sections", "abandon", "cut", "damaged", "convert", "summarise", "reject", "fault"]

    def tasks(self):
        out = []
        for v in VERSIONS:
            out.append(["loops", v, 1, None])
            out.append(["objects", v])
            out.append(["long", v])
            if v in ("1.26", "2.12") or self.thorough:
                out.extend(["loops", v, 2, op] for op in self.OPS)
            if self.thorough and v in ("1.26", "2.12"):
                out.extend(["loops", v, 3, op] for op in self.OPS)
            out.append(["command", v])
        return out

    def cases(self, task_):
        kind, v = task_[0], task_[1]
        if kind == "loops":
            ops = [o for o in self.OPS if o != "summarise" or v == "1.26"]
            if task_[3] is not None and task_[3] not in ops:
                return
            for rest in itertools.product(ops, repeat=task_[2] - (task_[3] is not None)):
                seq = ([task_[3]] if task_[3] else []) + list(rest)
                yield ["loop", v, seq]
        elif kind == "objects":
            for mask in range(1 << 6):
                for own in (False, True):
                    yield ["objects", v, mask, own]
            for mode in (True, False):
                for end in ("ended", "cut", "damaged", "abandoned"):
                    for i in range(8):
                        yield ["alone", v, i, end, mode]
            for how in ("unused", "abandoned", "exhausted", "failed", "closed", "thrown"):
                yield ["reader", v, how]
        elif kind == "long":
            for what in ("drop", "convert", "summarise") if v == "1.26" else ("drop", "convert"):
                yield ["long", v, what]
        else:
            yield ["command", v]

    def run_case(self, case, cov: Cov) -> None:
        cov.evaluations += 1
        cov.seen(repr(case))
        cov.note(case, 1)
        cov.outcomes[case[0]] += 1
        cov.transitions += fork_call(lambda: getattr(self, "do_" + case[0])(*case[1:]), self.case_timeout) or 0

    # ---- repeated operations ---------------------------------------------------------------------------------------
    def material(self, v, num=8):
        """A few samples whose records, tasks and cgroups are renumbered in each round (system statistics are small when compressed)."""
        return [plain_sample(v, i, (2, 0, 1)[i % 3]) for i in range(num)]

    @staticmethod
    def stamped(v, sample, num):
        """A sample with other times, texts, process IDs and numbers of processes, so that every round sees new contents."""
        lay = layout(v)
        tasks = []
        for i, old in enumerate(sample.tasks):
            buf = bytearray(old)
            lay.put(buf, "TStat", ("gen", "pid"), 70_000 + 3 * num + i)
            lay.put(buf, "TStat", ("gen", "name"), b"n%d-%d" % (num, i))
            lay.put(buf, "TStat", ("gen", "cmdline"), b"command %d %d" % (num, i))
            tasks.append(bytes(buf))
        groups = [Cgroup(v, num, 8 + num % 300, range(num)), Cgroup(v, num + 1, 0, [])] if v in CG_VERSIONS else []
        new = Sample(v, sample.sstat, tasks, groups, rec={"curtime": 1_000_000 + num, "interval": num & 0xFFFF}, encoder=lambda raw: zlib.compress(raw, 1))
        return new

    def do_loop(self, v, seq):
        api = lib()
        samples = self.material(v)
        parsers = sys.modules["atoparser.parsers.atop_1_26"]

        def once(num):
            smp = samples[num % len(samples)]
            head = header_of(v, num)
            smp = self.stamped(v, smp, num)
            blob = smp.blob
            for op in seq:
                if op == "header":
                    api.get_header(io.BytesIO(head))
                elif op == "reject":
                    other = bytearray(head)
                    layout(v).put(other, "Header", ("sstatlen",), 1 + num)
                    later = bytearray(head)
                    layout(v).put(later, "Header", ("aversion",), 0x8300 + num)
                    for bad in (head[:100], b"x" + head[1:], head[:-2], b"", bytes(other), bytes(later)):
                        for mode in (True, False):
                            attempt(api.get_header, io.BytesIO(bad), mode)
                elif op == "fault":
                    # Streams that fail, each time in another way and place.
                    exc = (OSError(5, f"reading {num} failed"), ValueError(f"closed {num}"), KeyError(num), KeyboardInterrupt(num), MemoryError(num), TimeoutError(num))[num % 6]
                    stream = Faulty(head + blob + blob, exc, at=num % 7)
                    attempt(list, api.generate_statistics(stream, None, bool(num % 2)))
                    stream = Faulty(head + blob, exc, at=num % 4)
                    attempt(api.get_header, stream)
                    gen = iter(api.generate_statistics(io.BytesIO(head + blob + blob)))
                    next(gen)
                    if hasattr(gen, "throw"):
                        attempt(gen.throw, KeyError(num))
                elif op == "sample":
                    for _ in api.generate_statistics(io.BytesIO(head + blob)):
                        pass
                elif op == "abandon":
                    next(iter(api.generate_statistics(io.BytesIO(head + blob + blob))))
                elif op == "cut":
                    for mode in (True, False):
                        attempt(list, api.generate_statistics(io.BytesIO(head + blob[: len(blob) - 1 - num % 50]), None, mode))
                elif op == "damaged":
                    buf = bytearray(blob)
                    buf[len(smp.record) + 30 + num % 20] ^= 0x55
                    attempt(list, api.generate_statistics(io.BytesIO(head + bytes(buf))))
                else:
                    stream = io.BytesIO(head + blob)
                    hdr = api.get_header(stream)
                    rec = api.get_record(stream, hdr)
                    stat = api.get_sstat(stream, hdr, rec)
                    tasks = api.get_tstat(stream, hdr, rec)
                    cgs = api.get_cstat(stream, hdr, rec) if v in CG_VERSIONS else []
                    if op == "convert":
                        api.struct_to_dict(hdr)
                        api.struct_to_dict(rec)
                        for obj in tasks + cgs:
                            api.struct_to_dict(obj)
                        if num % 100 == 0:
                            api.struct_to_dict(stat)
                    elif op == "summarise":
                        for name in CLI:
                            list(getattr(parsers, "parse_" + name)(hdr, rec, stat, tasks))

        return self.measure(once, f"{v}: repeating {seq}")

    def do_long(self, v, what):
        api = lib()
        samples = self.material(v)
        hdr = api.get_header(io.BytesIO(header(v)))
        blobs = [self.stamped(v, samples[i % len(samples)], i).blob for i in range(WARM + ROUNDS + 5)]
        stream = Stream(b"".join(blobs))
        del blobs
        gen = iter(api.generate_statistics(stream, hdr))
        parsers = sys.modules["atoparser.parsers.atop_1_26"]

        def once(_num):
            group = next(gen)
            if what == "convert":
                api.struct_to_dict(group[0])
                for obj in group[2] + group[3]:
                    api.struct_to_dict(obj)
            elif what == "summarise":
                for name in CLI:
                    list(getattr(parsers, "parse_" + name)(hdr, *group[:3]))

        return self.measure(once, f"{v}: one reader over a long log ({what})")

    def do_command(self, v):
        reader = sys.modules["atoparser.reader"]
        folder = tempfile.mkdtemp(prefix="verif-p21-")
        try:
            samples = self.material(v, 2)
            paths = []
            for i, gz in enumerate((False, True)):
                path = os.path.join(folder, f"{i}.log")
                with open(path, "wb") as handle:
                    handle.write(gzip.compress(log(v, samples), 1, mtime=0) if gz else log(v, samples))
                paths.append(path)
            bad = os.path.join(folder, "bad")
            with open(bad, "wb") as handle:
                handle.write(b"bad")

            def once(num):
                with contextlib.redirect_stdout(io.StringIO()):
                    if num % 5 == 4:
                        attempt(reader.parse_file, bad)
                    else:
                        reader.parse_file(paths[num % 2], None if num % 3 else ["PRC"], bool(num % 4), False, True)

            return self.measure(once, f"{v}: the command on many files", 12, 40, slack=4096)
        finally:
            shutil.rmtree(folder, ignore_errors=True)

    @staticmethod
    def measure(once, what, warm=WARM, rounds=ROUNDS, slack=SLACK):
        """Run warm + rounds rounds; the second part must not leave anything behind."""
        tracemalloc.start()
        for num in range(warm):
            once(num)
        gc.collect()
        files = len(os.listdir("/proc/self/fd"))
        before = tracemalloc.get_traced_memory()[0]
        for num in range(warm, warm + rounds):
            once(num)
        gc.collect()
        after = tracemalloc.get_traced_memory()[0]
        left = len(os.listdir("/proc/self/fd")) - files
        tracemalloc.stop()
        check(after - before <= slack, lambda: f"{what}: {after - before} bytes more in use after {rounds} further rounds")
        check(left <= 0, lambda: f"{what}: {left} more files are open after {rounds} further rounds")
        return warm + rounds

    # ---- life of objects -------------------------------------------------------------------------------------------
    def do_objects(self, v, mask, own):
        api = lib()
        num = 6
        samples = [plain_sample(v, i, (2, 0, 1)[i % 3]) for i in range(num)]
        stream = Stream(log(v, samples))
        gen = iter(api.generate_statistics(stream) if own else api.generate_statistics(stream, api.get_header(stream)))
        kept, refs = [], []
        for i in range(num):
            group = next(gen)
            refs.append([weakref.ref(obj) for obj in (group[0], group[1], *group[2], *(c.cstat for c in group[3]))])
            if mask >> i & 1:
                kept.append(group)
            del group
            gc.collect(0)
            self.dead(v, refs, mask, i, "reading on")
        list(gen)
        self.dead(v, refs, mask, num + 1, "the end of the log")
        kept.clear()
        self.dead(v, refs, 0, num + 1, "everything was dropped")
        return num

    @staticmethod
    def dead(v, refs, mask, current, when):
        """The objects of dropped samples before the current one are gone."""
        for again in (False, True):
            alive = [i for i in range(min(current, len(refs))) if not mask >> i & 1 and any(r() is not None for r in refs[i])]
            if not alive:
                return
            if not again:
                gc.collect()
        raise Violation(f"{v}: after {when}, objects of the dropped samples {alive} still exist (at sample {current})")

    def do_alone(self, v, index, end, mode):
        """One object that is kept keeps nothing else alive: no other object, no stream, no reader."""
        api = lib()
        smp = plain_sample(v, 1, 2)
        data = log(v, [smp, plain_sample(v, 2, 1)])
        if end == "cut":
            data = data[:-5]
        if end == "damaged":
            data = bytearray(data)
            data[-6] ^= 0x55
        stream = Stream(data)
        hdr = api.get_header(stream)
        gen = iter(api.generate_statistics(stream, hdr, mode))
        rec, stat, tasks, groups = next(gen)
        if end != "abandoned":
            attempt(list, gen)
        objs = {"header": hdr, "record": rec, "system statistics": stat, "task 0": tasks[0], "task 1": tasks[1]}
        if groups:
            objs.update({"cgroup": groups[0], "cgroup statistics": groups[0].cstat, "process IDs": groups[0].proclist})
        if index >= len(objs):
            return 0
        name = list(objs)[index]
        kept = objs.pop(name)
        refs = {"the stream": weakref.ref(stream)}
        for other, obj in objs.items():
            if not (name == "cgroup" and other in ("cgroup statistics", "process IDs")):
                refs[other] = weakref.ref(obj)
        obj = None
        del stream, hdr, gen, rec, stat, tasks, groups, objs, obj, data
        gc.collect()
        alive = [other for other, ref in refs.items() if ref() is not None]
        check(not alive, f"{v}: a {name} that is kept (reader {end}, raise_on_truncation={mode}) keeps {alive} alive")
        check(kept is not None, "")
        return 1

    def do_reader(self, v, how):
        api = lib()
        data = log(v, [plain_sample(v, i, 1) for i in range(3)])
        stream = Stream(data[:-3] if how == "failed" else data)
        gen = iter(api.generate_statistics(stream))
        if how in ("abandoned", "closed", "thrown"):
            next(gen)
        if how == "exhausted":
            list(gen)
        if how == "failed":
            attempt(list, gen)
        if how == "closed" and hasattr(gen, "close"):
            gen.close()
        if how == "thrown" and hasattr(gen, "throw"):
            attempt(gen.throw, KeyError("x"))
        ref = weakref.ref(stream)
        if how in ("exhausted", "failed", "thrown"):
            # Such a reader has ended, it holds nothing even if it is kept. (Some interpreters keep the locals of a closed
            # generator until it is dropped, if it was suspended outside of any try block.)
            del stream
        else:
            del stream, gen
        gc.collect()
        check(ref() is None, f"{v}: the stream of an {how} reader is still held")
        return 1


def header_of(v, num):
    """A header that differs in every round."""
    lay = layout(v)
    buf = bytearray(header(v, hertz=100 + num % 50))
    lay.put(buf, "Header", ("utsname", "nodename"), b"host%d" % num)
    return bytes(buf)
