"""P09: reading is lazy and can be resumed at any sample."""

from __future__ import annotations

import collections
import gc
import gzip
import io
import os

from mc.core import Check, Cov, Violation, attempt, check, expect_ok
from mc.oracle import CG_VERSIONS, TRUNCATION_ERRORS, VERSIONS, diff, drain, header, layout, lib, log, plain_sample, raw, snap, want

NEXT_VERSION = {v: VERSIONS[(i + 4) % len(VERSIONS)] for i, v in enumerate(VERSIONS)}
KINDS = ["unbuffered", "small buffer", "file", "read-write", "gzip"]
LIMITS = {"G": None, "G0": 0, "G1": 1, "G2": 2, "G9": 9}


class World:
    """Two logs behind each other in one stream: log A (3 samples) and log B (2 samples, another version).

    The model is (next sample, low-level phase, readers); the real side is rebuilt by replaying a history.
    """

    NA, NB = 3, 2

    def __init__(self, v, limits=("G", "G1", "G2", "G0"), readers=2, meta=None, moves=False):
        self.limits, self.readers, self.moves = limits, readers, moves
        self.v, self.w = v, NEXT_VERSION[v]
        self.samples = [plain_sample(v, i, 2 - i if i < 2 else 3) for i in range(self.NA)] + [plain_sample(self.w, 5 + i, i + 1) for i in range(self.NB)]
        if meta:
            for i, smp in enumerate(self.samples):
                redescribe(smp, meta, i)
        self.data = log(v, self.samples[: self.NA]) + log(self.w, self.samples[self.NA :])
        self.starts, self.ends, self.section_ends = [], [], []
        pos = 480
        for i, smp in enumerate(self.samples):
            if i == self.NA:
                pos += 480
            self.starts.append(pos)
            marks = [pos + len(smp.record)]
            for sec in smp.sections:
                marks.append(marks[-1] + len(sec))
            if len(smp.sections) == 4:
                marks.pop(-2)  # both cgroup sections are read by one call
            pos = marks[-1]
            self.section_ends.append(marks)
            self.ends.append(pos)


FRAMING = {"scomplen", "pcomplen", "ccomplen", "icomplen", "coriglen", "ncgpids", "ndeviat", "nlist", "ncgroups"}
METAS = ["boot", "zero", "ones", "backwards", "mixed"]


def redescribe(smp, meta, i):
    """Give a sample other metadata, which does not say how it is stored."""
    lay = layout(smp.version)
    buf = bytearray(smp.record)
    names = [f.name for f in lay.roots["Record"].fields if f.name not in FRAMING and f.kind != "char" and f.count is None and f.sub is None]
    for name in names:
        size = lay.locate("Record", (name,))[1].size
        if meta == "zero" or meta == "mixed" and i % 2:
            lay.put(buf, "Record", (name,), 0)
        elif meta in ("ones", "mixed"):
            off = lay.locate("Record", (name,))[0]
            buf[off : off + size] = b"\xff" * size
    if meta == "boot":
        lay.put(buf, "Record", ("flags",), 1 if i % 2 == 0 else 0)
    elif meta == "backwards":
        lay.put(buf, "Record", ("curtime",), 1_600_000_000 - i * 86_400)
        lay.put(buf, "Record", ("flags",), 0)
    smp.record = bytes(buf)
    smp.blob = smp.record + b"".join(smp.sections)


# Model state: (where, phase, readers)
#   where: "A" header of A unread, ("a", k) k samples of A consumed, "B" header of B to be read next is implied by ("a", NA),
#          ("b", k) k samples of B consumed
#   phase: 0 between samples, 1.. sections of the current sample already read one by one
#   readers: tuple of (log, remaining or None, status) with status new/live/done; at most two
INIT = ("A", 0, ())


def events(world: World, state):
    """All operations the model allows in this state, simplest first."""
    where, phase, readers = state
    out = []
    log_now = "a" if where == "A" or where[0] == "a" else "b"
    boundary = where == "A" or where == ("a", world.NA)
    if phase == 0:
        if boundary:
            out.append("H")  # read the header (of the log that starts here)
            if len(readers) < world.readers:
                out.extend(["O", "O1"])  # a reader that reads the header by itself, and its first sample
        if where != "A" and len(readers) < world.readers:
            out.extend(world.limits)
    for i, (rlog, remaining, status) in enumerate(readers):
        out.append(f"C{i}")
        out.append(f"D{i}")
        if status == "done" or remaining == 0:
            out.append(f"N{i}")  # must stay at its end, whatever the stream holds
        elif phase == 0:
            if rlog == log_now and where != "A" and not (where == ("a", world.NA)):
                out.append(f"N{i}")
    if where not in ("A", ("a", world.NA)) and not (where == ("b", world.NB) and phase == 0):
        out.append("S")  # the next section, by its own function
    if world.moves:
        # The caller moves the stream to the start of a sample, to the end of a log or to its header.
        out.extend(f"Ma{k}" for k in range(world.NA + 1) if (where, phase) != (("a", k), 0))
        out.extend(f"Mb{k}" for k in range(world.NB + 1) if (where, phase) != (("b", k), 0))
        if where != "A":
            out.append("MA")
    if where == ("b", world.NB) and phase == 0:
        out.append("E")  # reading a record at the end gives an empty one
    return out


def step(world: World, state, event):
    """Model transition: (new state, expectation). Expectation: ('sample', index) | ('stop',) | ('section', index, phase) | ('header', log) | None."""
    where, phase, readers = state
    readers = list(readers)
    if event == "H":
        if where == "A":
            return (("a", 0), 0, tuple(readers)), ("header", "a")
        return (("b", 0), 0, tuple(readers)), ("header", "b")
    if event in ("O", "O1"):
        rlog = "a" if where == "A" else "b"
        readers.append((rlog, 0 if event == "O1" else None, "live"))
        return ((rlog, 1), 0, tuple(readers)), ("sample", 0 if rlog == "a" else world.NA)
    if event[0] == "M":
        return ("A" if event == "MA" else (event[1], int(event[2])), 0, tuple(readers)), None
    if event[0] == "G":
        rlog = where[0]
        readers.append((rlog, LIMITS[event], "new"))
        return (where, phase, tuple(readers)), None
    if event[0] in "CD":
        readers.pop(int(event[1]))
        return (where, phase, tuple(readers)), None
    if event[0] == "N":
        i = int(event[1])
        rlog, remaining, status = readers[i]
        if status == "done" or remaining == 0:
            readers[i] = (rlog, 0, "done")
            return (where, phase, tuple(readers)), ("stop",)
        index = where[1] + (world.NA if rlog == "b" else 0)
        if where == ("b", world.NB):
            readers[i] = (rlog, 0, "done")
            return (where, phase, tuple(readers)), ("stop",)
        readers[i] = (rlog, None if remaining is None else remaining - 1, "live")
        return ((rlog, where[1] + 1), 0, tuple(readers)), ("sample", index)
    if event == "S":
        index = where[1] + (world.NA if where[0] == "b" else 0)
        marks = world.section_ends[index]
        if phase + 1 == len(marks):
            return ((where[0], where[1] + 1), 0, tuple(readers)), ("section", index, phase)
        return (where, phase + 1, tuple(readers)), ("section", index, phase)
    assert event == "E"
    return state, ("empty",)


def position(world: World, state) -> int:
    """The only admissible stream position in a model state."""
    where, phase, _readers = state
    if where == "A":
        return 0
    index = where[1] + (world.NA if where[0] == "b" else 0)
    if phase:
        return world.section_ends[index][phase - 1]
    if where[1] == 0:
        return 480 if where[0] == "a" else world.ends[world.NA - 1] + 480
    return world.ends[index - 1]


class Growth:
    """A log that is still being written: after a number of operations on the stream more of it is there."""

    def __init__(self, data, cuts, after):
        self.data, self.cuts, self.after, self.ops = data, list(cuts), after, 0
        self.size = self.cuts.pop(0)

    def op(self):
        self.ops += 1
        if self.ops > self.after and self.cuts:
            self.size = self.cuts.pop(0)

    def settle(self):
        self.after = 0
        if self.cuts:
            self.size = self.cuts.pop(0)


class GrowingRaw(io.RawIOBase):
    """The written part of the log; whatever is asked of it is one operation, behind which it may grow."""

    def __init__(self, growth):
        super().__init__()
        self.growth, self.pos = growth, 0

    def readable(self):
        return True

    def seekable(self):
        return True

    def readinto(self, target):
        view = memoryview(target).cast("B")
        num = max(0, min(len(view), self.growth.size - self.pos))
        view[:num] = self.growth.data[self.pos : self.pos + num]
        self.pos += num
        self.growth.op()
        return num

    def seek(self, pos, whence=0):
        self.pos = pos + (0, self.pos, self.growth.size)[whence]
        self.growth.op()
        return self.pos

    def tell(self):
        return self.pos


GROWTH_STREAMS = {"unbuffered": None, "buffer 16": 16, "buffer 600": 600, "buffer": 8192}


class CHECK(Check):
    prop = "P09"
    level = "model_checking"
    rule = (
        "A state is (samples consumed, sections of the current sample consumed, readers with their remaining limits); a transition is one operation on the real "
        "library (header, new reader with/without limit, next, close, drop, single-section read), after which the result and the exact stream position are compared "
        "with the model. First all histories up to the depth, then breadth-first search over all states, every transition replayed from the start on a fresh stream."
    )
    bounds = {
        "stream": "a log of 3 samples followed by a log of 2 samples of another version, in one stream",
        "histories": "all histories up to depth 6 for 1.26, up to 4 for the others (thorough: 7 and 5) with at most two readers and limits none, 0, 1, 2, 9",
        "stream kinds": "all histories up to depth 3 (1.26, 2.11, thorough: 4) with limits none and 1 on a real file opened without, with small and usual buffer, for writing too, and through gzip",
        "metadata": f"all histories up to depth 4 with one reader and limits none, 1, 2 on logs whose records describe themselves in other ways ({', '.join(METAS)})",
        "moves": "all histories up to depth 4 for 1.26 and 2.12, up to 3 for the others and on files of 5 kinds (thorough: one more) and all reachable states with the caller moving the stream to any sample, header or end in between",
        "growth": "logs of 3 samples of which 0 to 2 samples, or those and a part of the next, are written first, the rest (all of it, or sample by sample) after each number of operations on the "
        "stream, unbuffered and through buffers of three sizes, tolerant and strict",
        "states": "all reachable model states, to their fixpoint: two readers and limits none, 0, 1, 2 for 1.26 (2.12: none, 1, 2), one reader for the others (thorough: two for all)",
    }

    def plan(self, v):
        """[(kind, limits, readers, depth)] for a version."""
        full = ("G", "G1", "G2", "G0")
        big = v in ("1.26", "2.12") or self.thorough
        depth = (6 if v == "1.26" else 4) + (1 if self.thorough else 0)
        return [
            ("hist", full + ("G9",), 2, depth),
            ("bfs", (full if v == "1.26" or self.thorough else full[:3]) if big else full, 2 if big else 1, None),
        ]

    def tasks(self):
        out = []
        for v in VERSIONS:
            for kind, limits, readers, depth in self.plan(v):
                world = self.world(v, limits, readers)
                if kind == "hist":
                    out.extend(["hist", [v, limits, readers], hist, depth] for hist in self.prefixes(world, 3 if depth > 5 else 2))
                else:
                    parts = 16 if readers == 2 else 2
                    out.extend(["bfs", [v, limits, readers], part, parts] for part in range(parts))
            out.extend(["grow", v, kind] for kind in GROWTH_STREAMS)
            for meta in METAS:
                out.append(["hist", [v, ("G", "G1", "G2"), 1, meta], [], 4 if not self.thorough else 5])
            # The caller moves the stream between the operations.
            moved = [v, ("G", "G2"), 1, None, True]
            out.extend(["hist", moved, hist, 4 + self.thorough if v in ("1.26", "2.12") else 3 + self.thorough] for hist in self.prefixes(self.world(*moved), 1))
            out.extend(["bfs", moved, part, 2] for part in range(2))
            out.extend(["kinds", moved, kind, 4 if self.thorough else 3] for kind in KINDS)
            out.extend(["kinds", [v, ("G", "G1"), 2], kind, 4 if v in ("1.26", "2.11") or self.thorough else 3] for kind in KINDS)
        return out

    @staticmethod
    def prefixes(world, depth):
        todo = [([], INIT)]
        for _ in range(depth):
            todo = [(h + [e], step(world, s, e)[0]) for h, s in todo for e in events(world, s)]
        return [h for h, _s in todo]

    _memo: dict = {}

    def world(self, v, limits, readers, meta=None, moves=False):
        key = (v, tuple(limits), readers, meta, moves)
        if key not in self._memo:
            self._memo[key] = World(v, tuple(limits), readers, meta, moves)
        return self._memo[key]

    def growth_log(self, v):
        key = ("growth", v)
        if key not in self._memo:
            samples = [plain_sample(v, 1, 2), plain_sample(v, 2, 0), plain_sample(v, 3, 1)]
            ends = [480]
            for smp in samples:
                ends.append(ends[-1] + len(smp.blob))
            self._memo[key] = (samples, header(v) + b"".join(smp.blob for smp in samples), ends)
        return self._memo[key]

    def grow(self, v, stream_kind, cov):
        samples, _data, ends = self.growth_log(v)
        for j in range(3):
            parts = [len(samples[j].record), *map(len, samples[j].sections)]
            marks = [sum(parts[:n]) for n in range(1, len(parts))]
            cuts = {0, 1, marks[0] // 2, marks[0] - 1, *marks, *(m + 1 for m in marks), *(m - 1 for m in marks[1:]), sum(parts) - 1}
            for cut in sorted(cuts):
                for steps in ("all", "next") if j < 2 else ("all",):
                    for strict in (True, False):
                        for after in range(100):
                            case = ["grow", v, stream_kind, j, cut, steps, strict, after]
                            self.guarded(case, cov)
                            if not self.more:
                                break

    more = False

    def run_growth(self, case, cov):
        """Samples arrive while the log is read: what is returned is exact, and nothing of it is passed over."""
        _kind, v, stream_kind, j, cut, steps, strict, after = case
        samples, data, ends = self.growth_log(v)
        growth = Growth(data, [ends[j] + cut] + ([ends[j + 1]] if steps == "next" else []) + [ends[-1]], after)
        stream = GrowingRaw(growth)
        if GROWTH_STREAMS[stream_kind]:
            stream = io.BufferedReader(stream, GROWTH_STREAMS[stream_kind])
        what = f"{v} ({stream_kind}), {j} samples and {cut} bytes written at first, more after {after} operations ({steps})"
        hdr = expect_ok(what, lib().get_header, stream)
        done, self.more = 0, True
        for turn in range(6):
            growth_before = growth.size
            out, exc = drain(expect_ok(what, lib().generate_statistics, stream, hdr, strict))
            if turn == 0:
                self.more = len(growth.cuts) < 1 + (steps == "next")
            for smp in out:
                check(done < len(samples), f"{what}: more samples than stored")
                msg = diff(snap(smp), want(samples[done]))
                check(msg is None, lambda: f"{what}: sample {done}: {msg}")
                done += 1
            if exc is not None:
                check(cut and isinstance(exc, TRUNCATION_ERRORS), lambda: f"{what}: {exc!r}")
            whole = not cut and exc is None
            check(not whole or stream.tell() == ends[done], lambda: f"{what}: after {done} samples the stream is at {stream.tell()} instead of {ends[done]}")
            if not growth.cuts and (growth_before == len(data)):
                break
            if not whole:
                stream.seek(ends[done])
            growth.settle()
        check(done == len(samples), f"{what}: {done} samples in the end")
        cov.evaluations += 1
        cov.outcomes["log that grows while it is read"] += 1
        cov.seen(tuple(case))
        cov.note(case, 1)

    def run_task(self, task, cov):
        if task[0] == "grow":
            self.grow(task[1], task[2], cov)
            return
        world = self.world(*task[1])
        if task[0] == "kinds":
            self.deepen(world, task[1], [], INIT, task[3], cov, [task[2]])
            return
        if task[0] == "hist":
            prefix, depth = task[2], task[3]
            state = INIT
            for ev in prefix:
                state = step(world, state, ev)[0]
            self.deepen(world, task[1], list(prefix), state, depth, cov)
            return
        # Breadth-first over model states; each transition is executed on the real code behind its shortest history.
        part, parts = task[2], task[3]
        seen, todo, num = {INIT}, collections.deque([([], INIT)]), 0
        while todo:
            hist, state = todo.popleft()
            for ev in events(world, state):
                new, _exp = step(world, state, ev)
                num += 1
                if num % parts == part:
                    self.guarded([task[1], hist + [ev]], cov)
                if new not in seen:
                    seen.add(new)
                    todo.append((hist + [ev], new))
        if part == 0:
            cov.extra["model states by breadth-first search"] += len(seen)
            cov.extra["model transitions by breadth-first search"] += num

    def deepen(self, world, wkey, hist, state, depth, cov, kind=()):
        evs = events(world, state) if len(hist) < depth else []
        if not evs:
            self.guarded([wkey, hist, *kind], cov)
            return
        for ev in evs:
            self.deepen(world, wkey, hist + [ev], step(world, state, ev)[0], depth, cov, kind)

    def run_case(self, case, cov: Cov) -> None:
        if case[0] == "grow":
            self.run_growth(case, cov)
            return
        world, hist = case[:2]
        world = self.world(*world)
        if len(case) > 2:
            stream = self.stream(world, case[2])
            try:
                self.play(world, hist, cov, stream)
            finally:
                stream.close()
            cov.outcomes[f"history on a {case[2]} stream"] += 1
        else:
            self.play(world, hist, cov, io.BytesIO(world.data))
        cov.evaluations += 1
        cov.outcomes[f"history length {len(hist)}"] += 1
        if len(hist) > 3:
            cov.note(case)

    _files: dict = {}

    def stream(self, world, kind):
        """The same bytes in a real file, opened in different ways."""
        key = (world.v, kind == "gzip")
        if key not in self._files:
            # A file without a name: nothing is left behind, however this process ends.
            self._files[key] = os.memfd_create("verif")
            os.write(self._files[key], gzip.compress(world.data, 6, mtime=0) if key[1] else world.data)
        path = f"/proc/self/fd/{self._files[key]}"
        if kind == "gzip":
            return gzip.open(path)
        if kind == "read-write":
            return open(path, "r+b")
        return open(path, "rb", buffering={"unbuffered": 0, "small buffer": 16, "file": -1}[kind])

    def play(self, world, hist, cov, stream):
        api = lib()
        state = INIT
        header_now = {}
        readers = []
        got_section = {}
        for num, ev in enumerate(hist):
            old = state
            state, exp = step(world, state, ev)
            what = f"{world.v} after {' '.join(hist[:num]) or 'nothing'}: {ev}"
            cov.state((world.v, state))
            cov.transitions += 1
            if ev == "H":
                hdr = expect_ok(what, api.get_header, stream)
                header_now[exp[1]] = hdr
                check(raw(hdr) == header(world.v if exp[1] == "a" else world.w), f"{what}: header bytes differ")
            elif ev in ("O", "O1"):
                readers.append(iter(expect_ok(what, api.generate_statistics, stream, **({"max_samples": 1} if ev == "O1" else {}))))
                val = expect_ok(what, next, readers[-1])
                msg = diff(snap(val), want(world.samples[exp[1]]))
                check(msg is None, lambda: f"{what}: sample {exp[1]}: {msg}")
            elif ev[0] == "G":
                hdr = self.header_for(api, world, state[0][0], header_now)
                limit = {} if LIMITS[ev] is None else {"max_samples": LIMITS[ev]}
                readers.append(iter(expect_ok(what, api.generate_statistics, stream, hdr, **limit)))
            elif ev[0] == "M":
                stream.seek(position(world, state))
            elif ev[0] == "C":
                gen = readers.pop(int(ev[1]))
                if hasattr(gen, "close"):
                    expect_ok(what, gen.close)
            elif ev[0] == "D":
                readers.pop(int(ev[1]))
                gc.collect(0)
            elif ev[0] == "N":
                kind, val = attempt(next, readers[int(ev[1])])
                if exp[0] == "stop":
                    if kind == "ok" or not isinstance(val, StopIteration):
                        raise Violation(f"{what}: expected the end of this reader, got {'a sample' if kind == 'ok' else repr(val)}")
                else:
                    if kind == "exc":
                        raise Violation(f"{what}: expected sample {exp[1]}, got {val!r}")
                    msg = diff(snap(val), want(world.samples[exp[1]]))
                    check(msg is None, lambda: f"{what}: sample {exp[1]}: {msg}")
            elif ev == "E":
                hdr = self.header_for(api, world, "b", header_now)
                rec = expect_ok(what, api.get_record, stream, hdr)
                check(raw(rec) == bytes(len(world.samples[-1].record)), f"{what}: record read at the end is not empty")
            else:
                _tag, index, phase = exp
                smp = world.samples[index]
                hdr = self.header_for(api, world, old[0][0], header_now)
                if phase == 0:
                    rec = expect_ok(what, api.get_record, stream, hdr)
                    got_section["rec"] = rec
                    check(raw(rec) == smp.record, f"{what}: record bytes differ")
                elif phase == 1:
                    check(raw(expect_ok(what, api.get_sstat, stream, hdr, got_section["rec"])) == smp.sstat, f"{what}: system statistics differ")
                elif phase == 2:
                    tasks = expect_ok(what, api.get_tstat, stream, hdr, got_section["rec"])
                    check([raw(t) for t in tasks] == smp.tasks, f"{what}: tasks differ")
                else:
                    groups = expect_ok(what, api.get_cstat, stream, hdr, got_section["rec"])
                    check([(raw(c.cstat), list(c.proclist)) for c in groups] == [(c.stat, c.pids) for c in smp.cgroups], f"{what}: cgroups differ")
            exp_pos = position(world, state)
            check(stream.tell() == exp_pos, lambda: f"{what}: stream is at {stream.tell()} instead of {exp_pos}")

    @staticmethod
    def header_for(api, world, which, header_now):
        """A header object for log a or b (read separately if the reader consumed it by itself)."""
        if which not in header_now:
            header_now[which] = expect_ok("header", api.get_header, io.BytesIO(header(world.v if which == "a" else world.w)))
        return header_now[which]
