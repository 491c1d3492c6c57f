"""P19: errors of the stream are never taken for the end of the log."""

from __future__ import annotations

import errno
import gzip
import io
import lzma
import os
import tempfile

from mc.core import Check, Cov, Violation, attempt, check, expect_ok
from mc.cuts import MODES
from mc.oracle import CG_VERSIONS, VERSIONS, diff, drain, header, lib, log, plain_sample, raw, snap, want

LATE = (9, 40, 300, 1450)


class Custom(Exception):
    pass


class CustomBase(BaseException):
    pass


FAULTS = {
    "EIO": lambda: OSError(errno.EIO, "Input/output error"),
    "closed": lambda: ValueError("I/O operation on closed file"),
    "interrupt": KeyboardInterrupt,
    "timeout": lambda: TimeoutError("timed out"),
    "blocking": lambda: BlockingIOError(errno.EAGAIN, "would block"),
    "reset": lambda: ConnectionResetError(errno.ECONNRESET, "reset"),
    "stale": lambda: OSError(errno.ESTALE, "Stale file handle"),
    "badgzip": lambda: gzip.BadGzipFile("CRC check failed"),
    "lzma": lambda: lzma.LZMAError("Corrupt input data"),
    "memory": lambda: MemoryError("no memory"),
    "runtime": lambda: RuntimeError("broken"),
    "type": lambda: TypeError("broken"),
    "attribute": lambda: AttributeError("broken"),
    "key": lambda: KeyError("broken"),
    "index": lambda: IndexError("broken"),
    "assertion": lambda: AssertionError("broken"),
    "notimplemented": lambda: NotImplementedError("broken"),
    "unsupported": lambda: io.UnsupportedOperation("not readable"),
    "exit": lambda: SystemExit(3),
    "custom": lambda: Custom("broken"),
    "custombase": lambda: CustomBase("broken"),
}


class Faulty:
    """Only read and readinto. The call number <at> (or the one that reaches byte <byte>) fails."""

    def __init__(self, data, fault, at=None, byte=None, once=False):
        self.data, self.pos, self.calls = data, 0, 0
        self.fault, self.at, self.byte, self.once = fault, at, byte, once
        self.fired = 0

    def _step(self, size):
        num, self.calls = self.calls, self.calls + 1
        hit = (self.at is not None and num >= self.at) or (self.byte is not None and self.pos + size > self.byte)
        if hit and not (self.once and self.fired):
            self.fired += 1
            raise self.fault

    def read(self, size=-1):
        if size is None or size < 0:
            size = max(1, len(self.data) - self.pos)
        self._step(size)
        out = self.data[self.pos : self.pos + size]
        self.pos += len(out)
        return out

    def readinto(self, target):
        view = memoryview(target).cast("B")
        self._step(len(view))
        out = self.data[self.pos : self.pos + len(view)]
        view[: len(out)] = out
        self.pos += len(out)
        return len(out)


def same_error(exc, fault):
    return exc is fault or (type(exc) is type(fault) and exc.args == fault.args)


class CHECK(Check):
    prop = "P19"
    level = "fault_enumeration"
    rule = (
        "One evaluation reads one log from a stream that fails at one of its calls (every call index until none is left, and every byte position of a small log) with one kind of "
        "exception in one mode, and compares what was returned before and what is raised. Distinct by version, log, position, exception, mode and way of reading."
    )
    bounds = {
        "fault points": "every read call of logs of 0..4 samples of all versions; failing from every byte position on (all bytes of two samples for 1.26 and 2.12, every border +-1 otherwise)",
        "exceptions": f"{len(FAULTS)} kinds: " + ", ".join(FAULTS),
        "late": f"faults at the calls of the middle and last samples of logs of {LATE} samples, limits at and behind the end; every call of samples with 64 and 300 tasks",
        "ways": "with and without a given header, both truncation modes, persistent and one-time faults, single-section functions, get_header, streams closed between any two samples, damaged gzip check sums",
    }
    assumptions = ["zlib.error and EOFError raised by the stream are truncation (P04/P05)."]

    def tasks(self):
        out = []
        for v in VERSIONS:
            out += [["calls", v], ["sections", v], ["closed", v], ["bytes", v], ["gzip", v]] + [["late", v, n] for n in LATE] + [["large", v]]
        return out

    def cases(self, task_):
        kind, v = task_[:2]
        if kind == "late":
            # Faults behind many samples: all calls of the first, middle and last two.
            n = task_[2]
            for name in FAULTS if self.thorough or n < 50 else ("EIO", "interrupt", "memory", "timeout", "custom"):
                for mode in MODES if n < 1000 else (False,):
                    for limit in (None, n, n + 1) if n < 50 else (None,):
                        yield [kind, v, n, name, mode, limit]
        elif kind == "large":
            for n in (64, 300):
                for name in FAULTS:
                    for mode in MODES:
                        yield [kind, v, n, name, mode]
        elif kind == "calls":
            for n in range(5 if self.thorough else 4):
                for name in FAULTS:
                    for mode in MODES:
                        for own in (False, True):
                            for once in (False, True):
                                yield [kind, v, n, name, mode, own, once]
        elif kind == "sections":
            for name in FAULTS:
                yield [kind, v, name]
        elif kind == "closed":
            for store in ("memory", "file", "raw", "gzip"):
                for after in range(4):
                    for mode in MODES:
                        yield [kind, v, store, after, mode]
        elif kind == "bytes":
            for name in ("EIO", "closed", "interrupt") if not self.thorough else FAULTS:
                for mode in MODES:
                    yield [kind, v, name, mode]
        else:
            for pos in range(1, 9):
                for mode in MODES:
                    yield [kind, v, pos, mode]

    _memo: dict = {}

    def samples(self, v, n):
        if (v, n) not in self._memo:
            self._memo[v, n] = [plain_sample(v, i, (1, 0, 2)[i % 3]) for i in range(n)]
        return self._memo[v, n]

    @staticmethod
    def complete(samples, pos):
        """Samples whose bytes have all been delivered."""
        num, end = 0, 480
        for smp in samples:
            end += len(smp)
            if pos < end:
                break
            num += 1
        return num

    def run_case(self, case, cov: Cov) -> None:
        kind, v = case[0], case[1]
        if kind == "calls":
            _kind, v, n, name, mode, own, once = case
            samples = self.samples(v, n)
            data = log(v, samples)
            at = 0
            while True:
                stream = Faulty(data, FAULTS[name](), at=at, once=once)
                what = f"{v}: {n} samples, {name} at read call {at}, raise_on_truncation={mode}"
                self.one(cov, stream, samples, mode, own, what)
                cov.seen((*case, at))
                if not stream.fired:
                    break
                at += 1
                check(at < 200, f"{v}: reading {n} samples takes more than 200 calls")
            cov.outcomes["fault at a read call"] += at
        elif kind == "bytes":
            _kind, v, name, mode = case
            samples = self.samples(v, 2)
            data = log(v, samples)
            points, pos = set(), 480
            for smp in samples:
                for part in (smp.record, *smp.sections):
                    points.update((pos - 1, pos, pos + 1))
                    pos += len(part)
            points.update((pos - 1, pos))
            for byte in range(0, pos + 1) if v in ("1.26", "2.12") else sorted(points):
                stream = Faulty(data, FAULTS[name](), byte=byte)
                self.one(cov, stream, samples, mode, True, f"{v}: {name} from byte {byte} on, raise_on_truncation={mode}")
                cov.seen((*case, byte))
                check(stream.fired, f"{v}: the fault at byte {byte} was never met")
            cov.outcomes["fault at a byte"] += len(points)
        elif kind == "late":
            self.late(cov, *case[1:])
        elif kind == "large":
            _kind, v, n, name, mode = case
            key = (v, "tasks", n)
            if key not in self._memo:
                groups = {"cgs": [[8, [1] * n] for _ in range(n // 8)]} if v in CG_VERSIONS else {}
                self._memo[key] = [plain_sample(v, 1, 1), plain_sample(v, 2, n, level=1, **groups)]
            samples = self._memo[key]
            data = log(v, samples)
            at = 1
            while True:
                stream = Faulty(data, FAULTS[name](), at=at)
                self.one(cov, stream, samples, mode, True, f"{v}: sample of {n} tasks, {name} at read call {at}, raise_on_truncation={mode}")
                cov.seen((*case, at))
                if not stream.fired:
                    break
                at += 1
            cov.outcomes["fault in a large sample"] += at
        elif kind == "sections":
            self.sections(cov, v, case[2])
        elif kind == "closed":
            self.closed(cov, *case[1:])
        else:
            self.gzipped(cov, *case[1:])
        cov.note(case, 1)

    def one(self, cov, stream, samples, mode, own, what):
        api = lib()
        cov.evaluations += 1
        hdr = None
        if not own:
            kind, hdr = attempt(api.get_header, stream)
            if kind == "exc":
                check(stream.fired and same_error(hdr, stream.fault), lambda: f"{what}: get_header: {hdr!r} instead of the stream's {stream.fault!r}")
                return
        if stream.fired:
            raise Violation(f"{what}: get_header returned although the stream failed")
        kind, gen = attempt(api.generate_statistics, stream, hdr, mode)
        out, exc = drain(gen) if kind == "ok" else ([], gen)
        for i, (got, smp) in enumerate(zip(out, samples)):
            msg = diff(snap(got), want(smp))
            check(msg is None, lambda: f"{what}: sample {i}: {msg}")
        if not stream.fired:
            check(exc is None and len(out) == len(samples), lambda: f"{what} (not reached): {len(out)} samples instead of {len(samples)}, {exc!r}")
            return
        check(exc is not None, lambda: f"{what}: the error is not reported, {len(out)} of {len(samples)} samples returned")
        check(same_error(exc, stream.fault), lambda: f"{what}: {exc!r} instead of the stream's {stream.fault!r}")
        done = self.complete(samples, stream.pos)
        check(len(out) == done, lambda: f"{what}: {len(out)} samples instead of {done}")
        # The reader stays ended, or goes on failing, but returns nothing more.
        if kind == "ok" and not stream.once:
            kind, val = attempt(next, iter(gen))
            check(kind == "exc", lambda: f"{what}: a sample after the error")

    def late(self, cov, v, n, name, mode, limit):
        """Faults far behind the start of a log."""
        samples = self.long(v, n)
        key = (v, n, "calls")
        if key not in self._memo:
            # The number of calls up to each sample.
            data = log(v, samples)
            stream = Faulty(data, None)
            hdr = expect_ok("header", lib().get_header, stream)
            gen = iter(expect_ok("generate_statistics", lib().generate_statistics, stream, hdr))
            marks = [stream.calls]
            for _ in range(n):
                expect_ok("sample", next, gen)
                marks.append(stream.calls)
            self._memo[key] = data, marks
        data, marks = self._memo[key]
        if n < 50:
            points = [at for i in (1, n // 2, n - 2, n - 1, n) for at in range(marks[i - 1] if i else 0, marks[i])] if name == "EIO" else [marks[i] + k for i in (n // 2, n - 1) for k in range(3)]
        else:
            points = [marks[i] + k for i in (n // 2, n - 1) for k in (0, 2)] if n < 1000 else [marks[n - 1], marks[n - 1] + 2]
        for at in [*points, marks[n]]:
            stream = Faulty(data, FAULTS[name](), at=at)
            what = f"{v}: {n} samples, {name} at read call {at} (behind sample {sum(m <= at for m in marks) - 1}), raise_on_truncation={mode}, max_samples={limit}"
            hdr = expect_ok("header", lib().get_header, stream)
            gen = iter(expect_ok("generate_statistics", lib().generate_statistics, stream, hdr, mode, **({} if limit is None else {"max_samples": limit})))
            done = 0
            while True:
                kind, val = attempt(next, gen)
                if kind == "exc":
                    break
                check(done < n, f"{what}: more samples than stored")
                if done % 40 == 0 or done > n - 4:
                    msg = diff(snap(val), want(samples[done]))
                    check(msg is None, lambda: f"{what}: sample {done}: {msg}")
                done += 1
            cov.evaluations += 1
            cov.seen((v, n, name, mode, limit, at))
            if limit == n and at >= marks[n]:
                check(isinstance(val, StopIteration) and done == n, lambda: f"{what}: {val!r} after {done} samples, although nothing more was to be read")
                continue
            check(stream.fired and same_error(val, stream.fault), lambda: f"{what}: {val!r} after {done} samples instead of the stream's {stream.fault!r}")
            exp = sum(m <= at for m in marks) - 1
            check(done == exp, lambda: f"{what}: {done} samples instead of {exp}")
        cov.outcomes["fault behind many samples"] += len(points) + 1

    def long(self, v, n):
        if (v, n, "long") not in self._memo:
            protos = [plain_sample(v, i, i % 3, level=1) for i in range(5)]
            self._memo[v, n, "long"] = [protos[i % 5] for i in range(n)]
        return self._memo[v, n, "long"]

    def sections(self, cov, v, name):
        api = lib()
        samples = self.samples(v, 2)
        data = log(v, samples)
        funcs = ["get_record", "get_sstat", "get_tstat"] + (["get_cstat"] if v in CG_VERSIONS else [])
        hdr0 = expect_ok("header", api.get_header, io.BytesIO(header(v)))
        for bad in range(len(funcs)):
            for extra in (0, 1):
                stream = Faulty(data, FAULTS[name]())
                stream.pos = 480
                rec = None
                for i, func in enumerate(funcs):
                    if i == bad:
                        stream.at = stream.calls + extra
                    args = (stream, hdr0) if rec is None else (stream, hdr0, rec)
                    kind, val = attempt(getattr(api, func), *args)
                    what = f"{v}: {func} of a stream that fails with {name}"
                    if stream.fired:
                        check(kind == "exc" and same_error(val, stream.fault), lambda: f"{what}: {val!r} instead of {stream.fault!r}")
                        break
                    check(kind == "ok", lambda: f"{what} (not yet): {val!r}")
                    if i == 0:
                        check(raw(val) == samples[0].record, f"{what}: wrong record")
                        rec = val
                cov.evaluations += 1
                cov.seen((v, name, bad, extra))
        cov.outcomes["single sections"] += 1

    def closed(self, cov, v, store, after, mode):
        """The caller closes the stream after some samples: no normal end of the log may be reported."""
        api = lib()
        samples = self.samples(v, 4)
        data = log(v, samples)
        what = f"{v}: {store} stream closed after {after} samples, raise_on_truncation={mode}"
        fd, path = tempfile.mkstemp()
        try:
            with os.fdopen(fd, "wb") as handle:
                handle.write(gzip.compress(data, 1, mtime=0) if store == "gzip" else data)
            if store == "memory":
                stream = io.BytesIO(data)
            elif store == "gzip":
                stream = gzip.open(path, "rb")
            else:
                stream = open(path, "rb", buffering=0 if store == "raw" else -1)  # pylint: disable=consider-using-with
            hdr = expect_ok(what, api.get_header, stream)
            gen = iter(expect_ok(what, api.generate_statistics, stream, hdr, mode))
            for i in range(after):
                got = expect_ok(what, next, gen)
                msg = diff(snap(got), want(samples[i]))
                check(msg is None, lambda: f"{what}: sample {i}: {msg}")
            stream.close()
            kind, val = attempt(next, gen)
            check(kind == "exc" and not isinstance(val, StopIteration), lambda: f"{what}: {'a sample' if kind == 'ok' else 'a normal end'} instead of an error")
            check(isinstance(val, (ValueError, OSError)), lambda: f"{what}: {val!r}")
        finally:
            os.unlink(path)
        cov.evaluations += 1
        cov.seen((v, store, after, mode))
        cov.outcomes["closed stream"] += 1

    def gzipped(self, cov, v, pos, mode):
        """A gzip container whose check sum or length is wrong."""
        samples = self.samples(v, 3)
        blob = bytearray(gzip.compress(log(v, samples), 6, mtime=0))
        blob[-pos] ^= 0x10
        what = f"{v}: gzip trailer damaged at -{pos}, raise_on_truncation={mode}"
        stream = gzip.GzipFile(fileobj=io.BytesIO(bytes(blob)))
        kind, gen = attempt(lib().generate_statistics, stream, None, mode)
        out, exc = drain(gen) if kind == "ok" else ([], gen)
        for i, (got, smp) in enumerate(zip(out, samples)):
            msg = diff(snap(got), want(smp))
            check(msg is None, lambda: f"{what}: sample {i}: {msg}")
        check(len(out) <= len(samples), f"{what}: additional samples")
        check(isinstance(exc, OSError), lambda: f"{what}: {exc!r} after {len(out)} samples instead of the container's error")
        cov.evaluations += 1
        cov.seen((v, "gzip", pos, mode))
        cov.outcomes["gzip check sum"] += 1
