"""P15: reading is always bounded."""

from __future__ import annotations

import io
import struct

from mc.core import Check, Cov, Violation, attempt, check, expect_ok
from mc.cuts import MODES
from mc.oracle import CG_VERSIONS, VERSIONS, Cgroup, Sample, diff, drain, exact, header, layout, lib, log, plain_sample, raw, snap, sstat, want

DAY = 86400
HUGE = (2**31 - 1, 2**31, 2**32, 2**53, 2**63 - 1, 2**63, 2**64, 10**20, 10**30, -(2**31), -(2**63), -(10**20))


class Endless:
    """A log that never ends: its samples repeat for ever (curtime counts up). Only read and readinto are offered."""

    def __init__(self, head: bytes, sample: Sample, stamp_at: int, count: int | None = None):
        self.head, self.blob, self.stamp_at, self.count = head, bytearray(sample.blob), stamp_at, count
        self.pos, self.num = 0, -1
        self.buf = bytearray(head)
        self.handed = 0

    def _more(self):
        self.num += 1
        if self.count is not None and self.num >= self.count:
            return False
        struct.pack_into("<I", self.blob, self.stamp_at, self.num)
        self.buf += self.blob
        return True

    def read(self, size=-1):
        assert size is not None and size >= 0, "unbounded read of an endless stream"
        while len(self.buf) - self.pos < size and self._more():
            pass
        out = bytes(self.buf[self.pos : self.pos + size])
        self.pos += len(out)
        self.handed += len(out)
        if self.pos > 1 << 20:
            del self.buf[: self.pos]
            self.pos = 0
        return out

    def readinto(self, target):
        view = memoryview(target).cast("B")
        data = self.read(len(view))
        view[: len(data)] = data
        return len(data)


class CHECK(Check):
    prop = "P15"
    level = "model_checking"
    rule = (
        "A state is (version, samples left in the stream, remaining limit, ended); a transition is one next() on the real reader, including three more after its end. "
        "Endless and day-long logs are read to the reader's end."
    )
    bounds = {
        "limits": "all limits -1, -5, 0..9, 1000, 10^12, 12 around and beyond 2^31, 2^53, 2^63 (also negative) x logs of 0..7 samples x both modes per version; "
        "28 limits within and around logs of 40 and 130 samples",
        "default limit": "an endless stream, and logs of 86,399, 86,400 and 86,401 samples, for 1.26 (thorough: also 2.3 and 2.12)",
        "ends": "logs followed by 1..3 records' worth of zero bytes in every length around a record, empty records in every position, appended data after the end",
    }
    case_timeout = 600

    def tasks(self):
        out = [["day", "1.26", n] for n in (None, DAY - 1, DAY, DAY + 1)]
        if self.thorough:
            out += [["day", v, n] for v in ("2.3", "2.12") for n in (None, DAY)]
        for v in VERSIONS:
            out.append(["limits", v])
            out.append(["ends", v])
        return out

    def cases(self, task_):
        kind, v = task_[0], task_[1]
        if kind == "day":
            yield task_
        elif kind == "limits":
            for n in range(8):
                for m in (-1, -5, *range(10), 1000, 10**12, *HUGE):
                    for mode in MODES:
                        yield ["limits", v, n, m, mode]
            for n in (40, 130):
                for m in (*range(n - 3, n + 4), *(k for k in (1, 9, 10, 11, 15, 16, 17, 31, 32, 33, 59, 60, 61, 63, 64, 65, 99, 100, 101, 127, 128) if k < n - 3), 255, 256, DAY, 10**20):
                    yield ["limits", v, n, m, bool(m % 2)]
        else:
            size = layout(v).size("Record")
            for n in range(3):
                for zeros in [*range(1, 9), size // 2, *range(size - 8, size + 9), 2 * size, 3 * size, 4096]:
                    yield ["zeros", v, n, zeros]
                for behind in range(3):
                    for junk in ("zero", "full"):
                        yield ["empty", v, n, behind, junk]

    _memo: dict = {}

    def samples(self, v, n):
        if (v, n) not in self._memo:
            self._memo[v, n] = [plain_sample(v, i, i % 3) for i in range(n)]
        return self._memo[v, n]

    def run_case(self, case, cov: Cov) -> None:
        kind, v = case[0], case[1]
        api = lib()
        if kind == "day":
            self.day(cov, v, case[2])
        elif kind == "limits":
            _kind, v, n, limit, mode = case
            samples = self.samples(v, n)
            data = log(v, samples)
            for style in range(2):
                stream = io.BytesIO(data)
                hdr = expect_ok("get_header", api.get_header, stream)
                if style:
                    gen = iter(api.generate_statistics(stream, hdr, mode, limit))
                else:
                    gen = iter(api.generate_statistics(raw_file=stream, header=hdr, max_samples=limit, raise_on_truncation=mode))
                self.run_gen(cov, gen, samples, max(0, min(n, limit)), f"{v}: {n} samples, max_samples={limit}", (v, n, limit))
                if limit <= n:
                    pos = 480 + sum(len(s) for s in samples[: max(0, limit)])
                    check(stream.tell() == pos, lambda: f"{v}: {n} samples, max_samples={limit}: stream at {stream.tell()} instead of {pos}")
            cov.outcomes["limited" if limit < n else "not limited"] += 1
        elif kind == "zeros":
            _kind, v, n, zeros = case
            samples = self.samples(v, n)
            for mode in MODES:
                stream = io.BytesIO(log(v, samples) + bytes(zeros))
                gen = iter(api.generate_statistics(stream, None, mode))
                self.run_gen(cov, gen, samples, n, f"{v}: {n} samples and {zeros} zero bytes", (v, n, "zeros", zeros))
            cov.outcomes["zero bytes at the end"] += 1
        else:
            _kind, v, n, behind, junk = case
            # A record that declares no statistics, other samples behind it.
            samples = self.samples(v, n + behind)
            lay = layout(v)
            rec = bytearray(samples[0].record if samples else bytes(lay.size("Record")))
            if junk == "zero":
                rec = bytearray(len(rec))
            lay.put(rec, "Record", ("scomplen",), 0)
            data = log(v, samples[:n]) + bytes(rec) + b"".join(s.blob for s in samples[n:])
            for mode in MODES:
                gen = iter(api.generate_statistics(io.BytesIO(data), None, mode))
                self.run_gen(cov, gen, samples, n, f"{v}: record without statistics behind {n} samples", (v, n, "empty", behind))
            cov.outcomes["record without statistics"] += 1
        cov.evaluations += 1
        cov.note(case, 1)

    def run_gen(self, cov, gen, samples, expected, what, key):
        for i in range(expected):
            kind, val = attempt(next, gen)
            if kind == "exc":
                raise Violation(f"{what}: {val!r} instead of sample {i}")
            msg = diff(snap(val), want(samples[i]))
            check(msg is None, lambda: f"{what}: sample {i}: {msg}")
            cov.state((*key, i))
            cov.transitions += 1
        for i in range(3):
            kind, val = attempt(next, gen)
            if kind == "ok":
                raise Violation(f"{what}: an additional sample after {expected}" + (" (after the reader had ended)" if i else ""))
            check(isinstance(val, StopIteration), lambda: f"{what}: {val!r} instead of the end")
            cov.state((*key, "ended"))
            cov.transitions += 1

    def day(self, cov, v, count):
        api = lib()
        lay = layout(v)
        groups = [Cgroup(v, 1, 8, [5])] if v in CG_VERSIONS else []
        smp = Sample(v, sstat(v, "zero", 0), [], groups, level=9)
        stamp_at, _fld = lay.locate("Record", ("interval",)) if lay.roots["Record"].by_name["curtime"].size != 8 else lay.locate("Record", ("curtime",))
        stream = Endless(header(v), smp, stamp_at, count)
        hdr = expect_ok("get_header", api.get_header, stream)
        gen = iter(api.generate_statistics(stream, hdr))
        expected = DAY if count is None else min(count, DAY)
        what = f"{v}: {'endless' if count is None else count} samples, default limit"
        num = 0
        while True:
            kind, val = attempt(next, gen)
            if kind == "exc":
                check(isinstance(val, StopIteration), lambda: f"{what}: {val!r} after {num} samples")
                break
            check(num < expected, lambda: f"{what}: more than {expected} samples")
            if num % 1000 == 0 or num > expected - 3:
                got = lay.get(raw(val[0]), "Record", ("curtime",)) & 0xFFFFFFFF
                check(got == num, lambda: f"{what}: sample {got} returned as number {num}")
            num += 1
        check(num == expected, lambda: f"{what}: ended after {num} samples")
        kind, val = attempt(next, gen)
        check(kind == "exc" and isinstance(val, StopIteration), f"{what}: does not stay ended")
        if count is None:
            check(stream.handed == 480 + DAY * len(smp), lambda: f"{what}: {stream.handed} bytes consumed instead of {480 + DAY * len(smp)}")
        cov.transitions += num + 2
        cov.state((v, "day", count))
        cov.outcomes["day-long or endless"] += 1
