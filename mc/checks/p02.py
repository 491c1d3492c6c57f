"""P02: every well-formed log is returned sample by sample, complete and exact."""

from __future__ import annotations

import io
import itertools
import struct
import zlib

from mc.core import Check, Cov, Violation, attempt, check
from mc.oracle import CG_VERSIONS, VERSIONS, Cgroup, Sample, compare_attrs, diff, exact, expect_ok, header, layout, lib, log, plain_sample, raw, snap, sstat, task, want

# Sample shapes, simplest first: (tasks, content, compression level)
SHAPES = [
    (0, "plain", 6), (1, "plain", 6), (2, "plain", 9), (3, "ones", 1), (0, "zero", 9), (1, "zero", 6), (7, "plain", 6), (1, "dense", 6),
    (2, "dense", 0), (4, "high", 1),
]
LADDER = sorted({*range(0, 70), *(2**k + d for k in range(6, 13) for d in (-1, 0, 1)), 100, 300, 1000})


def _crc_neutral() -> bytes:
    """Five bytes whose exclusive-or leaves the CRC-32 of any message unchanged (a multiple of the generator)."""
    for cand in range(1, 1 << 8):
        # The difference starting with this byte continues with whatever cancels it.
        tail = zlib.crc32(bytes([cand, 0, 0, 0, 0])) ^ zlib.crc32(bytes(5))
        # Undo four zero bytes: find the four bytes with the same effect.
        state = tail
        rest = _unshift(state)
        diff = bytes([cand]) + rest.to_bytes(4, "little")
        probe = bytes(range(40))
        moved = bytes(a ^ b for a, b in zip(probe, bytes(9) + diff + bytes(26)))
        if zlib.crc32(moved) == zlib.crc32(probe):
            return diff
    raise AssertionError("no neutral difference")


def _unshift(state: int) -> int:
    """The four bytes whose difference (as the last bytes) changes the CRC by state."""
    # crc32 is linear in the message difference: solve for the 32 bits by elimination.
    rows = []
    for bit in range(32):
        msg = (1 << bit).to_bytes(4, "little")
        rows.append((zlib.crc32(bytes(1) + msg) ^ zlib.crc32(bytes(5)), 1 << bit))
    basis = {}
    for val, combo in rows:
        while val:
            top = val.bit_length()
            if top not in basis:
                basis[top] = (val, combo)
                break
            val, combo = val ^ basis[top][0], combo ^ basis[top][1]
    out = 0
    while state:
        val, combo = basis[state.bit_length()]
        state, out = state ^ val, out ^ combo
    return out


CRC_NEUTRAL = _crc_neutral()


FRAMING = {"scomplen", "pcomplen", "ccomplen", "icomplen", "coriglen", "ncgpids", "ndeviat", "nlist", "ncgroups", "curtime", "flags"}


def clamped(raw: bytes, pos: int) -> bytes:
    buf = bytearray(raw)
    for i in range(3):
        buf[pos + i] = min(max(buf[pos + i], 2), 253)
    return bytes(buf)


def twin(raw: bytes, pos: int, change: str) -> bytes:
    """The same content with a small difference at pos."""
    buf = bytearray(raw)
    if change == "byte":
        buf[pos] ^= 0x15
    elif change == "adler":  # leaves the Adler-32 sums unchanged
        buf = bytearray(clamped(raw, pos))
        base = bytes(buf)
        buf[pos] += 1
        buf[pos + 1] -= 2
        buf[pos + 2] += 1
        assert zlib.adler32(base) == zlib.adler32(buf)
    else:
        for i in range(5):
            buf[pos + i] ^= CRC_NEUTRAL[i]
        assert zlib.crc32(buf) == zlib.crc32(raw)
    return bytes(buf)


class CHECK(Check):
    prop = "P02"
    case_timeout = 700
    level = "model_checking"
    rule = (
        "A state is (version, number of samples read, shapes of the remaining samples); a transition is one next() on the real reader, after which "
        "the returned objects are compared byte for byte with the stored sample, and once more after the log ended. Every maximal path "
        "(log read to its end) is one trace."
    )
    bounds = {
        "shape sequences": f"all sequences of length 0..3 over {len(SHAPES)} shapes per version (thorough: 0..4)",
        "task ladder": "task counts 0..69, 2^k-1..2^k+1 up to 4097, 300, 1000 per version; 65,535..65,537 for 1.26, 2.3 and 2.12",
        "sample ladder": "logs of 0..40, 63..65, 127..129, 255..257, 300 samples per version (thorough: also 1,025 and 5,000)",
        "long logs": "3,000 samples per version with changing flags and other record fields; 1,500 all with the boot flag; 86,500 with a larger limit for 1.26 (thorough: 20,000, and 86,500 for every version)",
        "twins": "consecutive samples with equal lengths whose sections differ in one byte, or in a few bytes that leave Adler-32 or CRC-32 unchanged, at 25 positions",
        "repeats": "runs of 2..8 equal samples; all orders (3^3, thorough 3^4) of timestamps on otherwise equal and on different samples, with 0, 1, 3 tasks, and with, without and with left-out cgroups",
        "sections": "compression levels 0, 1, 6, 9; contents from all-zero to incompressible, sections from 8 bytes to over 1 MB",
    }
    assumptions = ["Sample shapes outside the alphabet behave like one of its members."]

    def tasks(self):
        depth = 4 if self.thorough else 3
        out = []
        for v in VERSIONS:
            out.append(["ladder", v])
            out.append(["count", v])
            out.append(["twins", v])
            out.append(["same", v])
            out.append(["seq", v, [], 1])
            out.extend(["seq", v, [i], depth] for i in range(len(SHAPES)))
        out.extend(["big", v] for v in ("1.26", "2.3", "2.12"))
        return [["long", v] for v in VERSIONS] + [["limit", v] for v in (VERSIONS if self.thorough else ["1.26"])] + out

    def cases(self, task_):
        kind, v = task_[0], task_[1]
        if kind == "seq":
            first, depth = task_[2], task_[3]
            if not first:
                yield ["seq", v, []]
                return
            for n in range(depth):
                for rest in itertools.product(range(len(SHAPES)), repeat=n):
                    yield ["seq", v, first + list(rest)]
        elif kind == "ladder":
            for n in LADDER:
                for content in ("plain", "dense") if n <= 1030 else ("plain",):
                    yield ["tasks", v, n, content]
        elif kind == "same":
            for ntasks in (0, 1, 3):
                for cgs in ([], [[8, [5, 6]]], None) if v in CG_VERSIONS else ([],):
                    for n in (2, 3, 8):
                        yield ["same", v, n, ntasks, cgs, "equal"]
                    for times in itertools.product((0, 1, 2), repeat=4 if self.thorough else 3):
                        yield ["same", v, 0, ntasks, cgs, list(times)]
                        yield ["same", v, 1, ntasks, cgs, list(times)]
        elif kind == "twins":
            lay = layout(v)
            size = lay.size("SStat")
            near = {0, 4, 8, 63, 64, 255, 256, 511, 512, 1023, 1024, 4095, 4096, 8192, 32767, 32768, 65535, 65536, size // 3, size // 2, size - 4097, size - 513, size - 65, size - 9, size - 8}
            for pos in sorted(near):
                if 0 <= pos <= size - 8:
                    for change in ("byte", "adler", "crc"):
                        yield ["twins", v, "SStat", pos, change, 0]
            for pos in (8, size // 2, size - 8):
                yield ["twins", v, "SStat", pos, "byte", 6]
            for role in ("TStat", "CStat", "pids") if v in CG_VERSIONS else ("TStat",):
                size = 40 if role == "pids" else 3 * lay.size(role)
                for pos in sorted({8, 20, size // 3 + 8, size // 2, size - 20, size - 8}):
                    for change in ("byte", "adler", "crc"):
                        for level in (0, 6):
                            yield ["twins", v, role, pos, change, level]
        elif kind == "long":
            yield ["long", v, 3000 if not self.thorough else 20000, 86400, "varied"]
            yield ["long", v, 1500, 1500, "boot"]
        elif kind == "limit":
            # More samples than a reader returns unless it is asked for more.
            yield ["long", v, 86_500, 100_000, "plain"]
        elif kind == "big":
            for n in (65535, 65536, 65537):
                yield ["tasks", v, n, "zero"]
        elif kind == "count":
            for n in [*range(41), 63, 64, 65, 127, 128, 129, 255, 256, 257, 300] + ([1025, 5000] if self.thorough else []):
                yield ["count", v, n]

    _cache: dict = {}

    def sample(self, v, pos, shape):
        key = (v, pos, shape)
        if key not in self._cache:
            n, content, level = SHAPES[shape]
            self._cache[key] = plain_sample(v, pos * 10 + shape, n, content if content != "plain" else "plain", level=level)
        return self._cache[key]

    def twins(self, v, role, pos, change, level):
        """Samples whose sections have equal lengths (and checksums) but differ in a few bytes: one, other, one, one, other."""
        rec = {"curtime": 1_700_000_000, "interval": 60}
        content = "dense" if level == 0 else "plain"
        stat = sstat(v, content, 4)
        tasks = [task(v, content, 4 + i) for i in range(3)]
        groups = [Cgroup(v, 4 + i, 8, [7, 8, 9, 10][: 2 + i]) for i in range(3)] if v in CG_VERSIONS else []
        first = Sample(v, stat, tasks, groups, rec=rec, level=level)
        if change == "adler" and role == "SStat":
            stat = clamped(stat, pos)
            first = Sample(v, stat, tasks, groups, rec=rec, level=level)
        if role == "SStat":
            stat = twin(stat, pos, change)
        elif role == "TStat":
            size = len(tasks[0])
            pos = min(pos, size * (pos // size) + size - 8)
            tasks[pos // size] = twin(tasks[pos // size], pos % size, change)
        elif role == "CStat":
            lay = layout(v)
            off, _fld = lay.locate("CStat", ("cpu", "utime"))
            num = min(2, pos // lay.size("CStat"))
            old = groups[num]
            groups[num] = Cgroup(v, 4 + num, 8, old.pids)
            groups[num].stat = twin(old.stat, off, change)
            groups[num].raw = groups[num].stat + old.raw[len(old.stat) :]
        else:
            flat = twin(b"".join(struct.pack("<i", p) for c in groups for p in c.pids) , min(pos, 28), change)
            ids = list(struct.unpack("<%di" % (len(flat) // 4), flat))
            groups = [Cgroup(v, 4 + i, 8, [ids.pop(0) for _ in old.pids]) for i, old in enumerate(groups)]
        second = Sample(v, stat, tasks, groups, rec=rec, level=level)
        assert first.blob != second.blob
        return [first, second, first, first, second]

    def long(self, case, cov):
        """Long logs, whose objects are compared and dropped at once."""
        _kind, v, num, limit, content = case
        lay = layout(v)
        protos = [plain_sample(v, i, (1, 0, 2)[i % 3], level=1) for i in range(5)]
        names = [f.name for f in lay.roots["Record"].fields if f.name not in FRAMING and f.kind != "char" and f.count is None and f.sub is None]
        records = []
        for i in range(num):
            buf = bytearray(protos[i % 5].record)
            lay.put(buf, "Record", ("curtime",), 1_500_000_000 + i)
            if content == "boot":
                lay.put(buf, "Record", ("flags",), 1)
            elif content == "varied":
                lay.put(buf, "Record", ("flags",), i % 64)
                lay.put(buf, "Record", (names[i % len(names)],), i % 120)
            records.append(bytes(buf))
        stream = io.BytesIO(header(v) + b"".join(r + b"".join(protos[i % 5].sections) for i, r in enumerate(records)))
        gen = iter(expect_ok("generate_statistics", lib().generate_statistics, stream, max_samples=limit))
        for i, rec in enumerate(records):
            got = expect_ok(f"{v}: sample {i} of {num}", next, gen)
            smp = protos[i % 5]
            if raw(got[0]) != rec or (i % 97 == 0 or content != "plain") and snap(got)[1:] != want(smp)[1:]:
                raise Violation(f"{v}: sample {i} of {num} ({content}): {diff(snap(got), (rec, *want(smp)[1:]))}")
        kind, val = attempt(next, gen)
        check(kind == "exc" and isinstance(val, StopIteration), lambda: f"{v}: after all {num} samples: {val!r:.200}")
        cov.state(tuple(case))
        cov.outcomes["long logs"] += 1
        cov.evaluations += 1
        cov.transitions += num + 1
        cov.note(case)

    def run_case(self, case, cov: Cov) -> None:
        kind, v = case[0], case[1]
        if kind == "long":
            self.long(case, cov)
            return
        if kind == "seq":
            samples = [self.sample(v, i, s) for i, s in enumerate(case[2])]
            for i in range(len(samples) + 1):
                cov.state(("seq", v, i, tuple(case[2][i:])))
            cov.outcomes[f"{len(samples)} samples"] += 1
        elif kind == "same":
            # Samples that are equal in everything, or in everything but the timestamp (repeated, running backwards).
            _kind, v, n, ntasks, cgs, times = case
            kw = {"cgs": cgs} if cgs is not None else {"cgs": [], "stored_cgroups": False}
            if v not in CG_VERSIONS:
                kw = {}
            if times == "equal":
                samples = [plain_sample(v, 1, ntasks, **kw)] * n
            else:
                samples = [plain_sample(v, i * n, ntasks, rec={"curtime": 1_700_000_000 + t, "interval": 60}, **kw) for i, t in enumerate(times)]
            cov.state(repr(case))
            cov.outcomes["equal samples and all orders of timestamps"] += 1
        elif kind == "twins":
            samples = self.twins(v, *case[2:])
            cov.state(tuple(case))
            cov.outcomes["samples that differ in a few bytes only"] += 1
        elif kind == "tasks":
            n, content = case[2], case[3]
            proto = task(v, content, 3)
            lay = layout(v)
            tasks = []
            for i in range(n):
                buf = bytearray(proto)
                lay.put(buf, "TStat", ("gen", "pid"), i + 1)
                lay.put(buf, "TStat", ("cpu", "stime"), i * 7 + 1)
                tasks.append(bytes(buf))
            groups = [Cgroup(v, 1, 8, [5])] if v in CG_VERSIONS else []
            samples = [Sample(v, sstat(v, "plain", 1), tasks, groups, level=1), plain_sample(v, 2, 1)]
            cov.state(("tasks", v, n, content))
            cov.outcomes["task ladder"] += 1
        else:
            # Contents repeat every 7 samples, the records are all different.
            samples = []
            for i in range(case[2]):
                samples.append(plain_sample(v, i % 7, i % 3, rec={"curtime": 1_600_000_000 + i}))
            cov.state(("count", v, case[2]))
            cov.outcomes["sample ladder"] += 1
        # The header is read by the caller or by the reader itself; both must give the same.
        first = case[0] != "seq" or sum(case[2]) % 2 == 0
        hdr, out = exact(log(v, samples), samples, f"{v}", hdr_first=first)
        for got, sample in zip(out, samples):
            check(isinstance(got, tuple) and len(got) == 4, "a sample is not a group of four")
            check(v in CG_VERSIONS or list(got[3]) == [], "cgroups for a version without cgroups")
        if kind == "seq" and out:
            # The objects have this version's types (several versions have sections of the same size).
            lay = layout(v)
            compare_attrs(out[-1][0], lay.roots["Record"], samples[-1].record)
            if len(case[2]) == 1:
                compare_attrs(out[0][1], lay.roots["SStat"], samples[0].sstat, max_elems=2)
                for got, exp in zip(out[0][2], samples[0].tasks):
                    compare_attrs(got, lay.roots["TStat"], exp)
        cov.evaluations += 1
        cov.transitions += len(out) + 1
        cov.note(case)
