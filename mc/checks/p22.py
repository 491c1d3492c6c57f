"""P22: wrong record values and lost blocks fail cleanly, nothing is invented."""

from __future__ import annotations

import io
import itertools
import zlib

from mc.core import Check, Cov, Violation, attempt, check, expect_ok
from mc.cuts import MODES
from mc.oracle import CG_VERSIONS, VERSIONS, diff, drain, header, layout, lib, log, pattern, plain_sample, snap, want

HEAD = 480
LENGTHS = ["scomplen", "pcomplen", "ccomplen", "icomplen"]


def counts(v):
    return ["nlist"] if v == "1.26" else ["ndeviat"] + (["ncgroups", "ncgpids"] if v in CG_VERSIONS else [])


def lengths(v):
    return LENGTHS if v in CG_VERSIONS else LENGTHS[:2]


class CHECK(Check):
    prop = "P22"
    level = "fault_enumeration"
    rule = (
        "One evaluation reads one log whose records or blocks were altered, in one truncation mode, to its end. Samples completely before the first altered byte must be exact; errors are only "
        "zlib.error, EOFError (neither when tolerance is requested) and ValueError; each further sample must agree with its own record's counts, and that record must be stored in the log; after lost (zeroed) blocks and wrong counts its system "
        "statistics, tasks and cgroups must be ones stored in the log. Distinct by version, alteration and mode."
    )
    bounds = {
        "record values": "every length and count of the first, middle or last of three samples: 0..40, all values within 3 of the true one, powers of two +-1 and extremes; all pairs of them over 10 values each",
        "record bytes": "every byte of a record x 12 values (thorough: all 255 others)",
        "lost blocks": "all ranges at 32-byte borders set to zero (thorough: 8-byte), all subsets of 512-byte (256-byte) blocks of a log of four samples",
        "lost parts": "all subsets of the records and sections of the first two of three samples, set to zero (parts of the first one also to 0xff)",
        "left-over blocks": "all ranges at 128-byte borders (thorough: 64-byte) replaced by content of an older log of the same version, or by each of 5 fills",
        "arbitrary": "whole contents behind the header: fills, repeated bytes (all 256), all pairs of edge bytes, other versions' logs, doubled headers",
    }
    assumptions = ["Altered bytes are outside of compressed data, or are lost in whole blocks; compressed data with forged check sums are not considered."]

    _memo: dict = {}

    def base(self, v, which=0):
        key = (v, which)
        if key not in self._memo:
            cgs = [[8, [1, 2]], [16, [3]]]
            if which == 0:
                self._memo[key] = [plain_sample(v, 1, 2, cgs=cgs), plain_sample(v, 2, 1), plain_sample(v, 3, 3, cgs=[])]
            else:
                self._memo[key] = [plain_sample(v, 40, 1), plain_sample(v, 41, 3, cgs=cgs), plain_sample(v, 42, 0), plain_sample(v, 43, 2)]
        return self._memo[key]

    def tasks(self):
        out = []
        for v in VERSIONS:
            for i in range(3):
                out += [["value", v, i], ["pairs", v, i]]
                out += [["byte", v, i, part] for part in range(2)]
            size = len(log(v, self.base(v)))
            out += [["zero", v, start] for start in range(HEAD, size, 512)]
            out += [["blocks", v]]
            out += [["parts", v, first] for first in range(2)]
            out += [["stale", v, start] for start in range(HEAD, size, 1024)]
            out += [["arbitrary", v]]
        return out

    # ---- alterations -----------------------------------------------------------------------------------------------
    def values(self, true, bits):
        vals = {*range(41), *range(max(0, true - 3), true + 4), *(true * k for k in (2, 3)), true + HEAD, true ^ 0x100, true ^ 0x10000}
        for p in range(5, 64):
            vals |= {(1 << p) - 1, 1 << p, (1 << p) + 1}
        return sorted(x for x in vals if 0 <= x < 1 << bits and x != true)

    def width(self, v, name):
        return layout(v).roots["Record"].by_name[name].size * 8

    def cases(self, task_):
        kind, v = task_[0], task_[1]
        lay = layout(v)
        if kind in ("value", "pairs", "byte"):
            i = task_[2]
            rec = self.base(v)[i].record
            names = lengths(v) + counts(v)
            if kind == "value":
                for name in names:
                    for val in self.values(lay.get(rec, "Record", (name,)), self.width(v, name)):
                        yield ["value", v, i, [[name, val]]]
            elif kind == "pairs":
                for a, b in itertools.combinations(names, 2):
                    if b == "ncgpids" and a in lengths(v):
                        continue
                    alts = []
                    for name in (a, b):
                        true = lay.get(rec, "Record", (name,))
                        top = 1 << self.width(v, name)
                        alts.append(sorted({x % top for x in (0, 1, true - 1, true + 1, true // 2, 2 * true, true + 480, 1 << 15, 1 << 31, -1)} - {true}))
                    for x, y in itertools.product(*alts):
                        yield ["value", v, i, [[a, x], [b, y]]]
            else:
                lo, hi = (0, len(rec) // 2) if task_[3] == 0 else (len(rec) // 2, len(rec))
                for pos in range(lo, hi):
                    vals = range(256) if self.thorough else [0, 1, 2, 15, 16, 127, 128, 255, rec[pos] ^ 1, rec[pos] ^ 128, (rec[pos] + 1) % 256, (rec[pos] - 1) % 256]
                    for val in sorted(set(vals) - {rec[pos]}):
                        yield ["byte", v, i, pos, val]
        elif kind == "zero":
            step = 8 if self.thorough else 32
            size = len(log(v, self.base(v)))
            for a in range(task_[2], min(size, task_[2] + 512), step):
                for b in range(a + step, size + step, step):
                    yield ["zero", v, a, min(b, size)]
        elif kind == "blocks":
            size = len(log(v, self.base(v, 1)))
            block = 512
            num = -(-(size) // block) - 1  # the first block holds the header
            if num > 9:
                block = block * -(-num // 9)
            for mask in range(1, 1 << min(num, 9)):
                yield ["blocks", v, block, mask]
        elif kind == "parts":
            num = 1 + len(self.base(v)[0].sections)
            for mask in range(1, 1 << (2 * num)):
                if (mask & 1) == task_[2]:
                    for fill in (0, 255) if mask < 1 << num or self.thorough else (0,):
                        yield ["parts", v, mask, fill]
        elif kind == "stale":
            size = len(log(v, self.base(v)))
            step = 64 if self.thorough else 128
            for a in range(task_[2], min(size, task_[2] + 1024), step):
                for b in range(a + step, size + step, step):
                    for fill in ("old", "ones", "dense", "text", "high", "ramp"):
                        yield ["stale", v, a, min(b, size), fill]
        else:
            for fill in ("zero", "ones", "dense", "text", "high", "ramp", "sparse"):
                for n in (1, 50, 300, 5000):
                    for seed in range(4):
                        yield ["fill", v, fill, n, seed]
            for byte in range(256):
                yield ["repeat", v, [byte]]
            edge = [0, 1, 2, 16, 0x78, 0x9C, 0x7F, 0x80, 0xFE, 0xFF]
            for pair in itertools.product(edge, repeat=2):
                yield ["repeat", v, list(pair)]
            for quad in itertools.product((0, 1, 0x78, 0xFF), repeat=4):
                yield ["repeat", v, list(quad)]
            for other in VERSIONS:
                yield ["other", v, other]
                yield ["header again", v, other]

    def build(self, case):
        """(bytes, number of samples before the first altered byte, stored samples or None if anything may be returned)"""
        kind, v = case[0], case[1]
        base = self.base(v)
        if kind in ("value", "byte"):
            i = case[2]
            rec = bytearray(base[i].record)
            if kind == "value":
                for name, val in case[3]:
                    layout(v).put(rec, "Record", (name,), val)
                only = all(name in counts(v) for name, _val in case[3])
            else:
                rec[case[3]] = case[4]
                only = False
            data = header(v) + b"".join(s.blob for s in base[:i]) + bytes(rec) + b"".join(base[i].sections) + b"".join(s.blob for s in base[i + 1 :])
            return data, i, base if only else None
        if kind in ("zero", "stale"):
            data = bytearray(log(v, base))
            a, b = case[2], case[3]
            if kind == "zero":
                new = bytes(b - a)
            elif case[4] == "old":
                old = log(v, self.base(v, 1))
                new = (old * 2)[a:b]
            else:
                new = pattern(case[4], 3, len(data))[a:b]
            first = next((k for k in range(a, b) if data[k] != new[k - a]), None)
            data[a:b] = new
            if first is None:
                return None
            return bytes(data), self.before(base, first), base if kind == "zero" else None
        if kind == "parts":
            parts = [p for smp in base for p in (smp.record, *smp.sections)]
            mask, fill = case[2], case[3]
            data = header(v) + b"".join(bytes([fill]) * len(p) if mask >> i & 1 else p for i, p in enumerate(parts))
            first = next(i for i in range(len(parts)) if mask >> i & 1)
            return data, first // (1 + len(base[0].sections)), base
        if kind == "blocks":
            base = self.base(v, 1)
            data = bytearray(log(v, base))
            block, mask = case[2], case[3]
            first = len(data)
            for k in range(9):
                if mask >> k & 1:
                    a = max(HEAD, (k + 1) * block)
                    b = min(len(data), (k + 2) * block)
                    if a < b:
                        first = min(first, next((x for x in range(a, b) if data[x]), len(data)))
                        data[a:b] = bytes(b - a)
            return bytes(data), self.before(base, first), base
        if kind == "fill":
            return header(v) + pattern(case[2], case[4], case[3]), 0, None
        if kind == "repeat":
            return header(v) + bytes(case[2]) * (3000 // len(case[2])), 0, None
        body = log(case[2], self.base(case[2]))
        if kind == "other":
            return header(v) + body[HEAD:], 0, None
        return header(v) + body, 0, None

    @staticmethod
    def before(samples, first):
        """Number of samples that end at or before this position."""
        pos = HEAD
        for i, smp in enumerate(samples):
            pos += len(smp)
            if pos > first:
                return i
        return len(samples)

    # ---- judgement -------------------------------------------------------------------------------------------------
    def run_case(self, case, cov: Cov) -> None:
        built = self.build(case)
        if built is None:
            return
        data, intact, stored = built
        v = case[1]
        base = self.base(v, 1 if case[0] == "blocks" else 0)
        for mode in MODES:
            self.judge(cov, v, data, base[:intact], stored, mode, str(case)[:200])
            cov.evaluations += 1
            cov.seen((repr(case), mode))
        cov.note(case, 1)

    def judge(self, cov, v, data, intact, stored, mode, what):
        api = lib()
        stream = io.BytesIO(data)
        hdr = expect_ok("get_header", api.get_header, stream)
        out, exc = drain(expect_ok("generate_statistics", api.generate_statistics, stream, hdr, raise_on_truncation=mode), 2000)
        what = f"{what} (raise_on_truncation={mode})"
        check(len(out) < 2000, lambda: f"{what}: samples without end")
        check(exc is None or isinstance(exc, (zlib.error, EOFError, ValueError)), lambda: f"{what}: {exc!r}")
        check(mode or not isinstance(exc, (zlib.error, EOFError)), lambda: f"{what}: tolerance requested, but {exc!r}")
        check(len(out) >= len(intact), lambda: f"{what}: only {len(out)} of {len(intact)} samples before the damage")
        more = 0
        for i, got in enumerate(out):
            snapped = expect_ok(f"{what}: reading the returned objects", snap, got)
            if i < len(intact):
                msg = diff(snapped, want(intact[i]))
                check(msg is None, lambda: f"{what}: sample {i}: {msg}")
                continue
            more += 1
            check(snapped[0] in data, lambda: f"{what}: sample {i}: its record was never stored")
            self.consistent(v, snapped, f"{what}: sample {i}")
            if stored is not None:
                self.stored(snapped, stored, f"{what}: sample {i}")
        cov.outcomes[f"{what.split(',')[0][2:-1]}: {more if more < 4 else 'more'} further samples, {type(exc).__name__ if exc else 'ended'}"] += 1

    @staticmethod
    def consistent(v, snapped, what):
        lay = layout(v)
        rec = snapped[0]
        check(len(snapped[2]) == lay.get(rec, "Record", (counts(v)[0],)), lambda: f"{what}: {len(snapped[2])} tasks, but its record declares {lay.get(rec, 'Record', (counts(v)[0],))}")
        check(lay.get(rec, "Record", ("scomplen",)) > 0, lambda: f"{what} was returned for a record without statistics")
        sizes = {len(t) for t in snapped[2]}
        check(len(snapped[1]) == lay.size("SStat") and sizes <= {lay.size("TStat")}, lambda: f"{what}: structures of another size")
        if v in CG_VERSIONS:
            num = lay.get(rec, "Record", ("ncgroups",))
            check(len(snapped[3]) == max(0, num), lambda: f"{what}: {len(snapped[3])} cgroups, but its record declares {num}")
            for stat, pids in snapped[3]:
                check(len(pids) == lay.get(stat, "CStat", ("gen", "nprocs")), lambda: f"{what}: {len(pids)} processes in a cgroup of {lay.get(stat, 'CStat', ('gen', 'nprocs'))}")
        else:
            check(snapped[3] == (), lambda: f"{what}: cgroups in a version without cgroups")

    @staticmethod
    def stored(snapped, samples, what):
        wants = [want(s) for s in samples]
        check(any(snapped[1] == w[1] for w in wants), lambda: f"{what}: system statistics that were never stored")
        for part, name in ((2, "task"), (3, "cgroup")):
            known = {t for w in wants for t in w[part]}
            for item in snapped[part]:
                check(item in known, lambda: f"{what}: a {name} that was never stored")
