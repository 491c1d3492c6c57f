"""P06: damaged compressed data is never returned as statistics."""

from __future__ import annotations

import io
import zlib

from mc.core import Check, Cov, check
from mc.cuts import MODES
from mc.oracle import CG_VERSIONS, VERSIONS, Cgroup, Sample, diff, drain, expect_ok, header, layout, lib, log, plain_sample, snap, sstat, task, want
from mc.synth import deflate

SECTIONS = ["sstat", "tstat", "cstat", "pids"]
LATE = (6, 12, 40, 150)
LARGE = (64, 257, 700)


class CHECK(Check):
    prop = "P06"
    level = "fault_enumeration"
    rule = (
        "One evaluation reads one log with one damaged section in one truncation mode. Each returned sample must equal the stored one, samples "
        "before the damage must be there, and if the damaged sample is missing nothing may follow; errors are zlib.error or ValueError only, ValueError "
        "is never silenced. Non-trivial: the damaged sample was refused (or returned exactly although a byte changed); distinct by version, fault, mode."
    )
    bounds = {
        "flips": "every byte of every section of the first of two samples x every single-bit flip, 0xff and 0x00 (both modes); damage in the second "
        "of three samples: every byte x lowest and highest bit",
        "limits": "every 23rd byte of each section x one bit, max_samples 1, 2, 3, 86,400 x given and own header",
        "late": f"damage (first bytes, middle, check sum) in the next to last of {LATE} samples; sections of {LARGE} tasks (and as many process IDs), plain and incompressible: 40 places each, 1 byte to a whole task short",
        "short sections": "task, cgroup and process-ID sections of every length below the declared one (in 1-byte steps), system sections at the field borders "
        "around 0, 1, 8, 4096, half, -8, -1; declared counts raised by 1, 2, 255, 65,535",
    }

    def tasks(self):
        out = []
        for v in VERSIONS:
            names = SECTIONS if v in CG_VERSIONS else SECTIONS[:2]
            for i, name in enumerate(names):
                size = len(self.base(v)[0].sections[i])
                out.extend(["flip", v, i, pos] for pos in range(0, size, 64))
            out.append(["flip2", v])
            for name in names:
                out.append(["short", v, name])
            out.append(["count", v])
            out += [["limited", v], ["large", v]] + [["late", v, n] for n in LATE]
        return out

    _memo: dict = {}

    def base(self, v):
        if v not in self._memo:
            cgs = [[8, [1, 2]], [16, [3]]]
            self._memo[v] = [plain_sample(v, 1, 2, cgs=cgs), plain_sample(v, 2, 1), plain_sample(v, 3, 0)]
        return self._memo[v]

    def cases(self, task_):
        kind, v = task_[0], task_[1]
        if kind == "flip":
            i, start = task_[2], task_[3]
            sec = self.base(v)[0].sections[i]
            for pos in range(start, min(len(sec), start + 64)):
                for mask in (1, 2, 4, 8, 16, 32, 64, 128):
                    yield ["flip", v, 0, i, pos, sec[pos] ^ mask]
                for val in (0, 255):
                    if sec[pos] != val and bin(sec[pos] ^ val).count("1") > 1:
                        yield ["flip", v, 0, i, pos, val]
        elif kind == "limited":
            for i, sec in enumerate(self.base(v)[0].sections):
                for pos in sorted({*range(0, len(sec), 23), *range(len(sec) - 5, len(sec))}):
                    for limit in (1, 2, 3, 86_400):
                        for own in (False, True):
                            yield ["flip", v, 0, i, pos, sec[pos] ^ 1, limit, own]
        elif kind == "late":
            n = task_[2]
            for i in range(4 if v in CG_VERSIONS else 2):
                sec = self.many(v, n)[n - 2].sections[i]
                few = n > 20 and not self.thorough
                for pos in sorted({0, len(sec) // 2, len(sec) - 1} if few else {0, 1, 2, len(sec) // 3, len(sec) // 2, len(sec) - 5, len(sec) - 4, len(sec) - 1}):
                    for limit in (None, n) if few else (None, n - 1, n, 86_400):
                        yield ["late", v, n, i, pos, sec[pos] ^ 8, limit]
        elif kind == "large":
            for n in LARGE:
                for style in ("plain", "dense"):
                    for i in (1, 3) if v in CG_VERSIONS else (1,):
                        size = len(self.big(v, n, style)[0].sections[i])
                        for k in range(0, 41, 1 if self.thorough or n < 300 else 4):
                            yield ["big", v, n, style, i, min(size - 1, k * size // 40)]
                        for short in (1, 2, 3, 4, 5, layout(v).size("TStat") - 1, layout(v).size("TStat")):
                            yield ["bigshort", v, n, style, i, short]
        elif kind == "flip2":
            for i, sec in enumerate(self.base(v)[1].sections):
                for pos in range(len(sec)):
                    for mask in (1, 128):
                        yield ["flip", v, 1, i, pos, sec[pos] ^ mask]
        elif kind == "short":
            name = task_[2]
            lay = layout(v)
            full = {"sstat": lay.size("SStat"), "tstat": 2 * lay.size("TStat"), "cstat": 2 * lay.size("CStat") + 24 if v in CG_VERSIONS else 0, "pids": 12}[name]
            if name == "sstat":
                lens = sorted({0, 1, 2, 3, 4, 7, 8, 9, 100, 4095, 4096, 4097, full // 2, *(full - k for k in range(1, 65)), full - 4096})
            elif name == "cstat":
                # Bytes behind the last group's statistics are only its name.
                lens = range(full - 16)
            else:
                lens = range(full)
            for n in lens:
                yield ["short", v, name, n]
        else:
            for more in (1, 2, 255, 65535):
                yield ["count", v, more, False]
                if v in CG_VERSIONS:
                    yield ["count", v, more, True]

    def many(self, v, n):
        if ("many", v, n) not in self._memo:
            protos = [plain_sample(v, k, k % 3) for k in range(5)]
            self._memo["many", v, n] = [protos[k % 5] for k in range(n)]
        return self._memo["many", v, n]

    def big(self, v, n, style):
        """A sample of many tasks (and process IDs) before a small one."""
        if ("big", v, n, style) not in self._memo:
            groups = [Cgroup(v, 1, 8, range(n, 2 * n)), Cgroup(v, 2, 16, range(n))] if v in CG_VERSIONS else []
            one = Sample(v, sstat(v, "plain", 1), [task(v, style, k % 50) for k in range(n)], groups, level=1)
            self._memo["big", v, n, style] = [one, plain_sample(v, 2, 1)]
        return self._memo["big", v, n, style]

    def run_case(self, case, cov: Cov) -> None:
        kind, v = case[0], case[1]
        base = self.base(v)
        limit, own = None, False
        if kind == "late":
            _kind, _v, n, i, pos, val, limit = case
            samples, which = self.many(v, n), n - 2
            sections = list(samples[which].sections)
            sections[i] = sections[i][:pos] + bytes([val]) + sections[i][pos + 1 :]
            record = samples[which].record
            what = f"{v}: byte {pos} of {SECTIONS[i]} of sample {which} of {n} set to {val:#x}, max_samples={limit}"
        elif kind in ("big", "bigshort"):
            _kind, _v, n, style, i, pos = case
            samples, which = self.big(v, n, style), 0
            sections = list(samples[0].sections)
            rec = bytearray(samples[0].record)
            if kind == "big":
                sections[i] = sections[i][:pos] + bytes([sections[i][pos] ^ 4]) + sections[i][pos + 1 :]
            else:
                sections[i] = deflate(zlib.decompress(sections[i])[:-pos], 1)
                layout(v).put(rec, "Record", (["scomplen", "pcomplen", "ccomplen", "icomplen"][i],), len(sections[i]))
            record = bytes(rec)
            what = f"{v}: {SECTIONS[i]} of {n} {style} tasks {'changed at byte' if kind == 'big' else 'short by'} {pos}"
        elif kind == "flip":
            which, i, pos, val = case[2:6]
            limit, own = case[6:] or (None, False)
            samples = base[: 2 if which == 0 else 3]
            sections = list(samples[which].sections)
            sec = bytearray(sections[i])
            sec[pos] = val
            sections[i] = bytes(sec)
            record = samples[which].record
            what = f"{v}: byte {pos} of {SECTIONS[i]} of sample {which} set to {val:#x}"
        elif kind == "short":
            which, name, n = 0, case[2], case[3]
            samples = base[:2]
            i = SECTIONS.index(name)
            sections = list(samples[0].sections)
            sections[i] = deflate(zlib.decompress(sections[i])[:n])
            field = ["scomplen", "pcomplen", "ccomplen", "icomplen"][i]
            rec = bytearray(samples[0].record)
            layout(v).put(rec, "Record", (field,), len(sections[i]))
            record = bytes(rec)
            what = f"{v}: {name} holding only {n} bytes"
        else:
            which, more, groups = 0, case[2], case[3]
            samples = base[:2]
            sections = list(samples[0].sections)
            rec = bytearray(samples[0].record)
            field = "ncgroups" if groups else ("nlist" if v == "1.26" else "ndeviat")
            lay = layout(v)
            try:
                lay.put(rec, "Record", (field,), lay.get(rec, "Record", (field,)) + more)
            except Exception:  # pylint: disable=broad-except
                return  # does not fit the field
            record = bytes(rec)
            what = f"{v}: {more} more entries declared in {field} than stored"
        data = header(v) + b"".join(s.blob for s in samples[:which]) + record + b"".join(sections) + b"".join(s.blob for s in samples[which + 1 :])
        for mode in MODES:
            self.judge(cov, data, samples, which, mode, what, must_fail=kind in ("short", "count", "bigshort"), limit=limit, own=own)
            cov.evaluations += 1
            cov.seen((tuple(map(str, case)), mode))
        cov.note(case, 1)

    def judge(self, cov, data, samples, which, mode, what, must_fail, limit, own):
        api = lib()
        stream = io.BytesIO(data)
        hdr = None if own else expect_ok("get_header", api.get_header, stream)
        more = {} if limit is None else {"max_samples": limit}
        out, exc = drain(expect_ok("generate_statistics", api.generate_statistics, stream, hdr, raise_on_truncation=mode, **more))
        samples = samples[:limit]
        what = f"{what} (raise_on_truncation={mode})"
        check(exc is None or isinstance(exc, (zlib.error, ValueError)), lambda: f"{what}: {exc!r}")
        check(len(out) >= which, lambda: f"{what}: only {len(out)} samples, {which} precede the damage")
        if which >= len(samples):
            check(len(out) == len(samples) and exc is None, lambda: f"{what}: {len(out)} samples, then {exc!r}")
            result = "not reached"
        elif len(out) > which:
            check(len(out) == len(samples) and exc is None and not must_fail, lambda: f"{what}: {len(out)} samples of {len(samples)}, then {exc!r}")
            result = "returned exactly"
        else:
            result = "refused"
            if must_fail:
                # Not a truncation: there is nothing to tolerate.
                check(isinstance(exc, ValueError), lambda: f"{what}: {exc!r} instead of ValueError")
            else:
                check(exc is not None or not mode, lambda: f"{what}: sample {which} is missing without an error")
                check(mode or not isinstance(exc, zlib.error), lambda: f"{what}: tolerance requested, but {exc!r}")
        for i, got in enumerate(out):
            stored = samples[i]
            exp = want(stored)
            if i == which:
                exp = (snap(got)[0],) + exp[1:]  # the record itself may legitimately carry the altered length
            msg = diff(snap(got), exp)
            check(msg is None, lambda: f"{what}: sample {i}: {msg}")
        cov.outcomes[f"{result}, {type(exc).__name__ if exc else 'ended'} (strict={mode})"] += 1
