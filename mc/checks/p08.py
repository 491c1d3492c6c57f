"""P08: the version number alone selects the layout."""

from __future__ import annotations

import io
import struct

from mc.core import Check, Cov, Violation, attempt, check, expect_ok
from mc.oracle import CG_VERSIONS, VERSIONS, aversion, compare_attrs, diff, drain, header, layout, lib, plain_sample, raw, snap, want

NEWEST = VERSIONS[-1]


def version_of(code: int) -> str:
    return f"{(code >> 8) & 0x7F}.{code & 0xFF}"


def same_lengths(v: str, sizes: str, data: bytes) -> bool:
    """Do the lengths stored in a header that was built with the sizes of another version equal those of version v?"""
    lay = layout(v)
    pairs = {"rawheadlen": "Header", "rawreclen": "Record", "sstatlen": "SStat", "tstatlen": "TStat", "pstatlen": "TStat", "cstatlen": "CStat"}
    return all(lay.get(data, "Header", (f.name,)) == lay.size(pairs[f.name]) for f in lay.roots["Header"].fields if f.name in pairs)


class CHECK(Check):
    prop = "P08"
    level = "exploration"
    rule = (
        "One evaluation opens one header (one of the 65,536 version encodings x the structure lengths of one version, with or without the check) and compares "
        "acceptance, decoded version and layout with the specification; accepted ones are used to read a sample. Non-trivial: all; distinct by encoding, lengths, mode."
    )
    bounds = {
        "encodings": "all 65,536 values of the version field x the structure lengths of the newest and one other version (majors 1 and 2, and every 7th value: of all 11 "
        "versions; thorough: all x all), and all 65,536 values without the check",
        "histories": "all 65,536 encodings in one process in 4 orders, behind and alternating with all supported versions",
        "samples": "every accepted unsupported encoding, and every supported one with and without flag bit, reads a log of the chosen layout; all fields are compared for the supported ones",
    }

    def tasks(self):
        sweeps = [["sweep", order, how] for order in ("up", "down", "minor", "bits") for how in ("first", "between")]
        return sweeps + [["range", a << 8] for a in range(256)] + [["own", v] for v in VERSIONS]

    def cases(self, task_):
        if task_[0] == "sweep":
            yield task_
        elif task_[0] == "range":
            for code in range(task_[1], task_[1] + 256):
                yield ["code", code]
        else:
            for flag in (0x8000, 0):
                yield ["own", task_[1], flag]

    _memo: dict = {}

    def base(self, v):
        if v not in self._memo:
            smp = plain_sample(v, 4, 2)
            self._memo[v] = bytearray(header(v)), smp
        return self._memo[v]

    def run_case(self, case, cov: Cov) -> None:
        api = lib()
        if case[0] == "sweep":
            self.sweep(case[1], case[2], cov)
            return
        if case[0] == "own":
            _kind, v, flag = case
            data = header(v, aversion=aversion(v, flag))
            hdr = expect_ok(f"{v}", api.get_header, io.BytesIO(data))
            self.read(cov, hdr, v, f"{v} (flag {flag:#x})", deep=True)
            compare_attrs(hdr, layout(v).roots["Header"], data)
            for dense in ("dense", "ones"):
                smp = plain_sample(v, 1, 2, kind=dense)
                out, exc = drain(api.generate_statistics(io.BytesIO(smp.blob), hdr))
                check(exc is None and len(out) == 1, lambda: f"{v}: {exc!r}")
                lay = layout(v)
                compare_attrs(out[0][1], lay.roots["SStat"], smp.sstat, path=f"{v} sstat", max_elems=8)
                for got, exp in zip(out[0][2], smp.tasks):
                    compare_attrs(got, lay.roots["TStat"], exp, path=f"{v} tstat")
            cov.evaluations += 1
            cov.seen(("own", v, flag))
            return
        code = case[1]
        v = version_of(code)
        chosen = v if v in VERSIONS else NEWEST
        if code % 7 == 0 or v in VERSIONS or v.startswith(("1.", "2.")):
            sizes = VERSIONS
        else:
            sizes = VERSIONS if self.thorough else [NEWEST, VERSIONS[code % 10]]
        for other in sizes:
            buf = self.base(other)[0]
            struct.pack_into("<H", buf, 4, code)
            data = bytes(buf)
            fits = same_lengths(chosen, other, data)
            kind, hdr = attempt(api.get_header, io.BytesIO(data))
            what = f"version field {code:#06x} ({v}) with the lengths of {other}"
            cov.evaluations += 1
            cov.seen((code, other))
            if not fits:
                if kind == "ok" or not isinstance(hdr, ValueError):
                    raise Violation(f"{what}: {hdr!r} instead of ValueError")
                cov.outcomes["rejected"] += 1
            else:
                if kind == "exc":
                    raise Violation(f"{what}: rejected: {hdr!r}")
                cov.outcomes["accepted, supported" if v in VERSIONS else "accepted, other"] += 1
                self.version(hdr, code, what)
                check(raw(hdr) == data, f"{what}: header bytes changed")
                self.read(cov, hdr, chosen, what)
        # Without the check every length is accepted, and the version still selects the layout.
        buf = self.base(NEWEST if code % 2 else VERSIONS[0])[0]
        struct.pack_into("<H", buf, 4, code)
        hdr = expect_ok(f"{code:#06x} without check", api.get_header, io.BytesIO(bytes(buf)), check_compatibility=False)
        self.version(hdr, code, f"version field {code:#06x} without check")
        names = [f.name for f in layout(chosen).roots["Header"].fields]
        check(all(hasattr(hdr, n) for n in names), lambda: f"version field {code:#06x}: not the header layout of {chosen}")
        cov.evaluations += 1
        cov.seen((code, None))
        cov.note(case, 1)

    def sweep(self, order, how, cov):
        """All encodings one after the other in one process, behind (or alternating with) the supported ones."""
        api = lib()
        codes = {
            "up": range(65536), "down": range(65535, -1, -1), "minor": [a << 8 | b for b in range(256) for a in range(256)],
            "bits": [int(f"{i:016b}"[::-1], 2) for i in range(65536)],
        }[order]
        own = [(v, aversion(v, flag)) for flag in (0x8000, 0) for v in VERSIONS]
        heads = [header(v, aversion=code) for v, code in own]
        fields = {v: [f.name for f in layout(v).roots["Header"].fields] for v in VERSIONS}

        def supported(num):
            v, code = own[num % len(own)]
            hdr = expect_ok(f"{v} in between", api.get_header, io.BytesIO(heads[num % len(own)]))
            self.version(hdr, code, f"{v} in between")
            check(all(hasattr(hdr, n) for n in fields[v]), lambda: f"{v}: not its own header layout after {num} others")
            return hdr

        for num in range(len(own)):
            self.read(cov, supported(num), own[num][0], f"{own[num][0]} at first")
        buf = bytearray(header(NEWEST))
        for num, code in enumerate(codes):
            struct.pack_into("<H", buf, 4, code)
            what = f"version field {code:#06x} without check, {num} headers after the first"
            hdr = expect_ok(what, api.get_header, io.BytesIO(bytes(buf)), check_compatibility=False)
            self.version(hdr, code, what)
            if how == "between":
                supported(num)
            cov.evaluations += 1
            cov.seen((order, how, code))
        for num in range(len(own)):
            self.read(cov, supported(num), own[num][0], f"{own[num][0]} in the end")
        cov.outcomes["sweep over all encodings"] += 1

    def version(self, hdr, code, what):
        major, minor = (code >> 8) & 0x7F, code & 0xFF
        if code % 2:  # The order in which the attributes are first asked for must not matter.
            got = (hdr.semantic_version, hdr.major_version, hdr.minor_version)
        else:
            got = (hdr.minor_version, hdr.major_version, hdr.semantic_version)[::-1]
        check(got == (f"{major}.{minor}", major, minor), lambda: f"{what}: version reported as {got}")
        check(isinstance(hdr, lib().Header), f"{what}: header is not of a published type")

    def read(self, cov, hdr, v, what, deep=False):
        api = lib()
        smp = self.base(v)[1]
        out, exc = drain(expect_ok("generate_statistics", api.generate_statistics, io.BytesIO(smp.blob), hdr))
        check(exc is None and len(out) == 1, lambda: f"{what}: {len(out)} samples, {exc!r}")
        msg = diff(snap(out[0]), want(smp))
        check(msg is None, lambda: f"{what}: not read with the layout of {v}: {msg}")
        record, stat, tasks, groups = out[0]
        lay = layout(v)
        compare_attrs(record, lay.roots["Record"], smp.record, path=f"{what} record")
        check(isinstance(record, api.Record), f"{what}: record is not of a published type")
        check(isinstance(stat, api.SStat), f"{what}: sstat is not of a published type")
        check(all(isinstance(t, api.TStat) for t in tasks), f"{what}: tasks are not of a published type")
        check(len(groups) == (1 if v in CG_VERSIONS else 0), f"{what}: {len(groups)} cgroups")
        for grp in groups:
            check(isinstance(grp, api.CGChainer) and isinstance(grp.cstat, api.CStat), f"{what}: cgroup is not of a published type")
        compare_attrs(tasks[0], lay.roots["TStat"], smp.tasks[0], path=f"{what} task")
        if deep:
            compare_attrs(stat, lay.roots["SStat"], smp.sstat, path=f"{what} sstat", max_elems=8)
            for got, exp in zip(groups, smp.cgroups):
                compare_attrs(got.cstat, lay.roots["CStat"], exp.stat, path=f"{what} cstat")
        cov.extra["samples read"] += 1
