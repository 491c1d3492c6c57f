"""P18: descriptive metadata never influences what is read."""

from __future__ import annotations

import io
import itertools
import struct

from mc.core import Check, Cov, check, expect_ok
from mc.layout import SCALARS
from mc.oracle import CG_VERSIONS, VERSIONS, Cgroup, Sample, compare_attrs, diff, drain, header, layout, lib, plain_sample, raw, snap, task, want
from mc.synth import deflate

FRAMING = {
    "Header": {"magic", "aversion", "rawheadlen", "rawreclen", "sstatlen", "tstatlen", "pstatlen", "cstatlen"},
    "Record": {"scomplen", "pcomplen", "ccomplen", "icomplen", "ncgroups", "ncgpids", "coriglen"},
    "CStat": {"structlen", "nprocs"},
}
# What systems really store: no such word or quantity may mean anything to the readers.
WORDS = (
    b"Linux linux Darwin FreeBSD SunOS AIX GNU x86_64 amd64 i386 i486 i586 i686 ia64 aarch64 aarch64_be arm64 armv5tel armv6l armv7l armv8l arm ppc ppc64 ppc64le s390 s390x mips mips64 mipsel sparc sparc64 "
    b"riscv32 riscv64 loongarch64 alpha hppa m68k sh4 unknown localhost localhost.localdomain (none) none host-1 atop test example.com 2.6.9 2.6.18-8.el5 2.6.32 3.10.0 4.18.0 5.4.0 5.10.0 6.1.0 "
    b"6.5.0-rc1 #1 #SMP 1.26 1.27 2.0 2.1 2.2 2.3 2.4 2.5 2.6 2.7 2.8 2.9 2.10 2.11 2.12 system.slice user.slice init.scope docker kubepods".split()
) + [b"#1 SMP", b"#1 SMP PREEMPT_DYNAMIC Debian 6.1.0-1", b" ", b"\x1f\x8b", b"\xc3\xa4", b"\n"]
USUAL = sorted({
    *range(2, 72), 90, 96, 99, 100, 101, 120, 128, 150, 180, 200, 250, 256, 300, 360, 500, 512, 600, 720, 900, 999, 1000, 1001, 1024, 1023, 1200, 1440, 1800, 2000, 2048, 3600, 4095, 4096, 4097, 7200,
    8192, 10000, 16384, 32767, 32768, 43200, 65536, 86399, 86401, 100000, 131072, 262144, 524288, 10**6, 1 << 20, 1 << 21, 10**7, 10**8, 10**9, 946684800, 1234567890, 1500000000, 1600000000, 1700000000,
    1700000001, 1700003600, 1800000000, 1900000000, 2145916800, 0xFEEDBEEF, 0xBEEFFEED, 0xDEADBEEF,
})
CROSS = {
    "Header": {"hertz": (0, 1, 100, 1000), "pagesize": (0, 1, 4096, 65536), "supportflags": (0, 1, 0x20, 0x3F, 0x7FFF), "osrel": (0, 2, 6), "osvers": (0, 6), "ossub": (0, 32), "pidwidth": (0, 5, 7)},
    "Record": None,
}
# Statistics of tasks which tempt readers to leave them out, or to read them in another way.
PECULIAR = [
    {"state": b"E", "excode": 9}, {"isproc": 0, "tgid": 1000}, {"name": b"", "cmdline": b""}, {"pid": 0}, {"tgid": 0}, {"pid": 0, "tgid": 0, "ppid": 0}, {"ppid": 2, "cmdline": b""},
    {"pid": -1}, {"state": b""}, {"ruid": -1, "euid": -1, "rgid": -1}, {"container": b"0123456789ab", "ctid": 1}, {"vpid": 1}, {"btime": 0}, {"elaps": -1}, {"nthr": 0}, {"isproc": 1, "nthr": 99},
    {"utsname": b"pod-1", "cid": b"0123456789ab", "cgroupix": -1},
]


def framing(v, role):
    names = set(FRAMING[role])
    if role == "Record":
        names.add("nlist" if v == "1.26" else "ndeviat")
    return names


class CHECK(Check):
    prop = "P18"
    level = "exploration"
    rule = (
        "One evaluation reads one log in which one (or two) descriptive fields of the header, of a record or of a cgroup hold a given value, and compares all samples, the number "
        "of tasks and cgroups, and the stream position with the unmodified log's. Non-trivial: the value differs from the usual one; distinct by version, fields, values."
    )
    bounds = {
        "values": "per field: 0, 1, all ones, every single bit, minimum and maximum, neighbours of the stored counts; record.flags and header.supportflags: all 16-bit values "
        "for 1.26 (others: all 10-bit values, thorough: 16-bit)",
        "usual": f"every number field additionally {len(USUAL)} usual quantities (small numbers, rates, page sizes, times), every text field {len(WORDS)} words (systems, machines, hosts, releases)",
        "cross": "header clock rate, page size, flags, release and widths (usual values and 0) x every record field (0, 1, all ones, 0x20), together in one log",
        "contents": f"the changed sample holds usual tasks, {4 + len(PECULIAR)} tasks that look unused, exited, anonymous or foreign, one of them twice, and cgroups with and without processes",
        "surplus": "every record field and value also on samples whose sections hold three tasks, a cgroup and system bytes more than declared",
        "pairs": "all pairs of record fields x (0, 1, all ones) each, all pairs of header fields x (0, all ones)",
    }

    def tasks(self):
        out = []
        for v in VERSIONS:
            for role in ("Header", "Record") + (("CStat",) if v in CG_VERSIONS else ()):
                out.append(["single", v, role])
                out.append(["usual", v, role])
            out.append(["cross", v, "Record"])
            out.append(["pairs", v, "Record"])
            out.append(["pairs", v, "Header"])
            top = 65536 if v == "1.26" or self.thorough else 1024
            for start in range(0, top, 8192):
                out.append(["range", v, "Record", "flags", start, min(top, start + 8192)])
                out.append(["range", v, "Header", "supportflags", start, min(top, start + 8192)])
        return out

    def fields(self, v, role):
        """Descriptive leaves of a role: [(offset, size, name)]."""
        keep = framing(v, role)
        out = []
        for path, off, fld in layout(v).leaves(role, max_elems=3, future=True):
            if path[-1] in keep or path[0] in keep:
                continue
            size = fld.size if fld.kind == "char" else fld.elem
            if size:
                out.append((off, size, ".".join(map(str, path)), fld.kind))
        return out

    def values(self, size, kind, n):
        if kind == "char":
            vals = [bytes(size), b"\xff" * size, b"A" * size, b"\x01" + bytes(size - 1), bytes([0x80, 0]) * (size // 2) + bytes(size % 2)]
            return list(dict.fromkeys(vals))
        vals = [0, 1, (1 << (8 * size)) - 1] + [1 << b for b in range(8 * size)] + [(1 << (8 * size - 1)) - 1]
        vals += [n - 1, n, n + 1, 2 * n, 255, 256, 65535, 86400]
        vals = [val & ((1 << (8 * size)) - 1) for val in vals]
        return [val.to_bytes(size, "little") for val in dict.fromkeys(vals)]

    def cases(self, task_):
        kind, v, role = task_[:3]
        if kind == "single":
            for off, size, name, ckind in self.fields(v, role):
                for val in self.values(size, ckind, 2):
                    yield [v, role, [[off, val.hex(), name]]]
            if role == "Record":
                # Sections that hold more than is declared: what lies behind is not read, whatever the record describes.
                for off, size, name, ckind in self.fields(v, role):
                    for val in self.values(size, ckind, 2):
                        for extra in ("tasks", "no tasks", "all"):
                            yield [v, role, [[off, val.hex(), name]], extra]
        elif kind == "usual":
            for off, size, name, ckind in self.fields(v, role):
                if ckind == "char":
                    for word in WORDS:
                        if len(word) <= size:
                            yield [v, role, [[off, (word + bytes(size - len(word))).hex(), name]]]
                else:
                    seen = set(self.values(size, ckind, 2))
                    for val in USUAL:
                        if val < 1 << 8 * size and val.to_bytes(size, "little") not in seen:
                            yield [v, role, [[off, val.to_bytes(size, "little").hex(), name]]]
        elif kind == "cross":
            for hoff, hsize, hname, _kind in self.fields(v, "Header"):
                for hval in CROSS["Header"].get(hname, ()):
                    for off, size, name, ckind in self.fields(v, "Record"):
                        vals = [0, 1, 0x20, (1 << 8 * size) - 1] if ckind != "char" else [0]
                        for val in vals:
                            yield [v, "Both", [[hoff, hval.to_bytes(hsize, "little").hex(), hname], [off, val.to_bytes(size, "little").hex(), name]]]
        elif kind == "range":
            off, fld = layout(v).locate(role, (task_[3],))
            for val in range(task_[4], task_[5]):
                if val < 1 << (8 * fld.elem):
                    yield [v, role, [[off, val.to_bytes(fld.elem, "little").hex(), task_[3]]]]
        else:
            flds = self.fields(v, role)
            for (o1, s1, n1, _k1), (o2, s2, n2, _k2) in itertools.combinations(flds, 2):
                for a, b in itertools.product((0, 1, 255) if role == "Record" else (0, 255), repeat=2):
                    one = bytes([a] * s1) if a != 1 else b"\x01" + bytes(s1 - 1)
                    two = bytes([b] * s2) if b != 1 else b"\x01" + bytes(s2 - 1)
                    yield [v, role, [[o1, one.hex(), n1], [o2, two.hex(), n2]]]

    _memo: dict = {}

    def base(self, v):
        """A cheap log: an almost empty system section, usual tasks and cgroups and some that look unused, broken or foreign."""
        if v not in self._memo:
            usual = plain_sample(v, 1, 2, cgs=[[8, [1, 2]], [16, [3]]])
            odd = [task(v, kind, 1) for kind in ("zero", "ones", "ramp", "text")]
            # An exited one, a thread, one without a name, without an identifier, of the kernel, seen twice.
            for num, changes in enumerate(PECULIAR):
                one = bytearray(task(v, "plain", 7 + num))
                for name, val in changes.items():
                    found = [(off, fld) for path, off, fld in layout(v).leaves("TStat") if path == ("gen", name)]
                    for off, fld in found:
                        size = fld.size if fld.kind == "char" else fld.elem
                        one[off : off + size] = val.ljust(size, b"\0") if isinstance(val, bytes) else (val & ((1 << 8 * size) - 1)).to_bytes(size, "little")
                odd.append(bytes(one))
            groups = [*usual.cgroups, *([Cgroup(v, 3, 0, []), Cgroup(v, 4, 8, [0, -1, 1])] if v in CG_VERSIONS else [])]
            first = Sample(v, usual.sstat, [usual.tasks[0], *odd, odd[-1], usual.tasks[1]], groups, rec={"curtime": 1_700_000_001, "interval": 2})
            self._memo[v] = [first, plain_sample(v, 2, 1)]
        return self._memo[v]

    def surplus(self, v, extra):
        """A log whose sections hold more than its first record declares, and how the library reads it."""
        if (v, extra) not in self._memo:
            num = 0 if extra == "no tasks" else 2
            full = plain_sample(v, 1, num, cgs=[[8, [1, 2]], [16, [3]]])
            wide = plain_sample(v, 1, num + 3, cgs=[[8, [1, 2]], [16, [3]], [8, [9, 10]]])
            sections = [*full.sections]
            sections[1] = wide.sections[1]
            if extra == "all":
                sections[0] = deflate(full.sstat + task(v, "plain", 5), 1)
                if v in CG_VERSIONS:
                    sections[2:] = wide.sections[2:]
            rec = bytearray(full.record)
            for name, sec in zip(("scomplen", "pcomplen", "ccomplen", "icomplen"), sections):
                layout(v).put(rec, "Record", (name,), len(sec))
            two = plain_sample(v, 2, 1)
            stream = io.BytesIO(header(v) + bytes(rec) + b"".join(sections) + two.blob)
            out, exc = drain(expect_ok("generate_statistics", lib().generate_statistics, stream, max_samples=1))
            self._memo[v, extra] = (bytes(rec), sections, snap(out[0]) if out else None, two, repr(exc))
        return self._memo[v, extra]

    def run_case(self, case, cov: Cov) -> None:
        if len(case) == 4:
            self.run_surplus(case, cov)
            return
        v, role, changes = case
        api = lib()
        one, two = self.base(v)
        head = bytearray(header(v))
        rec = bytearray(one.record)
        sections = one.sections
        exp = want(one)
        if role == "CStat":
            first = bytearray(one.cgroups[0].stat)
            for off, val, _name in changes:
                first[off : off + len(val) // 2] = bytes.fromhex(val)
            body = deflate(bytes(first) + one.cgroups[0].raw[len(first) :] + b"".join(c.raw for c in one.cgroups[1:]), 1)
            sections = one.sections[:2] + [body] + one.sections[3:]
            layout(v).put(rec, "Record", ("ccomplen",), len(body))
            exp = (bytes(rec), exp[1], exp[2], ((bytes(first), exp[3][0][1]), *exp[3][1:]))
        else:
            for num, (off, val, _name) in enumerate(changes):
                target = (head, rec)[num] if role == "Both" else head if role == "Header" else rec
                target[off : off + len(val) // 2] = bytes.fromhex(val)
            exp = (bytes(rec),) + exp[1:]
        what = f"{v}: {role} " + ", ".join(f"{name}=0x{val[:40]}" for _off, val, name in changes)
        data = bytes(head) + bytes(rec) + b"".join(sections) + two.blob
        stream = io.BytesIO(data)
        hdr = expect_ok(f"{what}: header", api.get_header, stream)
        check(raw(hdr) == bytes(head), f"{what}: header bytes differ")
        # Only the changed sample is read with all checks; a second reader must find the next one at the right place.
        out, exc = drain(api.generate_statistics(stream, hdr, max_samples=1))
        check(exc is None and len(out) == 1, lambda: f"{what}: {len(out)} samples, {exc!r}")
        msg = diff(snap(out[0]), exp)
        check(msg is None, lambda: f"{what}: {msg}")
        pos = len(data) - len(two.blob)
        check(stream.tell() == pos, lambda: f"{what}: stream at {stream.tell()} instead of {pos}")
        if len(changes) == 1:
            rest, exc = drain(api.generate_statistics(stream, hdr))
            check(exc is None and len(rest) == 1, lambda: f"{what}: then {len(rest)} samples, {exc!r}")
            msg = diff(snap(rest[0]), want(two))
            check(msg is None, lambda: f"{what}: next sample: {msg}")
        cov.evaluations += 1
        cov.outcomes[f"{role}, {len(changes)} field(s)"] += 1
        cov.seen((v, role, str(changes)))
        cov.note(case, 1)

    def run_surplus(self, case, cov):
        v, role, changes, extra = case
        rec, sections, exp, two, error = self.surplus(v, extra)
        rec = bytearray(rec)
        for off, val, _name in changes:
            rec[off : off + len(val) // 2] = bytes.fromhex(val)
        what = f"{v} with more than declared ({extra}): {role} " + ", ".join(f"{name}=0x{val[:40]}" for _off, val, name in changes)
        stream = io.BytesIO(header(v) + bytes(rec) + b"".join(sections) + two.blob)
        out, exc = drain(expect_ok("generate_statistics", lib().generate_statistics, stream, max_samples=1))
        if exp is None:
            check(not out and repr(exc) == error, lambda: f"{what}: {len(out)} samples, {exc!r} instead of {error}")
        else:
            check(exc is None and len(out) == 1, lambda: f"{what}: {len(out)} samples, {exc!r}")
            msg = diff(snap(out[0]), (bytes(rec), *exp[1:]))
            check(msg is None, lambda: f"{what}: {msg}")
            rest, exc = drain(lib().generate_statistics(stream, expect_ok("header", lib().get_header, io.BytesIO(header(v)))))
            check(exc is None and len(rest) == 1 and diff(snap(rest[0]), want(two)) is None, lambda: f"{what}: then {len(rest)} samples, {exc!r}")
        cov.evaluations += 1
        cov.outcomes["sections with more than declared" + ("" if exp else ": refused")] += 1
        cov.seen((v, role, str(changes), extra))
        cov.note(case, 1)
