"""Builds byte-exact synthetic logs from abstract samples, independently of /repo."""

from __future__ import annotations

import functools
import random
import struct
import zlib

from mc.layout import CG_VERSIONS, layout

MAGIC = 0xFEEDBEEF


def aversion(version: str, flag: int = 0x8000) -> int:
    major, minor = (int(x) for x in version.split("."))
    return flag | major << 8 | minor


@functools.lru_cache(maxsize=None)
def pattern(kind: str, seed: int, size: int) -> bytes:
    """Deterministic content. 'dense' is incompressible, 'high' has every top bit set, 'text' is NUL free."""
    rng = random.Random(f"{kind}/{seed}/{size}")
    if kind == "zero":
        return bytes(size)
    if kind == "ones":
        return b"\xff" * size
    if kind == "dense":
        return rng.randbytes(size)
    if kind == "high":
        return bytes(b | 0x80 for b in rng.randbytes(size))
    if kind == "text":
        return bytes(33 + b % 90 for b in rng.randbytes(size))
    if kind == "ramp":  # little compressible but mostly small values
        return bytes((i * 7 + seed) & 0x3F for i in range(size))
    if kind == "sparse":  # a few marked bytes, so that it compresses to very little
        buf = bytearray(size)
        for i in range(24):
            buf[rng.randrange(size)] = 1 + rng.randrange(255)
        return bytes(buf)
    raise AssertionError(kind)


@functools.lru_cache(maxsize=4096)
def deflate(raw: bytes, level: int = 6) -> bytes:
    return zlib.compress(raw, level)


def header(version: str, **over) -> bytes:
    """A valid header. Keyword overrides set named fields; 'layout_of' picks another version's lengths."""
    lay = layout(over.pop("layout_of", version))
    buf = bytearray(lay.size("Header"))
    vals = {
        "magic": MAGIC, "aversion": aversion(version), "rawheadlen": lay.size("Header"), "rawreclen": lay.size("Record"),
        "hertz": 100, "sstatlen": lay.size("SStat"), "pagesize": 4096, "supportflags": 0x35, "osrel": 5, "osvers": 10,
        "ossub": 104,
    }
    vals["tstatlen" if "tstatlen" in lay.roots["Header"].by_name else "pstatlen"] = lay.size("TStat")
    if "cstatlen" in lay.roots["Header"].by_name:
        vals["cstatlen"] = lay.size("CStat")
        vals["supportflags"] = 0x135
    if "pidwidth" in lay.roots["Header"].by_name:
        vals["pidwidth"] = 5
    uts = {"sysname": b"Linux", "nodename": b"host-1", "release": b"6.1.0", "version": b"#1 SMP", "machine": b"x86_64", "domain": b"(none)"}
    for key, val in uts.items():
        lay.put(buf, "Header", ("utsname", key), val)
    vals.update(over)
    for key, val in vals.items():
        lay.put(buf, "Header", key if isinstance(key, tuple) else (key,), val)
    return bytes(buf)


def task(version: str, kind: str, seed: int) -> bytes:
    lay = layout(version)
    size = lay.size("TStat")
    if kind != "plain":
        return pattern(kind, seed, size)
    buf = bytearray(size)
    lay.put(buf, "TStat", ("gen", "pid"), 1000 + seed)
    lay.put(buf, "TStat", ("gen", "ppid"), 1 + seed % 7)
    lay.put(buf, "TStat", ("gen", "name"), b"proc%d" % seed)
    lay.put(buf, "TStat", ("gen", "state"), b"RSDZT"[seed % 5 : seed % 5 + 1])
    lay.put(buf, "TStat", ("gen", "cmdline"), b"/bin/proc%d --arg" % seed)
    lay.put(buf, "TStat", ("cpu", "utime"), 10 + seed)
    lay.put(buf, "TStat", ("mem", "vmem"), 100000 + seed)
    last = [p for p, _o, f in lay.leaves("TStat") if f.kind == "llong"][-1]
    lay.put(buf, "TStat", last, 77 + seed)
    return bytes(buf)


@functools.lru_cache(maxsize=None)
def sstat(version: str, kind: str, seed: int) -> bytes:
    lay = layout(version)
    size = lay.size("SStat")
    if kind != "plain":
        return pattern(kind, seed, size)
    buf = bytearray(size)
    lay.put(buf, "SStat", ("cpu", "nrcpu"), 2)
    lay.put(buf, "SStat", ("cpu", "all", "stime"), 11 + seed)
    lay.put(buf, "SStat", ("cpu", "all", "itime"), 600 + seed)
    for i in range(2):
        lay.put(buf, "SStat", ("cpu", "cpu", i, "utime"), 21 + seed + i)
    lay.put(buf, "SStat", ("mem", "physmem"), 2000000 + seed)
    lay.put(buf, "SStat", ("intf", "nrintf"), 1)
    lay.put(buf, "SStat", ("intf", "intf", 0, "name"), b"eth%d" % (seed % 10))
    lay.put(buf, "SStat", ("dsk", "ndsk"), 1)
    lay.put(buf, "SStat", ("dsk", "dsk", 0, "name"), b"sd%d" % (seed % 10))
    lay.put(buf, "SStat", ("www", "iworkers"), 5 + seed)
    return bytes(buf)


class Cgroup:
    """One stored cgroup: statistics, trailing bytes (the name and padding), and its process IDs."""

    def __init__(self, version: str, seed: int, extra: int, pids, kind: str = "plain"):
        lay = layout(version)
        size = lay.size("CStat")
        buf = bytearray(size if kind == "plain" else pattern(kind, seed, size))
        lay.put(buf, "CStat", ("gen", "structlen"), size + extra)
        lay.put(buf, "CStat", ("gen", "nprocs"), len(pids))
        if kind == "plain":
            lay.put(buf, "CStat", ("gen", "sequence"), seed)
            lay.put(buf, "CStat", ("gen", "namelen"), max(0, extra - 1))
            lay.put(buf, "CStat", ("cpu", "utime"), 5000 + seed)
            lay.put(buf, "CStat", ("dsk", "fullpres"), 9000 + seed)
        self.stat = bytes(buf)
        # The trailing name is deliberately full of non-zero bytes which would be visible if misread as statistics.
        self.raw = self.stat + bytes(0x61 + (seed + i) % 26 for i in range(max(0, extra - 1))) + bytes(min(extra, 1))
        self.pids = list(pids)


class Sample:
    """One stored sample: expected objects plus the exact bytes it occupies in a log."""

    def __init__(self, version, sstat_raw, tasks=(), cgroups=(), rec=None, level=6, stored_cgroups=True, encoder=None):
        lay = layout(version)
        self.version = version
        self.sstat = sstat_raw
        self.tasks = list(tasks)
        self.cgroups = list(cgroups)
        enc = encoder or (lambda raw: deflate(raw, level))
        self.sections = [enc(self.sstat), enc(b"".join(self.tasks))]
        vals = {
            "curtime": 1_700_000_000, "flags": 0x20, "interval": 1, "scomplen": len(self.sections[0]),
            "pcomplen": len(self.sections[1]),
        }
        n = len(self.tasks)
        by = lay.roots["Record"].by_name
        vals["nlist" if "nlist" in by else "ndeviat"] = n
        # Totals that a reader could mistake for the number of stored tasks.
        for key, val in (("npresent", n + 5), ("ntask", n + 7), ("nactproc", n + 3), ("totproc", n + 9), ("nexit", 1), ("totrun", 2), ("totslpi", n + 1)):
            if key in by:
                vals[key] = val
        if version in CG_VERSIONS:
            vals["ncgroups"] = len(self.cgroups)
            if stored_cgroups:
                raw_c = b"".join(c.raw for c in self.cgroups)
                pids = [p for c in self.cgroups for p in c.pids]
                raw_p = struct.pack(f"<{len(pids)}i", *pids)
                self.sections += [enc(raw_c), enc(raw_p)]
                vals.update(ccomplen=len(self.sections[2]), coriglen=len(raw_c), ncgpids=len(pids), icomplen=len(self.sections[3]))
            else:
                assert not self.cgroups
                vals.update(ccomplen=0, coriglen=0, ncgpids=0, icomplen=0)
        vals.update(rec or {})
        buf = bytearray(lay.size("Record"))
        for key, val in vals.items():
            lay.put(buf, "Record", key if isinstance(key, tuple) else (key,), val)
        self.record = bytes(buf)
        self.blob = self.record + b"".join(self.sections)

    def __len__(self):
        return len(self.blob)


def plain_sample(version: str, seed: int, ntasks: int = 1, kind: str = "plain", cgs=None, **kw) -> Sample:
    """The usual small sample; 2.11+ gets one cgroup unless told otherwise."""
    if version not in CG_VERSIONS:
        groups = []
    elif cgs is None:
        groups = [Cgroup(version, seed, 8, [1, 100 + seed])]
    else:
        groups = [Cgroup(version, seed * 10 + i, extra, pids) for i, (extra, pids) in enumerate(cgs)]
    rec = {"curtime": 1_700_000_000 + seed, "interval": 1 + seed}
    rec.update(kw.pop("rec", {}))
    return Sample(version, sstat(version, kind, seed), [task(version, kind, seed * 50 + i) for i in range(ntasks)], groups, rec=rec, **kw)


def log(version: str, samples, **over) -> bytes:
    return header(version, **over) + b"".join(s.blob for s in samples)
