"""Shared engine of P04/P05: cut a log at every byte and read what is left."""

from __future__ import annotations

import functools
import gzip
import io
import zlib

from mc.core import attempt, expect_ok
from mc.oracle import CG_VERSIONS, TRUNCATION_ERRORS, VERSIONS, Cgroup, Sample, diff, drain, layout, lib, log, plain_sample, raw, snap, sstat, task, want

MODES = (True, False)


@functools.lru_cache(maxsize=2)
def make_logs(v: str):
    """Logs by name. Sections end in different ways: bigger, stored uncompressed, empty, absent."""
    out = {
        "three": [plain_sample(v, 1, 1), plain_sample(v, 2, 2), plain_sample(v, 3, 0)],
        "best": [Sample(v, sstat(v, "zero", 0), [task(v, "plain", 1)], [Cgroup(v, 1, 8, [1])] if v in CG_VERSIONS else [], level=9), plain_sample(v, 5, 3)],
        "dense": [plain_sample(v, 1, 2, kind="dense"), plain_sample(v, 2, 1)],
    }
    if v in CG_VERSIONS:
        many = [Cgroup(v, 7 + i, 16, [(i + 1) * (k + 1) * 2654435761 % 4194304 for k in range(6000)]) for i in range(4)] + [Cgroup(v, 90 + i, 200, [i]) for i in range(400)]
        out["nocg"] = [plain_sample(v, 1, 1, cgs=[], stored_cgroups=False), plain_sample(v, 2, 1, cgs=[[8, [4, 5, 6]], [16, []], [0, [7, 8]]]), plain_sample(v, 3, 1, cgs=[])]
    # Sections beyond 64 KiB: stored (tasks, process IDs), and when unpacked only.
    out["huge"] = [Sample(v, sstat(v, "plain", 1), [task(v, "dense", i) for i in range(257)], many if v in CG_VERSIONS else [], level=1), plain_sample(v, 5, 1)]
    out["vast"] = [plain_sample(v, 1, 1), Sample(v, sstat(v, "plain", 2), [task(v, "plain", i % 40) for i in range(900)], [], level=9)]
    return out


def regions(v: str, samples, start: int = 480):
    """[(begin, end, sample index, 'record'|'data')] of every part of the log behind the header."""
    out, pos = [], start
    for i, smp in enumerate(samples):
        out.append((pos, pos + len(smp.record), i, "record"))
        pos += len(smp.record)
        for sec in smp.sections:
            out.append((pos, pos + len(sec), i, "data"))
            pos += len(sec)
    return out


def cuts_of(v: str, name: str, samples):
    """All cut positions of a log (of the incompressible one: near every border and powers of two)."""
    total = 480 + sum(len(s) for s in samples)
    wide = 24
    if name in ("huge", "vast"):
        wide = 9
    elif name != "dense":
        return list(range(480, total + 1))
    out = set()
    for begin, end, _i, _kind in regions(v, samples):
        for pos in (begin, end):
            out.update(range(max(480, pos - wide), min(total, pos + wide) + 1))
        step = 1
        while begin + step < end:
            out.update((begin + step, end - step))
            step *= 2
    return sorted(out)


def read_cut(data: bytes, mode: bool, own_header: bool, limit: int | None = None):
    """Snapshots of all samples, exception."""
    api = lib()
    stream = io.BytesIO(data)
    if own_header:
        gen = expect_ok("generate_statistics", api.generate_statistics, stream, raise_on_truncation=mode, **({} if limit is None else {"max_samples": limit}))
    else:
        hdr = expect_ok("get_header", api.get_header, stream)
        gen = expect_ok("generate_statistics", api.generate_statistics, stream, hdr, mode, *(() if limit is None else (limit,)))
    out, exc = drain(gen)
    return [snap(g) for g in out], exc


def follow_cut(data: bytes, mode: bool, own_header: bool, limit: int | None, samples):
    """The same for long logs, whose samples are compared and dropped at once: number of samples, first difference, exception."""
    api = lib()
    stream = io.BytesIO(data)
    hdr = None if own_header else expect_ok("get_header", api.get_header, stream)
    gen = iter(expect_ok("generate_statistics", api.generate_statistics, stream, hdr, raise_on_truncation=mode, **({} if limit is None else {"max_samples": limit})))
    num, msg = 0, None
    while True:
        kind, val = attempt(next, gen)
        if kind == "exc":
            return num, msg, None if isinstance(val, StopIteration) else val
        if num >= len(samples):
            return num, "more samples than stored", None
        if raw(val[0]) != samples[num].record or num % 50 == 0 or num > len(samples) - 9:
            msg = msg or (lambda d, i: d and f"sample {i}: {d}")(diff(snap(val), want(samples[num])), num)
        num += 1


LIMITS = (0, 1, 2, 3, 4, 100, 86_399, 86_400, 86_401, 10**6)
LONG = (9, 33, 100, 300, 1450)


def borders(v: str, samples):
    """Cuts at and around every border, and in the middle of every part."""
    out = set()
    for begin, end, _i, _kind in regions(v, samples):
        out.update((begin, begin + 1, (begin + end) // 2, end - 1, end))
    return sorted(out)


_PROTOS: dict = {}


def long_samples(v: str, num: int):
    """Many samples (of which the first and last few differ from the others)."""
    if v not in _PROTOS:
        _PROTOS[v] = [plain_sample(v, i, i % 3, level=1) for i in range(7)]
    protos = _PROTOS[v]
    return [protos[i % 5] for i in range(num - 2)] + protos[5:]


def long_cuts(v: str, samples):
    """Cuts in the parts of the last two samples."""
    out = set()
    for begin, end, i, _kind in regions(v, samples):
        if i >= len(samples) - 2:
            out.update((begin, (begin + end) // 2, end - 1) if len(samples) < 300 else (begin, end - 1))
    return sorted(out)[: None if len(samples) < 1000 else 4]


def read_gz(blob: bytes, mode: bool):
    """Read a (cut) gzip container: (None, exc) when not even the header can be read."""
    api = lib()
    stream = gzip.GzipFile(fileobj=io.BytesIO(blob))
    kind, hdr = attempt(api.get_header, stream)
    if kind == "exc":
        return None, hdr
    out, exc = drain(expect_ok("generate_statistics", api.generate_statistics, stream, hdr, raise_on_truncation=mode))
    return [snap(g) for g in out], exc


def complete_count(samples, cut: int) -> int:
    pos, num = 480, 0
    for smp in samples:
        pos += len(smp)
        if pos > cut:
            break
        num += 1
    return num


def first_bad(got, samples, exact: int | None) -> str | None:
    """Are these snapshots the first samples (exactly that many, if given)?"""
    for i, snapped in enumerate(got):
        if i >= len(samples):
            return f"{len(got)} samples returned, {len(samples)} stored"
        msg = diff(snapped, want(samples[i]))
        if msg:
            if exact is not None and i >= exact:
                return f"sample {i} returned although its bytes are not all present ({msg})"
            return f"sample {i}: {msg}"
    if exact is not None and len(got) != exact:
        return f"{len(got)} samples returned, {exact} are completely present"
    return None
