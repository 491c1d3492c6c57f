"""Comparison helpers shared by the checks. Expected values come from mc.synth / mc.layout only."""

from __future__ import annotations

import io
import json
import math
import struct
import sys
import zlib

from mc.core import Violation, attempt, check, expect_ok
from mc.layout import CG_VERSIONS, SCALARS, VERSIONS, cstr, layout  # noqa: F401 (re-exported)
from mc.synth import MAGIC, Cgroup, Sample, aversion, header, log, pattern, plain_sample, sstat, task  # noqa: F401

TRUNCATION_ERRORS = (zlib.error, EOFError)


def lib():
    """The library under test (imported by core.load_repo before any check runs)."""
    return sys.modules["atoparser"]


def raw(obj) -> bytes:
    """The bytes of a returned structure."""
    return bytes(obj)


def snap(got) -> tuple:
    """Byte-exact snapshot of one yielded sample."""
    record, sys_stat, tasks, cgroups = got
    return (
        raw(record), raw(sys_stat), tuple(raw(t) for t in tasks), tuple((raw(c.cstat), tuple(c.proclist)) for c in cgroups),
    )


def want(sample: Sample) -> tuple:
    """What snap() must give for a stored sample."""
    if getattr(sample, "_want", None) is None:
        sample._want = (
            sample.record, sample.sstat, tuple(sample.tasks), tuple((c.stat, tuple(c.pids)) for c in sample.cgroups),
        )
    return sample._want


def diff(got: tuple, exp: tuple) -> str | None:
    """First difference between two snapshots."""
    if got == exp:
        return None
    for name, g, e in zip(("record", "sstat"), got, exp):
        if g != e:
            if len(g) != len(e):
                return f"{name}: {len(g)} bytes instead of {len(e)}"
            pos = next(i for i in range(len(g)) if g[i] != e[i])
            return f"{name}: byte {pos} is {g[pos]:#x} instead of {e[pos]:#x}"
    if len(got[2]) != len(exp[2]):
        return f"{len(got[2])} tasks instead of {len(exp[2])}"
    for i, (g, e) in enumerate(zip(got[2], exp[2])):
        if g != e:
            return f"task {i} of {len(exp[2])} differs"
    if len(got[3]) != len(exp[3]):
        return f"{len(got[3])} cgroups instead of {len(exp[3])}"
    for i, (g, e) in enumerate(zip(got[3], exp[3])):
        if g[0] != e[0]:
            return f"statistics of cgroup {i} of {len(exp[3])} differ"
        if g[1] != e[1]:
            return f"process list of cgroup {i} of {len(exp[3])} is {str(g[1])[:200]} instead of {str(e[1])[:200]}"
    return "snapshots differ"


def same(got, sample: Sample, what: str) -> None:
    """A yielded sample must equal the stored one."""
    snapped = expect_ok(f"{what}: reading the returned objects", snap, got)
    msg = diff(snapped, want(sample))
    if msg is not None:
        raise Violation(f"{what}: {msg}")


def drain(gen, limit: int = 1 << 60):
    """Run a reader to its end: (yielded samples, exception or None)."""
    out = []
    iterator = iter(gen)
    while len(out) < limit:
        kind, val = attempt(next, iterator)
        if kind == "exc":
            return out, None if isinstance(val, StopIteration) else val
        out.append(val)
    return out, None


def read_log(data, hdr_first=True, **kw):
    """Read a whole log: (header or None, samples, exception)."""
    stream = io.BytesIO(data) if isinstance(data, (bytes, bytearray)) else data
    hdr = None
    if hdr_first:
        kind, hdr = attempt(lib().get_header, stream)
        if kind == "exc":
            return None, [], hdr
    kind, gen = attempt(lib().generate_statistics, stream, hdr, **kw) if hdr_first else attempt(lib().generate_statistics, stream, **kw)
    if kind == "exc":
        return hdr, [], gen
    out, exc = drain(gen)
    return hdr, out, exc


def exact(data, samples, what, **kw):
    """A complete, well-formed log must give exactly these samples and end normally."""
    hdr, out, exc = read_log(data, **kw)
    if exc is not None:
        raise Violation(f"{what}: after {len(out)} of {len(samples)} samples: {type(exc).__name__}: {str(exc)[:200]}")
    for i, (got, sample) in enumerate(zip(out, samples)):
        same(got, sample, f"{what}: sample {i}")
    check(len(out) == len(samples), lambda: f"{what}: {len(out)} samples instead of {len(samples)}")
    return hdr, out


# ---- attribute level comparison ----------------------------------------------------------------------------------
def scalar(kind: str, data: bytes, off: int):
    return struct.unpack_from("<" + SCALARS[kind][0], data, off)[0]


def eq_num(got, exp) -> bool:
    if isinstance(exp, float):
        return isinstance(got, float) and (got == exp or (math.isnan(got) and math.isnan(exp)))
    return isinstance(got, int) and not isinstance(got, bool) and got == exp


def compare_attrs(obj, st, data: bytes, base: int = 0, path: str = "", max_elems: int | None = None) -> int:
    """Walk all named attributes of a returned object and compare them with the reference layout. Returns leaf count."""
    num = 0
    for fld in st.fields:
        off = base + fld.offset
        here = f"{path}.{fld.name}"
        val = expect_ok(f"attribute {here}", getattr, obj, fld.name)
        if fld.kind == "char":
            num += 1
            text = data[off : off + fld.size]
            exp = cstr(text) if fld.count is not None else text
            check(isinstance(val, bytes) and val == exp, lambda: f"{here} is {val!r:.120} instead of {exp!r:.120}")
        elif fld.count is None:
            if fld.sub is not None:
                num += compare_attrs(val, fld.sub, data, off, here, max_elems)
            else:
                num += 1
                exp = scalar(fld.kind, data, off)
                check(eq_num(val, exp), lambda: f"{here} is {val!r} instead of {exp!r}")
        else:
            size = expect_ok(f"length of {here}", len, val)
            check(size == fld.count, lambda: f"{here} has {size} elements instead of {fld.count}")
            if fld.sub is None:
                exps = struct.unpack_from(f"<{fld.count}{SCALARS[fld.kind][0]}", data, off)
                num += fld.count
                vals = list(val)
                check(len(vals) == len(exps) and all(eq_num(g, e) for g, e in zip(vals, exps)), lambda: f"{here} is {vals!r:.200} instead of {exps!r:.200}")
                continue
            idx = range(fld.count)
            if max_elems is not None and fld.count > max_elems:
                idx = sorted({*range(max_elems // 2), *range(fld.count - max_elems // 2, fld.count)})
            for i in idx:
                num += compare_attrs(val[i], fld.sub, data, off + i * fld.elem, f"{here}[{i}]", max_elems)
    return num


def canon(value) -> str:
    """Type-exact canonical text of a JSON-compatible value."""
    return json.dumps(value, sort_keys=True)


def same_json(got, exp, what: str) -> None:
    kind, text = attempt(canon, got)
    if kind == "exc":
        raise Violation(f"{what}: not JSON compatible: {type(text).__name__}: {str(text)[:200]}")
    if text != canon(exp):
        raise Violation(f"{what}: {first_json_diff(got, exp)}")


def first_json_diff(got, exp, path="") -> str:
    if isinstance(exp, dict) and isinstance(got, dict):
        miss = [k for k in exp if k not in got]
        extra = [k for k in got if k not in exp]
        if miss or extra:
            return f"{path or 'dictionary'}: missing keys {miss[:8]}, additional keys {extra[:8]}"
        for k in exp:
            if canon(got[k]) != canon(exp[k]):
                return first_json_diff(got[k], exp[k], f"{path}.{k}")
    if isinstance(exp, list) and isinstance(got, (list, tuple)):
        if len(exp) != len(got):
            return f"{path}: {len(got)} entries instead of {len(exp)}"
        for i, (g, e) in enumerate(zip(got, exp)):
            if canon(g) != canon(e):
                return first_json_diff(g, e, f"{path}[{i}]")
    return f"{path} is {got!r:.200} instead of {exp!r:.200}"


def ref_dict(role: str, version: str, data: bytes) -> dict:
    lay = layout(version)
    return lay.to_dict(lay.roots[role], data)


def ref_cgroup(group: Cgroup, version: str) -> dict:
    return {"cstat": ref_dict("CStat", version, group.stat), "proclist": list(group.pids)}
