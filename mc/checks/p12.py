"""P12: dictionary conversion is complete, bounded by counts and JSON compatible."""

from __future__ import annotations

import io
import json
import struct

from mc.checks.p01 import FILLS, LENGTHS, fill
from mc.checks.p13 import SPECIAL
from mc.core import Check, Cov, Violation, attempt, check, expect_ok
from mc.layout import SCALARS
from mc.oracle import CG_VERSIONS, VERSIONS, Cgroup, Sample, canon, drain, header, layout, lib, pattern, ref_dict, same_json, sstat, task


def limited(v, role):
    """[(path of the struct, array field, counter field, capacity)] of one role."""
    out = []

    def walk(st, path):
        for fld in st.fields:
            if fld.name in st.limit:
                out.append((path, fld.name, st.limit[fld.name], fld.count))
            if fld.sub is not None:
                walk(fld.sub, path + (fld.name,) + ((0,) if fld.count is not None else ()))

    walk(layout(v).roots[role], ())
    return out


def counts_for(cap, kind):
    code, width = SCALARS[kind]
    top = (1 << (8 * width - (1 if code.islower() else 0))) - 1
    vals = [0, 1, 2, 3, cap // 2, cap - 1, cap, cap + 1, 2 * cap, 65535, top]
    return sorted({val for val in vals if 0 <= val <= top})


def finite(v, role, buf):
    """Make every float finite (only those can be JSON)."""
    for _path, off, fld in layout(v).leaves(role):
        if fld.kind == "float":
            val = struct.unpack_from("<f", buf, off)[0]
            if val != val or val in (float("inf"), float("-inf")):
                struct.pack_into("<f", buf, off, 1.5)
    return buf


class CHECK(Check):
    prop = "P12"
    level = "exploration"
    rule = (
        "One evaluation converts one object read from a synthetic log and compares the dictionary (keys, values, types, array lengths) and its JSON round trip with the reference "
        "conversion of the stored bytes. Non-trivial: the object is not all zero; distinct by version, object kind and content."
    )
    bounds = {
        "contents": "12 fills of every object kind of every version (floats finite)",
        "counts": "every limited array x counts 0..3, half, capacity-1..capacity+1, double, 65,535 and the counter's maximum, one at a time, and all arrays at once; "
        "every count 0..capacity of every array for 1.26 (thorough: all versions for capacities up to 256)",
        "text": f"all 256 byte values at four positions of all text fields at once (system statistics of 2.3-2.11: filling them; thorough: all), {len(SPECIAL)} special strings at both ends, NUL at every position of every text field",
        "cgroups": "process lists of 0, 1, 2, 3, 100 processes incl. negative and maximum IDs",
    }

    def tasks(self):
        out = []
        for v in VERSIONS:
            for role in layout(v).roots:
                out.append(["fills", v, role])
                out.append(["text", v, role])
                if limited(v, role):
                    for i in range(len(limited(v, role))):
                        out.append(["counts", v, role, i])
                    out.append(["allcounts", v, role])
            if v in CG_VERSIONS:
                out.append(["groups", v])
        return out

    def cases(self, task_):
        kind, v = task_[0], task_[1]
        role = task_[2] if len(task_) > 2 else None
        if kind == "fills":
            for f in FILLS:
                yield ["fill", v, role, f]
        elif kind == "text":
            for byte in range(256):
                some = role == "SStat" and v not in ("1.26", "2.12") and not self.thorough
                for where in ("all",) if some else ("first", "second", "last", "all"):
                    yield ["text", v, role, "byte", byte, where]
            for i in range(len(SPECIAL)):
                yield ["text", v, role, "special", i, "start"]
                yield ["text", v, role, "special", i, "end"]
            widest = max([f.size for _p, _o, f in layout(v).leaves(role, max_elems=2) if f.kind == "char"], default=0)
            for n in range(min(widest + 1, 32 if role == "SStat" and not self.thorough else 300)):
                yield ["text", v, role, "nul", n, ""]
        elif kind == "counts":
            path, arr, cnt, cap = limited(v, role)[task_[3]]
            _off, fld = layout(v).locate(role, path + (cnt,))
            vals = counts_for(cap, fld.kind)
            if v == "1.26" or self.thorough and cap <= 256:
                vals = sorted({*vals, *range(cap + 1)})
            for val in vals:
                yield ["count", v, role, task_[3], val]
        elif kind == "allcounts":
            for pick in range(8):
                yield ["allcounts", v, role, pick]
        else:
            for pids in ([], [0], [1, 2], [-1, 2**31 - 1, -(2**31)], list(range(100))):
                for content in ("plain", "dense", "ones", "zero", "high"):
                    yield ["group", v, pids, content]

    def run_case(self, case, cov: Cov) -> None:
        kind, v = case[0], case[1]
        lay = layout(v)
        if kind == "group":
            _kind, v, pids, content = case
            groups = [Cgroup(v, 1, 8, [5]), Cgroup(v, 2, 16, pids, kind=content), Cgroup(v, 3, 0, [6, 7])]
            smp = Sample(v, sstat(v, "zero", 0), [], groups, level=1)
            got = self.read(v, header(v), smp)[3]
            for i, grp in enumerate(groups):
                exp = {"cstat": ref_dict("CStat", v, grp.stat), "proclist": grp.pids}
                self.judge(cov, case, got[i], exp, f"{v} cgroup")
            return
        role = case[2]
        if kind == "fill":
            buf = fill(v, role, case[3])
        elif kind == "text":
            buf = self.text(v, role, *case[3:])
        else:
            buf = bytearray(pattern("ramp", 3, lay.size(role)))
            for path, _arr, cnt, cap in limited(v, role):
                lay.put(buf, role, path + (cnt,), 2 if kind == "count" else [0, 1, 2, 3, cap - 1, cap, cap + 1, 5][case[3]])
            if kind == "count":
                path, _arr, cnt, _cap = limited(v, role)[case[3]]
                lay.put(buf, role, path + (cnt,), case[4])
        if kind in ("fill", "text"):
            # Counts beyond the alphabet above (negative ones) are not valid; capacity is.
            for path, _arr, cnt, cap in limited(v, role):
                if kind == "text" or lay.get(buf, role, path + (cnt,)) < 0:
                    lay.put(buf, role, path + (cnt,), cap if kind == "fill" else 2)
        buf = finite(v, role, buf)
        obj, data = self.obtain(v, role, buf)
        self.judge(cov, case, obj, ref_dict(role, v, data), f"{v} {role}")
        cov.note(case, 1)

    def text(self, v, role, kind, arg, where):
        lay = layout(v)
        buf = bytearray(lay.size(role))
        for _path, off, fld in lay.leaves(role, max_elems=4):
            if fld.kind != "char":
                continue
            width = fld.size
            if kind == "byte":
                byte = bytes([arg])
                body = {"first": byte + b"bc", "second": b"a" + byte + b"c", "last": b"a" * (width - 1) + byte, "all": byte * width}[where]
            elif kind == "special":
                body = SPECIAL[arg]
                if where == "end":
                    body = (b"x" * width + body)[-width:]
            else:
                body = bytes(33 + i % 90 for i in range(min(arg, width)))
                if arg < width:
                    body += b"\0" + b"?" * (width - arg - 1)
            buf[off : off + width] = (body[:width] + bytes(width))[:width]
        return buf

    def obtain(self, v, role, buf):
        """Have the library return an object with this content; the framing fields are kept valid."""
        lay = layout(v)
        if role == "Header":
            good = header(v)
            for fld in lay.roots["Header"].fields:
                if fld.name in LENGTHS["Header"]:
                    buf[fld.offset : fld.offset + fld.size] = good[fld.offset : fld.offset + fld.size]
            return expect_ok("header", lib().get_header, io.BytesIO(bytes(buf))), bytes(buf)
        groups = [Cgroup(v, 1, 8, [1])] if v in CG_VERSIONS else []
        if role == "CStat":
            lay.put(buf, "CStat", ("gen", "structlen"), lay.size("CStat") + 8)
            lay.put(buf, "CStat", ("gen", "nprocs"), 1)
            groups[0].raw = bytes(buf) + groups[0].raw[lay.size("CStat") :]
            groups[0].stat = bytes(buf)
        smp = Sample(v, bytes(buf) if role == "SStat" else sstat(v, "zero", 0), [bytes(buf)] if role == "TStat" else [], groups, level=1)
        if role == "Record":
            for fld in lay.roots["Record"].fields:
                if fld.name in LENGTHS["Record"]:
                    buf[fld.offset : fld.offset + fld.size] = smp.record[fld.offset : fld.offset + fld.size]
            smp.blob = bytes(buf) + b"".join(smp.sections)
        got = self.read(v, header(v), smp)
        pick = {"Record": lambda: got[0], "SStat": lambda: got[1], "TStat": lambda: got[2][0], "CStat": lambda: got[3][0].cstat}
        return pick[role](), bytes(buf)

    @staticmethod
    def read(v, head, smp):
        api = lib()
        hdr = expect_ok("header", api.get_header, io.BytesIO(head))
        out, exc = drain(api.generate_statistics(io.BytesIO(smp.blob), hdr))
        check(exc is None and len(out) == 1, lambda: f"{v}: {len(out)} samples, {exc!r}")
        return out[0]

    def judge(self, cov, case, obj, exp, what):
        kind, got = attempt(lib().struct_to_dict, obj)
        what = f"{what} {case}"
        if kind == "exc":
            raise Violation(f"{what}: {type(got).__name__}: {str(got)[:200]}")
        check(isinstance(got, dict), f"{what}: not a dictionary")
        same_json(got, exp, what)
        kind, text = attempt(json.dumps, got, allow_nan=False)
        if kind == "exc":
            raise Violation(f"{what}: {type(text).__name__}: {str(text)[:200]}")
        check(json.loads(text) == got, f"{what}: the JSON round trip changes the result")
        cov.evaluations += 1
        cov.outcomes[case[0]] += 1
        cov.seen(str(case))
