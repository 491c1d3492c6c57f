"""P07: only complete and compatible headers are accepted."""

from __future__ import annotations

import io
import itertools
import struct

from mc.checks.p01 import LENGTHS, fill
from mc.core import Check, Cov, Violation, attempt, check
from mc.oracle import VERSIONS, compare_attrs, header, layout, lib, raw
from mc.synth import MAGIC

LEN_ROLE = {"rawheadlen": "Header", "rawreclen": "Record", "sstatlen": "SStat", "tstatlen": "TStat", "pstatlen": "TStat", "cstatlen": "CStat"}
HEADLEN = 480


def length_fields(v):
    return [f for f in layout(v).roots["Header"].fields if f.name in LEN_ROLE]


def acceptable(v: str, data: bytes, compat: bool) -> bool:
    """The specified gate, for data whose version field says v."""
    if len(data) < HEADLEN or struct.unpack_from("<I", data)[0] != MAGIC:
        return False
    if not compat:
        return True
    lay = layout(v)
    return all(lay.get(data, "Header", (f.name,)) == lay.size(LEN_ROLE[f.name]) for f in length_fields(v))


class CHECK(Check):
    prop = "P07"
    level = "exploration"
    rule = (
        "One evaluation opens one header with or without the compatibility check and compares acceptance (ValueError otherwise) and all returned bytes "
        "with the specified gate. Non-trivial: a header that differs from the valid one in a field the gate depends on; distinct by content and mode."
    )
    bounds = {
        "truncation": "every length 0..480, also said by the header itself, and longer data", "magic": "every single-bit change, byte orders, 65,536 values of each half (two versions)",
        "length fields": "ushort fields: all 65,536 values per version; uint fields: 0..65,535, valid size +-65,536 and all other versions' sizes, single-bit changes "
        "(thorough: 0..2,000,000)",
        "pairs": "all pairs of length fields x 10 perturbations each, exchanged lengths, compensating changes",
        "other fields": "11 fills of all remaining bytes",
    }

    def tasks(self):
        out = []
        for v in VERSIONS:
            out.append(["trunc", v])
            out.append(["magic", v])
            out.append(["others", v])
            out.append(["pairs", v])
            for fld in length_fields(v):
                out.append(["len", v, fld.name])
        return out

    def cases(self, task_):
        kind, v = task_[0], task_[1]
        if kind == "trunc":
            for n in [*range(HEADLEN + 1), 481, 512, 4096]:
                yield ["trunc", v, n]
            # Headers that agree with the truncation.
            for n in range(HEADLEN + 1):
                for names in (["rawheadlen"], ["rawreclen"], ["rawheadlen", "rawreclen"], [f.name for f in length_fields(v)]):
                    yield ["trunc", v, n, names]
        elif kind == "magic":
            for bit in range(32):
                yield ["magic", v, MAGIC ^ (1 << bit)]
            for val in (0, 0xFFFFFFFF, 0xEFBEEDFE, 0xBEEFFEED, 0xDEADBEEF, 0xFEEDBEED, 0xFEEDFACE, 1):
                yield ["magic", v, val]
            if v in ("1.26", "2.12"):
                yield ["magicrange", v, 0]
                yield ["magicrange", v, 16]
        elif kind == "others":
            for f in ("zero", "ones", "x01", "x7f", "x80", "min", "max", "index", "dense", "high", "text"):
                yield ["others", v, f]
        elif kind == "len":
            top = 65536
            for start in range(0, top, 4096):
                yield ["lenrange", v, task_[2], start, start + 4096]
            if task_[2] not in ("rawheadlen", "rawreclen"):
                good = layout(v).size(LEN_ROLE[task_[2]])
                if self.thorough:
                    for start in range(top, 2_000_000, 20000):
                        yield ["lenrange", v, task_[2], start, start + 20000]
                vals = {good + d for d in range(-300, 301)} | {good ^ (1 << b) for b in range(32)} | {good + d * 65536 for d in (-2, -1, 1, 2)}
                vals |= {layout(o).size(r) for o in VERSIONS for r in layout(o).roots} | {0xFFFFFFFF, 0x80000000, 0x7FFFFFFF, good * 2, good // 2}
                for val in sorted(x for x in vals if 0 <= x < 1 << 32):
                    yield ["len", v, {task_[2]: val}]
        else:
            flds = length_fields(v)
            for one, two in itertools.combinations(flds, 2):
                a, b = (layout(v).size(LEN_ROLE[f.name]) for f in (one, two))
                yield ["len", v, {one.name: b & ((1 << (8 * one.size)) - 1), two.name: a & ((1 << (8 * two.size)) - 1)}]
                for da, db in itertools.product((-16, -8, -2, -1, 1, 2, 8, 16, 256, None), repeat=2):
                    va = 0 if da is None else a + da
                    vb = 0 if db is None else b + db
                    yield ["len", v, {one.name: va, two.name: vb}]
            yield ["len", v, {f.name: 0 for f in flds}]
            for delta in (-1, 1):
                yield ["len", v, {f.name: layout(v).size(LEN_ROLE[f.name]) + delta for f in flds}]

    def run_case(self, case, cov: Cov) -> None:
        kind, v = case[0], case[1]
        good = bytearray(header(v))
        lay = layout(v)
        if kind == "trunc":
            for name in case[3] if len(case) > 3 else ():
                lay.put(good, "Header", (name,), case[2])
            data = bytes(good[: case[2]]) + bytes(range(256)) * 15 if case[2] > HEADLEN else bytes(good[: case[2]])
            data = data[: case[2]]
            self.open(cov, v, data, case)
        elif kind == "magic":
            lay.put(good, "Header", ("magic",), case[2])
            self.open(cov, v, bytes(good), case)
        elif kind == "magicrange":
            shift = case[2]
            for val in range(65536):
                struct.pack_into("<I", good, 0, (MAGIC & ~(0xFFFF << shift)) | val << shift)
                self.open(cov, v, bytes(good), case)
        elif kind == "others":
            data = fill(v, "Header", case[2])
            for fld in lay.roots["Header"].fields:
                if fld.name in LENGTHS["Header"]:
                    data[fld.offset : fld.offset + fld.size] = good[fld.offset : fld.offset + fld.size]
            hdr = self.open(cov, v, bytes(data), case)
            compare_attrs(hdr, lay.roots["Header"], bytes(data), path=f"{v} header ({case[2]})")
        elif kind == "lenrange":
            _off, fld = lay.locate("Header", (case[2],))
            for val in range(case[3], case[4]):
                struct.pack_into("<H" if fld.size == 2 else "<I", good, fld.offset, val)
                self.open(cov, v, bytes(good), case, modes=(True,) if val % 97 else (True, False))
        else:
            for key, val in case[2].items():
                _off, fld = lay.locate("Header", (key,))
                struct.pack_into("<H" if fld.size == 2 else "<I", good, fld.offset, val & ((1 << (8 * fld.size)) - 1))
            self.open(cov, v, bytes(good), case)
        cov.note(case, 1)

    def open(self, cov, v, data, case, modes=(True, False)):
        """Try to open a header both ways, judge, and return the header if one was accepted."""
        res = None
        for compat in modes:
            stream = io.BytesIO(data)
            kind, val = attempt(lib().get_header, stream) if compat else attempt(lib().get_header, stream, check_compatibility=False)
            cov.evaluations += 1
            cov.seen((data, compat))
            if acceptable(v, data, compat):
                if kind == "exc":
                    raise Violation(f"{v} {case}: rejected although complete and compatible (check={compat}): {val!r}")
                if raw(val) != data[:HEADLEN]:
                    raise Violation(f"{v} {case}: the returned header differs from the stored one (check={compat})")
                cov.outcomes[f"accepted (check={compat})"] += 1
                res = val
            else:
                if kind == "ok":
                    raise Violation(f"{v} {case}: accepted (check={compat}), header starts {data[:32].hex()}")
                if not isinstance(val, ValueError):
                    raise Violation(f"{v} {case}: {val!r} instead of ValueError (check={compat})")
                cov.outcomes[f"rejected (check={compat})"] += 1
        return res
