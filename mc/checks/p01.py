"""P01: every named field of every version decodes from its exact place, width and signedness."""

from __future__ import annotations

import gzip
import importlib
import io
import os
import shutil
import struct
import subprocess
import tempfile
import zlib

from mc import core
from mc.core import Check, Cov, Violation, check
from mc.oracle import CG_VERSIONS, VERSIONS, Cgroup, Sample, compare_attrs, drain, expect_ok, header, layout, lib, log, pattern, raw, same, sstat, task
from mc.layout import SCALARS

FILLS = ["zero", "ones", "x01", "x7f", "x80", "min", "max", "index", "dense", "high", "ramp", "text"]
LENGTHS = {
    "Header": {"magic", "aversion", "rawheadlen", "rawreclen", "sstatlen", "tstatlen", "pstatlen", "cstatlen"},
    "Record": {"scomplen", "pcomplen", "ccomplen", "icomplen", "ncgroups", "ndeviat", "nlist", "coriglen", "ncgpids"},
}


def fill(version: str, role: str, kind: str, seed: int = 0) -> bytearray:
    """One whole structure in which every field, padding included, has content of the given kind."""
    lay = layout(version)
    size = lay.size(role)
    if kind in ("x01", "x7f", "x80"):
        return bytearray(bytes([int(kind[1:], 16)]) * size)
    if kind not in ("min", "max", "index"):
        return bytearray(pattern(kind, seed, size))
    buf = bytearray(size)
    for num, (_path, off, fld) in enumerate(lay.leaves(role, future=True)):
        if fld.kind == "char":
            body = {"min": b"\x01", "max": b"\xff", "index": bytes([65 + num % 26])}[kind]
            buf[off : off + fld.size] = body * fld.size
            continue
        code, width = SCALARS[fld.kind]
        if fld.kind == "float":
            val = {"min": -3.4028234663852886e38, "max": 3.4028234663852886e38, "index": float(num)}[kind]
        else:
            lo, hi = (-(1 << (8 * width - 1)), (1 << (8 * width - 1)) - 1) if code.islower() else (0, (1 << (8 * width)) - 1)
            val = {"min": lo, "max": hi, "index": num % (hi + 1)}[kind]
        struct.pack_into("<" + code, buf, off, val)
    return buf


class CHECK(Check):
    prop = "P01"
    level = "exploration"
    rule = (
        "One evaluation reads one structure of one version, filled with one content, through the public functions and compares every named field "
        "(every array element) and all bytes with the frozen reference layout. Non-trivial: content is not all zero. "
        "'published' evaluations compare one published struct definition; 'gcc' compiles the reference declarations and compares all offsets."
    )
    bounds = {
        "contents": "12 fills (all-zero, all-one, 0x01, 0x7f, 0x80, every field at its minimum/maximum, every field numbered, 2 pseudo-random, ramp, "
        "NUL-free text) x header/record/sstat/tstat/cstat x 11 versions; thorough: 24 more pseudo-random fills and one-hot probes of every leaf",
        "fixtures": "all recorded logs in the repository, all samples, all fields",
    }
    assumptions = [
        "The reference layout was frozen from the reviewed tree; its offsets are recomputed by gcc, and its field list by the recorded logs.",
    ]

    def tasks(self):
        out = [["gcc"], ["published"], ["fixtures"]]
        fills = FILLS + ([f"dense{i}" for i in range(24)] if self.thorough else [])
        for v in VERSIONS:
            for role in layout(v).roots:
                if role == "SStat":
                    out.extend(["fill", v, role, [f]] for f in fills)
                else:
                    out.append(["fill", v, role, fills])
                if self.thorough:
                    out.append(["onehot", v, role])
        return out

    def cases(self, task_):
        if task_[0] == "fill":
            for kind in task_[3]:
                yield ["fill", task_[1], task_[2], kind]
        elif task_[0] == "onehot":
            for i, (path, _off, _fld) in enumerate(layout(task_[1]).leaves(task_[2], max_elems=4)):
                yield ["onehot", task_[1], task_[2], list(path)]
        elif task_[0] == "published":
            for v in VERSIONS:
                yield ["published", v]
        elif task_[0] == "fixtures":
            folder = os.path.join(core.REPO, "atoparser", "test", "files")
            for name in sorted(os.listdir(folder)) if os.path.isdir(folder) else []:
                if name.startswith("atop_") and name.endswith(".log.gz"):
                    yield ["fixture", name]
        else:
            yield task_

    def run_case(self, case, cov: Cov) -> None:
        getattr(self, "do_" + case[0])(cov, *case[1:])
        cov.evaluations += 1
        cov.note(case, 1)

    # ---- the reference against the C compiler -------------------------------------------------------------------
    def do_gcc(self, cov):
        folder = tempfile.mkdtemp(prefix="verif-p01-")
        try:
            src, exe = os.path.join(folder, "l.c"), os.path.join(folder, "l")
            with open(src, "w") as handle:
                handle.write("#include <stdio.h>\n#include <stddef.h>\n")
                handle.writelines(layout(v).c_source() + "\n" for v in VERSIONS)
                handle.write("int main(void) {\n")
                handle.writelines(layout(v).c_dump() + "\n" for v in VERSIONS)
                handle.write("return 0; }\n")
            subprocess.run(["gcc", "-O0", "-o", exe, src], check=True, timeout=100)
            text = subprocess.run([exe], check=True, timeout=100, capture_output=True, text=True).stdout.split("\n")
        finally:
            shutil.rmtree(folder, ignore_errors=True)
        exp = [line for v in VERSIONS for line in layout(v).offsets()]
        if [t for t in text if t] != exp:
            raise RuntimeError("the reference layout disagrees with gcc")
        cov.extra["offsets confirmed by gcc"] += len(exp)

    # ---- published definitions ----------------------------------------------------------------------------------
    def do_published(self, cov, v):
        mod = expect_ok("import", importlib.import_module, "atoparser.structs.atop_" + v.replace(".", "_"))
        lay = layout(v)
        for name, st in lay.structs.items():
            cls = getattr(mod, name, None)
            if cls is None or not isinstance(cls, type):
                continue
            obj = cls()
            check(len(raw(obj)) == st.size, lambda: f"{v} {name}: {len(raw(obj))} bytes instead of {st.size}")
            data = pattern("dense", 5, st.size)
            compare_attrs(cls.from_buffer_copy(data), st, data, path=f"{v} {name}", max_elems=4)
            cov.seen(("published", v, name))
            cov.evaluations += 1
            cov.extra["published definitions"] += 1

    # ---- recorded logs, decoded independently ---------------------------------------------------------------------
    def do_fixture(self, cov, name):
        with gzip.open(os.path.join(core.REPO, "atoparser", "test", "files", name)) as handle:
            data = handle.read()
        tag = name[5:-7].split("_")
        v = ".".join(tag[:2])
        lay = layout(v)
        hdr = lib().get_header(io.BytesIO(data))
        stream = io.BytesIO(data)
        compare_attrs(hdr, lay.roots["Header"], data, path=f"{name} header")
        out, exc = drain(lib().generate_statistics(stream))
        check(exc is None, lambda: f"{name}: {exc!r}")
        pos, num = lay.size("Header"), 0
        while pos < len(data):
            rec = data[pos : pos + lay.size("Record")]
            pos += len(rec)
            get = lambda key: lay.get(rec, "Record", (key,))  # noqa: E731
            sys_stat = zlib.decompress(data[pos : pos + get("scomplen")])
            pos += get("scomplen")
            tasks = zlib.decompress(data[pos : pos + get("pcomplen")])
            pos += get("pcomplen")
            check(num < len(out), f"{name}: only {len(out)} samples")
            got = out[num]
            compare_attrs(got[0], lay.roots["Record"], rec, path=f"{name} record {num}")
            compare_attrs(got[1], lay.roots["SStat"], sys_stat, path=f"{name} sstat {num}", max_elems=16)
            count = get("nlist" if v == "1.26" else "ndeviat")
            if len(tasks) != count * lay.size("TStat"):
                raise RuntimeError("the reference does not fit the recorded log " + name)
            check(len(got[2]) == count, f"{name}: {len(got[2])} tasks instead of {count}")
            for i, got_task in enumerate(got[2]):
                compare_attrs(got_task, lay.roots["TStat"], tasks, i * lay.size("TStat"), path=f"{name} task {num}/{i}")
            if v in CG_VERSIONS:
                groups = zlib.decompress(data[pos : pos + get("ccomplen")])
                pos += get("ccomplen")
                pids = zlib.decompress(data[pos : pos + get("icomplen")])
                pos += get("icomplen")
                check(len(got[3]) == get("ncgroups"), f"{name}: {len(got[3])} cgroups")
                start = pstart = 0
                for i, got_cg in enumerate(got[3]):
                    compare_attrs(got_cg.cstat, lay.roots["CStat"], groups, start, path=f"{name} cgroup {num}/{i}")
                    nprocs = lay.get(groups[start:], "CStat", ("gen", "nprocs"))
                    check(list(got_cg.proclist) == list(struct.unpack_from(f"<{nprocs}i", pids, pstart)), f"{name}: process list {num}/{i}")
                    start += lay.get(groups[start:], "CStat", ("gen", "structlen"))
                    pstart += 4 * nprocs
                if start != len(groups) or pstart != len(pids):
                    raise RuntimeError("the reference does not fit the recorded cgroups in " + name)
            num += 1
            cov.seen((name, num))
            cov.evaluations += 1
            cov.extra["recorded samples"] += 1
        check(len(out) == num, f"{name}: {len(out)} samples instead of {num}")

    # ---- synthetic contents ---------------------------------------------------------------------------------------
    def do_fill(self, cov, v, role, kind):
        seed = 0
        if kind.startswith("dense"):
            seed, kind = int(kind[5:] or 0), "dense"
        self.put_through(cov, v, role, fill(v, role, kind, seed), kind)
        if kind != "zero":
            cov.seen((v, role, kind, seed))

    def do_onehot(self, cov, v, role, path):
        lay = layout(v)
        off, fld = lay.locate(role, path)
        width = fld.size if fld.kind == "char" else fld.elem
        if not width:  # flexible array
            return
        for val in (b"\x01" + bytes(width - 1), bytes(width - 1) + b"\x80", b"\xff" * width):
            buf = bytearray(lay.size(role))
            buf[off : off + width] = val
            self.put_through(cov, v, role, buf, str(path), max_elems=4)
        cov.seen((v, role, tuple(path)))

    def put_through(self, cov, v, role, buf, what, max_elems=None):
        """Store a structure in a log, read it with the library, compare every field."""
        lay = layout(v)
        st = lay.roots[role]
        api = lib()
        good = header(v)
        if role in LENGTHS:  # keep what frames the log valid
            groups = [Cgroup(v, 1, 8, [1])] if v in CG_VERSIONS else []
            base = good if role == "Header" else Sample(v, sstat(v, "plain", 1), [task(v, "plain", 1)], groups, level=1).record
            for fld in st.fields:
                if fld.name in LENGTHS[role]:
                    buf[fld.offset : fld.offset + fld.size] = base[fld.offset : fld.offset + fld.size]
        data = bytes(buf)
        if role == "Header":
            hdr = expect_ok(f"{v} header {what}", api.get_header, io.BytesIO(data))
            got = [hdr]
        else:
            hdr = expect_ok(f"{v} header", api.get_header, io.BytesIO(good))
            groups = [Cgroup(v, 1, 8, [1])] if v in CG_VERSIONS else []
            tasks = [task(v, "plain", 1)]
            stat = sstat(v, "plain", 1)
            count = 1
            if role == "SStat":
                stat = data
            elif role == "TStat":
                count = 3
                tasks = [data, task(v, "plain", 2), data]
            elif role == "CStat":
                count = 3
                groups = []
                for seed in range(3):
                    grp = Cgroup(v, seed, 8 * seed, [7, 8][:seed])
                    if seed != 1:
                        body = bytearray(data)
                        lay.put(body, "CStat", ("gen", "structlen"), st.size + 8 * seed)
                        lay.put(body, "CStat", ("gen", "nprocs"), len(grp.pids))
                        grp.raw = bytes(body) + grp.raw[st.size :]
                        grp.stat = bytes(body)
                    groups.append(grp)
            smp = Sample(v, stat, tasks, groups, level=1)
            if role == "Record":
                smp.record = data
                smp.blob = data + b"".join(smp.sections)
            out, exc = drain(api.generate_statistics(io.BytesIO(smp.blob), hdr))
            check(exc is None and len(out) == 1, lambda: f"{v} {role} {what}: {len(out)} samples, {exc!r}")
            same(out[0], smp, f"{v} {role} {what}")
            if role == "Record":
                got = [out[0][0]]
            elif role == "SStat":
                got = [out[0][1]]
            elif role == "TStat":
                got, data = list(out[0][2]), tasks
            else:
                got, data = [c.cstat for c in out[0][3]], [g.stat for g in groups]
            check(len(got) == count, f"{v} {role}: {len(got)} entries")
        for i, obj in enumerate(got):
            exp = data if isinstance(data, bytes) else data[i]
            check(raw(obj) == exp, lambda: f"{v} {role} {what}: bytes differ")
            cov.extra["fields compared"] += compare_attrs(obj, st, exp, path=f"{v} {role} ({what})", max_elems=max_elems)
