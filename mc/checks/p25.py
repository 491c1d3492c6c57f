"""P25: what was read is a plain value - copies, rebuilt and transferred objects are as good as the original."""

from __future__ import annotations

import copy
import ctypes
import gzip
import io
import itertools
import json
import os
import pickle
import subprocess
import sys
import tempfile

from mc import core
from mc.checks.p17 import rich
from mc.core import Check, Cov, Violation, check, expect_ok
from mc.oracle import CG_VERSIONS, VERSIONS, canon, diff, first_json_diff, header, lib, plain_sample, raw, ref_cgroup, ref_dict, same, same_json, want
from mc.parse126 import ALL, summary
from mc.synth import Cgroup, Sample, aversion, sstat, task

ROLES = ["header", "record", "sstat", "task", "cstat"]
REF = {"header": "Header", "record": "Record", "sstat": "SStat", "task": "TStat", "cstat": "CStat"}


def by_fields(obj):
    """A new object out of the field values of another one."""
    return type(obj)(**{name: getattr(obj, name) for name, *_rest in type(obj)._fields_})


def by_setting(obj):
    out = type(obj)()
    for name, *_rest in type(obj)._fields_:
        setattr(out, name, getattr(obj, name))
    return out


def by_moving(obj):
    out = type(obj)()
    ctypes.memmove(ctypes.addressof(out), ctypes.addressof(obj), ctypes.sizeof(out))
    return out


def by_reading(obj):
    out = type(obj)()
    io.BytesIO(bytes(obj)).readinto(out)
    return out


def by_pointer(obj):
    return ctypes.pointer(type(obj).from_buffer_copy(obj)).contents


DERIVE = {
    "copy": copy.copy, "deepcopy": copy.deepcopy, "bytes": lambda o: type(o).from_buffer_copy(bytes(o)), "buffer": lambda o: type(o).from_buffer(bytearray(o)), "fields": by_fields, "setting": by_setting,
    "moving": by_moving, "reading": by_reading, "pointer": by_pointer, "array": lambda o: (type(o) * 3)(o, o, o)[1], "list": lambda o: copy.deepcopy([o, o])[1], "field": lambda o: wrap(o).inner,
    **{f"pickle{n}": (lambda n: lambda o: pickle.loads(pickle.dumps(o, n)))(n) for n in range(6)},
}
USES = ["use", "convert", "annotate"]
STREAMS = ["memory", "file", "unbuffered", "gzip", "spooled"]


def wrap(obj):
    kind = type("Outer", (ctypes.Structure,), {"_fields_": [("before", ctypes.c_int), ("inner", type(obj))]})
    out = kind()
    out.inner = obj
    return out


class Source:
    """One log and the objects read from it; nothing has been done with them yet."""

    def __init__(self, v, known=True, content="plain", stream="memory"):
        self.v = v
        api = lib()
        self.plain = content == "plain"
        if known and not self.plain:
            groups = [Cgroup(v, 3, 12, [5, 6], content)] if v in CG_VERSIONS else []
            self.samples = [Sample(v, sstat(v, content, 1), [task(v, content, i) for i in range(2)], groups)]
            self.head = header(v)
        elif known:
            self.samples = [rich(0), rich(1)] if v == "1.26" else [plain_sample(v, 3, 2), plain_sample(v, 6, 1)]
            self.head = header(v)
        else:
            self.samples = [plain_sample("2.12", 3, 2), plain_sample("2.12", 6, 1)]
            self.head = header("2.12", aversion=aversion(v))
        self.layout = v if known else "2.12"
        self.data = self.head + b"".join(s.blob for s in self.samples)
        stream = self.stream = self.open(stream)
        self.hdr = expect_ok("get_header", api.get_header, stream) if known else expect_ok("get_header", api.get_header, stream, False)
        self.gen = expect_ok("generate_statistics", lambda: iter(api.generate_statistics(stream, self.hdr)))
        self.rec, self.sst, self.tasks, self.cgs = expect_ok("sample 0", next, self.gen)
        self.objects = {"header": self.hdr, "record": self.rec, "sstat": self.sst, "task": self.tasks[0]}
        first = self.samples[0]
        self.stored = {"header": self.head, "record": first.record, "sstat": first.sstat, "task": first.tasks[0]}
        if self.cgs:
            self.objects["cstat"] = self.cgs[0].cstat
            self.stored["cstat"] = first.cgroups[0].stat

    def open(self, kind):
        if kind == "memory":
            return io.BytesIO(self.data)
        if kind == "gzip":
            out = tempfile.TemporaryFile()
            with gzip.GzipFile(fileobj=out, mode="wb", compresslevel=1) as packed:
                packed.write(self.data)
            out.seek(0)
            return gzip.GzipFile(fileobj=out)
        out = tempfile.SpooledTemporaryFile(1 << 30) if kind == "spooled" else tempfile.TemporaryFile(buffering=0 if kind == "unbuffered" else -1)
        out.write(self.data)
        out.seek(0)
        return out

    def reads(self, hdr, what):
        """A header serves to read the log, with and without a generator."""
        api = lib()
        stream = io.BytesIO(self.data)
        stream.seek(len(self.head))
        num = 0
        for got in expect_ok(f"{what}: reading", lambda: list(api.generate_statistics(stream, hdr))):
            same(got, self.samples[num], f"{what}: sample {num}")
            num += 1
        check(num == len(self.samples), lambda: f"{what}: {num} samples instead of {len(self.samples)}")

    def steps(self, hdr, derive, what):
        """The sections are read one by one with a derived record."""
        api = lib()
        stream = io.BytesIO(self.data)
        stream.seek(len(self.head))
        for num, smp in enumerate(self.samples):
            rec = derive(expect_ok(f"{what}: record {num}", api.get_record, stream, hdr))
            got = (
                rec, expect_ok(f"{what}: sstat {num}", api.get_sstat, stream, hdr, rec), expect_ok(f"{what}: tstat {num}", api.get_tstat, stream, hdr, rec),
                expect_ok(f"{what}: cstat {num}", api.get_cstat, stream, hdr, rec) if self.layout in CG_VERSIONS else [],
            )
            same(got, smp, f"{what}: sample {num}, section by section")


def convert(role, src, obj, what):
    same_json(expect_ok(f"{what}: struct_to_dict", lib().struct_to_dict, obj), ref_dict(REF[role], src.layout, src.stored[role]), f"{what}: struct_to_dict")


def use(role, src, obj, what):
    """What objects of this kind are for."""
    if role == "header":
        major, minor = (int(x) for x in src.v.split("."))
        for name, exp in (("minor_version", minor), ("semantic_version", src.v), ("major_version", major)):
            got = expect_ok(f"{what}: {name}", getattr, obj, name)
            check(got == exp and type(got) is type(exp), lambda: f"{what}: {name} is {got!r} instead of {exp!r}")
        if src.v == src.layout:
            expect_ok(f"{what}: check_compatibility", obj.check_compatibility)
        src.reads(obj, what)
    elif role == "record":
        src.steps(src.hdr, lambda _rec: obj if bytes(_rec) == src.stored["record"] else _rec, what)
    elif src.v == "1.26" and src.plain and role in ("sstat", "task"):
        sst = obj if role == "sstat" else src.sst
        tasks = [obj, *src.tasks[1:]] if role == "task" else src.tasks
        for name in ("cpu", "cpl", "dsk", "net") if role == "sstat" else ("prg", "prc", "prm"):
            if name in ALL:
                summarise(name, src, src.hdr, src.rec, sst, tasks, what)


def summarise(name, src, hdr, rec, sst, tasks, what):
    func = getattr(sys.modules["atoparser.parsers.atop_1_26"], "parse_" + name)
    smp = src.samples[0]
    got = expect_ok(f"{what}: parse_{name}", lambda: list(func(hdr, rec, sst, tasks)))
    exp = summary(name, src.head, smp.record, smp.sstat, smp.tasks)
    if canon(got) != canon(exp):
        raise Violation(f"{what}: parse_{name}: {first_json_diff(got, exp)}")


CHILD = r"""
import pickle, sys
folder, order = sys.argv[1], sys.argv[2]
sys.path.insert(0, folder)
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent-verif-pycache"
if order == "imported":
    import atoparser.reader, atoparser.parsers.atop_1_26
data, packs, names = pickle.load(sys.stdin.buffer)
out = []
import io
for pack in packs:
    hdr, rec, sst, tasks, cstats = pickle.loads(pack)
    import atoparser, atoparser.parsers.atop_1_26 as parsers
    stream = io.BytesIO(data)
    stream.seek(len(bytes(hdr)))
    doc = {
        "raw": [bytes(hdr), bytes(rec), bytes(sst), [bytes(t) for t in tasks], [bytes(c) for c in cstats]],
        "dict": [atoparser.struct_to_dict(x) for x in (hdr, rec, sst, *tasks, *cstats)],
        "version": [hdr.semantic_version, hdr.major_version, hdr.minor_version],
        "kinds": [type(x).__module__ + "." + type(x).__qualname__ for x in (hdr, rec, sst, *tasks, *cstats)],
        "summaries": {n: list(getattr(parsers, "parse_" + n)(hdr, rec, sst, tasks)) for n in names},
        "read": [(bytes(r), bytes(s), tuple(bytes(t) for t in ts), tuple((bytes(c.cstat), tuple(c.proclist)) for c in cs)) for r, s, ts, cs in atoparser.generate_statistics(stream, hdr)],
        "back": [pickle.dumps((hdr, rec, sst, tasks, cstats), n) for n in range(6)],
    }
    out.append(doc)
sys.stdout.buffer.write(pickle.dumps(out))
"""


class CHECK(Check):
    prop = "P25"
    level = "model_checking"
    rule = (
        "State: (kind of object, version, ways in which the present object was derived from the one that was read, what was done with it before). Each sequence of derivations and uses is executed on the real "
        "objects; after every step, all objects of the sequence must hold the stored bytes, be of the original class, convert to the reference dictionary and serve their purpose; then each is overwritten to "
        "see that it is independent of the others."
    )
    bounds = {
        "sequences": f"all sequences of {len(DERIVE)} derivations and 3 uses (used, converted, annotated by its owner) up to length 2 (thorough: 3 for headers, records and cgroup statistics) x 5 kinds of objects x 11 versions (and headers of unknown versions)",
        "contents": "4 fills of all bytes of tasks, system and cgroup statistics x all sequences of the derivations that transfer bytes up to length 2",
        "streams": "samples read from memory, files (buffered or not), gzip and spooled files",
        "samples": "whole samples derived (all summaries, rest of the log read with the derived header), derived with the reader in mid-log, cgroups with process lists copied",
        "processes": "objects sent to a fresh interpreter in all 6 pickle protocols, used before or not, the library imported there before or not, and sent back",
    }
    assumptions = ["process lists of cgroups are arrays of a type made while reading, which pickle cannot transfer; they are copied only"]

    def tasks(self):
        out = [["transfer", v] for v in VERSIONS] + [["sample", v] for v in VERSIONS] + [["cgroups", v] for v in CG_VERSIONS]
        for v in VERSIONS:
            out.extend(["chain", v, role] for role in ROLES if role != "cstat" or v in CG_VERSIONS)
        # Whatever bytes: text behind the end of a text, padding, values no field of Python gives back.
        out.extend(["bytes", v] for v in VERSIONS)
        out.extend(["chain", v, "header"] for v in ("2.2", "2.13", "3.0", "127.255"))
        return out

    def cases(self, task_):
        kind, v = task_[0], task_[1]
        if kind == "chain":
            steps = [*DERIVE, *USES]
            depth = 3 if self.thorough and task_[2] != "sstat" else 2
            for n in range(1, depth + 1):
                for seq in itertools.product(steps, repeat=n):
                    if n > 1 and seq[-1] in USES and seq[-2] == seq[-1]:
                        continue
                    yield ["chain", v, task_[2], list(seq)]
        elif kind == "bytes":
            ways = [w for w in DERIVE if w not in ("fields", "setting")]
            for content in ("dense", "ones", "high", "text"):
                for role in ("task", "sstat", *(["cstat"] if v in CG_VERSIONS else [])):
                    for n in (1, 2) if role != "sstat" or self.thorough else (1,):
                        for seq in itertools.product(ways, repeat=n):
                            yield ["chain", v, role, list(seq), content]
        elif kind == "sample":
            for way in DERIVE:
                for warm in (False, True):
                    yield ["sample", v, way, warm, "memory"]
                for stream in STREAMS[1:]:
                    yield ["sample", v, way, False, stream]
        elif kind == "cgroups":
            for way in ("copy", "deepcopy", "list", "whole"):
                yield ["cgroups", v, way]
        else:
            for order in ("imported", "not imported"):
                yield ["transfer", v, order, "memory"]
            for stream in STREAMS[1:]:
                yield ["transfer", v, "imported", stream]

    def run_case(self, case, cov: Cov):
        getattr(self, "run_" + case[0])(case, cov)
        cov.evaluations += 1
        cov.note(case)
        cov.seen(json.dumps(case))

    def run_chain(self, case, cov):
        _kind, v, role, seq, *content = case
        src = Source(v, v in VERSIONS, *content)
        cls = type(src.objects[role])
        stored = src.stored[role]
        objs = [src.objects[role]]
        # What was derived last is at the end; everything before it stays alive.
        for num, step in enumerate(seq):
            what = f"{role} of {v} after {' > '.join(seq[: num + 1])}"
            cov.transitions += 1
            cov.state((role, v, tuple(seq[: num + 1]), *content))
            if step == "use":
                use(role, src, objs[-1], what)
            elif step == "convert":
                convert(role, src, objs[-1], what)
            elif step == "annotate":
                # Its owner notes something on it.
                objs[-1].verif_note = ["note", num]
                check(objs[-1].verif_note == ["note", num], f"{what}: what was noted is gone")
            else:
                objs.append(expect_ok(what, DERIVE[step], objs[-1]))
            for obj in objs:
                check(type(obj) is cls, lambda obj=obj: f"{what}: class {type(obj)} instead of {cls}")
                check(raw(obj) == stored, lambda: f"{what}: contents changed")
        what = f"{role} of {v} after {' > '.join(seq)}"
        if content:
            pass
        elif role != "sstat" or len(seq) < 2 or v in ("1.26", "2.12"):
            use(role, src, objs[-1], what)
            convert(role, src, objs[-1], what)
        if role == "header" and len(seq) < 2:
            use(role, src, objs[0], what + ", the original")
        # Independence: overwriting one of them changes none of the others (pointers included).
        marks = [bytes([17 + i]) * len(stored) for i in range(len(objs))]
        for i, obj in enumerate(objs):
            ctypes.memmove(ctypes.addressof(obj), marks[i], len(stored))
            for j, other in enumerate(objs):
                exp = marks[j] if j <= i else stored
                check(raw(other) == exp, lambda i=i, j=j: f"{what}: overwriting object {i} of the chain changed object {j}")
        cov.outcomes[f"chain {role}"] += 1

    def run_sample(self, case, cov):
        _kind, v, way, warm, stream = case
        src = Source(v, stream=stream)
        derive = DERIVE[way]
        what = f"sample of {v} (read from {stream}) derived by {way}{' after use' if warm else ''}"
        cov.state(("sample", v, way, warm, stream))
        cov.transitions += 1
        if warm:
            for role, obj in src.objects.items():
                convert(role, src, obj, "before")
            use("header", src, src.hdr, "before")
        smp = src.samples[0]
        hdr, rec, sst = (expect_ok(what, derive, x) for x in (src.hdr, src.rec, src.sst))
        tasks = [expect_ok(what, derive, t) for t in src.tasks]
        same((rec, sst, tasks, src.cgs), smp, what)
        if v == "1.26":
            for name in ALL:
                summarise(name, src, hdr, rec, sst, tasks, what)
                summarise(name, src, src.hdr, src.rec, src.sst, src.tasks, what + ", the original")
        # The reader goes on unimpressed, its present sample and header being overwritten after they were copied.
        for obj in (src.rec, src.sst, *src.tasks):
            ctypes.memset(ctypes.addressof(obj), 0xEE, ctypes.sizeof(obj))
        same(expect_ok(what, next, src.gen), src.samples[1], f"{what}: next sample of the reader that made the original")
        same((rec, sst, tasks, src.cgs), smp, what + ", the original overwritten")
        src.reads(hdr, what)
        src.steps(hdr, derive, what)
        for obj, data in ((hdr, src.head), (rec, smp.record), (sst, smp.sstat), *zip(tasks, smp.tasks)):
            check(raw(obj) == data, f"{what}: contents changed by use")
        cov.outcomes["sample"] += 1

    def run_cgroups(self, case, cov):
        _kind, v, way = case
        groups = [(8, [1, 2, 3]), (0, []), (40, [2**31 - 1]), (16, list(range(300)))]
        smp = plain_sample(v, 4, 1, cgs=groups)
        data = header(v) + smp.blob
        stream = io.BytesIO(data)
        hdr = lib().get_header(stream)
        got = expect_ok("reading", lambda: list(lib().generate_statistics(stream, hdr)))[0]
        what = f"cgroups of {v}, {way}"
        cov.state(("cgroups", v, way))
        cov.transitions += 1
        if way == "whole":
            new = expect_ok(what, copy.deepcopy, got)
        elif way == "list":
            new = (*got[:3], expect_ok(what, copy.deepcopy, got[3]))
        else:
            new = (*got[:3], [expect_ok(what, getattr(copy, way), c) for c in got[3]])
        same(new, smp, what)
        for num, (a, b) in enumerate(zip(new[3], got[3])):
            check(type(a) is type(b), f"{what}: class of cgroup {num}")
            same_json(expect_ok(what, lib().struct_to_dict, a), ref_cgroup(smp.cgroups[num], v), f"{what}: struct_to_dict of cgroup {num}")
        if way != "copy":
            for cg in got[3]:
                ctypes.memset(ctypes.addressof(cg.cstat), 0xEE, ctypes.sizeof(cg.cstat))
                for i in range(len(cg.proclist)):
                    cg.proclist[i] = -5
            same(new, smp, what + ", the original overwritten")
        cov.outcomes["cgroups"] += 1

    def run_transfer(self, case, cov):
        _kind, v, order, stream = case
        names = ALL if v == "1.26" else []
        packs = []
        for warm in (False, True):
            src = Source(v, stream=stream)
            if warm:
                for role, obj in src.objects.items():
                    convert(role, src, obj, "before")
                use("header", src, src.hdr, "before")
            whole = (src.hdr, src.rec, src.sst, src.tasks, [c.cstat for c in src.cgs])
            packs += [expect_ok(f"pickling a sample of {v}", pickle.dumps, whole, n) for n in range(6)]
        smp = src.samples[0]
        cwd = tempfile.mkdtemp(prefix="verif-p25-")
        env = {k: val for k, val in os.environ.items() if not k.startswith("PYTHON")}
        run = subprocess.run([sys.executable, "-B", "-c", CHILD, os.path.realpath(core.REPO), order], input=pickle.dumps((src.data, packs, names)), capture_output=True, cwd=cwd, env=env, timeout=100, check=False)
        what = f"sample of {v} (read from {stream}) in another process ({order} there)"
        check(run.returncode == 0, lambda: f"{what}: {run.stderr.decode(errors='replace')[-800:]}")
        docs = pickle.loads(run.stdout)
        check(len(docs) == len(packs), f"{what}: incomplete")
        major, minor = (int(x) for x in v.split("."))
        exp_raw = [src.head, smp.record, smp.sstat, smp.tasks, [c.stat for c in smp.cgroups]]
        exp_dict = [ref_dict("Header", v, src.head), ref_dict("Record", v, smp.record), ref_dict("SStat", v, smp.sstat), *(ref_dict("TStat", v, t) for t in smp.tasks), *(ref_dict("CStat", v, c.stat) for c in smp.cgroups)]
        kinds = [type(x).__module__ + "." + type(x).__qualname__ for x in (src.hdr, src.rec, src.sst, *src.tasks, *(c.cstat for c in src.cgs))]
        for num, doc in enumerate(docs):
            here = f"{what}, protocol {num % 6}{', used before' if num > 5 else ''}"
            cov.state(("transfer", v, order, stream, num))
            cov.transitions += 1
            check(doc["raw"] == exp_raw, f"{here}: contents differ")
            same_json(doc["dict"], exp_dict, here + ": struct_to_dict")
            check(doc["version"] == [v, major, minor], f"{here}: version {doc['version']}")
            check(doc["kinds"] == kinds, f"{here}: classes {doc['kinds']} instead of {kinds}")
            for name in names:
                same_json(doc["summaries"][name], summary(name, src.head, smp.record, smp.sstat, smp.tasks), f"{here}: parse_{name}")
            check(len(doc["read"]) == len(src.samples), f"{here}: {len(doc['read'])} samples read with the header")
            for got, sample in zip(doc["read"], src.samples):
                msg = diff(got, want(sample))
                check(msg is None, f"{here}: reading with the header: {msg}")
            for back in doc["back"]:
                hdr, rec, sst, tasks, cstats = expect_ok(here + ", sent back", pickle.loads, back)
                check(type(hdr) is type(src.hdr) and type(rec) is type(src.rec) and type(sst) is type(src.sst) and all(type(t) is type(src.tasks[0]) for t in tasks), f"{here}: other classes after sending back")
                check([raw(hdr), raw(rec), raw(sst), [raw(t) for t in tasks], [raw(c) for c in cstats]] == exp_raw, f"{here}: contents differ after sending back")
                src.reads(hdr, here + ", sent back")
                if v == "1.26":
                    summarise("cpu", src, hdr, rec, sst, tasks, here + ", sent back")
        cov.outcomes["transfer"] += 1
