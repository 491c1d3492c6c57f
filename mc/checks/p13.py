"""P13: parseable summaries report exactly the statistics of the sample."""

from __future__ import annotations

import io
import itertools
import sys

from mc.checks.p01 import FILLS, LENGTHS, fill
from mc.core import Check, Cov, Violation, attempt, check, expect_ok
from mc.oracle import SCALARS, Sample, drain, header, layout, lib, plain_sample, same_json, sstat, task
from mc.parse126 import ALL, CPU_KEYS, DISK_KEYS, MEM_KEYS, NETL_KEYS, NETU_KEYS, PRM_KB, TASK_KEYS, V, summary

ARRAYS = {"DSK": ("dsk", "dsk", 256), "LVM": ("dsk", "lvm", 256), "MDD": ("dsk", "mdd", 128), "NETL": ("intf", "intf", 32)}
TEXTS = {
    "DSK": ("dsk", "dsk"), "LVM": ("dsk", "lvm"), "MDD": ("dsk", "mdd"), "NETL": ("intf", "intf"),
}
SPECIAL = [
    b"\xc3\xa4\xc3\xb6", b"\xe2\x82\xac", b"\xf0\x9f\x98\x80", b"a\xc3", b"a\xe2\x82", b"\xf0\x9f\x98", b"\xc0\x80", b"\xed\xa0\x80", b"\xff\xfe", b"\xef\xbb\xbfx", b"\x80", b"a\x80b",
    b"\xf4\x90\x80\x80", b'"', b"\\", b"/", b"<>&'", b"\n\r\t", b"\x1b[0m", b" lead", b"trail ", b"  ", b"%s%d{}", b"a\0b", b"\x7f",
]
TEXT_VALUES = [b"", b"a", b"\xff\xfe", b"x" * 300]
# Single values which one field after another holds: small numbers, powers of two and of ten and their neighbours, and usual quantities.
LADDER = sorted({*range(71), *range(90, 130), *range(250, 301), *(2**k + d for k in range(6, 64) for d in (-1, 0, 1)), *(10**k + d for k in range(2, 19) for d in (-1, 0, 1)), 1440, 3600, 65534, 86400})
WORDS = (
    b"init systemd kthreadd kworker ksoftirqd migration rcu_sched bash sh sudo sshd atop python java node cron kernel root localhost (sd-pam) [kthreadd] <defunct> none null nil N/A - -1 0 1 "
    b"lo eth0 eth1 ens3 enp0s3 wlan0 bond0 br0 docker0 veth0 tun0 tap0 virbr0 dummy0 ib0 sda sda1 sdb hda vda xvda nvme0n1 nvme0n1p1 mmcblk0 loop0 ram0 sr0 dm-0 md0 md127 vg-root "
    b"vg00-lvol0 swap zram0 total all cpu true false None NaN inf {} [] () <> ! ? * $HOME ~ . .. /".split()
)


def functions():
    mod = sys.modules["atoparser.parsers.atop_1_26"]
    return {name: expect_ok(f"parse_{name}", getattr, mod, f"parse_{name}") for name in ALL}


class CHECK(Check):
    prop = "P13"
    level = "exploration"
    rule = (
        "One evaluation computes one summary of one 1.26 sample read from a synthetic log and compares all entries (order, keys, values, JSON types) with the reference table "
        "evaluated on the stored bytes. Non-trivial: the summary has an entry or ends early; distinct by sample and summary."
    )
    bounds = {
        "counts": "every number of cores 0..66 (and 100, 10^6), disks and volumes 0..256, devices 0..128, interfaces 0..32, tasks 0..40, 100, 300 (unnamed entries behind them hold random values)",
        "values": "12 fills of every statistics field, header and record, all pairs of sample fill x header fill",
        "text": f"all 256 byte values at the first, second, middle and last position of every name/command/state field, full width, {len(SPECIAL)} special byte strings at the "
        "start and at the field's end; thorough: all 65,536 two-byte contents",
        "pairs": "all pairs of fields of tasks, disks, volumes, devices, interfaces, cores and of system-wide statistics, header and record, holding 0, 1, -1 or the maximum (texts: empty to full), "
        "on otherwise zero and on plain ones; every state letter together with each other task field",
        "single values": f"each scalar of a task, of each kind of item and of the system-wide statistics, header and record, reported or not, holding each of {len(LADDER)} numbers "
        "(and their negatives as far as they fit); every name, command and state holding each of a vocabulary of usual words",
        "flags": "all 65,536 support flag values for PRD and PRN (and negative ones), all 256 duplex values",
    }

    def tasks(self):
        out = [["count", k] for k in ("cpu", "DSK", "LVM", "MDD", "NETL", "tasks")]
        out += [["fills", f] for f in FILLS]
        out += [["text", i] for i in range(0, 256, 32)] + [["special"], ["flags"], ["duplex"], ["fixture-like"]]
        out += [["taskpairs", i] for i in range(16)] + [["itempairs", name] for name in ("cpu", *ARRAYS)] + [["syspairs", i] for i in range(16)]
        out += [["taskladder", i] for i in range(8)] + [["itemladder", name] for name in ("cpu", *ARRAYS)] + [["sysladder", i] for i in range(32)] + [["words"]]
        if self.thorough:
            out += [["two", i] for i in range(256)]
        return out

    def cases(self, task_):
        kind = task_[0]
        if kind == "count":
            name = task_[1]
            if name == "cpu":
                for n in [*range(67), 100, 1000000]:
                    yield ["cores", n]
            elif name == "tasks":
                for n in [*range(41), 100, 300]:
                    yield ["ntasks", n]
            else:
                for n in range(ARRAYS[name][2] + 1):
                    yield ["items", name, n]
        elif kind == "fills":
            for hf in ("zero", "ones", "dense", "x7f", "x80"):
                for rf in FILLS:
                    yield ["fill", task_[1], hf, rf]
        elif kind == "text":
            for byte in range(task_[1], task_[1] + 32):
                for where in ("first", "second", "middle", "last", "only", "all"):
                    yield ["byte", byte, where]
        elif kind == "special":
            for i in range(len(SPECIAL)):
                for where in ("start", "end"):
                    yield ["special", i, where]
        elif kind == "two":
            for low in range(256):
                yield ["twobytes", task_[1], low]
        elif kind == "taskpairs":
            combos = list(self.task_pairs())
            parts = [combos[i : i + 300] for i in range(0, len(combos), 300)]
            for num in range(task_[1], len(parts), 16):
                yield ["taskpairs", num]
        elif kind == "itempairs":
            for base in ("zero", "plain"):
                yield ["itempairs", task_[1], base]
        elif kind == "syspairs":
            for num, _pair in enumerate(itertools.combinations(self.sys_fields(), 2)):
                if num % 16 == task_[1]:
                    yield ["syspairs", num]
        elif kind == "taskladder":
            for num, path in enumerate(self.scalars("TStat")):
                if num % 8 == task_[1]:
                    yield ["taskladder", list(path)]
        elif kind == "itemladder":
            grp, arr, _cap = ("cpu", "cpu", 64) if task_[1] == "cpu" else ARRAYS[task_[1]]
            for path in self.scalars("SStat"):
                if path[:3] == (grp, arr, 0):
                    yield ["itemladder", task_[1], list(path[3:])]
        elif kind == "sysladder":
            for num, (role, path) in enumerate(self.sys_scalars()):
                if num % 32 == task_[1]:
                    yield ["sysladder", role, list(path)]
        elif kind == "words":
            for i in range(len(WORDS)):
                yield ["words", i]
        elif kind == "flags":
            for start in range(0, 65536, 4096):
                yield ["flags", start]
        elif kind == "duplex":
            for val in range(256):
                yield ["duplex", val]
        else:
            for seed in range(20):
                yield ["plain", seed]

    def run_case(self, case, cov: Cov) -> None:
        lay = layout(V)
        kind = case[0]
        if kind.endswith(("pairs", "ladder", "words")):
            getattr(self, "do_" + kind)(case, cov)
            cov.note(case, 1)
            return
        stat = bytearray(sstat(V, "dense", 3))
        for _name, (grp, arr, cap) in ARRAYS.items():
            for i in range(cap):  # random content, no names
                off, fld = lay.locate("SStat", (grp, arr, i, "name"))
                stat[off : off + fld.size] = bytes(fld.size)
        lay.put(stat, "SStat", ("cpu", "nrcpu"), 3)
        tasks = [task(V, "plain", 1)]
        head = header(V)
        rec = {"curtime": 1_700_000_001, "interval": 600}
        names = ALL
        if kind == "cores":
            lay.put(stat, "SStat", ("cpu", "nrcpu"), case[1])
            names = ["cpu", "CPL", "CPU"]
        elif kind == "ntasks":
            tasks = [task(V, "dense" if i % 3 else "plain", i) for i in range(case[1])]
            names = ["PRC", "PRD", "PRG", "PRM", "PRN", "CPL", "cpu"]
        elif kind == "items":
            _kind, name, n = case
            grp, arr, cap = ARRAYS[name]
            for i in range(n):
                lay.put(stat, "SStat", (grp, arr, i, "name"), b"%s%d" % (arr.encode(), i))
            names = ["DSK", "LVM", "MDD", "NETL"]
        elif kind == "fill":
            stat = fill(V, "SStat", case[1])
            if lay.get(stat, "SStat", ("cpu", "nrcpu")) < 0:
                lay.put(stat, "SStat", ("cpu", "nrcpu"), 64)
            tasks = [bytes(fill(V, "TStat", case[1])), bytes(fill(V, "TStat", "dense", 9)), task(V, "plain", 2)]
            buf = fill(V, "Header", case[2])
            for fld in lay.roots["Header"].fields:
                if fld.name in LENGTHS["Header"]:
                    buf[fld.offset : fld.offset + fld.size] = head[fld.offset : fld.offset + fld.size]
            head = bytes(buf)
            recbuf = fill(V, "Record", case[3])
            rec = {f.name: lay.get(recbuf, "Record", (f.name,)) for f in lay.roots["Record"].fields if f.count is None and f.name not in LENGTHS["Record"]}
        elif kind in ("byte", "special", "twobytes"):
            tasks = []
            targets = [("SStat", stat, (g, a, i, "name")) for g, a in TEXTS.values() for i in range(2)]
            one = bytearray(task(V, "dense", 4))
            targets += [("TStat", one, ("gen", "name")), ("TStat", one, ("gen", "cmdline")), ("TStat", one, ("gen", "state"))]
            for role, buf, path in targets:
                off, fld = lay.locate(role, path)
                buf[off : off + fld.size] = self.text(case, fld.size)
            tasks = [bytes(one), task(V, "plain", 1)]
            names = ["DSK", "LVM", "MDD", "NETL", "PRC", "PRD", "PRG", "PRM", "PRN"]
        elif kind == "duplex":
            for i in range(3):
                lay.put(stat, "SStat", ("intf", "intf", i, "name"), b"eth%d" % i)
                off, _fld = lay.locate("SStat", ("intf", "intf", i, "duplex"))
                stat[off] = (case[1] + i) % 256
            names = ["NETL"]
        elif kind == "flags":
            self.flags(case, cov, bytes(stat), tasks, rec)
            return
        elif kind == "plain":
            smp = plain_sample(V, case[1], case[1] % 4)
            stat, tasks = bytearray(smp.sstat), smp.tasks
        self.settle(stat)
        smp = Sample(V, bytes(stat), tasks, rec=rec, level=1)
        self.judge(cov, case, head, smp, names)
        cov.note(case, 1)

    # ---- all pairs of fields that hold remarkable values ------------------------------------------------------------
    @staticmethod
    def put_bounded(buf, role, path, val):
        fld = layout(V).locate(role, path)[1]
        if fld.kind == "char":
            off = layout(V).locate(role, path)[0]
            text_ = TEXT_VALUES[val][: fld.size]
            buf[off : off + fld.size] = text_ + bytes(fld.size - len(text_))
        else:
            signed = SCALARS[fld.kind][0].islower()
            size = layout(V).locate(role, path)[1].size
            top = (1 << 8 * size - 1) - 1
            layout(V).put(buf, role, path, {0: 0, 1: 1, 2: -1 if signed else top, 3: top}[val])

    def task_pairs(self):
        paths = sorted({("gen", "pid"), ("gen", "name"), ("gen", "state"), *(tuple(f.split(".")) for keys in TASK_KEYS.values() for f in keys.values()), *(tuple(f.split(".")) for f in PRM_KB.values())})
        for base in ("zero", "plain"):
            for a, b in itertools.combinations(paths, 2):
                for x, y in itertools.product(range(4), repeat=2):
                    yield base, a, b, x, y
            for path in paths:
                if layout(V).locate("TStat", path)[1].kind == "char" and layout(V).locate("TStat", path)[1].count is None:
                    for other in paths:
                        if other != path:
                            for byte in range(0, 128, 1):
                                for x in range(4):
                                    yield base, path, other, (byte,), x

    def do_taskpairs(self, case, cov):
        tasks = []
        for base, a, b, x, y in itertools.islice(self.task_pairs(), case[1] * 300, case[1] * 300 + 300):
            buf = bytearray(task(V, "plain", 3)) if base == "plain" else bytearray(layout(V).size("TStat"))
            if isinstance(x, tuple):
                buf[layout(V).locate("TStat", a)[0]] = x[0]
            else:
                self.put_bounded(buf, "TStat", a, x)
            self.put_bounded(buf, "TStat", b, y)
            tasks.append(bytes(buf))
        smp = Sample(V, sstat(V, "plain", 3), tasks, level=1)
        self.judge(cov, case, header(V), smp, ["PRC", "PRD", "PRG", "PRM", "PRN"])
        cov.outcomes["pairs of task values"] += len(tasks)

    def do_itempairs(self, case, cov):
        _kind, name, base = case
        grp, arr, cap = ("cpu", "cpu", 64) if name == "cpu" else ARRAYS[name]
        fields = [*CPU_KEYS.values()] if name == "cpu" else [*NETL_KEYS.values()] if name == "NETL" else [*DISK_KEYS.values()]
        combos = [(a, b, x, y) for a, b in itertools.combinations(fields, 2) for x, y in itertools.product(range(4), repeat=2)]
        for start in range(0, len(combos), cap):
            stat = bytearray(sstat(V, "plain", 3)) if base == "plain" else bytearray(layout(V).size("SStat"))
            part = combos[start : start + cap]
            for i, (a, b, x, y) in enumerate(part):
                for n, f in enumerate(fields):
                    layout(V).put(stat, "SStat", (grp, arr, i, f), 0 if base == "zero" else 100 + i * 7 + n)
                self.put_bounded(stat, "SStat", (grp, arr, i, a), x)
                self.put_bounded(stat, "SStat", (grp, arr, i, b), y)
                if name != "cpu":
                    # Some names occur several times.
                    layout(V).put(stat, "SStat", (grp, arr, i, "name"), b"%s%d" % (arr.encode(), i // (1 if base == "zero" else 2)))
            self.settle(stat)
            if name == "cpu":
                layout(V).put(stat, "SStat", ("cpu", "nrcpu"), len(part))
            self.judge(cov, [*case, start], header(V), Sample(V, bytes(stat), [], level=1), [name])
            cov.outcomes["pairs of item values"] += len(part)

    @staticmethod
    def sys_fields():
        out = [("SStat", ("cpu", *f.split("."))) for f in ("nrcpu", "csw", "devint")]
        out += [("SStat", ("cpu", "all", f)) for f in CPU_KEYS.values()]
        out += [("SStat", ("mem", f)) for keys in MEM_KEYS.values() for f in keys.values()]
        out += [("SStat", ("net", *f.split("."))) for fs in NETU_KEYS.values() for f in fs]
        out += [("Header", ("hertz",)), ("Header", ("pagesize",)), ("Record", ("curtime",)), ("Record", ("interval",)), ("Record", ("flags",))]
        return out

    def do_syspairs(self, case, cov):
        (ra, a), (rb, b) = next(itertools.islice(itertools.combinations(self.sys_fields(), 2), case[1], None))
        for x, y in itertools.product(range(4), repeat=2):
            for base in ("zero", "plain") if self.thorough or x * y % 2 == 0 else ("plain",):
                stat = bytearray(sstat(V, "plain", 3)) if base == "plain" else bytearray(layout(V).size("SStat"))
                self.settle(stat)
                head = bytearray(header(V))
                rec = bytearray(layout(V).size("Record"))
                layout(V).put(rec, "Record", ("curtime",), 1_700_000_000)
                bufs = {"SStat": stat, "Header": head, "Record": rec}
                self.put_bounded(bufs[ra], ra, a, x)
                self.put_bounded(bufs[rb], rb, b, y)
                over = {f: layout(V).get(rec, "Record", (f,)) for f in ("curtime", "interval", "flags")}
                smp = Sample(V, bytes(stat), [], rec=over, level=1)
                self.judge(cov, [*case, x, y, base], bytes(head), smp, ["CPL", "CPU", "MEM", "NETU", "PAG", "SWP"])
        cov.outcomes["pairs of system values"] += 16

    # ---- one field after another through many values -----------------------------------------------------------------
    @staticmethod
    def scalars(role):
        """Paths of all numbers; of an array's elements the first one."""
        return [path for path, _off, fld in layout(V).leaves(role, max_elems=2, future=True) if fld.kind != "char" and not any(isinstance(step, int) and step for step in path)]

    def sys_scalars(self):
        out = [("SStat", path) for path in self.scalars("SStat") if not any(path[:2] == (grp, arr) for grp, arr, _cap in ARRAYS.values()) and path[:2] != ("cpu", "cpu")]
        out += [("Record", path) for path in self.scalars("Record") if path[-1] not in LENGTHS["Record"]]
        return out + [("Header", path) for path in self.scalars("Header") if path[-1] not in LENGTHS["Header"]]

    @staticmethod
    def ladder(role, path):
        fld = layout(V).locate(role, path)[1]
        bits = 8 * (fld.elem or fld.size)
        low, high = (-(1 << bits - 1), (1 << bits - 1) - 1) if SCALARS[fld.kind][0].islower() else (0, (1 << bits) - 1)
        return sorted(val for val in {*LADDER, *(-val for val in LADDER)} if low <= val <= high)

    def do_taskladder(self, case, cov):
        path = tuple(case[1])
        vals = self.ladder("TStat", path)
        for start in range(0, len(vals), 300):
            tasks = []
            for i, val in enumerate(vals[start : start + 300]):
                buf = bytearray(task(V, "plain", i))
                layout(V).put(buf, "TStat", path, val)
                tasks.append(bytes(buf))
            self.judge(cov, [*case, start], header(V), Sample(V, sstat(V, "plain", 3), tasks, level=1), ["PRC", "PRD", "PRG", "PRM", "PRN"])
        cov.outcomes["single task values"] += len(vals)

    def do_itemladder(self, case, cov):
        _kind, name, field = case
        grp, arr, cap = ("cpu", "cpu", 64) if name == "cpu" else ARRAYS[name]
        vals = self.ladder("SStat", (grp, arr, 0, *field))
        for start in range(0, len(vals), cap):
            stat = bytearray(sstat(V, "plain", 3))
            part = vals[start : start + cap]
            for i, val in enumerate(part):
                for num, path in enumerate(p for p in self.scalars("SStat") if p[:3] == (grp, arr, 0)):
                    layout(V).put(stat, "SStat", (grp, arr, i, *path[3:]), 10 + num + i % 90)
                layout(V).put(stat, "SStat", (grp, arr, i, *field), val)
                if name != "cpu":
                    layout(V).put(stat, "SStat", (grp, arr, i, "name"), b"%s%d" % (arr.encode(), i))
            self.settle(stat)
            if name == "cpu":
                layout(V).put(stat, "SStat", ("cpu", "nrcpu"), len(part))
            self.judge(cov, [*case, start], header(V), Sample(V, bytes(stat), [], level=1), [name])
        cov.outcomes["single item values"] += len(vals)

    def do_sysladder(self, case, cov):
        _kind, role, path = case[0], case[1], tuple(case[2])
        vals = self.ladder(role, path)
        if not self.thorough and (role == "SStat" and path not in [p for r, p in self.sys_fields() if r == role]):
            vals = vals[:: 5]  # unreported fields
        for val in vals:
            if path == ("cpu", "nrcpu") and not -1 <= val <= 70000:
                continue  # as many cores as that cannot be reported
            bufs = {"SStat": bytearray(sstat(V, "plain", 3)), "Header": bytearray(header(V)), "Record": bytearray(layout(V).size("Record"))}
            layout(V).put(bufs["Record"], "Record", ("curtime",), 1_700_000_000)
            layout(V).put(bufs["Record"], "Record", ("interval",), 600)
            layout(V).put(bufs[role], role, path, val)
            over = {f.name: layout(V).get(bufs["Record"], "Record", (f.name,)) for f in layout(V).roots["Record"].fields if f.count is None and f.name not in LENGTHS["Record"]}
            smp = Sample(V, bytes(bufs["SStat"]), [task(V, "plain", 1)], rec=over, level=1)
            self.judge(cov, [*case, val], bytes(bufs["Header"]), smp, ["CPL", "CPU", "MEM", "NETU", "PAG", "SWP", "PRC", "PRD", "PRM", "PRN"] if role != "SStat" else ["CPL", "CPU", "MEM", "NETU", "PAG", "SWP"])
        cov.outcomes["single system values"] += len(vals)

    def do_words(self, case, cov):
        word = WORDS[case[1]]
        stat = bytearray(sstat(V, "plain", 3))
        for name, (grp, arr, _cap) in ARRAYS.items():
            fld = layout(V).locate("SStat", (grp, arr, 0, "name"))[1]
            for i, text_ in enumerate((b"x", word[: fld.size], b"y", word[: fld.size])):
                layout(V).put(stat, "SStat", (grp, arr, i, "name"), text_)
        self.settle(stat)
        tasks = []
        for where in (("name",), ("cmdline",), ("name", "cmdline"), ("name", "cmdline", "state")):
            for base in ("plain", "zero"):
                buf = bytearray(task(V, "plain", 4)) if base == "plain" else bytearray(layout(V).size("TStat"))
                for key in where:
                    fld = layout(V).locate("TStat", ("gen", key))[1]
                    layout(V).put(buf, "TStat", ("gen", key), word[: fld.size])
                tasks.append(bytes(buf))
        head = header(V, **{})
        self.judge(cov, case, head, Sample(V, bytes(stat), tasks, level=1), list(ALL))
        cov.outcomes["words"] += 1

    @staticmethod
    def settle(stat):
        """Well-formed statistics: the stored counts are the numbers of named entries."""
        lay = layout(V)
        for name, (grp, arr, cap) in ARRAYS.items():
            num = next((i for i in range(cap) if not lay.get(stat, "SStat", (grp, arr, i, "name"))), cap)
            lay.put(stat, "SStat", (grp, "nrintf" if name == "NETL" else "n" + arr), num)

    @staticmethod
    def text(case, width):
        if case[0] == "byte":
            byte = bytes([case[1]])
            body = {
                "first": byte + b"bc", "second": b"a" + byte + b"c", "middle": b"a" * (width // 2) + byte + b"z" * (width - width // 2 - 1),
                "last": b"a" * (width - 1) + byte, "only": byte, "all": byte * width,
            }[case[2]]
        elif case[0] == "twobytes":
            body = bytes(case[1:3])
        else:
            body = SPECIAL[case[1]]
            if case[2] == "end":
                body = (b"x" * width + body)[-width:] if len(body) < width else body
                body = b"x" * (width - len(body)) + body
        return body[:width] + bytes(max(0, width - len(body)))

    def judge(self, cov, case, head, smp, names):
        api = lib()
        hdr = expect_ok("header", api.get_header, io.BytesIO(head))
        out, exc = drain(api.generate_statistics(io.BytesIO(smp.blob), hdr))
        check(exc is None and len(out) == 1, lambda: f"{len(out)} samples, {exc!r}")
        record, stat, tasks, _groups = out[0]
        funcs = functions()
        for name in names:
            exp = summary(name, head, smp.record, smp.sstat, smp.tasks)
            kind, got = attempt(lambda: list(funcs[name](hdr, record, stat, tasks)))
            if kind == "exc":
                raise Violation(f"{name} of {case}: {type(got).__name__}: {str(got)[:200]}")
            same_json(got, exp, f"{name} of {case}")
            cov.evaluations += 1
            cov.outcomes[name] += 1
            if exp or name in ARRAYS:
                cov.seen((str(case), name))

    def flags(self, case, cov, stat, tasks, rec):
        api = lib()
        smp = Sample(V, stat, tasks, rec=rec, level=1)
        funcs = functions()
        first = header(V)
        out, _exc = drain(api.generate_statistics(io.BytesIO(smp.blob), api.get_header(io.BytesIO(first))))
        record, sys_stat, tstats, _groups = out[0]
        for val in [*range(case[1], case[1] + 4096)] + ([-1, -2, -3, -5, -7, -(2**31), 2**31 - 1] if not case[1] else []):
            head = header(V, supportflags=val)
            hdr = expect_ok("header", api.get_header, io.BytesIO(head))
            for name in ("PRD", "PRN"):
                same_json(list(funcs[name](hdr, record, sys_stat, tstats)), summary(name, head, smp.record, smp.sstat, smp.tasks), f"{name} with support flags {val:#x}")
                cov.evaluations += 1
                cov.seen(("flags", val, name))
        cov.outcomes["support flags"] += 4096
