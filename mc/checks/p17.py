"""P17: conversions and summaries are pure functions of the objects they are given."""

from __future__ import annotations

import copy
import ctypes
import io
import itertools
import sys

from mc import alike
from mc.checks.p10 import look_alike
from mc.core import Check, Cov, Violation, check, expect_ok, fork_call
from mc.oracle import CG_VERSIONS, VERSIONS, canon, drain, first_json_diff, header, layout, lib, log, plain_sample, raw, ref_cgroup, ref_dict, Sample, task
from mc.parse126 import ALL, summary

V = "1.26"


def rich(seed: int) -> Sample:
    """A 1.26 sample with several entries for every summary."""
    lay = layout(V)
    buf = bytearray(lay.size("SStat"))
    for n, (path, _off, fld) in enumerate(lay.leaves("SStat", 4)):
        if fld.kind != "char":
            lay.put(buf, "SStat", path, (seed * 37 + n) % 97 + 1)
    for i in range(2 + seed):
        lay.put(buf, "SStat", ("intf", "intf", i, "name"), b"eth%d" % (i + seed))
        for kind in ("dsk", "lvm", "mdd"):
            lay.put(buf, "SStat", ("dsk", kind, i, "name"), b"%s%d" % (kind.encode(), i + seed))
    for path, val in ((("cpu", "nrcpu"), 2 + seed), (("dsk", "ndsk"), 2 + seed), (("dsk", "nlvm"), 2 + seed), (("dsk", "nmdd"), 2 + seed), (("intf", "nrintf"), 2 + seed)):
        lay.put(buf, "SStat", path, val)
    tasks = []
    for i in range(2 + seed):
        item = bytearray(task(V, "plain", 10 * seed + i))
        for n, (path, _off, fld) in enumerate(lay.leaves("TStat")):
            if fld.kind != "char" and not lay.get(item, "TStat", path):
                lay.put(item, "TStat", path, (seed * 31 + i * 17 + n) % 89 + 2)
        tasks.append(bytes(item))
    return Sample(V, bytes(buf), tasks, rec={"curtime": 1_700_000_000 + seed, "interval": 60 + seed})


def many(v: str, i: int) -> Sample:
    """The i-th of many different samples: small, with contents, counts and texts changing in different rhythms."""
    if v == V:
        base = rich(i % 3)
        lay = layout(v)
        buf = bytearray(base.sstat)
        for n, path in enumerate([("cpu", "all", "utime"), ("mem", "physmem"), ("dsk", "dsk", 0, "nread"), ("intf", "intf", 0, "rbyte"), ("net", "tcp", "ActiveOpens")]):
            lay.put(buf, "SStat", path, 1000 + i * (n + 1))
        lay.put(buf, "SStat", ("intf", "intf", 0, "name"), b"if%d" % i)
        lay.put(buf, "SStat", ("dsk", "dsk", 0, "name"), b"dm-%d" % i)
        tasks = [bytearray(t) for t in base.tasks[: i % 4]]
        for k, item in enumerate(tasks):
            lay.put(item, "TStat", ("gen", "pid"), 300 + i * 4 + k)
            lay.put(item, "TStat", ("gen", "name"), b"p%d" % (i // 2))
            lay.put(item, "TStat", ("cpu", "utime"), i + k)
        return Sample(v, bytes(buf), [bytes(t) for t in tasks], rec={"curtime": 1_700_000_000 + i, "interval": 1 + i % 5})
    return plain_sample(v, i, i % 3)


class World:
    """Objects read from two logs, with the bytes they must keep."""

    def __init__(self, v):
        self.v = v
        self.sets = {}
        for name, seed in (("A", 0), ("B", 1)):
            smp = rich(seed) if v == V else plain_sample(v, 3 + seed, 2 + seed)
            head = header(v, hertz=100 + 50 * seed, pagesize=4096 << seed, supportflags=0x35 if seed else 0x3)
            stream = io.BytesIO(head + smp.blob)
            hdr = expect_ok("get_header", lib().get_header, stream)
            out, exc = drain(lib().generate_statistics(stream, hdr))
            check(exc is None and len(out) == 1, f"{v}: reading the sample failed: {exc!r}")
            rec, sst, tasks, groups = out[0]
            self.sets[name] = {"h": (hdr, head), "r": (rec, smp.record), "s": (sst, smp.sstat), "t": (tasks, smp.tasks), "c": (groups, smp.cgroups)}

    def verify(self, when):
        for name, parts in self.sets.items():
            for key in "hrs":
                obj, data = parts[key]
                check(raw(obj) == data, lambda: f"{self.v}: {'header record sstat'.split()['hrs'.index(key)]} {name} changed {when}")
            tasks, exp = parts["t"]
            check(len(tasks) == len(exp) and all(raw(t) == e for t, e in zip(tasks, exp)), lambda: f"{self.v}: tasks {name} changed {when}")
            groups, exp = parts["c"]
            check(
                len(groups) == len(exp) and all(raw(g.cstat) == e.stat and list(g.proclist) == e.pids for g, e in zip(groups, exp)),
                lambda: f"{self.v}: cgroups {name} changed {when}",
            )


def spoil(value) -> None:
    """Change everything a caller can change in a result."""
    if isinstance(value, dict):
        for val in list(value.values()):
            spoil(val)
        for key in list(value):
            value[key] = "spoiled"
        value["additional"] = 1
    elif isinstance(value, list):
        for val in value:
            spoil(val)
        value.clear()
        value.append("spoiled")


class CHECK(Check):
    prop = "P17"
    level = "model_checking"
    rule = (
        "A state is a history of conversion/summary calls (operation, argument mix, use made of the result); each history is executed on the real library from a forked, "
        "so far unused copy of the process, and every result on the way is compared with the reference value of its arguments, as are the argument bytes after every call."
    )
    bounds = {
        "summaries": "all ordered pairs over 16 summaries x 5 argument mixes (plus conversions), results kept or overwritten; thorough: all triples over a reduced alphabet",
        "generators": "all pairs of two live generators in 4 consumption patterns, partially consumed and abandoned ones included",
        "conversions": "all ordered pairs over header/record/tstat/cgroup of all versions; sstat for all ordered version pairs; every type repeated with overwritten results",
        "long": "one process converts or summarises 300 (sstat: 60; thorough: 4 times as many) different objects of one kind twice, forth and back; all 16 summaries of 150 samples twice",
        "alike": f"all kinds of objects in {len(alike.WAYS)} ways equal to another one in length and more (record, check sums, ends, sum of bytes...), in turns",
        "updates": "every conversion and summary before and after the caller changed the argument, and for a new object at the address of a deleted one; the fields of one object changed one after the other (up to 250, of system dictionaries 60; thorough: all)",
    }
    MIXES = ["AAAA", "BBBB", "BAAA", "ABAA", "AABB"]

    def tasks(self):
        alphabet = self.alphabet()
        out = [["tree", list(first)] for first in alphabet]
        out += [["gens", i] for i in range(16)]
        out += [["versions", v] for v in VERSIONS]
        out += [["update", v] for v in VERSIONS]
        out += [["alike", v] for v in VERSIONS]
        return [["long", v, name] for v, name in self.long_runs()] + out

    @staticmethod
    def long_runs():
        runs = [(V, name) for name in (*ALL, "all")]
        for v in VERSIONS:
            runs += [(v, part) for part in ("h", "r", "t", "rt", "s")]
            if v in CG_VERSIONS:
                runs.append((v, "c"))
        return runs

    def alphabet(self):
        ops = [("parse", name, mix) for name in ALL for mix in self.MIXES]
        ops += [("dict", part, who) for part in "hrst" for who in "AB"]
        return ops

    def small(self):
        return [("parse", n, m) for n in ("cpu", "DSK", "NETL", "NETU", "PRC", "PRG", "PRM") for m in ("AAAA", "BAAA")] + [("dict", "t", "A"), ("dict", "s", "B"), ("dict", "r", "A")]

    # ---- single operations ----------------------------------------------------------------------------------------
    def result(self, world, oper):
        """Reference value of one operation."""
        key = (world.v, *oper)
        if key not in _CACHE:
            if oper[0] == "parse":
                args = [world.sets[who][part][1] for who, part in zip(oper[2], "hrst")]
                _CACHE[key] = summary(oper[1], *args)
            else:
                _kind, part, who = oper
                data = world.sets[who][part][1]
                role = ROLES[part]
                if part in "hrs":
                    _CACHE[key] = ref_dict(role, world.v, data)
                elif part == "t":
                    _CACHE[key] = [ref_dict(role, world.v, t) for t in data]
                else:
                    _CACHE[key] = [ref_cgroup(c, world.v)["cstat"] for c in data]
        return _CACHE[key]

    def start(self, world, oper):
        mod = sys.modules["atoparser.parsers.atop_1_26"]
        args = [world.sets[who][part][0] for who, part in zip(oper[2], "hrst")]
        return iter(expect_ok(f"parse_{oper[1]}", getattr(mod, "parse_" + oper[1]), *args))

    def perform(self, world, oper):
        what = f"{world.v} {oper}"
        if oper[0] == "parse":
            out, exc = drain(self.start(world, oper))
            if exc is not None:
                raise Violation(f"{what}: {exc!r}")
            return out
        _kind, part, who = oper
        obj = world.sets[who][part][0]
        conv = lib().struct_to_dict
        if part in "hrs":
            return expect_ok(what, conv, obj)
        return [expect_ok(what, conv, x if part == "t" else x.cstat) for x in obj]

    def step(self, world, oper, history, kept):
        got = self.perform(world, oper)
        exp = self.result(world, oper)
        if canon(got) != canon(exp):
            raise Violation(f"{world.v} {oper} after {history}: {first_json_diff(got, exp)}")
        world.verify(f"by {oper}")
        for old, text in kept:
            check(canon(old) == text, lambda: f"{world.v}: an earlier result changed by {oper} after {history}")
        kept.append((got, canon(exp)))
        return got

    # ---- cases ----------------------------------------------------------------------------------------------------
    def cases(self, task_):
        kind = task_[0]
        if kind == "tree":
            first = tuple(task_[1])
            for second in self.alphabet():
                yield {"ops": [first, second], "spoil": False}
                yield {"ops": [first, second], "spoil": True}
            yield {"ops": [first, first, first], "spoil": True}
            yield {"ops": [first, first, first], "spoil": False}
            if first in self.small():
                for a, b in itertools.product(self.small(), repeat=2) if self.thorough else [(a, a) for a in self.small()]:
                    yield {"ops": [first, a, b], "spoil": True}
                    yield {"ops": [first, a, first], "spoil": False}
        elif kind == "gens":
            for name in ALL:
                for mixes in (("AAAA", "AAAA"), ("AAAA", "BBBB"), ("BAAA", "AAAA")):
                    for pattern in ("alternate", "inside", "abandon", "keep"):
                        yield {"gens": [["parse", ALL[task_[1]], mixes[0]], ["parse", name, mixes[1]]], "pattern": pattern}
        elif kind == "long":
            num = 60 if task_[2] == "s" else 150 if task_[2] == "all" else 300
            yield {"long": task_[1:], "objects": num * (4 if self.thorough else 1), "rounds": 2}
        elif kind == "alike":
            v = task_[1]
            for role in ("sstat", "task 0", "task 2", "record", "header", *(("cstat 0", "cstat 1", "pids 0") if v in CG_VERSIONS else ())):
                for way in alike.WAYS:
                    yield {"alike": [v, role, way]}
        elif kind == "versions":
            v = task_[1]
            parts = "hrtc" if v in CG_VERSIONS else "hrt"
            for other in VERSIONS:
                oparts = "hrtc" if other in CG_VERSIONS else "hrt"
                for a in parts:
                    for b in oparts:
                        yield {"versions": [v, other], "ops": [["dict", a, "A"], ["dict", b, "B"]], "spoil": (a == b)}
                yield {"versions": [v, other], "ops": [["dict", "s", "A"], ["dict", "s", "B"]], "spoil": v == other}
        else:
            v = task_[1]
            parts = "hrstc" if v in CG_VERSIONS else "hrst"
            for part in parts:
                for how in ("change", "replace", "fields"):
                    yield {"update": [v, "dict", part], "how": how}
            if v == V:
                for name in ALL:
                    for part in "hrst":
                        for how in ("change", "replace", "fields"):
                            yield {"update": [v, name, part], "how": how}

    def run_case(self, case, cov: Cov) -> None:
        if "long" in case:
            self.long(case, cov)
        elif "update" in case:
            self.update(case, cov)
        elif "alike" in case:
            self.look_alikes(case, cov)
        elif "gens" in case:
            self.generators(case, cov)
        else:
            self.history(case, cov)
        cov.evaluations += 1
        cov.seen(canon(case))
        cov.note(case, 1)

    def worlds(self, versions):
        for v in versions:
            if v not in _WORLDS:
                _WORLDS[v] = World(v)
        return [_WORLDS[v] for v in versions]

    def look_alikes(self, case, cov):
        """Objects that are easily taken for one another, converted and summarised in turns."""
        v, role, way = case["alike"]
        made = look_alike(v, role, way)
        if made is None:
            cov.outcomes["no such contents"] += 1
            return
        conv = lib().struct_to_dict
        mod = sys.modules["atoparser.parsers.atop_1_26"]
        pairs = []
        for head, smp in made:
            stream = io.BytesIO(head + smp.blob)
            hdr = expect_ok("get_header", lib().get_header, stream)
            out, exc = drain(lib().generate_statistics(stream, hdr))
            check(exc is None and len(out) == 1, f"{v}: reading the sample failed: {exc!r}")
            pairs.append((hdr, *out[0], head, smp))
        part = role.split()[0]
        exps, sums = [], []
        for hdr, _rec, _sst, _tasks, _cgs, head, smp in pairs:
            exps.append({
                "header": lambda: [ref_dict("Header", v, head)], "record": lambda: [ref_dict("Record", v, smp.record)], "sstat": lambda: [ref_dict("SStat", v, smp.sstat)],
                "task": lambda: [ref_dict("TStat", v, t) for t in smp.tasks], "cstat": lambda: [ref_cgroup(c, v) for c in smp.cgroups], "pids": lambda: [ref_cgroup(c, v) for c in smp.cgroups],
            }[part]())
            sums.append({n: summary(n, head, smp.record, smp.sstat, smp.tasks) for n in ALL} if v == V else {})
        for turn in range(4):
            hdr, rec, sst, tasks, cgs, head, smp = pairs[turn % 2]
            what = f"{v}: {role} alike ({way}), turn {turn}"
            objs = {"header": [hdr], "record": [rec], "sstat": [sst], "task": tasks, "cstat": cgs, "pids": cgs}[part]
            got = [expect_ok(what, conv, obj) for obj in objs]
            if canon(got) != canon(exps[turn % 2]):
                raise Violation(f"{what}: {first_json_diff(got, exps[turn % 2])}")
            for name, exp in sums[turn % 2].items():
                got, exc = drain(getattr(mod, "parse_" + name)(hdr, rec, sst, tasks))
                check(exc is None, lambda: f"{what}: parse_{name}: {exc!r}")
                if canon(got) != canon(exp):
                    raise Violation(f"{what}: parse_{name}: {first_json_diff(got, exp)}")
            cov.transitions += 1
            cov.state((v, role, way, turn))
        cov.outcomes["alike"] += 1

    def history(self, case, cov):
        versions = case.get("versions") or [V] * len(case["ops"])
        worlds = self.worlds(versions)
        ops = [tuple(o) for o in case["ops"]]
        for world, oper in zip(worlds, ops):
            self.result(world, oper)

        def body():
            kept = []
            for i, (world, oper) in enumerate(zip(worlds, ops)):
                got = self.step(world, oper, ops[:i], kept)
                if case["spoil"]:
                    spoil(got)
                    kept.clear()

        fork_call(body)
        cov.transitions += len(ops)
        for i in range(len(ops)):
            cov.state((tuple(versions[: i + 1]), tuple(ops[: i + 1]), case["spoil"]))
        cov.outcomes["history of %d calls%s" % (len(ops), ", overwritten results" if case["spoil"] else "")] += 1

    def long(self, case, cov):
        """One process goes through many different objects, several times; the sequence passes every small power of two."""
        v, name = case["long"]
        samples, datas = [], []
        for i in range(case["objects"]):
            smp = many(v, i)
            buf = bytearray(header(v, hertz=50 + i % 7, pagesize=4096 << i % 3))
            layout(v).put(buf, "Header", ("utsname", "nodename"), b"host-%d" % (i // 2))
            head = bytes(buf)
            stream = io.BytesIO(head + smp.blob)
            hdr = expect_ok("get_header", lib().get_header, stream)
            out, exc = drain(lib().generate_statistics(stream, hdr))
            check(exc is None and len(out) == 1, f"{v}: reading sample {i} failed: {exc!r}")
            samples.append((hdr, *out[0]))
            datas.append((head, smp))
        conv = lib().struct_to_dict
        mod = sys.modules["atoparser.parsers.atop_1_26"]
        texts, results = {}, []
        calls = 0
        for turn in range(case["rounds"]):
            order = range(case["objects"]) if turn % 2 == 0 else range(case["objects"] - 1, -1, -1)
            for i in order:
                head, smp = datas[i]
                for oper in ALL if name == "all" else [name]:
                    what = f"{v} {oper} of object {i} after {calls} calls"
                    if oper in ALL:
                        got, exc = drain(expect_ok(what, getattr(mod, "parse_" + oper), *samples[i][:4]))
                        check(exc is None, lambda: f"{what}: {exc!r}")
                        if (oper, i) not in texts:
                            texts[oper, i] = summary(oper, head, smp.record, smp.sstat, smp.tasks)
                        exp = texts[oper, i]
                    else:
                        objs = {"h": [samples[i][0]], "r": [samples[i][1]], "s": [samples[i][2]], "t": samples[i][3], "rt": [samples[i][1], *samples[i][3]], "c": [c.cstat for c in samples[i][4]]}[oper]
                        got = [expect_ok(what, conv, obj) for obj in objs]
                        if (oper, i) not in texts:
                            parts = {
                                "h": [("Header", head)], "r": [("Record", smp.record)], "s": [("SStat", smp.sstat)], "t": [("TStat", t) for t in smp.tasks],
                                "rt": [("Record", smp.record), *(("TStat", t) for t in smp.tasks)], "c": [("CStat", c.stat) for c in smp.cgroups],
                            }[oper]
                            texts[oper, i] = [ref_dict(role, v, data) for role, data in parts]
                        exp = texts[oper, i]
                    if got != exp or canon(got) != canon(exp):
                        raise Violation(f"{what}: {first_json_diff(got, exp)}")
                    calls += 1
                    # Results stay what they are (system statistics as large as these: the last ones).
                    results.append((got, exp, what))
                    if oper == "s" and len(results) > 40:
                        del results[:1]
        for got, exp, what in results:
            check(got == exp, lambda: f"{what}: the result changed in the {calls} calls")
        cov.transitions += calls
        for i in range(case["objects"] * case["rounds"]):
            cov.state((v, name, i))
        cov.outcomes["long history"] += 1

    def generators(self, case, cov):
        world = self.worlds([V])[0]
        ops = [tuple(o) for o in case["gens"]]
        exps = [self.result(world, o) for o in ops]
        pattern = case["pattern"]

        def body():
            gens = [self.start(world, o) for o in ops]
            outs = [[], []]

            def pull(i, num=1):
                for _ in range(num):
                    try:
                        val = next(gens[i])
                    except StopIteration:
                        return False
                    outs[i].append(val)
                return True

            if pattern == "alternate":
                while any([pull(0), pull(1)]):
                    pass
            elif pattern == "inside":
                pull(0)
                while pull(1):
                    pass
                while pull(0):
                    pass
            elif pattern == "abandon":
                pull(0)
                if hasattr(gens[0], "close"):
                    gens[0].close()
                gens[0] = iter(())
                spoil(outs[0])
                outs[0] = None
                while pull(1):
                    pass
                outs[0] = self.perform(world, ops[0])
            else:
                pull(0)
                held = gens[0]
                gens[0] = self.start(world, ops[0])
                first, outs[0] = outs[0], []
                while any([pull(1), pull(0)]):
                    pass
                gens[0], outs[0], full = held, first, outs[0]
                while pull(0):
                    pass
                check(canon(full) == canon(exps[0]), lambda: f"{ops} {pattern}: {first_json_diff(full, exps[0])}")
            for oper, out, exp in zip(ops, outs, exps):
                check(canon(out) == canon(exp), lambda: f"{oper} of {ops} {pattern}: {first_json_diff(out, exp)}")
            world.verify(f"by {ops} {pattern}")
            return len(outs[0]) + len(outs[1])

        num = fork_call(body)
        cov.transitions += num
        cov.state((canon(case["gens"]), pattern))
        cov.outcomes["two generators: " + pattern] += 1

    def update(self, case, cov):
        v, name, part = case["update"]
        world = self.worlds([v])[0]
        oper = ("dict", part, "A") if name == "dict" else ("parse", name, "AAAA")
        before = self.result(world, oper)
        parts = {key: (val[0], val[1]) for key, val in world.sets["A"].items()}
        other = world.sets["B"][part][1]

        def body():
            kept = []
            self.step(world, oper, [], kept)
            if case["how"] == "fields":
                return self.single_fields(world, oper, part)
            obj, data = parts[part]
            fresh = copy.copy(world)
            fresh.sets = {"A": dict(parts), "B": world.sets["B"]}
            if case["how"] == "change":
                # Same objects, new content: the bytes of B.
                if part in "hrs":
                    ctypes.memmove(ctypes.addressof(obj), other, len(other))
                    fresh.sets["A"][part] = (obj, other)
                elif part == "t":
                    ctypes.memmove(ctypes.addressof(obj[0]), other[-1], len(other[-1]))
                    fresh.sets["A"][part] = (obj, [other[-1], *data[1:]])
                else:
                    stat = other[-1].stat
                    ctypes.memmove(ctypes.addressof(obj[0].cstat), stat, len(stat))
                    changed = copy.copy(data[0])
                    changed.stat = stat
                    fresh.sets["A"][part] = (obj, [changed, *data[1:]])
            else:
                # A new object of the same type, most likely at the address of the deleted one.
                if part in "hrs":
                    kind = type(obj)
                    world.sets["A"][part] = parts[part] = None
                    fresh.sets["A"][part] = None
                    del obj
                    fresh.sets["A"][part] = (kind.from_buffer_copy(other), other)
                elif part == "t":
                    kind = type(obj[0])
                    obj.clear()
                    obj.extend(kind.from_buffer_copy(o) for o in other)
                    fresh.sets["A"][part] = (obj, other)
                else:
                    fresh.sets["A"][part] = (world.sets["B"][part][0], other)
            _CACHE.pop((v, *oper), None)
            exp = self.result(fresh, oper)
            got = self.perform(fresh, oper)
            check(canon(got) == canon(exp), lambda: f"{v} {oper} after {case['how']} of {part}: {first_json_diff(got, exp)}")
            check(canon(kept[0][0]) == canon(before), lambda: f"{v} {oper}: the earlier result changed with the object")
            return canon(exp) != canon(before)

        moved = fork_call(body)
        cov.transitions += 2
        cov.state(canon(case))
        cov.outcomes["update: " + ("result changes" if moved else "result unaffected")] += 1

    def single_fields(self, world, oper, part):
        """The caller changes one field after the other of the same object."""
        v = world.v
        lay = layout(v)
        role = ROLES[part]
        obj, data = world.sets["A"][part]
        target = obj[0] if part == "t" else obj[0].cstat if part == "c" else obj
        buf = bytearray(raw(target))
        leaves = [leaf for leaf in lay.leaves(role, max_elems=3) if leaf[0][-1] not in COUNTS and leaf[1] < len(buf)]
        room = 10_000 if self.thorough else 60 if part == "s" and oper[0] == "dict" else 250
        step = -(-len(leaves) // room)
        earlier = []
        for path, off, fld in [*leaves[::step], leaves[-1], leaves[0]]:
            byte = ord("Q") if fld.kind == "char" and buf[off] != ord("Q") else buf[off] ^ 1
            buf[off] = byte
            ctypes.memmove(ctypes.addressof(target) + off, bytes([byte]), 1)
            new = bytes(buf)
            if part in "hrs":
                world.sets["A"][part] = (obj, new)
            elif part == "t":
                world.sets["A"][part] = (obj, [new, *data[1:]])
            else:
                changed = copy.copy(data[0])
                changed.stat = new
                world.sets["A"][part] = (obj, [changed, *data[1:]])
            _CACHE.pop((v, *oper), None)
            exp = self.result(world, oper)
            got = self.perform(world, oper)
            if canon(got) != canon(exp):
                raise Violation(f"{v} {oper} after only {path} of {part} changed: {first_json_diff(got, exp)}")
            earlier = [*earlier[-9:], (got, canon(exp))]
            for old, text in earlier:
                check(canon(old) == text, lambda: f"{v} {oper}: an earlier result changed when {path} changed")
        return True


COUNTS = ("ndsk", "nlvm", "nmdd", "nrintf")
ROLES = {"h": "Header", "r": "Record", "s": "SStat", "t": "TStat", "c": "CStat"}
_CACHE: dict = {}
_WORLDS: dict = {}
