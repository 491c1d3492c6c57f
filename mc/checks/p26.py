"""P26: without the compatibility check, entries are found by the lengths the log states."""

from __future__ import annotations

import io
import itertools

from mc.core import Check, Cov, attempt, check, expect_ok
from mc.oracle import CG_VERSIONS, VERSIONS, diff, drain, header, layout, lib, plain_sample, raw, snap, want
from mc.synth import deflate, pattern

NEWEST = VERSIONS[-1]
# Versions without a layout of their own are read with the newest one.
UNKNOWN = {"2.13": 0x8000 | 2 << 8 | 13, "3.0": 0x8000 | 3 << 8, "1.0": 1 << 8, "2.99": 2 << 8 | 99, "127.255": 0x7FFF}
LONGER = [*range(1, 73), 80, 96, 100, 127, 128, 129, 200, 255, 256, 257, 511, 512, 1000, 1024, 2048, 4095, 4096, 10000, 20000]
JUNK = ("zero", "ones", "dense", "next")
SHAPES = ([1], [2], [3], [0, 1], [2, 0, 3], [5, 1])


def appended(junk, seed, size, raw_entry):
    """What a newer release stores behind the entry."""
    if junk == "next":  # Looks like the beginning of another entry.
        return (raw_entry * (1 + size // max(1, len(raw_entry))))[:size]
    return pattern(junk, seed, size)


class CHECK(Check):
    prop = "P26"
    level = "exploration"
    rule = (
        "One evaluation opens one log (or a sequence of logs in one process) whose header states other structure lengths than the layout's, without the check, and compares every returned object and the "
        "stream position with what is stored. Distinct by version, lengths, number of tasks and cgroups, appended content and mode."
    )
    bounds = {
        "versions": "all supported ones and five without a layout of their own",
        "tasks": f"stated task lengths 1..72 and {len(LONGER) - 72} more (to 20,000) above the layout's, and every length below it at the edges (1..40, half, 0), x 6 shapes of up to three samples x 4 kinds of appended bytes, strict and tolerant",
        "system statistics": "as many bytes more, whatever the header states",
        "cgroups": "entries longer by up to 4,096 bytes, stated lengths between the layout's and the entry's, names behind them",
        "histories": "all sequences of up to three logs of one version with task lengths 0, 1, 8, 64 bytes above and 1 below the layout's, one process, with own headers and with one header whose length its owner changes",
    }

    def tasks(self):
        out = []
        for v in (*VERSIONS, *UNKNOWN):
            out += [["tasks", v, junk] for junk in JUNK]
            out += [["shorter", v], ["system", v], ["histories", v], ["check", v]]
            if layout_of(v) in CG_VERSIONS:
                out += [["cgroups", v]]
        return out

    def cases(self, task_):
        kind, v = task_[:2]
        if kind == "tasks":
            for more in LONGER:
                for shape in SHAPES if more < 73 or self.thorough else SHAPES[::2]:
                    for fill in ("plain", "dense") if more in (1, 8, 64, 256) or self.thorough else ("plain",):
                        yield ["read", v, more, 0, 0, shape, task_[2], fill]
        elif kind == "shorter":
            size = layout(layout_of(v)).size("TStat")
            for less in (*range(1, 41), size // 2, size - 1, size):
                for shape in SHAPES:
                    yield ["read", v, -less, 0, 0, shape, "zero", "plain"]
        elif kind == "system":
            for more in LONGER:
                for junk in JUNK[1:]:
                    for tmore in (0, 8):
                        yield ["read", v, tmore, more, 0, [1, 2], junk, "plain"]
        elif kind == "cgroups":
            for more in (*range(1, 41), 64, 100, 128, 256, 1024, 4096):
                for junk in JUNK[1:]:
                    for tmore, stated in itertools.product((0, 16), (0, 1, 2)):
                        yield ["read", v, tmore, 0, [more, stated], [1, 2], junk, "plain"]
        elif kind == "check":
            yield ["check", v]
        else:
            for num in (1, 2, 3):
                for mores in itertools.product((0, 1, 8, 64, -1), repeat=num):
                    for how in ("own", "changed"):
                        yield ["history", v, list(mores), how]

    _memo: dict = {}

    def stored(self, v, more, smore, cmore, shape, junk, fill):
        """[(bytes of a sample, what is returned for it)] and the header."""
        own = layout_of(v)
        lay = layout(own)
        out = []
        for num, ntasks in enumerate(shape):
            cgs = [[8, [1, 2]], [0, []], [24, [3]]][: 1 + ntasks]
            smp = plain_sample(own, num + 1, ntasks, fill, cgs=cgs)
            exp = want(smp)
            rec = bytearray(smp.record)
            sections = list(smp.sections)
            if more >= 0:
                body = b"".join(t + appended(junk, i + num, more, t) for i, t in enumerate(smp.tasks))
            else:
                body = b"".join(t[:more] for t in smp.tasks)
            sections[1] = deflate(body, 1)
            if smore:
                sections[0] = deflate(smp.sstat + appended(junk, num, smore, smp.sstat), 1)
            if cmore:
                entries, stats = [], []
                for i, grp in enumerate(smp.cgroups):
                    stat = bytearray(grp.stat)
                    lay.put(stat, "CStat", ("gen", "structlen"), lay.get(grp.stat, "CStat", ("gen", "structlen")) + cmore[0])
                    entries.append(bytes(stat) + appended(junk, i, cmore[0], grp.stat) + grp.raw[len(stat) :])
                    stats.append((bytes(stat), tuple(grp.pids)))
                sections[2] = deflate(b"".join(entries), 1)
                lay.put(rec, "Record", ("coriglen",), sum(map(len, entries)))
                exp = (*exp[:3], tuple(stats))
            for name, sec in zip(("scomplen", "pcomplen", "ccomplen", "icomplen"), sections):
                lay.put(rec, "Record", (name,), len(sec))
            out.append((bytes(rec) + b"".join(sections), (bytes(rec), *exp[1:]), ntasks))
        return self.header(v, more, smore, cmore), out

    def header(self, v, more, smore=0, cmore=0):
        own = layout_of(v)
        lay = layout(own)
        over = {"tstatlen" if "tstatlen" in lay.roots["Header"].by_name else "pstatlen": lay.size("TStat") + more, "sstatlen": lay.size("SStat") + smore}
        if cmore:
            over["cstatlen"] = lay.size("CStat") + cmore[0] * cmore[1] // 2
        if v in UNKNOWN:
            over["aversion"] = UNKNOWN[v]
        return header(own, **over)

    def run_case(self, case, cov: Cov) -> None:
        if case[0] == "check":
            self.run_check(case[1], cov)
        elif case[0] == "history":
            self.run_history(case, cov)
        else:
            _kind, v, more, smore, cmore, shape, junk, fill = case
            head, smps = self.stored(v, more, smore, cmore, shape, junk, fill)
            for strict in (True, False):
                what = f"{v}: tasks {more:+}, system {smore:+}, cgroups {cmore} bytes, {shape} tasks, followed by {junk} (raise_on_truncation={strict})"
                stream = io.BytesIO(head + b"".join(s[0] for s in smps))
                hdr = expect_ok(what, lib().get_header, stream, check_compatibility=False)
                check(raw(hdr) == head, f"{what}: header bytes differ")
                self.read(cov, stream, hdr, smps, more, strict, what)
                cov.evaluations += 1
                cov.seen((*map(str, case), strict))
            self.sections(head, smps[0], more, what)
            cov.note(case, 1)

    def read(self, cov, stream, hdr, smps, more, strict, what):
        gen = expect_ok(what, lib().generate_statistics, stream, hdr, strict)
        pos = stream.tell()
        for num, (blob, exp, ntasks) in enumerate(smps):
            kind, val = attempt(next, gen)
            if more < 0 and ntasks:
                check(kind == "exc" and isinstance(val, ValueError), lambda: f"{what}: sample {num}: {val!r} instead of ValueError")
                cov.outcomes["tasks shorter than the layout: refused"] += 1
                return
            check(kind == "ok", lambda: f"{what}: sample {num}: {val!r}")
            msg = diff(expect_ok(what, snap, val), exp)
            check(msg is None, lambda: f"{what}: sample {num}: {msg}")
            pos += len(blob)
            check(stream.tell() == pos, lambda: f"{what}: stream at {stream.tell()} instead of {pos}")
        rest, exc = drain(gen)
        check(not rest and exc is None, lambda: f"{what}: then {len(rest)} samples, {exc!r}")
        cov.outcomes["read at the stated lengths"] += 1

    def sections(self, head, smp, more, what):
        """The same, section by section."""
        blob, exp, ntasks = smp
        stream = io.BytesIO(head + blob)
        api = lib()
        hdr = expect_ok(what, api.get_header, stream, False)
        rec = expect_ok(what, api.get_record, stream, hdr)
        check(raw(rec) == exp[0] and raw(expect_ok(what, api.get_sstat, stream, hdr, rec)) == exp[1], f"{what}: record or system statistics read one by one differ")
        kind, val = attempt(api.get_tstat, stream, hdr, rec)
        if more < 0 and ntasks:
            check(kind == "exc" and isinstance(val, ValueError), f"{what}: tasks read one by one: {val!r}")
            return
        check(kind == "ok" and tuple(map(raw, val)) == exp[2], lambda: f"{what}: tasks read one by one differ: {val!r}")
        if hdr.CStat:
            groups = expect_ok(what, api.get_cstat, stream, hdr, rec)
            check(tuple((raw(c.cstat), tuple(c.proclist)) for c in groups) == exp[3], f"{what}: cgroups read one by one differ")

    def run_history(self, case, cov):
        """Logs of one version with other lengths, one after the other."""
        _kind, v, mores, how = case
        lay = layout(layout_of(v))
        name = "tstatlen" if "tstatlen" in lay.roots["Header"].by_name else "pstatlen"
        shared = expect_ok("header", lib().get_header, io.BytesIO(self.header(v, 0)), False)
        for num, more in enumerate(mores):
            key = (v, more)
            if key not in self._memo:
                self._memo[key] = self.stored(v, more, 0, 0, [2, 1], "ones", "plain")
            head, smps = self._memo[key]
            what = f"{v}: logs with tasks {mores} bytes longer ({how} header), log {num}"
            stream = io.BytesIO(head + b"".join(s[0] for s in smps))
            hdr = expect_ok(what, lib().get_header, stream, check_compatibility=False)
            if how == "changed":
                hdr = shared
                setattr(hdr, name, lay.size("TStat") + more)
            self.read(cov, stream, hdr, smps, more, True, what)
        cov.evaluations += 1
        cov.seen(tuple(map(str, case)))
        cov.outcomes["sequences of logs"] += 1

    def run_check(self, v, cov):
        """The check itself, called later, refuses other lengths and leaves the header as it was."""
        for more, smore in itertools.product((-8, -1, 0, 1, 8, 256), repeat=2):
            head, smps = self.stored(v, more, max(0, smore), 0, [2, 1], "ones", "plain")
            data = bytearray(head)
            lay = layout(layout_of(v))
            lay.put(data, "Header", ("sstatlen",), lay.size("SStat") + smore)
            head = bytes(data)
            what = f"{v}: header with tasks {more:+} and system statistics {smore:+}"
            stream = io.BytesIO(head + b"".join(s[0] for s in smps))
            hdr = expect_ok(what, lib().get_header, stream, check_compatibility=False)
            for _ in range(2):
                kind, val = attempt(hdr.check_compatibility)
                same = not more and not smore
                check((kind == "ok") if same else kind == "exc" and isinstance(val, ValueError), lambda: f"{what}: check gives {val!r}")
            check(raw(hdr) == head, f"{what}: checking changed the header")
            self.read(cov, stream, hdr, smps, more, True, what)
            kind, val = attempt(lib().get_header, io.BytesIO(head))
            check((kind == "ok") if same else kind == "exc" and isinstance(val, ValueError), lambda: f"{what}: opened with the check: {val!r}")
            cov.evaluations += 1
            cov.seen((v, more, smore))


def layout_of(v):
    return NEWEST if v in UNKNOWN else v
