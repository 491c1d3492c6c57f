"""P14: the command prints exactly the library's view of each file."""

from __future__ import annotations

import contextlib
import gzip
import io
import itertools
import json
import os
import re
import shutil
import struct
import sys
import tempfile
import zlib
from unittest import mock

from mc.core import Check, Cov, Violation, attempt, check
from mc.cuts import complete_count, regions
from mc.oracle import CG_VERSIONS, VERSIONS, Cgroup, Sample, canon, first_json_diff, header, layout, lib, log, plain_sample, ref_cgroup, ref_dict, sstat, task
from mc.parse126 import CLI, summary

FLAG_SETS = [list(c) for n in range(4) for c in itertools.combinations(("-p", "--tstats", "--cstats"), n)]
NAMES = [
    ("a.log", False), ("a.log.gz", True), ("a.gz", False), ("a.log", True), ("atop_20240101", True), ("x.gz.log", False), ("dir.gz/a.log", False), ("dir.gz/a", True), ("d/.gz", False),
    ("a b.GZ", True), ("a b.GZ", False), ("\u00e4\u20ac.log.gz", True), ("a.bz2", False), ("a.zip", True), ("gz", False), ("agz", False), ("a.tgz", True), ("a.json", False),
]


TEXTS = [
    b"a, b", b"a: b", b"a,b:c", b'quote " and \\ back', b"line\nbreak", b"tab\there", b"  two  blanks  ", b"[{}]", b"}, {", b"null", b"true", b"", b"\x7f\x01\x1f", b"</script>",
    "\u00e4\u20ac\U0001f600".encode(), b"\xc3", b"ab\xffcd", "\u2028\u2029\ufeff".encode(), b"\\u0041", b"%s %d", b"'", b"NaN", b"1e5",
]
# Names that shells, libraries or other systems read as something else, and the file such a reading finds.
WILD = [
    ("a[1].log", "a1.log"), ("*.log", "b.log"), ("?.log", "b.log"), ("[!a].log", "b.log"), ("**", "b"), ("{a,b}.log", "a.log"), ("$HOME.log", ".log"), ("${PATH}", "b"), ("$X$", ""), ("%HOME%.log", "b.log"),
    ("~", "b"), ("~root", "b"), ("~.log", ".log"), ("a%20b.log", "a b.log"), ("a+b.log", "a b.log"), ("a\\b.log", "ab.log"), ("a\\", "a"), (" a.log", "a.log"), ("a.log ", "a.log"), ("a.log\n", "a.log"), ("\ta.log", "a.log"),
    ("A.LOG", "a.log"), ("a.LOG", "A.log"), ("a.log.", "a.log"), ("a.log.gz", "a.log"), ("a.log", "a.log.gz"), ("a", "a.gz"), ("a.gz", "a"), ("e\u0301.log", "\u00e9.log"), ("\u00e9.log", "e\u0301.log"),
    ("\uff41.log", "a.log"), ("'a.log'", "a.log"), ('"a.log"', "a.log"), ("a.log;b", "a.log"), ("a,b.log", "a"), ("a:b.log", "b.log"), ("file:a.log", "a.log"), ("a.log#x", "a.log"), ("a.log?x=y", "a.log"),
    ("a|b", "a"), ("a>b", "a"), ("a&b", "a"), ("!a", "a"), ("=a.log", "a.log"), ("P=a.log", "a.log"), ("0", "1"), ("1", "0"), ("2.12", "1.26"), ("None", "b"), ("...", "b"), ("a.log~", "a.log"), (".a.log.swp", "a.log"),
    ("today", "b"), ("-", "b"), ("--", "b"), ("stdin", "b"), ("<stdin>", "b"), ("CON", "b"), ("nul", "b"), ("PIPE", "b"), ("|a", "a"), ("a.log@", "a.log"), ("a.log:1", "a.log"), ("a.log.1", "a.log"), ("y", "b"), ("yy", "b"), ("20240101", "atop_20240101"), ("log.py", "b"), ("x" * 250, "x"), ("a\udcff.log", "a.log"), ("a\x01b", "a"), ("a\u202eb", "a"),
]
# Ways to the same file: relative, through links, around.
WAYS = ["relative", "dot", "double slash", "dot dot", "link", "link to link", "relative link", "linked folder", "folder link dot dot", "hard link", "up", "slashes", "link dot dot relative"]


def texts(v, text):
    """A log whose texts are all the given one, as far as it fits."""
    lay = layout(v)
    bufs = {"Header": bytearray(header(v)), "SStat": bytearray(sstat(v, "plain", 1)), "TStat": bytearray(task(v, "plain", 1))}
    for role, buf in bufs.items():
        for path, off, fld in lay.leaves(role):
            if fld.kind == "char" and fld.count is not None and fld.size > len(text):
                buf[off : off + fld.size] = text.ljust(fld.size, b"\0")
    groups = [Cgroup(v, 1, 8, [5])] if v in CG_VERSIONS else []
    return bytes(bufs["Header"]), [Sample(v, bytes(bufs["SStat"]), [bytes(bufs["TStat"]), task(v, "plain", 2)], groups)]


GZIPS = ["level 0", "level 1", "level 9", "name", "comment", "extra", "text", "header check", "all fields", "newest time", "members", "bytes", "empty members", "zero padding", "long name", "full flushes", "stored"]


def container(data, form):
    """The data in a gzip container of the given form (RFC 1952)."""
    raw = zlib.compressobj({"level 0": 0, "level 1": 1, "level 9": 9, "stored": 0}.get(form, 6), zlib.DEFLATED, -15)
    if form == "full flushes":
        body = b"".join(raw.compress(data[i : i + 100]) + raw.flush(zlib.Z_FULL_FLUSH) for i in range(0, len(data), 100)) + raw.flush()
    else:
        body = raw.compress(data) + raw.flush()
    tail = struct.pack("<II", zlib.crc32(data), len(data) & 0xFFFFFFFF)
    flags, fields = 0, b""
    if form in ("extra", "all fields"):
        flags, fields = flags | 4, fields + struct.pack("<H", 300) + bytes(i % 256 for i in range(300))
    if form in ("name", "all fields", "long name"):
        flags, fields = flags | 8, fields + (b"n" * 70000 if form == "long name" else b"atop_20240101") + b"\0"
    if form in ("comment", "all fields"):
        flags, fields = flags | 16, fields + b"a comment\0"
    if form in ("text", "all fields"):
        flags |= 1
    head = b"\x1f\x8b\x08" + bytes([flags | (2 if form in ("header check", "all fields") else 0)]) + struct.pack("<I", 0xFFFFFFFF if form == "newest time" else 0) + b"\x00\x03" + fields
    if form in ("header check", "all fields"):
        head += struct.pack("<H", zlib.crc32(head) & 0xFFFF)
    if form in ("members", "empty members", "bytes"):
        step = 1 if form == "bytes" else 333
        parts = [data[i : i + step] for i in range(0, len(data), step)]
        if form == "empty members":
            parts = [b"", *(x for part in parts for x in (part, b"")), b""]
        return b"".join(gzip.compress(part, 6, mtime=0) for part in parts)
    return head + body + tail + (bytes(1500) if form == "zero padding" else b"")


def samples_for(v, n, seed=0):
    return [plain_sample(v, seed + i, (i + seed) % 3) for i in range(n)]


_DICTS: dict = {}


def cached_dict(role, v, data):
    key = (role, v, data)
    if key not in _DICTS:
        _DICTS[key] = ref_dict(role, v, data)
    return _DICTS[key]


def expected(v, head, samples, flags, parseables, path):
    """The document promised for one file."""
    if parseables and v != "1.26":
        return "error", path
    doc = []
    for smp in samples:
        if parseables:
            for name in parseables:
                for entry in summary(name, head, smp.record, smp.sstat, smp.tasks):
                    doc.append({**entry, "parseable": name})
            continue
        item = {"header": cached_dict("Header", v, head), "record": cached_dict("Record", v, smp.record), "sstat": cached_dict("SStat", v, smp.sstat)}
        if "--tstats" in flags:
            item["tstat"] = [cached_dict("TStat", v, t) for t in smp.tasks]
        if "--cstats" in flags:
            item["cgroup"] = [ref_cgroup(c, v) for c in smp.cgroups]
        doc.append(item)
    return "doc", doc


class CHECK(Check):
    prop = "P14"
    level = "exploration"
    rule = (
        "One evaluation runs reader.main() (or parse_file) on real files in a scratch folder with one command line, parses all of stdout as consecutive JSON documents and compares "
        "them with the reference conversion of the stored bytes. Non-trivial: not the default options on one complete file; distinct by command line and files."
    )
    bounds = {
        "options": "all 8 combinations of -p/--tstats/--cstats x 11 versions x logs of 0..3 samples x (plain, gzip); options in front of and behind the files; long and short names",
        "summaries": "all 15 summaries, all ordered pairs (repetition included), all of them at once, in every rotation; on 1.26 and, as error entries, on all other versions",
        "gzip": f"{len(GZIPS)} forms of the container (all header fields, levels, members split anywhere, empty members, zero padding) x 3 versions",
        "large": "logs of up to 300 samples for every summary and of up to 3,000 for one (thorough: 86,400), of up to 700 tasks; command lines of 40..150 files; one process calling parse_file with all ordered pairs of option sets",
        "spelling": "every way to write the same options (short, long, abbreviated, joined, repeated, valued by '=' or by a blank, files before, between and behind them)",
        "same file": "all patterns of up to 4 mentions of two files",
        "texts": f"{len(TEXTS)} texts (separators, quotes, control characters, invalid UTF-8, non-ASCII) in all text fields that hold them, compact and pretty",
        "files": "all sequences of 1..3 files over 5 file kinds (versions, gzip, truncated, empty of samples) x (plain, summaries); 18 file names x contents",
        "odd names": f"{len(WILD)} file names with a meaning elsewhere (wildcards, variables, quotes, URLs, blanks, case, other normal forms) beside the file such a reading would find, and "
        f"{len(WAYS)} ways to a file (relative, links, folders): full documents, summaries and the file entry of error documents",
        "truncation": "every cut of a 1.26 log, cuts at and around every border for the other versions; every 16th cut of a gzip container (thorough: every)",
    }

    def tasks(self):
        out = []
        for v in VERSIONS:
            out.append(["flags", v])
            out.append(["names", v])
            out.extend(["cuts", v, part] for part in range(4 if v == "1.26" else 1))
        out += [["again"], ["spelling"], ["wild"], ["ways"]]
        out.extend(["texts", v] for v in VERSIONS)
        out += [["gzip"], ["large", "1.26"], ["large", "2.5"], ["large", "2.12"], ["many"], ["calls"], ["compact"]]
        out += [["pairs", i] for i in range(0, 15, 3)] + [["rotations"], ["files", 0], ["files", 1], ["gzcuts"], ["order"]]
        return out

    def cases(self, task_):
        kind = task_[0]
        if kind == "flags":
            v = task_[1]
            for flags in FLAG_SETS:
                for n in range(4):
                    for gz in (False, True):
                        for style in ("main", "parse_file") if n == 2 else ("main",):
                            yield {"files": [[v, n, 0, "a.log.gz" if gz else "a.log", gz, None]], "flags": flags, "P": [], "style": style}
            if v != "1.26":
                for name in CLI:
                    yield {"files": [[v, 2, 0, "a.log", False, None]], "flags": [], "P": [name], "style": "main"}
                yield {"files": [[v, 2, 0, "a.log.gz", True, None]], "flags": ["-p", "--tstats"], "P": CLI, "style": "parse_file"}
        elif kind == "names":
            for name, gz in NAMES:
                for p in ([], ["CPU", "PRG"]) if task_[1] in ("1.26", "2.12") else ([],):
                    yield {"files": [[task_[1], 2, 1, name, gz, None]], "flags": [], "P": p, "style": "main"}
        elif kind == "wild":
            for num in range(len(WILD)):
                for v, p in (("1.26", []), ("1.26", ["SWP", "cpu"]), ("2.12", []), ("2.12", ["CPU"])):
                    for gz in (False, True):
                        for place in ("absolute", "relative"):
                            if place == "absolute" or WILD[num][0] == "-" or WILD[num][0][0] != "-":
                                yield {"files": [[v, 2, 1, WILD[num][0], gz, None]], "flags": [], "P": p, "style": "main", "wild": WILD[num][1], "way": place if place == "relative" else None}
        elif kind == "ways":
            for way in WAYS:
                for v, p in (("1.26", []), ("1.26", ["SWP", "cpu"]), ("2.3", []), ("2.12", ["CPU", "MEM"])):
                    for gz in (False, True):
                        for style in ("main", "parse_file"):
                            yield {"files": [[v, 2, 1, "a.log", gz, None]], "flags": [], "P": p, "style": style, "wild": "b.log", "way": way}
        elif kind == "pairs":
            for i in range(task_[1], task_[1] + 3):
                yield {"files": [["1.26", 3, 0, "a.log", False, None]], "flags": [], "P": [CLI[i]], "style": "main"}
                for other in CLI:
                    yield {"files": [["1.26", 3, 0, "a.log", False, None]], "flags": ["-p"] if i % 2 else [], "P": [CLI[i], other], "style": "main"}
        elif kind == "rotations":
            for i in range(15):
                for flags in ([], ["--tstats", "--cstats", "-p"]):
                    yield {"files": [["1.26", 2, i, "a.log", bool(i % 2), None]], "flags": flags, "P": CLI[i:] + CLI[:i], "style": "main" if i % 3 else "parse_file"}
        elif kind == "files":
            menu = [["1.26", 2, 0, "a.log", False, None], ["2.12", 1, 3, "b.log.gz", True, None], ["1.26", 3, 5, "c.log", True, 1], ["2.5", 3, 1, "d.log", False, 2], ["1.26", 0, 0, "e.log", False, None]]
            for n in (1, 2, 3):
                for combo in itertools.product(menu, repeat=n):
                    yield {"files": list(combo), "flags": ["--tstats"] if task_[1] else [], "P": ["PRC", "cpu"] if task_[1] else [], "style": "main"}
        elif kind == "spelling":
            # All ways to write the same options, in all orders.
            for pretty in ([], ["-p"], ["--pretty-print"], ["--pretty"], ["-p", "-p"]):
                for tst in ([], ["--tstats"], ["--tstats", "--tstats"]):
                    for cst in ([], ["--cstats"]):
                        for p, pars in (([], []), (["PRG"], ["-P", "PRG"]), (["PRG"], ["-PPRG"]), (["PRG"], ["--parseables=PRG"]), (["SWP", "cpu"], ["--parseables", "SWP", "cpu"]), (["cpu", "SWP"], ["-P", "cpu", "SWP"])):
                            blocks = [b for b in (pretty, tst, cst, pars) if b]
                            for perm in itertools.permutations(blocks) if len(blocks) < 4 or self.thorough else (blocks, blocks[::-1]):
                                for at in range(len(perm) + 1):
                                    if at and perm[at - 1] is pars and len(pars) > 1 and at < len(perm):
                                        continue  # the files would be taken for summaries
                                    argv = [w for b in perm[:at] for w in b] + (["--"] if at and at == len(perm) else []) + ["@"] + [w for b in perm[at:] for w in b]
                                    flags = (["-p"] if pretty else []) + tst[:1] + cst
                                    for v in ("1.26", "2.12") if len(blocks) < 3 else ("1.26",):
                                        yield {"files": [[v, 2, 1, "a.log", False, None], ["1.26", 1, 1, "b.log", True, None]], "flags": flags, "P": p, "style": "main", "argv": argv}
        elif kind == "again":
            # The same file (not just the same contents) named several times, in all patterns.
            for n in (2, 3, 4):
                for pattern in itertools.product(range(2), repeat=n):
                    for v, gz in (("1.26", False), ("2.12", True)):
                        for p in ([], ["SWP", "cpu"]):
                            files = [[v, 2, 0, "a.log", gz, None], ["1.26", 1, 4, "b.log", False, None]]
                            yield {"files": files, "flags": [], "P": p, "style": "main", "pick": list(pattern)}
        elif kind == "gzip":
            # Everything the container format allows around the same data.
            for v in ("1.26", "2.3", "2.12"):
                for form in GZIPS:
                    for p in ([], ["PRG"]):
                        yield {"files": [[v, 3, 0, "a.log", form, None]], "flags": ["--tstats", "--cstats"], "P": p, "style": "main"}
        elif kind == "large":
            v = task_[1]
            for gz in (False, True):
                yield {"files": [[v, 60 if v != "1.26" else 40, 0, "a.log", gz, ["tasks", 3]]], "flags": [], "P": [], "style": "main"}
                for num in (64, 129, 700):
                    yield {"files": [[v, 2, 0, "a.log", gz, ["tasks", num]]], "flags": ["--tstats", "--cstats"], "P": [], "style": "main"}
                    for p in (["PRC"], ["PRG", "cpu"], ["NETU", "PRM"]) if v == "1.26" else ():
                        yield {"files": [[v, 2, 0, "a.log", gz, ["tasks", num]]], "flags": [], "P": p, "style": "main"}
            if v == "1.26":
                for p in CLI:
                    yield {"files": [[v, 300, 0, "a.log", False, None]], "flags": [], "P": [p], "style": "main"}
                for num in (1439, 1441, 3000, *((9000, 86_400) if self.thorough else ())):
                    yield {"files": [[v, num, 0, "a.log", num == 1441, ["few", 5]]], "flags": [], "P": ["SWP"], "style": "main"}
        elif kind == "many":
            for num in (40, 150):
                files = [[VERSIONS[i * 3 % 11] if i % 2 else "1.26", i % 3, i, f"{i}.log", i % 4 == 1, None] for i in range(num)]
                yield {"files": files, "flags": [], "P": ["SWP"], "style": "main"}
                yield {"files": files[:40], "flags": ["-p"], "P": [], "style": "main", "pick": [i * 7 % 40 for i in range(80)] if num == 150 else list(range(40))}
        elif kind == "calls":
            # parse_file called in one process again and again, all ordered pairs of options.
            menu = [[f, p] for f in FLAG_SETS for p in ([], ["CPU"])] + [[[], ["SWP", "MEM"]], [[], CLI]]
            for v, other in (("1.26", "1.26"), ("2.12", "1.26"), ("1.26", "2.5")):
                for first, second in itertools.product(menu, repeat=2):
                    yield {"calls": [[v, *first], [other, *second]]}
        elif kind == "compact":
            for v in VERSIONS:
                for n in range(3):
                    for flags in ([], ["--tstats"], ["--cstats"]):
                        yield {"files": [[v, n, 0, "a.log", False, None]], "flags": flags, "P": [], "style": "main", "both": True}
                for num in range(len(TEXTS)):
                    yield {"files": [[v, 1, 0, "a.log", False, ["text", num]]], "flags": ["--tstats"], "P": [], "style": "main", "both": True}
                if v == "1.26":
                    for p in CLI:
                        yield {"files": [[v, 2, 0, "a.log", True, None]], "flags": [], "P": [p], "style": "main", "both": True}
                    for num in range(len(TEXTS)):
                        yield {"files": [[v, 1, 0, "a.log", False, ["text", num]]], "flags": [], "P": ["DSK", "PRG", "PRC"], "style": "main", "both": True}
        elif kind == "texts":
            for num in range(len(TEXTS)):
                for flags in ([], ["-p"], ["--tstats"], ["-p", "--tstats"]):
                    for gz in (False, True):
                        yield {"files": [[task_[1], 1, 0, "a.log", gz, ["text", num]]], "flags": flags, "P": [], "style": "main"}
                if task_[1] == "1.26":
                    for p in CLI:
                        yield {"files": [["1.26", 1, 0, "a.log", False, ["text", num]]], "flags": ["-p"] if num % 2 else [], "P": [p], "style": "main"}
        elif kind == "order":
            for place in ("front", "behind", "separator", "mixed"):
                for flags in FLAG_SETS:
                    for p in ([], ["CPU"], ["PRG", "SWP"]):
                        for long in (False, True):
                            yield {"files": [["1.26", 2, 0, "a.log", False, None], ["2.11", 1, 0, "b.log", False, None]], "flags": flags, "P": p, "style": "main", "place": place, "long": long}
        elif kind == "cuts":
            v = task_[1]
            samples = samples_for(v, 3)
            total = len(log(v, samples))
            if v == "1.26":
                cuts = range(480 + task_[2], total + 1, 4)
            else:
                near = set()
                for begin, end, _i, _k in regions(v, samples):
                    near.update((begin - 1, begin, begin + 1, (begin + end) // 2, end - 1, end))
                cuts = sorted(c for c in near if c >= 480)
            for cut in cuts:
                yield {"files": [[v, 3, 0, "a.log", False, ["at", cut]]], "flags": [], "P": [], "style": "main"}
                if v == "1.26":
                    yield {"files": [[v, 3, 0, "a.log", True, ["at", cut]]], "flags": ["--tstats"], "P": ["PRM"] if cut % 2 else [], "style": "main"}
        else:
            for v in ("1.26", "2.12"):
                blob = gzip.compress(log(v, samples_for(v, 3)), 6, mtime=0)
                for cut in [*range(1, len(blob), 1 if self.thorough else 16), *range(len(blob) - 12, len(blob) + 1)]:
                    yield {"files": [[v, 3, 0, "a.log.gz", True, ["gz", cut]]], "flags": [], "P": [], "style": "main"}

    def run_case(self, case, cov: Cov) -> None:
        case = dict(case)
        folder = tempfile.mkdtemp(prefix="verif-p14-")
        try:
            if "calls" in case:
                for v, flags, p in case["calls"]:
                    sub = tempfile.mkdtemp(dir=folder)
                    self.execute({"files": [[v, 2, 0, "a.log", False, None]], "flags": flags, "P": p, "style": "parse_file"}, cov, sub)
            elif case.get("both"):
                one = self.execute(case, cov, folder)
                two = self.execute({**case, "flags": ["-p", *case["flags"]]}, cov, folder)
                strip = lambda text: re.sub(r'("(?:[^"\\]|\\.)*")|\s+', lambda m: m[1] or "", text)  # noqa: E731 (all whitespace between the tokens)
                check(strip(one) == strip(two), f"{canon(case)}: pretty printing changes more than whitespace")
            else:
                self.execute(case, cov, folder)
        finally:
            shutil.rmtree(folder, ignore_errors=True)
        cov.evaluations += 1
        cov.seen(canon(case))
        cov.note(case, 1)

    def execute(self, case, cov, folder):
        exps, paths = [], []
        for i, (v, n, seed, name, gz, cut) in enumerate(case["files"]):
            samples = samples_for(v, min(n, cut[1]) if isinstance(cut, list) and cut[0] == "few" else n, seed)
            head = header(v, hertz=100 + i)
            data = head + b"".join(s.blob for s in samples)
            prefix = False
            if cut and not isinstance(cut, int) and cut[0] == "text":
                head, samples = texts(v, TEXTS[cut[1]])
                data = head + b"".join(s.blob for s in samples)
            elif cut and not isinstance(cut, int) and cut[0] == "tasks":
                groups = {"cgs": [(8, [1, k]) for k in range(min(cut[1], 70))]} if v in CG_VERSIONS else {}
                samples = [plain_sample(v, seed + k, cut[1], **groups) for k in range(n)]
                data = head + b"".join(s.blob for s in samples)
            elif cut and not isinstance(cut, int) and cut[0] == "few":
                protos = samples
                samples = [protos[k % cut[1]] for k in range(n)]
                data = head + b"".join(s.blob for s in samples)
            if isinstance(cut, int):  # cut in the middle of sample number <cut>
                pos = 480 + sum(len(s) for s in samples[:cut]) + len(samples[cut].record) + 5
                data = data[:pos]
                samples = samples[:cut]
            elif cut and cut[0] == "at":
                samples = samples[: complete_count(samples, cut[1])]
                data = data[: cut[1]]
            if isinstance(gz, str):
                data = container(data, gz)
            elif gz:
                data = gzip.compress(data, 6, mtime=0)
                if cut and not isinstance(cut, int) and cut[0] == "gz":
                    prefix = cut[1] < len(data)
                    data = data[: cut[1]]
            path = os.path.join(folder, str(i), name)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "wb") as handle:
                handle.write(data)
            if "wild" in case:
                path = self.reach(case, folder, path)
            paths.append(path)
            exps.append((expected(v, head, samples, case["flags"], case["P"], path), prefix))
        if "pick" in case:
            paths = [paths[i] for i in case["pick"]]
            exps = [exps[i] for i in case["pick"]]
        kind, text = self.launch(case, paths)
        what = canon(case)[:300]
        if kind == "exc":
            if exps[0][1]:
                # The container ends inside the log's header: there is nothing to print.
                check(isinstance(text, (EOFError, ValueError, OSError)), lambda: f"{what}: {text!r}")
                cov.outcomes["gzip cut inside the header"] += 1
                return
            raise Violation(f"{what}: {type(text).__name__}: {str(text)[:300]}")
        docs = self.documents(text, what)
        check(len(docs) == len(exps), lambda: f"{what}: {len(docs)} documents for {len(exps)} files")
        for (doc, body), ((tag, exp), prefix) in zip(docs, exps):
            check(isinstance(doc, list), f"{what}: the document is no list")
            if tag == "error":
                ok = len(doc) == 1 and isinstance(doc[0], dict) and isinstance(doc[0].get("error"), str) and doc[0].get("file") == exp
                check(ok, lambda: f"{what}: {doc!r:.200} instead of one error entry")
                cov.outcomes["error entry"] += 1
                continue
            if prefix:
                check(len(doc) <= len(exp), f"{what}: {len(doc)} samples")
                exp = exp[: len(doc)]
            if canon(doc) != canon(exp):
                raise Violation(f"{what}: {first_json_diff(doc, exp)}")
            if "-p" in case["flags"]:
                check(len(doc) == 0 or "\n" in body.strip(), f"{what}: not pretty printed")
            cov.outcomes["summary document" if case["P"] else "full document"] += 1
        return text

    @staticmethod
    def reach(case, folder, path):
        """Puts another log beside the file and returns the way to the file the command is given."""
        base = os.path.dirname(path)
        decoy = log("1.26", samples_for("1.26", 3, 7))

        def put(where):
            os.makedirs(os.path.dirname(where), exist_ok=True)
            if not os.path.lexists(where):
                with open(where, "wb") as handle:
                    handle.write(decoy)

        if case["wild"]:
            put(os.path.join(base, case["wild"]))
        way, name = case["way"], os.path.basename(path)
        os.makedirs(os.path.join(base, "in", "sub"))
        join = os.path.join
        if way in ("relative", "dot", "dot dot", "up", "link dot dot relative"):
            case["cwd"] = base
        if way == "relative":
            return name
        if way == "dot":
            return join(".", name)
        if way == "double slash":
            return base + "//" + name
        if way == "slashes":
            return "/" + join(base, "in", "") + "/..///./" + name
        if way == "dot dot":
            return join("in", "sub", "..", "..", name)
        if way == "up":
            case["cwd"] = join(base, "in", "sub")
            return join("..", "..", name)
        if way == "hard link":
            os.link(path, join(base, "in", "c.log"))
            return join(base, "in", "c.log")
        if way in ("link", "link to link", "relative link"):
            one = join(base, "in", "one.log")
            os.symlink(join("..", name) if way == "relative link" else path, one)
            if way == "link to link":
                os.symlink("one.log", join(base, "in", "two.log"))
                return join(base, "in", "two.log")
            return one
        if way == "linked folder":
            os.symlink(base, join(base, "in", "folder"))
            return join(base, "in", "folder", name)
        if way in ("folder link dot dot", "link dot dot relative"):
            # <base>/in/x is a link to <base>/y/z: <base>/in/x/.. is <base>/y.
            os.makedirs(join(base, "y", "z"))
            os.symlink(join(base, "y", "z"), join(base, "in", "x"))
            os.rename(path, join(base, "y", name))
            put(join(base, "in", name))
            return join("in" if "relative" in way else join(base, "in"), "x", "..", name)
        return path

    def launch(self, case, paths):
        before = os.getcwd()
        if "cwd" in case:
            os.chdir(case["cwd"])
        try:
            return self.run_command(case, paths)
        finally:
            case.pop("cwd", None)
            os.chdir(before)

    def run_command(self, case, paths):
        reader = sys.modules["atoparser.reader"]
        out = io.StringIO()
        if case["style"] == "parse_file":
            with contextlib.redirect_stdout(out):
                kind, val = attempt(
                    reader.parse_file, paths[0], case["P"] or None, "-p" in case["flags"], "--tstats" in case["flags"], "--cstats" in case["flags"],
                )
            return kind, val if kind == "exc" else out.getvalue()
        long = case.get("long")
        flags = [("--pretty-print" if long and f == "-p" else f) for f in case["flags"]]
        pars = [("--parseables" if long else "-P"), *case["P"]] if case["P"] else []
        place = case.get("place", "behind")
        if "argv" in case:
            argv = [w for word in case["argv"] for w in (paths if word == "@" else [word])]
        elif place == "front":
            argv = pars + flags + ["--"] + paths if not flags else pars + flags + paths
        elif place == "separator":
            argv = flags + pars + ["--"] + paths
        elif place == "mixed":
            argv = flags[:1] + paths + flags[1:] + pars
        else:
            argv = paths + pars + flags
        err = io.StringIO()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), mock.patch.object(sys, "argv", ["atoparser", *argv]):
            kind, val = attempt(reader.main)
        if kind == "exc":
            if isinstance(val, SystemExit) and val.code in (None, 0):
                return "ok", out.getvalue()
            if isinstance(val, SystemExit):
                return "exc", RuntimeError(f"exit {val.code}: {err.getvalue()[-200:]}")
            return "exc", val
        return "ok", out.getvalue()

    @staticmethod
    def documents(text, what):
        """All JSON documents of the output; nothing else may be there."""
        decoder = json.JSONDecoder()
        pos, out = 0, []
        while True:
            while pos < len(text) and text[pos].isspace():
                pos += 1
            if pos == len(text):
                return out
            kind, val = attempt(decoder.raw_decode, text, pos)
            if kind == "exc":
                raise Violation(f"{what}: output is not a sequence of JSON documents: {text[pos : pos + 120]!r}")
            out.append((val[0], text[pos : val[1]]))
            pos = val[1]
