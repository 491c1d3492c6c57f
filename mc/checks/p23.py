"""P23: import and results do not depend on the process around the library."""

from __future__ import annotations

import compileall
import contextlib
import gc
import gzip
import hashlib
import io
import itertools
import json
import os
import shutil
import subprocess
import sys
import tempfile
import zipfile

from mc import core
from mc.checks.p14 import texts
from mc.checks.p19 import FAULTS, Faulty
from mc.core import Check, Cov, Violation, attempt, check
from mc.oracle import CG_VERSIONS, VERSIONS, canon, first_json_diff, header, layout, lib, log, plain_sample, ref_cgroup, ref_dict
from mc.parse126 import CLI, summary

PSTAT = [v for v in VERSIONS if "pstatlen" in layout(v).roots["Header"].by_name]
MODULES = (
    ["atoparser", "atoparser.utils", "atoparser.reader", "atoparser.parsers", "atoparser.parsers.atop_1_26", "atoparser.structs", "atoparser.structs.shared"]
    + ["atoparser.structs.atop_" + v.replace(".", "_") for v in VERSIONS]
)
FLAGS = {
    "plain": [], "optimised": ["-O"], "without docstrings": ["-OO"], "warnings as errors": ["-W", "error"], "bytes warnings": ["-bb"], "dev mode": ["-X", "dev"], "dev mode, strict": ["-X", "dev", "-W", "error", "-bb"],
    "utf8": ["-X", "utf8"], "no utf8": ["-X", "utf8=0"], "no site": ["-S"], "isolated user": ["-s"], "safe path": ["-P"], "tracemalloc": ["-X", "tracemalloc=5"], "no frozen modules": ["-X", "frozen_modules=off"],
    "digits": ["-X", "int_max_str_digits=640"], "verbose": ["-q"], "no debug ranges": ["-X", "no_debug_ranges"],
}
ENVS = {
    "plain": {}, "hash 0": {"PYTHONHASHSEED": "0"}, "hash 1": {"PYTHONHASHSEED": "1"}, "hash 4242": {"PYTHONHASHSEED": "4242"}, **{f"hash {n}": {"PYTHONHASHSEED": str(n)} for n in range(2, 8)}, "C": {"LC_ALL": "C"}, "C.UTF-8": {"LC_ALL": "C.UTF-8", "LANG": "C.UTF-8"}, "POSIX without utf8": {"LC_ALL": "POSIX", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"},
    "unknown locale": {"LC_ALL": "xx_YY.UTF-8"}, "Turkish": {"LC_ALL": "tr_TR.UTF-8"}, "Kiritimati": {"TZ": "Pacific/Kiritimati"}, "odd zone": {"TZ": "XXX+13:37"}, "no home": {"HOME": "/nonexistent"}, "empty path": {"PATH": ""},
    "malloc": {"PYTHONMALLOC": "malloc"}, "malloc debug": {"PYTHONMALLOC": "debug"}, "gc debug": {"VERIF_CHILD_GC": "1"}, "no gc": {"VERIF_CHILD_GC": "0"}, "small stack": {"VERIF_CHILD_LIMIT": "140"}, "thread": {"VERIF_CHILD_THREAD": "1"},
    "tiny switch interval": {"VERIF_CHILD_SWITCH": "1"}, "numbers": {"VERIF_CHILD_LOCALE": "1"}, "closed output": {"VERIF_CHILD_NOSTD": "1"}, "decimal": {"VERIF_CHILD_DECIMAL": "1"}, "stdin closed": {"VERIF_CHILD_NOSTDIN": "1"},
    "file limit": {"VERIF_CHILD_FILES": "1"}, "trace": {"VERIF_CHILD_TRACE": "1"}, "profile": {"VERIF_CHILD_PROFILE": "1"}, "reload": {"VERIF_CHILD_RELOAD": "1"}, "second copy": {"VERIF_CHILD_COPY": "1"}, "umask": {"VERIF_CHILD_UMASK": "1"},
    "no current folder": {"VERIF_CHILD_NOCWD": "1"}, "atexit": {"VERIF_CHILD_ATEXIT": "1"}, "forked": {"VERIF_CHILD_FORK": "1"},
    "other threads": {"VERIF_CHILD_OTHER": "1"}, "imported in a thread": {"VERIF_CHILD_EARLY": "1"}, "event loop": {"VERIF_CHILD_ASYNC": "1"}, "forked after use": {"VERIF_CHILD_FORKED": "1"},
}

# The program run in the processes: imports the modules in the order given, reads the logs given, prints what it got and what changed around it.
# Process-wide state, in the child processes as well as in this process.
WORLD = r'''
def world():
    """Process-wide state that a library has no business changing."""
    return {
        "cwd": None if flag("NOCWD") else os.getcwd(), "path": list(sys.path), "argv": list(sys.argv), "environ": dict(os.environ), "locale": locale.setlocale(locale.LC_ALL), "filters": [repr(f) for f in warnings.filters],
        "showwarning": repr(warnings.showwarning), "gc": [gc.isenabled(), list(gc.get_threshold()), gc.get_debug(), len(gc.callbacks)], "recursion": sys.getrecursionlimit(), "switch": sys.getswitchinterval(),
        "signals": [repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE, signal.SIGALRM, signal.SIGHUP)], "decimal": repr(decimal.getcontext()), "random": hashlib.sha1(repr(random.getstate()).encode()).hexdigest(),
        "hooks": [repr(x) for x in (sys.excepthook, sys.displayhook, sys.unraisablehook, threading.excepthook, sys.gettrace(), sys.getprofile(), builtins.__import__, builtins.open, builtins.print)],
        "streams": [repr(x) for x in (sys.stdin, sys.stdout, sys.stderr)], "threads": threading.active_count(), "umask": mask(), "digits": sys.get_int_max_str_digits(), "meta": [repr(x) for x in sys.meta_path], "dont_write": sys.dont_write_bytecode,
        "codecs": [ascii(gzip.GzipFile.read), ascii(zlib.decompress), ascii(json.dumps), ascii(json.JSONEncoder.default), ascii(ctypes.sizeof), ascii(io.BytesIO.read)], "names": sorted(vars(builtins)),
        "logging": [repr(logging.root.handlers), logging.root.level, logging.root.manager.disable, repr(logging.getLoggerClass()), repr(logging.getLogRecordFactory()), logging.captureWarnings.__module__, repr(logging.lastResort), logging.raiseExceptions],
        "faults": [faulthandler.is_enabled(), tracemalloc.is_tracing(), tracemalloc.get_traceback_limit(), repr(sys.breakpointhook), repr(sys.get_asyncgen_hooks()), sys.get_coroutine_origin_tracking_depth()],
        "socket": socket.getdefaulttimeout(), "stack": threading.stack_size(), "tempdir": tempfile.tempdir, "zone": [time.tzname, time.timezone], "timers": [[x > 0 for x in signal.getitimer(t)] for t in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)],
        "mask": sorted(map(repr, signal.pthread_sigmask(signal.SIG_BLOCK, []))), "limits": [resource.getrlimit(k) for k in (resource.RLIMIT_NOFILE, resource.RLIMIT_STACK, resource.RLIMIT_CORE, resource.RLIMIT_AS, resource.RLIMIT_CPU, resource.RLIMIT_DATA, resource.RLIMIT_FSIZE)],
        "priority": [os.getpriority(os.PRIO_PROCESS, 0), sorted(os.sched_getaffinity(0)), os.sched_getscheduler(0)], "encoding": [sys.getdefaultencoding(), sys.getfilesystemencoding(), sys.getfilesystemencodeerrors(), locale.getpreferredencoding(False)],
        "constants": [io.DEFAULT_BUFFER_SIZE, zlib.DEF_BUF_SIZE, zlib.MAX_WBITS, gzip.READ_BUFFER_SIZE, json.encoder.FLOAT_REPR if hasattr(json.encoder, "FLOAT_REPR") else None, repr(json.encoder.encode_basestring_ascii), repr(json._default_encoder.__dict__), repr(json._default_decoder.__class__)],
        "reducers": sorted(map(repr, copyreg.dispatch_table)), "ctypes": [ascii(ctypes.Structure.__init__), sorted(vars(ctypes.Structure)), ascii(ctypes.Structure.from_buffer_copy), sorted(vars(ctypes.Union)), sorted(vars(ctypes.Array))],
        "fds": [] if flag("NOCWD") else sorted(os.listdir("/proc/self/fd"), key=int)[:-1],
    }

def mask():
    old = os.umask(0)
    os.umask(old)
    return old
'''

CHILD = r'''
import sys
order, folder, marker = sys.argv[1].split(","), sys.argv[2], sys.argv[3]
import builtins, codecs, copyreg, decimal, faulthandler, gc, hashlib, importlib, io, json, locale, logging, os, random, resource, signal, socket, tempfile, threading, time, tracemalloc, warnings, zlib, ctypes, gzip, argparse, typing
env = os.environ
flag = lambda name: env.get("VERIF_CHILD_" + name)

@@WORLD@@
def limits():
    if flag("GC") == "1":
        gc.set_threshold(1, 1, 1)
    if flag("GC") == "0":
        gc.disable()
    if flag("SWITCH"):
        sys.setswitchinterval(1e-6)
    if flag("LOCALE"):
        locale.setlocale(locale.LC_ALL, "")
    if flag("DECIMAL"):
        decimal.getcontext().prec = 2
        decimal.getcontext().traps[decimal.Inexact] = True
    if flag("UMASK"):
        os.umask(0o777)
    if flag("TRACE"):
        def tracer(frame, event, arg):
            return tracer
        sys.settrace(tracer)
    if flag("PROFILE"):
        sys.setprofile(lambda frame, event, arg: None)
    if flag("FILES"):
        resource.setrlimit(resource.RLIMIT_NOFILE, (16, 16))
    if flag("NOSTD"):
        sys.stdout = sys.stderr = None
    if flag("NOSTDIN"):
        sys.stdin = None
    if flag("NOCWD"):
        gone = os.path.join(folder, "gone%d" % os.getpid())
        os.mkdir(gone)
        os.chdir(gone)
        os.rmdir(gone)

def load():
    mods = {}
    for name in order:
        mods[name] = importlib.import_module(name)
    import atoparser
    import atoparser.parsers.atop_1_26
    if flag("RELOAD"):
        # All of the library is dropped and imported anew.
        for name in [n for n in sys.modules if n.split(".")[0] == "atoparser"]:
            del sys.modules[name]
        import atoparser
        import atoparser.parsers.atop_1_26
    if flag("COPY"):
        # Logs are read with a second copy of the library beside a live first one.
        first = {n: m for n, m in sys.modules.items() if n.split(".")[0] == "atoparser"}
        with open(os.path.join(folder, "1.26.log"), "rb") as inp:
            keep = list(atoparser.generate_statistics(inp))
        for name in first:
            del sys.modules[name]
        import atoparser
        import atoparser.parsers.atop_1_26
        atoparser.kept = (first, keep)
    return atoparser

during = set()

def results(atoparser, watch=True):
    out = {}
    for name in sorted(os.listdir(folder)):
        if not name.endswith(".log"):
            continue
        with open(os.path.join(folder, name), "rb") as inp:
            hdr = atoparser.get_header(inp)
            docs = [hdr.semantic_version, atoparser.struct_to_dict(hdr)]
            for rec, sst, tasks, cgs in atoparser.generate_statistics(inp, hdr):
                docs.append([hashlib.sha1(bytes(sst)).hexdigest(), atoparser.struct_to_dict(rec), [atoparser.struct_to_dict(t) for t in tasks], [atoparser.struct_to_dict(c) for c in cgs]])
                if hdr.semantic_version == "1.26":
                    parsers = sys.modules["atoparser.parsers.atop_1_26"]
                    docs.append([[s, list(getattr(parsers, "parse_" + s)(hdr, rec, sst, tasks))] for s in PARSEABLES])
            out[name] = docs
    bad = []
    for name in sorted(os.listdir(folder)):
        if not name.endswith(".header"):
            continue
        with open(os.path.join(folder, name), "rb") as inp:
            data = inp.read()
        for mode in (True, False):
            try:
                bad.append([name, mode, atoparser.struct_to_dict(atoparser.get_header(io.BytesIO(data), mode))])
            except Exception as exc:
                bad.append([name, mode, type(exc).__name__])
    with open(os.path.join(folder, "2.12.log"), "rb") as inp:
        cut = inp.read()[:-7]
    for mode in (True, False):
        try:
            bad.append(len(list(atoparser.generate_statistics(io.BytesIO(cut), None, mode))))
        except zlib.error:
            bad.append("truncated")
    out["errors"] = bad
    # The same while samples are being read, and when reading is given up.
    for name in ("1.26.log", "2.3.log", "2.12.log") if watch else ():
        with open(os.path.join(folder, name), "rb") as inp:
            before = world()
            first = iter(atoparser.generate_statistics(inp, max_samples=9))
            next(first)
            during.update(k for k, v in world().items() if before[k] != v)
            next(first)
            first.close()
            del first
            second = atoparser.generate_statistics(io.BytesIO(inp.read()[:100]))
            during.update(k for k, v in world().items() if before[k] != v)
            try:
                next(second)
            except (ValueError, StopIteration):
                pass
            during.update(k for k, v in world().items() if before[k] != v)
    return out

def deep(n, func):
    return func() if n == 0 else deep(n - 1, func)

def whole():
    import atexit
    box = {}
    # Warm up what the standard library does on first use, so that only the library's own changes remain.
    locale.setlocale(locale.LC_ALL), world(), world()
    limits()
    before = world()
    if flag("EARLY"):
        # Imported in a thread that ends at once.
        thread = threading.Thread(target=load)
        thread.start()
        thread.join()
    atoparser = load()
    after = world()
    box["import"] = sorted(k for k in before if before[k] != after[k])
    if flag("LIMIT"):
        sys.setrecursionlimit(int(flag("LIMIT")) + 20)
    before = world()
    if flag("OTHER"):
        # Imported here, used in other threads, one after another and two at a time.
        got = []
        for num in (1, 2):
            threads = [threading.Thread(target=lambda: got.append(results(atoparser, False))) for _ in range(num)]
            for thread in threads:
                thread.start()
            for thread in threads:
                thread.join()
        res = got[0]
        if len(got) != 3 or any(g != res for g in got):
            res = {"threads": len(got)}
    elif flag("ASYNC"):
        import asyncio
        async def work():
            return results(atoparser)
        res = asyncio.run(work(), debug=False)
    elif flag("FORKED"):
        # Used in the parent, and in a forked child afterwards.
        results(atoparser)
        pid = os.fork()
        if pid == 0:
            box["results"], box["file"], box["use"], box["written"] = results(atoparser), atoparser.__file__, [], []
            finish(box)
            os._exit(0)
        if os.waitpid(pid, 0)[1]:
            raise SystemExit(9)
        with open(target) as inp:
            res = json.load(inp)["results"]
    else:
        res = results(atoparser)
    after = world()
    box["use"] = sorted({k for k in before if before[k] != after[k]} | during)
    if flag("LIMIT"):
        sys.setrecursionlimit(1000)
    sys.settrace(None)
    sys.setprofile(None)
    box["results"] = res
    box["file"] = atoparser.__file__
    box["written"] = []
    return box

PARSEABLES = "cpu CPL CPU DSK LVM MDD MEM NETL NETU PAG PRC PRG PRM PRN SWP".split()
target = marker
def finish(box):
    fd = os.open(target, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
    os.write(fd, json.dumps(box).encode())
    os.close(fd)

if flag("THREAD"):
    box = {}
    thread = threading.Thread(target=lambda: box.update(whole()))
    thread.start()
    thread.join()
    finish(box)
elif flag("FORK"):
    # Imported in the parent, used in a forked child.
    import atoparser
    import atoparser.parsers.atop_1_26
    pid = os.fork()
    if pid == 0:
        finish(whole())
        os._exit(0)
    os.waitpid(pid, 0)
elif flag("ATEXIT"):
    import atexit
    atexit.register(lambda: finish(whole()))
else:
    finish(whole())
'''
CHILD = CHILD.replace("@@WORLD@@\n", WORLD.lstrip() + "\n")
IMPORTS = next(line for line in CHILD.splitlines() if line.startswith("import builtins"))
PLACES = ("copy", "zip", "compiled", "odd name", "read only", "inside")


class CHECK(Check):
    prop = "P23"
    level = "exploration"
    rule = (
        "One evaluation starts a fresh interpreter with given flags, environment and order of imports, which reads and converts one log of every version; its results must equal the reference conversion, "
        "nothing may be printed or written, and process-wide settings (locale, filters, signals, hooks, limits, files...) must be the same before and after importing and using the library, between two samples and after reading was given up. Distinct by configuration."
    )
    bounds = {
        "imports": f"every one of {len(MODULES)} modules first, all ordered pairs (thorough: all triples of 7), all of them in sorted and reverse order",
        "modes": f"{len(FLAGS)} interpreter flags x {len(ENVS)} environments",
        "failing calls": "every version: streams failing at every call in all ways of P19, cuts, damaged bytes, wrong counts and lengths and versions, wrong arguments, the command with spoiled files; and between the calls to a stream",
        "places": "source folder, copy elsewhere, zip archive, compiled only, folder with odd name, read-only folder, working directory inside of the package",
    }
    case_timeout = 200

    def tasks(self):
        return [["place", p] for p in PLACES] + [["mode", f, part] for f in FLAGS for part in range(3)] + [["first", m] for m in MODULES] + [["fail", v] for v in VERSIONS]

    def cases(self, task_):
        if task_[0] == "fail":
            for what in ("stream", "cut", "damage", "counts", "lengths", "versions", "misuse", "command"):
                yield [task_[1], what]
        elif task_[0] == "first":
            yield [[task_[1]], "plain", "plain", "source"]
            for other in MODULES:
                if other != task_[1]:
                    yield [[task_[1], other], "plain", "plain", "source"]
            if task_[1] == MODULES[0]:
                yield [sorted(MODULES), "plain", "plain", "source"]
                yield [sorted(MODULES, reverse=True), "plain", "plain", "source"]
            if self.thorough and task_[1] in MODULES[:7]:
                for rest in itertools.permutations([m for m in MODULES[:7] if m != task_[1]], 2):
                    yield [[task_[1], *rest], "plain", "plain", "source"]
        elif task_[0] == "mode":
            for env in list(ENVS)[task_[2] :: 3]:
                yield [["atoparser.reader"], task_[1], env, "source"]
        else:
            for place in task_[1:]:
                for flags in ("plain", "optimised", "warnings as errors", "no utf8"):
                    yield [["atoparser"], flags, "plain", place]
                for module in MODULES:
                    if place != "inside" or module == "atoparser":
                        yield [[module], "plain", "plain", place]

    _expected: dict = {}

    def expected(self):
        """Reference results, and the logs they belong to."""
        if not self._expected:
            docs, logs = {}, {}
            for v in VERSIONS:
                samples = [plain_sample(v, 2, 2), plain_sample(v, 3, 1)]
                logs[f"{v}.log"] = log(v, samples)
                doc = [v, ref_dict("Header", v, header(v))]
                for smp in samples:
                    cgs = [ref_cgroup(c, v) for c in smp.cgroups] if v in CG_VERSIONS else []
                    doc.append([hashlib.sha1(smp.sstat).hexdigest(), ref_dict("Record", v, smp.record), [ref_dict("TStat", v, t) for t in smp.tasks], cgs])
                    if v == "1.26":
                        doc.append([[s, summary(s, header(v), smp.record, smp.sstat, smp.tasks)] for s in CLI])
                docs[f"{v}.log"] = doc
            for v in ("1.26", "2.3", "2.12"):
                # Texts that are not ASCII, or not even UTF-8.
                for num, text in enumerate(("\u00e4\u20ac\U0001f600".encode(), b"ab\xffcd", b"\xe4\xf6")):
                    head, samples = texts(v, text)
                    logs[f"{v}-{num}.log"] = head + b"".join(s.blob for s in samples)
                    doc = [v, ref_dict("Header", v, head)]
                    for smp in samples:
                        cgs = [ref_cgroup(c, v) for c in smp.cgroups] if v in CG_VERSIONS else []
                        doc.append([hashlib.sha1(smp.sstat).hexdigest(), ref_dict("Record", v, smp.record), [ref_dict("TStat", v, t) for t in smp.tasks], cgs])
                        if v == "1.26":
                            doc.append([[s, summary(s, head, smp.record, smp.sstat, smp.tasks)] for s in CLI])
                    docs[f"{v}-{num}.log"] = doc
            # Headers: refused ones, and those only accepted without the check of compatibility.
            good = header("2.12")
            odd = {
                "empty": (b"", None, None), "short": (good[:479], None, None), "text": (b"x" * 480, None, None), "magic": (b"\xee" + good[1:], None, None), "swapped": (good[:4][::-1] + good[4:], None, None),
                "zero": (good[:4] + bytes(476), None, "2.12"), "next": (header("2.12", aversion=0x8000 | 2 << 8 | 13), "2.12", "2.12"), "major": (header("2.12", aversion=0x8000 | 9 << 8 | 9), "2.12", "2.12"),
            }
            for v in VERSIONS:
                for field in ("rawheadlen", "rawreclen", "sstatlen", "pstatlen" if v in PSTAT else "tstatlen") + (("cstatlen",) if v in CG_VERSIONS else ()):
                    odd[f"{v} {field}"] = (header(v, **{field: 64}), None, v)
            docs["errors"] = []
            for name in sorted(f"{n}.header" for n in odd):
                data, strict, loose = odd[name[:-7]]
                logs[name] = data
                for mode, which in ((True, strict), (False, loose)):
                    docs["errors"].append([name, mode, "ValueError" if which is None else ref_dict("Header", which, data)])
            docs["errors"] += ["truncated", 1]
            self._expected.update(docs=docs, logs=logs)
        return self._expected

    def fail(self, cov, v, kind):
        """Nothing process-wide is left changed by calls which fail, or by the code which runs while a stream is read."""
        space = {"flag": lambda name: None}
        exec(f"import sys\n{IMPORTS}\nenv = os.environ\n{WORLD}", space)  # pylint: disable=exec-used
        api = lib()
        world = space["world"]
        samples = [plain_sample(v, 2, 3), plain_sample(v, 3, 1)]
        data = log(v, samples)
        head = header(v)
        size, smp = len(head), samples[0]
        borders = [0, size, size + len(smp.record)]
        for sec in smp.sections:
            borders.append(borders[-1] + len(sec))
        gc_was = gc.get_threshold()
        gc.set_threshold(10**9)
        tempfile.gettempdir(), world(), world()
        before = world()
        num = 0

        def settled(what, run):
            nonlocal num
            attempt(run)
            after = world()
            bad = sorted(k for k in before if before[k] != after[k])
            check(not bad, lambda: f"{v}: {what} leaves changed: {bad}: {[(before[k], after[k]) for k in bad]!r:.600}")
            num += 1

        def whole(blob, mode=True, own=False, **more):
            stream = io.BytesIO(blob)
            hdr = api.get_header(stream, not own)
            for out in api.generate_statistics(stream, hdr, mode, **more):
                for obj in (out[0], *out[2], *out[3]):
                    api.struct_to_dict(obj)

        if kind == "stream":
            total = 0
            for fault in FAULTS:
                at = 0
                while True:
                    stream = Faulty(data, FAULTS[fault](), at=at)
                    settled(f"{fault} of the stream at call {at}", lambda: list(api.generate_statistics(stream)))
                    at += 1
                    if not stream.fired:
                        break
                total += at
            seen = []

            class Watching(Faulty):
                def _step(self, size):
                    now = world()
                    seen.extend(k for k in before if before[k] != now[k])

            settled("reading of a watched stream", lambda: list(api.generate_statistics(Watching(data, None))))
            check(not seen, lambda: f"{v}: while the stream is read, changed: {sorted(set(seen))}")
        elif kind == "cut":
            points = {p + d for p in borders for d in (-9, -2, -1, 0, 1, 2, 9)} | set(range(size, len(data), 61))
            for point in sorted(p for p in points if 0 <= p < len(data)):
                for mode in (True, False):
                    settled(f"reading up to byte {point} (raise_on_truncation={mode})", lambda: whole(data[:point], mode))
        elif kind == "damage":
            for lo, hi in zip(borders[2:], borders[3:]):
                for pos in {lo, lo + 1, lo + 2, (lo + hi) // 2, hi - 4, hi - 1} | set(range(lo, hi, 37)):
                    for mode in (True, False):
                        blob = bytearray(data)
                        blob[pos] ^= 0x5A
                        settled(f"reading with byte {pos} damaged (raise_on_truncation={mode})", lambda: whole(bytes(blob), mode))
        elif kind == "counts":
            for field in ("nlist" if v == "1.26" else "ndeviat", *(("ncgpids", "ccomplen", "coriglen", "pcomplen", "icomplen", "ncgroups") if v in CG_VERSIONS else ()), "scomplen", "pcomplen"):
                for val in (0, 1, 2, 4, 5, 900, 0x7FFFFFF, 0x7FFFFFFF, 0xFFFFFFFF):
                    if field not in layout(v).roots["Record"].by_name:
                        continue
                    rec = bytearray(smp.record)
                    layout(v).put(rec, "Record", [field], val & ((1 << layout(v).roots["Record"].by_name[field].size * 8 - 1) - 1))
                    odd = head + bytes(rec) + data[size + len(rec) :]
                    for mode in (True, False):
                        settled(f"reading with {field} {val} (raise_on_truncation={mode})", lambda: whole(odd, mode))
        elif kind == "lengths":
            for wrong in (b"", b"\0", head[:-1], b"\0" * size, b"\xff" * size, head[:4], head[:4] + b"\xff" * (size - 4), b"x" * 9000):
                for own in (False, True):
                    settled(f"header {wrong[:8]!r} of {len(wrong)} bytes", lambda: whole(wrong + data[size:], True, own))
            for field in ("rawheadlen", "rawreclen", "sstatlen", "pstatlen" if v in PSTAT else "tstatlen"):
                for val in (0, 1, 8, 0xFFFF):
                    for own in (False, True):
                        settled(f"header with {field} {val}", lambda: whole(header(v, **{field: val}) + data[size:], True, own))
        elif kind == "versions":
            for aver in (0, 1, 0x7FFF, 0xFFFF, 0x8000, *range(0x8100, 0x8110), *range(0x8200, 0x8220), 0x82FF, 0x8300):
                for own in (False, True):
                    settled(f"header with version {aver:#x}", lambda: whole(header(v, aversion=aver) + data[size:], True, own))
        elif kind == "misuse":
            for wrong in (None, 3, "text", b"bytes", [], object(), print, type):
                settled(f"get_header({wrong!r:.30})", lambda: api.get_header(wrong))
                settled(f"generate_statistics({wrong!r:.30})", lambda: list(api.generate_statistics(wrong)))
                settled(f"struct_to_dict({wrong!r:.30})", lambda: api.struct_to_dict(wrong))
                settled(f"header {wrong!r:.30}", lambda: list(api.generate_statistics(io.BytesIO(data[size:]), wrong)))
                settled(f"limit {wrong!r:.30}", lambda: whole(data, max_samples=wrong))
                parsers = sys.modules["atoparser.parsers.atop_1_26"]
                for name in CLI:
                    settled(f"parse_{name}({wrong!r:.30})", lambda: list(getattr(parsers, "parse_" + name)(wrong, wrong, wrong, wrong)))
        else:
            reader = sys.modules["atoparser.reader"]
            folder = tempfile.mkdtemp(prefix="verif-p23-")
            try:
                blobs = {"good": data, "cut": data[:-9], "empty": b"", "text": b"x" * 700, "short": head[:-1], "gone": None, "folder": folder, "gzip cut": gzip.compress(data)[:-30], "gzip short": b"\x1f\x8b"}
                for name, blob in blobs.items():
                    path = folder if blob is folder else os.path.join(folder, name.replace(" ", ""))
                    if isinstance(blob, bytes):
                        with open(path, "wb") as handle:
                            handle.write(blob)
                    for pars in (None, ["CPU"], ["PRC", "NOSUCH"]):
                        for pretty in (False, True):
                            with contextlib.redirect_stdout(io.StringIO()):
                                attempt(lambda: reader.parse_file(path, pars, pretty, True, True))
                            settled(f"the command with a file of kind {name}", lambda: None)
                    argv = sys.argv
                    sys.argv = ["atoparser", path, path]
                    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                        attempt(reader.main)
                    sys.argv = argv
                    settled(f"main with a file of kind {name}", lambda: None)
            finally:
                shutil.rmtree(folder, ignore_errors=True)
        gc.set_threshold(*gc_was)
        return num

    def run_case(self, case, cov: Cov) -> None:
        if case[0] in VERSIONS:
            num = core.fork_call(lambda: self.fail(cov, *case), 150)
            cov.evaluations += num
            cov.seen(canon(case))
            cov.note(case, num)
            cov.outcomes["failing calls"] += num
            return
        order, flags, env, place = case
        what = f"import of {order} ({flags}; {env}; from {place})"
        exp = self.expected()
        folder = tempfile.mkdtemp(prefix="verif-p23-")
        try:
            logs = os.path.join(folder, "logs")
            os.mkdir(logs)
            for name, data in exp["logs"].items():
                with open(os.path.join(logs, name), "wb") as handle:
                    handle.write(data)
            where, cwd = self.put(folder, place)
            script = os.path.join(folder, "child.py")
            with open(script, "w", encoding="utf-8") as handle:
                handle.write(CHILD)
            result = os.path.join(folder, "result.json")
            full = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LC_", "LANG", "VERIF", "TZ"))}
            full.update({"PYTHONPATH": where, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPYCACHEPREFIX": "/nonexistent-verif-pycache", **ENVS[env]})
            before = self.listing(where)
            args = [*FLAGS[flags], "-B"]
            done = subprocess.run([sys.executable, *args, script, ",".join(order), logs, result, *args], cwd=cwd, env=full, capture_output=True, timeout=150, stdin=subprocess.DEVNULL, check=False)
            text = done.stderr.decode(errors="replace")
            check(done.returncode == 0 and os.path.exists(result), lambda: f"{what}: exit status {done.returncode}: {text[-600:]}")
            with open(result, encoding="utf-8") as handle:
                box = json.load(handle)
            check(os.path.realpath(box["file"]).startswith(os.path.realpath(where)), lambda: f"{what}: imported from {box['file']}")
            check(done.stdout == b"" and text == "", lambda: f"{what}: prints {done.stdout[:200]!r} {text[:300]!r}")
            check(not box["import"], lambda: f"{what}: importing changes {box['import']}")
            check(not box["use"], lambda: f"{what}: reading and converting changes {box['use']}")
            check(self.listing(where) == before and sorted(os.listdir(logs)) == sorted(exp["logs"]), f"{what}: files were left behind")
            if canon(box["results"]) != canon(exp["docs"]):
                raise Violation(f"{what}: {first_json_diff(box['results'], exp['docs'])}")
        finally:
            if place == "read only":
                subprocess.run(["chmod", "-R", "u+w", folder], check=False)
            shutil.rmtree(folder, ignore_errors=True)
        cov.evaluations += 1
        cov.seen(canon(case))
        cov.note(case, 1)
        cov.outcomes[f"place {place}" if place != "source" else "imports" if flags == env == "plain" else "modes"] += 1

    @staticmethod
    def listing(where):
        if os.path.isfile(where):
            return os.path.getsize(where)
        base = os.path.join(where, "atoparser")
        return sorted(os.path.join(root, f) for root, _d, files in os.walk(base) for f in files)

    @staticmethod
    def put(folder, place):
        """(entry of the module path, working directory)"""
        cwd = os.path.join(folder, "cwd")
        os.mkdir(cwd)
        src = os.path.join(core.REPO, "atoparser")
        if place == "source":
            return core.REPO, cwd
        if place == "inside":
            return core.REPO, src
        copy = os.path.join(folder, "a b\u00e4'%s" if place == "odd name" else "copy")
        shutil.copytree(src, os.path.join(copy, "atoparser"), ignore=shutil.ignore_patterns("__pycache__", "test*", "*.log", "*.gz"))
        if place == "zip":
            path = os.path.join(folder, "lib.zip")
            with zipfile.ZipFile(path, "w") as arc:
                for root, _dirs, files in os.walk(copy):
                    for name in files:
                        arc.write(os.path.join(root, name), os.path.relpath(os.path.join(root, name), copy))
            return path, cwd
        if place == "compiled":
            prefix, sys.pycache_prefix = sys.pycache_prefix, None
            try:
                check(compileall.compile_dir(copy, quiet=2, legacy=True), "the library does not compile")
            finally:
                sys.pycache_prefix = prefix
            for root, _dirs, files in os.walk(copy):
                for name in files:
                    if name.endswith(".py"):
                        os.unlink(os.path.join(root, name))
        if place == "read only":
            subprocess.run(["chmod", "-R", "a-w", copy], check=True)
        return copy, cwd
