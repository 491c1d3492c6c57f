"""P20: the command prints whole documents only and reports files it cannot read."""

from __future__ import annotations

import contextlib
import fcntl
import gzip
import io
import itertools
import json
import os
import pty
import shutil
import socket
import struct
import subprocess
import sys
import tempfile
import termios
import threading
import time
import tty
from unittest import mock

from mc import core
from mc.core import Check, Cov, Violation, attempt, check
from mc.checks.p14 import CHECK as P14, TEXTS, expected, samples_for, texts
from mc.oracle import VERSIONS, canon, first_json_diff, header, layout, log

GOOD = {
    "plain": ("1.26", 2, False), "gz": ("2.12", 1, True), "empty log": ("2.4", 0, False),
}
BAD = [
    "missing", "folder", "empty", "text", "magic", "lengths", "version", "short header", "gzip of text", "gzip header only", "gzip garbage", "few tasks", "gzip check sum", "bytes swapped", "unreachable", "no name", "blank name", "long name",
]
ENVS = [
    {}, {"LC_ALL": "C", "PYTHONIOENCODING": "ascii"}, {"LC_ALL": "POSIX", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, {"PYTHONIOENCODING": "latin-1"},
    {"PYTHONIOENCODING": "ascii:strict", "TZ": "Asia/Kolkata"}, {"PYTHONUTF8": "1"}, {"PYTHONUNBUFFERED": "1"}, {"PYTHONOPTIMIZE": "2"}, {"PYTHONHASHSEED": "77"}, {"COLUMNS": "20"},
]
OUTPUTS = [
    "terminal", "terminal, narrow", "terminal, wide", "terminal, no size", "terminal for all", "socket", "nowhere", "errors too", "full", "file", "file, appended", "file, read and written",
]


def spoiled(kind):
    """Contents of a file that cannot be read as a log (None: no regular file)."""
    v = "2.6"
    samples = samples_for(v, 2)
    good = log(v, samples)
    if kind == "empty":
        return b""
    if kind == "text":
        return b"ATOP - host 2024/01/01\n" * 50
    if kind == "magic":
        return bytes([good[0] ^ 1]) + good[1:]
    if kind == "bytes swapped":
        return good[:4][::-1] + good[4:]
    if kind == "lengths":
        return header(v, sstatlen=layout(v).size("SStat") + 8) + good[480:]
    if kind == "version":
        return header("2.12", aversion=0x8000 | 2 << 8 | 13, sstatlen=8) + good[480:]
    if kind == "short header":
        return good[:479]
    if kind == "gzip of text":
        return gzip.compress(b"hello" * 200, mtime=0)
    if kind == "gzip header only":
        return gzip.compress(good, mtime=0)[:10]
    if kind == "gzip garbage":
        return b"\x1f\x8b" + bytes(range(200)) * 4
    if kind == "few tasks":
        # The second sample declares one task more than it holds: not a truncation.
        buf = bytearray(samples[1].record)
        layout(v).put(buf, "Record", ("ndeviat",), len(samples[1].tasks) + 1)
        start = 480 + len(samples[0])
        return good[:start] + bytes(buf) + good[start + len(buf) :]
    if kind == "gzip check sum":
        blob = bytearray(gzip.compress(good, mtime=0))
        blob[-6] ^= 0x20
        return bytes(blob)
    return None


class CHECK(Check):
    prop = "P20"
    level = "exploration"
    rule = (
        "One evaluation runs the command on one list of files (in process, or as a real process with its own environment and working directory) and examines its exit status and all of its "
        "standard output. Non-trivial: an unreadable file, a usage error, or a special environment; distinct by command line, files and environment."
    )
    bounds = {
        "in process": f"all sequences of up to 3 files over {len(GOOD)} readable and {len(BAD)} unreadable kinds (full, summaries)",
        "processes": f"each unreadable kind before, between and behind readable files; {len(ENVS)} environments x 11 versions; every text x ascii output; relative names, names with odd characters and bytes; the module, the script and the entry point; 1..1,024 unreadable files at once; pipes, named pipes, links, /dev/stdin, /dev/fd, devices",
        "outputs": f"{len(OUTPUTS)} kinds of standard output (terminals of several sizes, sockets, devices also full ones, files also appended to) x file lists x formats",
        "usage": "all options with missing or unknown arguments",
    }
    case_timeout = 200

    def tasks(self):
        kinds = list(GOOD) + BAD
        out = [["seq", k] for k in kinds] + [["envs", v] for v in VERSIONS] + [["usage"], ["names", 0], ["names", 1], ["launch"], ["special"], ["outputs"], ["counts"]]
        out += [["texts", part] for part in range(4)]
        out += [["process", kind] for kind in BAD]
        return out

    def cases(self, task_):
        kinds = list(GOOD) + BAD
        if task_[0] == "seq":
            for n in range(3):
                for rest in itertools.product(kinds, repeat=n):
                    for p in ([], ["PRC", "cpu"]):
                        yield ["inline", [task_[1], *rest], p]
        elif task_[0] == "process":
            for files in ([task_[1]], [task_[1], "plain"], ["plain", task_[1]], ["gz", task_[1], "plain"], ["plain", "gz", task_[1]]):
                for p in ([], ["PRG"]):
                    yield ["process", files, p, 0, "module"]
        elif task_[0] == "envs":
            for num in range(len(ENVS)):
                yield ["env", task_[1], num]
        elif task_[0] == "counts":
            # Very many files, of which some, most or all are unreadable.
            for num in (1, 2, 3, 5, 8, 16, 17, 32, 64, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300, 511, 512, 513, 768, 1024):
                for kind in ("missing", "junk", "folder"):
                    for good in (0, 1, 3):
                        yield ["counts", num, kind, good, "inline"]
                if num in (1, 2, 255, 256, 257, 512):
                    yield ["counts", num, "missing", 1, "module"]
                    yield ["counts", num, "missing", 0, "entry"]
        elif task_[0] == "launch":
            for how in ("module", "script", "entry"):
                for files in (["plain"], ["gz", "plain"], ["empty log"], ["plain", "missing"]):
                    yield ["process", files, [], 0, how]
        elif task_[0] == "outputs":
            # Wherever the output goes.
            for where in OUTPUTS:
                for kinds in (["plain"], ["gz", "plain"], ["empty log"], ["plain", "missing"], ["missing", "plain"]):
                    for flags in ([], ["-p"], ["-P", "PRG"]):
                        if "-P" not in flags or kinds[0] == "plain":
                            yield ["out", where, kinds, flags]
        elif task_[0] == "texts":
            for num in range(task_[1], len(TEXTS), 4):
                for env in (1, 3) if self.thorough else (1,):
                    for v in ("1.26", "2.12"):
                        yield ["texts", v, num, env]
        elif task_[0] == "names":
            for name in ("./a.log", "a.log", "../x/a.log", "-a.log", "--tstats", "a b", "a\nb", "\u00e4\u20ac", "a\udcffb", "'\"\\", "%s", "~", "*", "@a.log", "@", "-", "+a", "--", "a=b", "a:1", "#a", "!", "a.log.gz~", "a.", ".a", "x" * 250, "-P", "--help", "{}", "a,b", "\u202ea", "e\u0301", "\u00e9"):
                yield ["name", ("1.26", "2.3")[task_[1]], name]
        elif task_[0] == "special":
            # Files that are no regular ones.
            for how in ("pipe", "fd", "proc", "fifo", "link", "hard link", "link to link", "opened", "null", "zero", "loop", "dangling", "stalling fifo", "offset"):
                for v, gz in (("1.26", False), ("1.26", True), ("2.3", False), ("2.12", True), ("2.12", False)):
                    if how not in ("null", "zero", "loop", "dangling") or (v, gz) == ("1.26", False):
                        yield ["special", how, v, gz]
        else:
            for args in (
                [], ["-P"], ["-P", "XYZ", "--", "@"], ["@", "-P", "CPU", "cpl"], ["@", "--nope"], ["@", "-P", "CPU,MEM"], ["--pretty-print"], ["@", "--tstats=1"], ["@", "-P", "prc"], ["@", "-P", ""], ["@", "-x"],
                ["--tstats", "--cstats"],
            ):
                yield ["usage", args]

    def run_case(self, case, cov: Cov) -> None:
        folder = tempfile.mkdtemp(prefix="verif-p20-")
        try:
            getattr(self, "do_" + case[0])(cov, folder, *case[1:])
        finally:
            shutil.rmtree(folder, ignore_errors=True)
        cov.evaluations += 1
        cov.seen(canon(case))
        cov.note(case, 1)

    # ---- files -----------------------------------------------------------------------------------------------------
    def put_files(self, folder, kinds, p):
        """Paths, and the promised document of each (None: unreadable)."""
        paths, docs = [], []
        for i, kind in enumerate(kinds):
            path = os.path.join(folder, f"{i}", "a.log")
            os.makedirs(os.path.dirname(path))
            doc = None
            if kind in GOOD:
                v, n, gz = GOOD[kind]
                samples = samples_for(v, n, i)
                data = log(v, samples)
                doc = expected(v, header(v), samples, ["--tstats"], p, path)
                data = gzip.compress(data, 6, mtime=0) if gz else data
            else:
                data = spoiled(kind)
                if kind == "few tasks" and p:
                    doc = ("error", path)  # nothing is read of it
                elif kind == "gzip check sum" and p:
                    doc = ("error", path)
            if kind == "folder":
                os.mkdir(path)
            elif kind == "unreachable":
                path = os.path.join(path, "below")
                with open(os.path.dirname(path), "wb") as handle:
                    handle.write(b"x")
            elif kind in ("no name", "blank name", "long name"):
                path = {"no name": "", "blank name": " ", "long name": path * 60}[kind]
            elif kind != "missing":
                with open(path, "wb") as handle:
                    handle.write(data)
            paths.append(path)
            docs.append(doc)
        return paths, docs

    def judge(self, what, status, text, docs):
        """docs: promised documents in order, None for unreadable files."""
        got = P14.documents(text, what)
        bad = docs.index(None) if None in docs else None
        if bad is None:
            check(status == 0, lambda: f"{what}: exit status {status} although all files are readable")
            check(len(got) == len(docs), lambda: f"{what}: {len(got)} documents for {len(docs)} files")
            todo = docs
        else:
            check(status != 0, f"{what}: exit status 0 although a file is unreadable")
            todo = [d for d in docs if d is not None]
            check(bad <= len(got) <= len(todo), lambda: f"{what}: {len(got)} documents printed, {bad} files before the unreadable one")
            if len(got) != len(todo):
                todo = todo[: len(got)]
        for (doc, _body), (tag, exp) in zip(got, todo):
            if tag == "error":
                check(isinstance(doc, list) and len(doc) == 1 and doc[0].get("file") == exp and isinstance(doc[0].get("error"), str), lambda: f"{what}: {str(doc)[:200]} instead of an error entry")
            elif canon(doc) != canon(exp):
                raise Violation(f"{what}: {first_json_diff(doc, exp)}")

    # ---- in process ------------------------------------------------------------------------------------------------
    def inline(self, argv):
        reader = sys.modules["atoparser.reader"]
        out = io.StringIO()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()), mock.patch.object(sys, "argv", ["atoparser", *argv]):
            kind, val = attempt(reader.main)
        if kind == "ok":
            # The entry point hands the result of main to sys.exit; the system keeps 8 bits of it.
            return (val & 0xFF if isinstance(val, int) else 0 if val is None else 1), out.getvalue()
        if isinstance(val, SystemExit):
            return (0 if val.code is None else val.code & 0xFF if isinstance(val.code, int) else 1), out.getvalue()
        return 1, out.getvalue()

    def do_inline(self, cov, folder, files, p):
        paths, docs = self.put_files(folder, files, p)
        status, text = self.inline(paths + ["--tstats"] + (["-P", *p] if p else []))
        self.judge(f"files {files} {p}", status, text, docs)
        cov.outcomes["unreadable file" if None in docs else "all readable"] += 1

    def do_counts(self, cov, folder, num, kind, good, how):
        path = os.path.join(folder, "a.log")
        if kind == "folder":
            os.mkdir(path)
        elif kind == "junk":
            with open(path, "wb") as handle:
                handle.write(b"no log at all" * 99)
        samples = samples_for("1.26", 1)
        fine = os.path.join(folder, "b.log")
        with open(fine, "wb") as handle:
            handle.write(log("1.26", samples))
        paths = [fine] * good + [path] * num + [fine] * (good // 3)
        docs = [expected("1.26", header("1.26"), samples, [], ["SWP"], p) if p == fine else None for p in paths]
        status, text = self.inline([*paths, "-P", "SWP"]) if how == "inline" else self.spawn([*paths, "-P", "SWP"], folder, 0, how)
        self.judge(f"{num} times a file of kind {kind!r} and {good} readable ones ({how})", status, text, docs)
        cov.outcomes["many unreadable files"] += 1

    # ---- real processes --------------------------------------------------------------------------------------------
    def spawn(self, argv, cwd, env=0, how="module", **kwargs):
        full = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LC_", "LANG", "VERIF"))}
        full.update({"PYTHONPATH": core.REPO, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPYCACHEPREFIX": "/nonexistent-verif-pycache", **ENVS[env]})
        start = {
            "module": [sys.executable, "-B", "-m", "atoparser.reader"],
            "script": [sys.executable, "-B", os.path.join(core.REPO, "atoparser", "reader.py")],
            "entry": [sys.executable, "-B", "-c", "import sys; from atoparser.reader import main; sys.exit(main())"],
        }[how]
        done = subprocess.run([*start, *argv], cwd=cwd, env=full, capture_output=True, timeout=100, check=False, **(kwargs or {"stdin": subprocess.DEVNULL}))
        check(done.returncode >= 0, lambda: f"{argv}: the process was ended by signal {-done.returncode}")
        enc = ENVS[env].get("PYTHONIOENCODING", "utf-8").split(":", maxsplit=1)[0]
        return done.returncode, done.stdout.decode(enc)

    def do_process(self, cov, folder, files, p, env, how):
        paths, docs = self.put_files(folder, files, p)
        status, text = self.spawn(paths + ["--tstats"] + (["-P", *p] if p else []), folder, env, how)
        self.judge(f"process ({how}) with files {files} {p}", status, text, docs)
        cov.outcomes["process: " + ("unreadable file" if None in docs else "all readable")] += 1

    def do_env(self, cov, folder, v, env):
        samples = samples_for(v, 2)
        with open(os.path.join(folder, "x.log"), "wb") as handle:
            handle.write(log(v, samples))
        status, text = self.spawn(["x.log", "-p", "--tstats", "--cstats"], folder, env)
        self.judge(f"{v} in environment {ENVS[env]}", status, text, [expected(v, header(v), samples, ["--tstats", "--cstats"], [], "x.log")])
        cov.outcomes["process: environments"] += 1

    def do_texts(self, cov, folder, v, num, env):
        head, samples = texts(v, TEXTS[num])
        with open(os.path.join(folder, "x.log"), "wb") as handle:
            handle.write(head + b"".join(s.blob for s in samples))
        for p in ([], ["PRG", "DSK", "NETL"]) if v == "1.26" else ([],):
            status, text = self.spawn(["x.log", "--tstats"] + (["-P", *p] if p else []), folder, env)
            self.judge(f"{v} with texts {TEXTS[num]!r} in environment {ENVS[env]}", status, text, [expected(v, head, samples, ["--tstats"], p, "x.log")])
        cov.outcomes["process: texts"] += 1

    def do_name(self, cov, folder, v, name):
        cwd = os.path.join(folder, "x")
        os.mkdir(cwd)
        samples = samples_for(v, 1)
        with open(os.path.join(cwd, name), "wb") as handle:
            handle.write(log(v, samples))
        for p in ([], ["PRG"]):
            status, text = self.spawn((["-P", *p] if p else []) + ["--", name], cwd, 1)
            self.judge(f"{v} file named {name!r}", status, text, [expected(v, header(v), samples, [], p, name)])
        cov.outcomes["process: names"] += 1

    def do_special(self, cov, folder, how, v, gz):
        """Pipes, devices and links are read like regular files, or reported."""
        samples = samples_for(v, 3)
        data = log(v, samples)
        data = gzip.compress(data, 6, mtime=0) if gz else data
        path, target, kwargs, pieces = os.path.join(folder, "a.log"), os.path.join(folder, "b.log"), {}, None
        with open(target, "wb") as handle:
            handle.write(data)
        if how in ("pipe", "fd", "proc"):
            path = {"pipe": "/dev/stdin", "fd": "/dev/fd/0", "proc": "/proc/self/fd/0"}[how]
            kwargs["input"] = data
        elif how in ("opened", "offset"):
            path = "/dev/stdin"
            kwargs["stdin"] = open(target, "rb")  # pylint: disable=consider-using-with
            if how == "offset":
                os.lseek(kwargs["stdin"].fileno(), 0, os.SEEK_END)
        elif how in ("fifo", "stalling fifo"):
            os.mkfifo(path)
            pieces = [data]
            if how == "stalling fifo":
                pieces = [data[:1], data[1:2], data[2:10], data[10:479], data[479:480], data[480:600], data[600:]]
        elif how in ("link", "link to link"):
            os.symlink("b.log", path)
            if how == "link to link":
                os.symlink(path, os.path.join(folder, "c.log.gz"))
                path = os.path.join(folder, "c.log.gz")
        elif how == "hard link":
            os.link(target, path)
        elif how == "loop":
            os.symlink("a.log", path)
        elif how == "dangling":
            os.symlink("nowhere", path)
        else:
            path = "/dev/" + how
        good = None if how in ("null", "zero", "loop", "dangling") else expected(v, header(v), samples, ["--tstats"], [], path)
        feeder = threading.Thread(target=self.feed, args=(path, pieces or []), daemon=True)
        try:
            if pieces:
                feeder.start()
            status, text = self.spawn([path, "--tstats"], folder, 0, "module", **kwargs)
        finally:
            if pieces:
                # Should nobody have opened the pipe, let the writer go.
                os.close(os.open(path, os.O_RDONLY | os.O_NONBLOCK))
                feeder.join(10)
            if "stdin" in kwargs:
                kwargs["stdin"].close()
        self.judge(f"{v} log read from {how} ({path})", status, text, [good])
        cov.outcomes["process: special files"] += 1

    def do_out(self, cov, folder, where, kinds, flags):
        p = flags[1:] if "-P" in flags else []
        paths, docs = self.put_files(folder, kinds, p)
        argv, before, target = paths + ["--tstats", *flags], b"", os.path.join(folder, "out")
        what = f"output to {where}, files {kinds} {flags}"
        env = {}
        if where.startswith("terminal"):
            chunks = []
            try:
                master, slave = pty.openpty()
            except OSError:
                cov.outcomes["no terminals here"] += 1
                return
            tty.setraw(slave)
            rows, cols = {"terminal": (24, 80), "terminal, narrow": (5, 20), "terminal, wide": (200, 1000), "terminal, no size": (0, 0), "terminal for all": (24, 80)}[where]
            fcntl.ioctl(slave, termios.TIOCSWINSZ, struct.pack("HHHH", rows, cols, 0, 0))
            env["TERM"] = "xterm-256color"

            def collect():
                with contextlib.suppress(OSError):
                    while data := os.read(master, 65536):
                        chunks.append(data)

            reader = threading.Thread(target=collect, daemon=True)
            reader.start()
            more = {"stdin": slave} if where == "terminal for all" else {"stdin": subprocess.DEVNULL}
            try:
                status = self.start(argv, folder, stdout=slave, stderr=subprocess.DEVNULL, more=env, **more)
            finally:
                os.close(slave)
                reader.join(60)
                os.close(master)
            text = b"".join(chunks)
        elif where == "socket":
            ours, theirs = socket.socketpair()
            chunks = []

            def receive():
                while data := ours.recv(65536):
                    chunks.append(data)

            reader = threading.Thread(target=receive, daemon=True)
            reader.start()
            try:
                status = self.start(argv, folder, stdout=theirs.fileno(), stderr=subprocess.DEVNULL)
            finally:
                theirs.close()
                reader.join(60)
                ours.close()
            text = b"".join(chunks)
        elif where == "nowhere":
            status = self.start(argv, folder, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            check((status == 0) == (None not in docs), f"{what}: exit status {status}")
            cov.outcomes["process: outputs"] += 1
            return
        elif where == "errors too":
            status = self.start(argv, folder, stdout=subprocess.DEVNULL, stderr=subprocess.STDOUT)
            check((status == 0) == (None not in docs), f"{what}: exit status {status}")
            cov.outcomes["process: outputs"] += 1
            return
        elif where == "full":
            with open("/dev/full", "wb") as out:
                status = self.start(argv, folder, stdout=out, stderr=subprocess.DEVNULL)
            check(status != 0 or not docs, f"{what}: exit status 0 although nothing could be written")
            cov.outcomes["process: full device"] += 1
            return
        else:
            if where != "file":
                before = b"what was there before\n" * 3
            with open(target, "wb") as out:
                out.write(before)
            with open(target, {"file": "wb", "file, appended": "ab", "file, read and written": "r+b"}[where]) as out:
                out.seek(0, 2)
                status = self.start(argv, folder, stdout=out, stderr=subprocess.DEVNULL)
            with open(target, "rb") as out:
                text = out.read()
        check(text.startswith(before), f"{what}: what was there before is gone")
        self.judge(what, status, text[len(before) :].decode(), docs)
        cov.outcomes["process: outputs"] += 1

    @staticmethod
    def start(argv, cwd, more=None, stdin=subprocess.DEVNULL, **kwargs):
        full = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LC_", "LANG", "VERIF"))}
        full.update({"PYTHONPATH": core.REPO, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPYCACHEPREFIX": "/nonexistent-verif-pycache", "PYTHONIOENCODING": "utf-8", **(more or {})})
        return subprocess.run([sys.executable, "-B", "-m", "atoparser.reader", *argv], cwd=cwd, env=full, timeout=100, check=False, stdin=stdin, **kwargs).returncode

    @staticmethod
    def feed(path, pieces):
        with contextlib.suppress(OSError):
            fd = os.open(path, os.O_WRONLY)
            try:
                for piece in pieces:
                    view = memoryview(piece)
                    while view:
                        view = view[os.write(fd, view) :]
                    time.sleep(0.05)
            finally:
                os.close(fd)

    def do_usage(self, cov, folder, args):
        path = os.path.join(folder, "a.log")
        with open(path, "wb") as handle:
            handle.write(log("1.26", samples_for("1.26", 1)))
        argv = [path if a == "@" else a for a in args]
        for runner in (self.inline, lambda a: self.spawn(a, folder)):
            status, text = runner(argv)
            check(status != 0, f"arguments {args}: accepted")
            check(text == "", f"arguments {args}: {text[:100]!r} on standard output")
        cov.outcomes["usage error"] += 1
