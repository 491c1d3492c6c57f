"""P16: any binary stream gives the same result."""

from __future__ import annotations

import bz2
import gzip
import io
import lzma
import mmap
import os
import shutil
import socket
import tarfile
import tempfile
import threading
import zipfile

from mc.core import Check, Cov, Violation, attempt, check, expect_ok
from mc.oracle import CG_VERSIONS, TRUNCATION_ERRORS, VERSIONS, diff, drain, header, layout, lib, log, plain_sample, raw, snap, want


class Minimal:
    """Only read and readinto; refuses everything else. Records what is asked."""

    def __init__(self, data: bytes):
        self._data, self._pos = data, 0
        self.log = []

    def read(self, size):
        out = self._data[self._pos : self._pos + size]
        self._pos += len(out)
        self.log.append(len(out))
        return out

    def readinto(self, target):
        view = memoryview(target).cast("B")
        out = self._data[self._pos : self._pos + len(view)]
        view[: len(out)] = out
        self._pos += len(out)
        return len(out)


class Watch(io.BytesIO):
    """In memory; notes every attempt to reposition, close or write."""

    def __init__(self, data):
        super().__init__(data)
        self.noted = []

    def seek(self, *args):
        self.noted.append(("seek", args))
        return super().seek(*args)

    def close(self):
        self.noted.append(("close",))
        return super().close()

    def write(self, *args):
        self.noted.append(("write",))
        return super().write(*args)

    def truncate(self, *args):
        self.noted.append(("truncate",))
        return super().truncate(*args)


class NoSeek(io.RawIOBase):
    """A raw stream that cannot seek or tell (like a socket), always delivering what is asked."""

    def __init__(self, data):
        super().__init__()
        self._inner = io.BytesIO(data)

    def readable(self):
        return True

    def seekable(self):
        return False

    def readinto(self, target):
        return self._inner.readinto(target)


class Slots:
    """Cannot be hashed, weakly referenced, given attributes, and is false."""

    __slots__ = ("_inner",)
    __hash__ = None

    def __init__(self, data):
        self._inner = io.BytesIO(data)

    def __eq__(self, other):
        return True

    def __len__(self):
        return 0

    def read(self, size):
        return self._inner.read(size)

    def readinto(self, target):
        return self._inner.readinto(target)


class Decoding(io.BytesIO):
    """Stored content is not what reading gives (as with decrypting streams)."""

    def __init__(self, data):
        super().__init__(bytes(b ^ 0x5A for b in data))

    def read(self, size=-1):
        return bytes(b ^ 0x5A for b in super().read(size))

    def readinto(self, target):
        view = memoryview(target).cast("B")
        out = self.read(len(view))
        view[: len(out)] = out
        return len(out)


class Misleading(Minimal):
    """Offers all the usual methods and attributes, but nothing except read and readinto tells about this stream."""

    mode = "rb"
    closed = False

    def __init__(self, data, path):
        super().__init__(data)
        self.name = path
        self._other = open(path, "rb")  # pylint: disable=consider-using-with

    def fileno(self):
        return self._other.fileno()

    def tell(self):
        return 0

    def seekable(self):
        return True

    def seek(self, *_args):
        return 0

    def peek(self, *_args):
        return b""

    def getvalue(self):
        return b""

    def getbuffer(self):
        return memoryview(b"")

    def __len__(self):
        return 1 << 20

    def __iter__(self):
        return iter(())


class Failing(Minimal):
    """All other methods exist and fail, as for instance those of closed or remote files."""

    def _fail(self, *_args):
        raise io.UnsupportedOperation("not offered")

    seek = tell = fileno = peek = seekable = readable = read1 = readinto1 = readline = readlines = getvalue = getbuffer = __len__ = __iter__ = __enter__ = flush = close = isatty = detach = _fail
    name = closed = mode = property(_fail)


OFFSETS = [0, 1, 2, 3, 7, 8, 480, 511, 512, 513, 4095, 4096, 65537]
BUFFERS = [1, 2, 3, 7, 16, 64, 96, 100, 480, 481, 512, 1000, 8192, 65536, 1 << 20]
KINDS = (
    ["bytesio", "watch", "minimal", "noseek", "bufferedpipe", "unbuffered", "file", "mmapfile", "gzip1", "gzip9", "gzipmulti", "bz2", "xz", "zipstored", "zipdeflated", "fifo", "rwpair", "temp", "slots", "decoding", "misleading", "failing", "tar", "socket", "named"]
    + [f"buffered{n}" for n in BUFFERS]
)


class CHECK(Check):
    prop = "P16"
    level = "exploration"
    rule = (
        "One evaluation reads one log through one kind of stream, started at one offset, and compares everything with the stored samples; the stream must neither be closed "
        "nor repositioned, and what follows must be readable from its position. Non-trivial: not (in memory at offset 0); distinct by version, log, kind, offset, mode."
    )
    bounds = {
        "stream kinds": ", ".join(KINDS),
        "offsets": f"{OFFSETS} for every kind that can start at an offset (thorough: 0..600 for in-memory streams)",
        "broken logs": "10 kinds of cuts and damage x 2 positions x all stream kinds x offsets 0 and 3",
        "split": "header from one stream, samples from another one at every offset",
        "logs": "small samples of all versions; samples with incompressible sections (90 KB to 1 MB) for 1.26, 2.7 and 2.12",
    }
    assumptions = ["A stream delivers fewer bytes than requested only at its end (as BufferedReader, gzip etc. do)."]

    def tasks(self):
        out = []
        for v in VERSIONS:
            out.append(["kinds", v, "small"])
            out.append(["broken", v])
            out.append(["split", v])
            if v in ("1.26", "2.7", "2.12") or self.thorough:
                out.append(["kinds", v, "big"])
            if self.thorough:
                out.append(["offsets", v])
        return out

    def cases(self, task_):
        if task_[0] == "offsets":
            for off in range(601):
                for kind in ("bytesio", "watch", "minimal"):
                    yield [kind, task_[1], "small", off]
            return
        if task_[0] == "broken":
            # Cut and damaged logs: (sample, part, how)
            for kind in KINDS:
                for how in ("in record", "in sstat", "in tasks", "last byte", "border", "flip", "flip tasks", "few tasks") + (("in cgroups", "in pids") if task_[1] in CG_VERSIONS else ()):
                    for num in (0, 1):
                        for off in (0, 3):
                            yield [kind, task_[1], "small", off, how, num]
            return
        if task_[0] == "split":
            for kind in KINDS:
                for off in OFFSETS:
                    yield [kind, task_[1], "split", off]
            return
        for kind in KINDS:
            for off in OFFSETS if task_[2] == "small" else (0, 3, 4096):
                yield [kind, task_[1], task_[2], off]

    _memo: dict = {}

    def samples(self, v, size):
        if (v, size) not in self._memo:
            if size == "small":
                self._memo[v, size] = [plain_sample(v, 1, 2), plain_sample(v, 2, 0), plain_sample(v, 3, 1)]
            else:
                self._memo[v, size] = [plain_sample(v, 1, 40, kind="dense"), plain_sample(v, 2, 1)]
        return self._memo[v, size]

    def run_case(self, case, cov: Cov) -> None:
        kind, v, size, off = case[:4]
        samples = self.samples(v, "small" if size == "split" else size)
        prefix = bytes((i * 37 + 11) & 0xFF for i in range(off))
        data = prefix + (b"".join(s.blob for s in samples) if size == "split" else log(v, samples))
        if len(case) > 4:
            data = prefix + self.spoil(v, samples, *case[4:])
        folder = tempfile.mkdtemp(prefix="verif-p16-")
        try:
            self.through(cov, case, kind, v, samples, data, off, folder)
        finally:
            shutil.rmtree(folder, ignore_errors=True)
        cov.evaluations += 1
        cov.outcomes[kind.rstrip("0123456789")] += 1
        if kind != "bytesio" or off:
            cov.seen(tuple(case))
        cov.note(case, 1)

    @staticmethod
    def spoil(v, samples, how, num):
        """The log cut in, or damaged in, sample number num."""
        data = bytearray(log(v, samples))
        begin = 480 + sum(len(s) for s in samples[:num])
        rec = begin + len(samples[num].record)
        secs = samples[num].sections
        starts = [rec + sum(map(len, secs[:i])) for i in range(len(secs) + 1)]
        if how == "few tasks":
            buf = bytearray(samples[num].record)
            by = layout(v).roots["Record"].by_name
            layout(v).put(buf, "Record", ("nlist" if "nlist" in by else "ndeviat",), len(samples[num].tasks) + 1)
            data[begin:rec] = buf
            return bytes(data)
        if how.startswith("flip"):
            data[starts[1 if how == "flip" else 2] - 3] ^= 0x41
            return bytes(data)
        cut = {
            "in record": rec - 7, "in sstat": starts[0] + 20, "in tasks": starts[1] + 3, "last byte": starts[-1] - 1, "border": begin, "in cgroups": starts[2] + 5 if len(starts) > 3 else 0,
            "in pids": starts[-1] - 5,
        }[how]
        return bytes(data[:cut])

    def through(self, cov, case, kind, v, samples, data, off, folder):
        path = os.path.join(folder, "a.log")
        closing = []
        thread = None
        if kind in ("file", "unbuffered", "mmapfile", "rwpair", "named") or kind.startswith("buffered") and kind != "bufferedpipe":
            with open(path, "wb") as handle:
                handle.write(data)
        if kind == "bytesio":
            stream = io.BytesIO(data)
        elif kind == "watch":
            stream = Watch(data)
        elif kind == "minimal":
            stream = Minimal(data)
        elif kind == "noseek":
            stream = NoSeek(data)
        elif kind == "slots":
            stream = Slots(data)
        elif kind == "decoding":
            stream = Decoding(data)
        elif kind == "misleading":
            with open(path, "wb") as handle:
                handle.write(log(v, samples[::-1]) + bytes(10000))
            stream = Misleading(data, path)
            closing.append(stream._other)
        elif kind == "failing":
            stream = Failing(data)
        elif kind == "tar":
            target = io.BytesIO()
            with tarfile.open(fileobj=target, mode="w") as archive:
                for name in ("before", "a.log", "behind"):
                    info = tarfile.TarInfo(name)
                    info.size = len(data)
                    archive.addfile(info, io.BytesIO(data))
            stream = tarfile.open(fileobj=io.BytesIO(target.getvalue())).extractfile("a.log")
        elif kind == "socket":
            one, two = socket.socketpair()

            def feed3():
                try:
                    two.sendall(data)
                except OSError:
                    pass
                two.close()

            thread = threading.Thread(target=feed3, daemon=True)
            thread.start()
            stream = one.makefile("rb")
            closing += [stream, one]
        elif kind == "named":
            stream = tempfile.NamedTemporaryFile(dir=folder)  # pylint: disable=consider-using-with
            stream.write(data)
            stream.seek(0)
            closing.append(stream)
        elif kind == "temp":
            stream = tempfile.SpooledTemporaryFile(max_size=1 << 30)
            stream.write(data)
            stream.seek(0)
            if not hasattr(stream, "readinto"):
                cov.outcomes["kind not available"] += 1
                return
        elif kind == "bufferedpipe":
            # Written completely or by a second thread, read through a buffer.
            recv, send = os.pipe()

            def feed(fd=send):
                try:
                    with os.fdopen(fd, "wb") as out:
                        out.write(data)
                except BrokenPipeError:
                    pass

            thread = threading.Thread(target=feed, daemon=True)
            thread.start()
            stream = os.fdopen(recv, "rb")
            closing.append(stream)
        elif kind == "fifo":
            fifo = os.path.join(folder, "fifo")
            os.mkfifo(fifo)

            def feed2():
                try:
                    with open(fifo, "wb") as out:
                        out.write(data)
                except BrokenPipeError:
                    pass

            thread = threading.Thread(target=feed2, daemon=True)
            thread.start()
            stream = open(fifo, "rb")  # pylint: disable=consider-using-with
            closing.append(stream)
        elif kind == "unbuffered":
            stream = open(path, "rb", buffering=0)  # pylint: disable=consider-using-with
            closing.append(stream)
        elif kind == "rwpair":
            stream = open(path, "r+b")  # pylint: disable=consider-using-with
            closing.append(stream)
        elif kind == "mmapfile":
            with open(path, "rb") as handle:
                stream = io.BufferedReader(io.BytesIO(mmap.mmap(handle.fileno(), 0, access=mmap.ACCESS_READ)[:]))
        elif kind == "file":
            stream = open(path, "rb")  # pylint: disable=consider-using-with
            closing.append(stream)
        elif kind.startswith("buffered"):
            stream = open(path, "rb", buffering=max(2, int(kind[8:])))  # pylint: disable=consider-using-with
            closing.append(stream)
        elif kind in ("gzip1", "gzip9"):
            stream = gzip.GzipFile(fileobj=io.BytesIO(gzip.compress(data, int(kind[4:]), mtime=0)))
        elif kind == "gzipmulti":
            # Several members, as left by appending compressors.
            cuts = sorted({0, *(min(c, len(data)) for c in (off + 100, off + 480, off + 500, off + 700)), len(data)})
            stream = gzip.GzipFile(fileobj=io.BytesIO(b"".join(gzip.compress(data[a:b], 6, mtime=0) for a, b in zip(cuts, cuts[1:]))))
        elif kind == "bz2":
            stream = bz2.BZ2File(io.BytesIO(bz2.compress(data)))
        elif kind == "xz":
            stream = lzma.LZMAFile(io.BytesIO(lzma.compress(data, preset=0)))
        else:
            target = io.BytesIO()
            with zipfile.ZipFile(target, "w", zipfile.ZIP_STORED if kind == "zipstored" else zipfile.ZIP_DEFLATED) as zf:
                zf.writestr("a.log", data)
            stream = zipfile.ZipFile(io.BytesIO(target.getvalue())).open("a.log")
        try:
            left = off
            while left:
                got = len(stream.read(left))
                assert got, "harness cannot skip the prefix"
                left -= got
            if kind == "watch":
                del stream.noted[:]
            if len(case) > 4:
                self.judge_broken(case, stream, v, samples, kind, off)
            else:
                self.judge(cov, case, stream, v, samples, kind, off, split=case[2] == "split")
        finally:
            for obj in closing:
                obj.close()
            if thread is not None:
                thread.join(30)

    def judge_broken(self, case, stream, v, samples, kind, off):
        """What is read of a cut or damaged log, and how the reading ends, does not depend on the kind of stream either."""
        how, num = case[4:]
        mode = bool((num + off + len(kind)) % 2)
        what = f"{v} log ({how} of sample {num}) through {kind} at offset {off}, raise_on_truncation={mode}"
        out, exc = drain(expect_ok(what, lib().generate_statistics, stream, raise_on_truncation=mode))
        check(len(out) == num, lambda: f"{what}: {len(out)} samples instead of {num}, {exc!r}")
        for i, (got, smp) in enumerate(zip(out, samples)):
            msg = diff(snap(got), want(smp))
            check(msg is None, lambda: f"{what}: sample {i}: {msg}")
        if how == "few tasks":
            check(isinstance(exc, ValueError), lambda: f"{what}: {exc!r} instead of ValueError")
        elif how == "border" or not mode:
            check(exc is None, lambda: f"{what}: {exc!r} instead of a normal end")
        elif how == "in record":
            check(exc is None or isinstance(exc, TRUNCATION_ERRORS), lambda: f"{what}: {exc!r}")
        else:
            check(isinstance(exc, TRUNCATION_ERRORS), lambda: f"{what}: {exc!r} instead of a decompression error")
        if kind != "failing" and hasattr(stream, "closed"):
            check(not stream.closed, f"{what}: the caller's stream was closed")
        if kind == "watch":
            check(not stream.noted, lambda: f"{what}: the library did {stream.noted[:4]}")

    def judge(self, cov, case, stream, v, samples, kind, off, split=False):
        api = lib()
        what = f"{v} log through {kind} at offset {off}"
        hdr = expect_ok(f"{what}: header", api.get_header, io.BytesIO(header(v)) if split else stream)
        check(raw(hdr) == header(v), f"{what}: header differs")
        # The first sample by one reader, the rest by another.
        first = iter(expect_ok(what, api.generate_statistics, stream, hdr, max_samples=1))
        out = [expect_ok(f"{what}: sample 0", next, first)]
        kind_, val = attempt(next, first)
        check(kind_ == "exc" and isinstance(val, StopIteration), lambda: f"{what}: {val!r} instead of the limit's end")
        if hasattr(stream, "tell") and kind not in ("noseek", "bufferedpipe", "fifo", "misleading", "failing", "socket"):
            exp = off + (0 if split else 480) + len(samples[0])
            pos = stream.tell()
            check(pos == exp, lambda: f"{what}: stream at {pos} instead of {exp} after one sample")
        rest, exc = drain(expect_ok(what, api.generate_statistics, stream, hdr))
        check(exc is None, lambda: f"{what}: {exc!r} after {1 + len(rest)} samples")
        out += rest
        for i, (got, smp) in enumerate(zip(out, samples)):
            msg = diff(snap(got), want(smp))
            check(msg is None, lambda: f"{what}: sample {i}: {msg}")
        check(len(out) == len(samples), lambda: f"{what}: {len(out)} samples instead of {len(samples)}")
        if kind != "failing" and hasattr(stream, "closed"):
            check(not stream.closed, f"{what}: the caller's stream was closed")
        check(stream.read(1) == b"", f"{what}: data left over")
        if kind == "watch":
            check(not stream.noted, lambda: f"{what}: the library did {stream.noted[:4]}")
