"""P05: truncation is reported unless tolerance is requested."""

from __future__ import annotations

from mc.checks.p04 import CHECK as Cuts
from mc.core import Cov, check
from mc.cuts import read_cut, read_gz, regions
from mc.oracle import TRUNCATION_ERRORS


class CHECK(Cuts):
    prop = "P05"
    level = "fault_enumeration"
    rule = (
        "One evaluation reads one log cut off at one byte in both truncation modes: strict reading must raise zlib.error/EOFError if the cut is inside "
        "compressed data and must not raise at a sample border, tolerant reading never raises, both return the same samples. Non-trivial: the cut is "
        "inside a sample; distinct by version, log and cut."
    )

    def judge(self, what, got, exc, count, mode, where, reached):
        check(got[0] == count, lambda: f"{what}: {got[0]} samples instead of {count}")
        if mode and where == "data" and reached:
            check(isinstance(exc, TRUNCATION_ERRORS), lambda: f"{what}: {exc!r} instead of a decompression error")
        elif where == "record" and mode and reached:
            check(exc is None or isinstance(exc, TRUNCATION_ERRORS), lambda: f"{what}: {exc!r}")
        else:
            check(exc is None, lambda: f"{what}: {exc!r}")

    def run_case(self, case, cov: Cov) -> None:
        if case[0] in ("limit", "long"):
            self.other(case, cov)
            return
        kind, v = case[0], case[1]
        if kind == "cut":
            name, cut = case[2], case[3]
            samples, data = self.get(v, name)
            where = next((k for b, e, _i, k in regions(v, samples) if b < cut < e), None)
            if where is None:
                ends = {480}
                for smp in samples:
                    ends.add(max(ends) + len(smp))
                where = "sample border" if cut in ends else "section border"
            strict, exc = read_cut(data[:cut], True, own_header=(cut % 2 == 1))
            if where == "sample border":
                check(exc is None, lambda: f"{v} log '{name}' ends at a sample border ({cut}), but raises {exc!r}")
            elif where != "record":
                check(isinstance(exc, TRUNCATION_ERRORS), lambda: f"{v} log '{name}' cut at {cut} ({where}): {exc!r} instead of a decompression error")
            else:
                check(exc is None or isinstance(exc, TRUNCATION_ERRORS), lambda: f"{v} log '{name}' cut at {cut} ({where}): {exc!r}")
            tolerant, exc2 = read_cut(data[:cut], False, own_header=(cut % 2 == 1))
            check(exc2 is None, lambda: f"{v} log '{name}' cut at {cut}: tolerance requested, but {exc2!r}")
            check(strict == tolerant, lambda: f"{v} log '{name}' cut at {cut}: {len(strict)} samples strictly, {len(tolerant)} tolerantly (or contents differ)")
            cov.outcomes[f"{where}: {type(exc).__name__ if exc else 'ended'}"] += 1
            if where != "sample border":
                cov.seen((v, name, cut))
        else:
            level, cut = case[2], case[3]
            blob = self.container(v, level)
            strict, exc = read_gz(blob[:cut], True)
            tolerant, exc2 = read_gz(blob[:cut], False)
            if strict is None or tolerant is None:
                check(strict is None and tolerant is None, "header readable in one mode only")
                cov.outcomes["gzip: no header"] += 1
                return
            if cut == len(blob):
                check(exc is None, lambda: f"{v} complete gzip: {exc!r}")
            else:
                check(isinstance(exc, TRUNCATION_ERRORS), lambda: f"{v} gzip level {level} cut at {cut}: {exc!r} instead of a decompression error")
            check(exc2 is None, lambda: f"{v} gzip cut at {cut}: tolerance requested, but {exc2!r}")
            check(strict == tolerant, lambda: f"{v} gzip cut at {cut}: {len(strict)} samples strictly, {len(tolerant)} tolerantly")
            cov.outcomes[f"gzip: {type(exc).__name__ if exc else 'ended'}"] += 1
            cov.seen((v, "gz", level, cut))
        cov.evaluations += 1
        cov.note(case, 1)
