"""P04: a truncated log yields exactly the samples it still fully contains."""

from __future__ import annotations

import gzip

from mc.core import Check, Cov, check
from mc.cuts import LIMITS, LONG, MODES, borders, complete_count, long_cuts, long_samples, cuts_of, first_bad, follow_cut, make_logs, read_cut, read_gz, regions
from mc.oracle import TRUNCATION_ERRORS, VERSIONS, log

CHUNK = 400
SLOW = ("huge", "vast")


class CHECK(Check):
    prop = "P04"
    level = "fault_enumeration"
    rule = (
        "One evaluation reads one log cut off at one byte in one truncation mode and compares everything returned with the samples that are "
        "completely present. Non-trivial: the cut is inside a sample; distinct by version, log, cut and mode."
    )
    bounds = {
        "cuts": "every byte behind the header of 2-4 logs (2-3 samples each) per version (thorough: one more for each); for incompressible and huge sections (up to 1 MB; 257 and 900 tasks, 404 cgroups, 24,400 process IDs) 9-24 bytes around every "
        "section border plus power-of-two distances; both modes; header passed in or read by the reader",
        "limits": f"every border and middle of the parts of a log x max_samples in {LIMITS}, both modes, with and without a given header",
        "long logs": f"logs of {LONG} samples (quick: over 100 samples only for 1.26 and 2.12), cut in all parts of the last two",
        "gzip container": "every byte of the compressed file (level 6; 1.26, 2.3 and 2.12 also level 0, thorough: all), both modes",
    }

    def tasks(self):
        out = []
        for v in VERSIONS:
            some = self.thorough or v in ("1.26", "2.3", "2.12")
            for name, samples in make_logs(v).items():
                if name == "best" and not some:
                    continue
                total = len(cuts_of(v, name, samples))
                out.extend(["cut", v, name, i] for i in range(0, total, CHUNK if name not in SLOW else CHUNK // 4))
            out.append(["limit", v])
            out.extend(["long", v, num] for num in LONG if self.thorough or num <= 100 or v in ("1.26", "2.12"))
            out.extend(["gz", v, level] for level in ((6, 0) if some else (6,)))
        return out

    def cases(self, task_):
        if task_[0] == "cut":
            _kind, v, name, start = task_
            for cut in cuts_of(v, name, make_logs(v)[name])[start : start + (CHUNK if name not in SLOW else CHUNK // 4)]:
                yield ["cut", v, name, cut]
        elif task_[0] == "limit":
            for cut in borders(task_[1], make_logs(task_[1])["three"]):
                yield [*task_, cut]
        elif task_[0] == "long":
            for cut in long_cuts(task_[1], long_samples(*task_[1:])):
                yield [*task_, cut]
        else:
            _kind, v, level = task_
            for cut in range(1, len(self.container(v, level)) + 1):
                yield ["gz", v, level, cut]

    _memo: dict = {}

    def get(self, v, name):
        if (v, name) not in self._memo:
            samples = make_logs(v)[name]
            self._memo[v, name] = samples, log(v, samples)
        return self._memo[v, name]

    def container(self, v, level):
        key = ("gz", v, level)
        if key not in self._memo:
            self._memo[key] = gzip.compress(self.get(v, "three")[1], level, mtime=0)
        return self._memo[key]

    def other(self, case, cov):
        """Cuts met with an explicit limit, and cuts at the end of long logs."""
        kind, v, cut = case[0], case[1], case[-1]
        if kind == "limit":
            samples, data = self.get(v, "three")
        else:
            samples = long_samples(v, case[2])
            data = log(v, samples)
        exact = complete_count(samples, cut)
        where = next((k for b, e, _i, k in regions(v, samples) if b < cut < e or b == cut and k == "data"), "border")
        for limit in LIMITS if kind == "limit" else (None, len(samples) + 7)[: 2 if self.thorough or len(samples) < 300 else 1]:
            count = exact if limit is None else min(limit, exact)
            for own in (False, True) if kind == "limit" or self.thorough else ((cut + (limit is None)) % 2 == 0,):
                for mode in MODES:
                    if kind == "limit":
                        got, exc = read_cut(data[:cut], mode, own, limit)
                        num, msg = len(got), first_bad(got, samples, count)
                    else:
                        num, msg, exc = follow_cut(data[:cut], mode, own, limit, samples)
                    what = f"{v} log of {len(samples)} samples cut at {cut} (in {where}; max_samples={limit}, raise_on_truncation={mode})"
                    self.judge(what, (num, msg), exc, count, mode, where, count == exact and limit != exact)
                    cov.evaluations += 1
                    cov.seen((*case, limit, own, mode))
                    cov.outcomes[f"{kind}: {type(exc).__name__ if exc else 'ended'} (strict={mode})"] += 1
        cov.note(case, 1)

    def judge(self, what, got, exc, count, mode, where, reached):
        num, msg = got
        check(msg is None, lambda: f"{what}: {msg}")
        check(num == count, lambda: f"{what}: {num} samples returned, {count} are completely present")
        check(mode or exc is None, lambda: f"{what}: tolerance requested, but {exc!r}")

    def run_case(self, case, cov: Cov) -> None:
        if case[0] in ("limit", "long"):
            self.other(case, cov)
            return
        kind, v = case[0], case[1]
        if kind == "cut":
            name, cut = case[2], case[3]
            samples, data = self.get(v, name)
            exact = complete_count(samples, cut)
            where = next((k for b, e, _i, k in regions(v, samples) if b < cut < e), "border")
            for mode in MODES:
                got, exc = read_cut(data[:cut], mode, own_header=(cut % 2 == 0))
                msg = first_bad(got, samples, exact)
                check(msg is None, lambda: f"{v} log '{name}' cut at {cut} (in {where}, raise_on_truncation={mode}): {msg}")
                if not mode:
                    check(exc is None, lambda: f"{v} log '{name}' cut at {cut} (in {where}): tolerance requested, but {exc!r}")
                cov.evaluations += 1
                cov.outcomes[f"{where}: {type(exc).__name__ if exc else 'ended'} (strict={mode})"] += 1
                if where != "border":
                    cov.seen((v, name, cut, mode))
            cov.note(case, 1)
            return
        level, cut = case[2], case[3]
        samples, _data = self.get(v, "three")
        blob = self.container(v, level)
        for mode in MODES:
            got, exc = read_gz(blob[:cut], mode)
            if got is None:  # not even a header in what is left
                cov.outcomes["gzip: no header"] += 1
                continue
            msg = first_bad(got, samples, 3 if cut == len(blob) else None)
            check(msg is None, lambda: f"{v} gzip level {level} cut at {cut} (raise_on_truncation={mode}): {msg}")
            if not mode:
                check(exc is None, lambda: f"{v} gzip level {level} cut at {cut}: tolerance requested, but {exc!r}")
            cov.evaluations += 1
            cov.outcomes[f"gzip: {len(got)} samples, {type(exc).__name__ if exc else 'ended'} (strict={mode})"] += 1
            cov.seen((v, "gz", level, cut, mode))
        cov.note(case, 1)
