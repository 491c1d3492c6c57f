"""P03: each cgroup is paired with exactly its own process list."""

from __future__ import annotations

import io
import itertools

from mc.core import Check, Cov, check
from mc.oracle import CG_VERSIONS, VERSIONS, Cgroup, Sample, compare_attrs, exact, expect_ok, header, layout, lib, log, plain_sample, sstat, task
from mc.synth import deflate

# (bytes after the statistics, number of processes), simplest first
SHAPES = [(8, 1), (8, 0), (0, 2), (16, 1), (1, 1), (24, 3), (8, 2), (7, 0), (40, 5), (3, 2), (256, 1), (5, 7)]
WIDE = [(extra, n) for extra in (0, 1, 2, 4, 5, 8, 15, 16, 33, 64, 432, 440) for n in (0, 1, 2, 5, 64)]


class CHECK(Check):
    prop = "P03"
    level = "exploration"
    rule = (
        "One evaluation reads one log whose samples store a given sequence of cgroups (name bytes, processes) and compares number, order, statistics "
        "bytes and process lists. Non-trivial: at least one cgroup is stored or a section is left out; distinct by version and all shapes."
    )
    bounds = {
        "within a sample": f"all sequences of 0..3 cgroups over {len(SHAPES)} shapes, all pairs over {len(WIDE)} shapes (thorough: all sequences of 4)",
        "ladders": "0..70, 255..257, 1000, 4096 cgroups; 0..600, 1023..1025, 65,535..65,537 processes; name lengths 0..600, 4095..4097, 65,000",
        "across samples": "all sequences of 3 samples over 6 sample kinds (no sections, empty sections, 1, 2, 3 groups, groups without processes)",
        "process IDs": "0, 1, 2^15, 2^22, 2^31-1, -1",
    }

    def tasks(self):
        out = []
        for v in CG_VERSIONS:
            out.append(["seq", v, []])
            out.extend(["seq", v, [i]] for i in range(len(SHAPES)))
            out.append(["wide", v])
            out.extend(["ladder", v, k] for k in ("groups", "procs", "names"))
            out.append(["across", v])
        out.append(["older"])
        return out

    def cases(self, task_):
        if task_[0] == "seq":
            v, first = task_[1], task_[2]
            if not first:
                yield ["seq", v, []]
                return
            for n in range(4 if self.thorough else 3):
                for rest in itertools.product(range(len(SHAPES)), repeat=n):
                    yield ["seq", v, [list(SHAPES[i]) for i in first + list(rest)]]
        elif task_[0] == "wide":
            for pair in itertools.product(WIDE, repeat=2):
                yield ["seq", task_[1], [list(p) for p in pair]]
        elif task_[0] == "ladder":
            v, kind = task_[1], task_[2]
            if kind == "groups":
                for n in [*range(71), 255, 256, 257, 1000, 4096]:
                    yield ["seq", v, [[(8 * i) % 40, i % 4] for i in range(n)]]
            elif kind == "procs":
                for n in [*range(600), 1023, 1024, 1025, 4097, 65535, 65536, 65537]:
                    yield ["seq", v, [[8, 1], [16, n], [0, 2]]]
            else:
                for n in [*range(600), 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 65000]:
                    yield ["seq", v, [[n, 2], [8, 1]]]
        elif task_[0] == "across":
            for trio in itertools.product(range(7), repeat=3):
                yield ["across", task_[1], list(trio)]
        else:
            for v in VERSIONS:
                if v not in CG_VERSIONS:
                    yield ["older", v]

    _base: dict = {}

    def make(self, v, shapes, seed=0, stored=True, rec=None):
        """A sample with the given cgroups. Every process ID of the sample is different."""
        num = itertools.count(seed * 100003 + 2)
        special = {5: 0, 6: 2**31 - 1, 7: -1, 8: 2**22, 9: 2**15}
        groups = []
        total = 0
        for i, (extra, n) in enumerate(shapes):
            pids = []
            for _ in range(n):
                pid = next(num)
                total += 1
                pids.append(special.get(total, pid))
            groups.append(Cgroup(v, seed * 1000 + i, extra, pids, kind="plain" if i % 2 == 0 else "dense"))
        return Sample(v, sstat(v, "zero", 0), [task(v, "plain", seed)], groups, stored_cgroups=stored, rec=rec)

    def run_case(self, case, cov: Cov) -> None:
        kind, v = case[0], case[1]
        if kind == "older":
            for n in range(3):
                hdr, out = exact(log(v, [plain_sample(v, 1, n), plain_sample(v, 2, n)]), [plain_sample(v, 1, n), plain_sample(v, 2, n)], v)
                check(all(len(g[3]) == 0 for g in out), "cgroups in a log without them")
                cov.seen((kind, v, n))
            cov.evaluations += 3
            return
        if kind == "seq":
            samples = [self.make(v, case[2])]
            if len(case[2]) <= 1:
                samples.append(self.make(v, [[8, 2]], 1))
            if case[2]:
                cov.seen((v, str(case[2])))
        else:
            samples = []
            for i, k in enumerate(case[2]):
                shapes = [[], [], [[8, 2]], [[0, 1], [8, 3]], [[16, 2], [8, 0], [3, 1]], [[8, 0], [24, 0]], [[8, 0]]][k]
                if k == 0:
                    samples.append(self.make(v, [], i + 1, stored=False))
                elif k == 6:
                    # Groups without any process: nothing is stored for the process list.
                    smp = self.make(v, shapes, i + 1)
                    bare = self.make(v, shapes, i + 1, rec={"icomplen": 0})
                    bare.sections = smp.sections[:3]
                    bare.blob = bare.record + b"".join(bare.sections)
                    samples.append(bare)
                else:
                    samples.append(self.make(v, shapes, i + 1))
            cov.seen((v, "across", tuple(case[2])))
        hdr, out = exact(log(v, samples), samples, f"{v} {str(case[2])[:200]}")
        if kind == "seq" and len(case[2]) == 2:
            st = layout(v).roots["CStat"]
            for got, exp in zip(out[0][3], samples[0].cgroups):
                compare_attrs(got.cstat, st, exp.stat)
        cov.outcomes[f"{min(len(samples[0].cgroups), 5)}{'+' if len(samples[0].cgroups) > 5 else ''} cgroups"] += 1
        cov.evaluations += 1
        cov.note(case)
