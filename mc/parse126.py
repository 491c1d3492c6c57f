"""Reference of the 1.26 'parseable' summaries, computed from stored bytes only (no library objects)."""

from __future__ import annotations

from mc.layout import layout, text

V = "1.26"
SYSTEM = ["CPL", "CPU", "MEM", "NETU", "PAG", "SWP"]
ITEMS = ["cpu", "DSK", "LVM", "MDD", "NETL"]
TASKS = ["PRC", "PRD", "PRG", "PRM", "PRN"]
ALL = ["cpu", "CPL", "CPU", "DSK", "LVM", "MDD", "MEM", "NETL", "NETU", "PAG", "PRC", "PRD", "PRG", "PRM", "PRN", "SWP"]
CLI = [name for name in ALL if name != "PRD"]  # the summaries the command offers

CPU_KEYS = {"system": "stime", "user": "utime", "niced": "ntime", "idle": "itime", "wait": "wtime", "irq": "Itime", "softirq": "Stime", "steal": "steal", "guest": "guest"}
DISK_KEYS = {"io_ms": "io_ms", "reads": "nread", "read_sectors": "nrsect", "writes": "nwrite", "write_sectors": "nwsect"}
MEM_KEYS = {
    "MEM": {"phys_mem": "physmem", "free_mem": "freemem", "page_cache": "cachemem", "buffer_cache": "buffermem", "slab": "slabmem", "dirty_pages": "cachedrt"},
    "PAG": {"page_scans": "pgscans", "alloc_stalls": "allocstall", "swapins": "swins", "swapouts": "swouts"},
    "SWP": {"swap": "totswap", "free_swap": "freeswap", "committed_space": "committed", "committed_limit": "commitlim"},
}
NETL_KEYS = {"pkt_received": "rpack", "byte_received": "rbyte", "pkt_transmitted": "spack", "bytes_transmitted": "sbyte", "speed": "speed"}
NETU_KEYS = {
    "tcp_pkt_received": ["tcp.InSegs"], "tcp_pkt_transmitted": ["tcp.OutSegs"],
    "udp_pkt_received": ["udpv4.InDatagrams", "udpv6.Udp6InDatagrams"], "udp_pkt_transmitted": ["udpv4.OutDatagrams", "udpv6.Udp6OutDatagrams"],
    "ip_pkt_received": ["ipv4.InReceives", "ipv6.Ip6InReceives"], "ip_pkt_transmitted": ["ipv4.OutRequests", "ipv6.Ip6OutRequests"],
    "ip_pkt_delivered": ["ipv4.InDelivers", "ipv6.Ip6InDelivers"], "ip_pkt_forwarded": ["ipv4.ForwDatagrams", "ipv6.Ip6OutForwDatagrams"],
}
TASK_KEYS = {
    "PRC": {
        "user_consumption": "cpu.utime", "system_consumption": "cpu.stime", "nice": "cpu.nice", "priority": "cpu.prio", "priority_realtime": "cpu.rtprio",
        "policy": "cpu.policy", "cpu": "cpu.curcpu", "sleep": "cpu.sleepavg",
    },
    "PRD": {"reads": "dsk.rio", "read_sectors": "dsk.rsz", "writes": "dsk.wio", "written_sectors": "dsk.wsz", "cancelled_sector_writes": "dsk.cwsz"},
    "PRG": {
        "real_uid": "gen.ruid", "real_gid": "gen.rgid", "tgid": "gen.pid", "threads": "gen.nthr", "exit_code": "gen.excode", "start_time": "gen.btime",
        "cmd": "gen.cmdline", "ppid": "gen.ppid", "running_threads": "gen.nthrrun", "sleeping_threads": "gen.nthrslpi", "dead_threads": "gen.nthrslpu",
        "effective_uid": "gen.euid", "effective_gid": "gen.egid", "saved_uid": "gen.suid", "saved_gid": "gen.sgid", "filesystem_uid": "gen.fsuid",
        "filesystem_gid": "gen.fsgid", "elapsed_time": "gen.elaps",
    },
    "PRM": {"minor_faults": "mem.minflt", "major_faults": "mem.majflt"},
    "PRN": {
        "tcp_transmitted": "net.tcpsnd", "tcp_transmitted_size": "net.tcpssz", "tcp_received": "net.tcprcv", "tcp_received_size": "net.tcprsz",
        "udp_transmitted": "net.udpsnd", "udp_transmitted_size": "net.udpssz", "udp_received": "net.udprcv", "udp_received_size": "net.udprsz",
        "raw_transmitted": "net.rawsnd", "raw_received": "net.rawrcv",
    },
}
PRM_KB = {"vsize": "mem.vmem", "rsize": "mem.rmem", "ssize": "mem.shtext", "vgrowth": "mem.vgrow", "rgrowth": "mem.rgrow"}
PATCHSTAT, IOSTAT = 0x2, 0x4


def _get(role, data, path, base=()):
    steps = list(base) + [int(p) if p.isdigit() else p for p in path.split(".")]
    val = layout(V).get(data, role, tuple(steps))
    return text(val.rstrip(b"\0")) if isinstance(val, bytes) else val


def summary(name: str, header: bytes, record: bytes, sstat: bytes, tasks) -> list[dict]:
    """All entries of one summary of one sample."""
    lay = layout(V)
    hdr = lambda path: _get("Header", header, path)  # noqa: E731
    sys_ = lambda path, base=(): _get("SStat", sstat, path, base)  # noqa: E731
    first = {"timestamp": _get("Record", record, "curtime"), "interval": _get("Record", record, "interval")}
    if name == "cpu":
        assert sys_("cpu.nrcpu") >= 0, "negative counts are out of scope"
        num = min(sys_("cpu.nrcpu"), 64)
        return [
            {**first, "ticks": hdr("hertz"), "proc": i, **{k: sys_(f, ("cpu", "cpu", i)) for k, f in CPU_KEYS.items()}} for i in range(num)
        ]
    if name == "CPL":
        keys = {"procs": "nrcpu", "load_1": "lavg1", "load_5": "lavg5", "load_15": "lavg15", "context_switches": "csw", "interrupts": "devint"}
        return [{**first, **{k: sys_("cpu." + f) for k, f in keys.items()}}]
    if name == "CPU":
        return [{**first, "ticks": hdr("hertz"), "procs": sys_("cpu.nrcpu"), **{k: sys_("cpu.all." + f) for k, f in CPU_KEYS.items()}}]
    if name in ("DSK", "LVM", "MDD"):
        out = []
        kind = name.lower()
        for i in range(lay.locate("SStat", ("dsk", kind))[1].count):
            raw_name = lay.get(sstat, "SStat", ("dsk", kind, i, "name"))
            if not raw_name:
                break
            out.append({**first, "name": text(raw_name), **{k: sys_(f, ("dsk", kind, i)) for k, f in DISK_KEYS.items()}})
        return out
    if name in MEM_KEYS:
        return [{**first, "page_size": hdr("pagesize"), **{k: sys_("mem." + f) for k, f in MEM_KEYS[name].items()}}]
    if name == "NETL":
        out = []
        for i in range(32):
            raw_name = lay.get(sstat, "SStat", ("intf", "intf", i, "name"))
            if not raw_name:
                break
            off, _fld = lay.locate("SStat", ("intf", "intf", i, "duplex"))
            out.append({**first, "name": text(raw_name), **{k: sys_(f, ("intf", "intf", i)) for k, f in NETL_KEYS.items()}, "duplex": sstat[off]})
        return out
    if name == "NETU":
        return [{**first, "name": "upper", **{k: sum(sys_("net." + f) for f in fs) for k, fs in NETU_KEYS.items()}}]
    out = []
    support = hdr("supportflags")
    for task in tasks:
        get = lambda path: _get("TStat", task, path)  # noqa: E731
        off, _fld = lay.locate("TStat", ("gen", "state"))
        entry = {**first, "pid": get("gen.pid"), "name": text(lay.get(task, "TStat", ("gen", "name"))), "state": text(task[off : off + 1])}
        if name == "PRC":
            entry["ticks"] = hdr("hertz")
        if name == "PRM":
            entry["page"] = hdr("pagesize")
            entry |= {k: get(f) * 1024 for k, f in PRM_KB.items()}
        if name in ("PRD", "PRN"):
            entry["kernel_patch"] = "y" if support & PATCHSTAT else "n"
        if name == "PRD":
            entry["standard_io"] = "y" if support & IOSTAT else "n"
        for key, path in TASK_KEYS[name].items():
            val = lay.get(task, "TStat", tuple(path.split(".")))
            entry[key] = text(val) if isinstance(val, bytes) else val
        out.append(entry)
    return out
