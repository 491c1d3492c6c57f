From 022e216d82e070c4a6758b1e32e0d60f86c8006e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:13 +0000
Subject: [PATCH 1/8] fix: reject unsupported versions with ValueError, and
 read fallback layouts consistently

Headers from versions without a custom class are loaded with the layout of the latest version, but lengths and
sections were picked by version number. Versions before 2.3 (e.g. 2.2) failed with AttributeError instead of ValueError,
and versions after 2.x (e.g. 3.0) could not use the fallback.
---
 atoparser/structs/shared.py | 5 +++--
 atoparser/utils.py          | 7 ++-----
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/atoparser/structs/shared.py b/atoparser/structs/shared.py
index 91dda02..2e0e08a 100644
--- a/atoparser/structs/shared.py
+++ b/atoparser/structs/shared.py
@@ -49,11 +49,12 @@ class HeaderMixin:
             ("Record", self.rawreclen, ctypes.sizeof(self.Record)),
             ("SStat", self.sstatlen, ctypes.sizeof(self.SStat)),
         ]
-        if self.major_version >= 2 and self.minor_version >= 3:
+        # Select lengths by the layout of this header. Unsupported versions are loaded with the layout of another version.
+        if hasattr(self, "tstatlen"):
             sizes.append(("TStat", self.tstatlen, ctypes.sizeof(self.TStat)))
         else:
             sizes.append(("PStat", self.pstatlen, ctypes.sizeof(self.TStat)))
-        if self.major_version >= 2 and self.minor_version >= 11:
+        if hasattr(self, "cstatlen"):
             sizes.append(("CStat", self.cstatlen, ctypes.sizeof(self.CStat)))
         if any(size[1] != size[2] for size in sizes):
             raise ValueError(
diff --git a/atoparser/utils.py b/atoparser/utils.py
index 5b6f47c..69b8d10 100644
--- a/atoparser/utils.py
+++ b/atoparser/utils.py
@@ -101,9 +101,6 @@ def generate_statistics(
         header = get_header(raw_file)
 
     try:
-        header_version = header.semantic_version
-        major, minor = header_version.split(".")[:2]
-        major, minor = int(major), int(minor)
         for _ in range(max_samples):
             # Read the repeating structured information until the end of the file.
             # Atop log files consist of the following after the header, repeated until the end:
@@ -117,7 +114,7 @@ def generate_statistics(
                 break
             sstat = get_sstat(raw_file, header, record)
             tstats = get_tstat(raw_file, header, record)
-            if major >= 2 and minor >= 11:
+            if header.CStat:
                 cgroups = get_cstat(raw_file, header, record)
             else:
                 cgroups = []
@@ -234,7 +231,7 @@ def get_tstat(
     decompressed = zlib.decompress(buffer)
 
     record_count = record.nlist if isinstance(record, atop_1_26.Record) else record.ndeviat
-    tstatlen = header.tstatlen if header.major_version >= 2 and header.minor_version >= 3 else header.pstatlen
+    tstatlen = header.tstatlen if hasattr(header, "tstatlen") else header.pstatlen
     tstats = []
     for index in range(record_count):
         # Reconstruct one TStat struct for every possible byte chunk, incrementing the offset each pass. For example:
-- 
2.43.0


From c3c9ca592c16e83637a7966d66abe238deec9dd5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:16 +0000
Subject: [PATCH 2/8] fix: reject truncated headers

A header cut after the struct lengths was accepted with the missing bytes left as zeros.
---
 atoparser/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/atoparser/utils.py b/atoparser/utils.py
index 69b8d10..b822762 100644
--- a/atoparser/utils.py
+++ b/atoparser/utils.py
@@ -142,7 +142,10 @@ def get_header(raw_file: io.BytesIO, check_compatibility: bool = True) -> Header
     # Read the header directly into the struct, there is no padding to consume or add.
     # Use default Header as the baseline in order to check the version. It can be transferred without re-reading.
     header = _HEADER_BY_VERSION[_DEFAULT_VERSION]()
-    raw_file.readinto(header)
+    bytes_read = raw_file.readinto(header)
+    if bytes_read < ctypes.sizeof(header):
+        msg = f"File does not contain a full raw atop header: {bytes_read} of {ctypes.sizeof(header)} bytes found"
+        raise ValueError(msg)
 
     if header.magic != MAGIC:
         msg = f"File does not contain raw atop output (wrong magic number): {hex(header.magic)}"
-- 
2.43.0


From 59c018bf4af8dd06265476b7e15408fd731bf468 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:19 +0000
Subject: [PATCH 3/8] fix: do not fail parseables on names which are not valid
 UTF-8

Atop cuts names and command lines at a fixed byte length, which can split a character. Match struct_to_dict.
---
 atoparser/parsers/atop_1_26.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/atoparser/parsers/atop_1_26.py b/atoparser/parsers/atop_1_26.py
index ef8f33b..c062050 100644
--- a/atoparser/parsers/atop_1_26.py
+++ b/atoparser/parsers/atop_1_26.py
@@ -96,7 +96,7 @@ def parse_DSK(
         values = {
             "timestamp": record.curtime,
             "interval": record.interval,
-            "name": disk.name.decode(),
+            "name": disk.name.decode(errors="ignore"),
             "io_ms": disk.io_ms,
             "reads": disk.nread,
             "read_sectors": disk.nrsect,
@@ -120,7 +120,7 @@ def parse_LVM(
         values = {
             "timestamp": record.curtime,
             "interval": record.interval,
-            "name": lvm.name.decode(),
+            "name": lvm.name.decode(errors="ignore"),
             "io_ms": lvm.io_ms,
             "reads": lvm.nread,
             "read_sectors": lvm.nrsect,
@@ -144,7 +144,7 @@ def parse_MDD(
         values = {
             "timestamp": record.curtime,
             "interval": record.interval,
-            "name": mdd.name.decode(),
+            "name": mdd.name.decode(errors="ignore"),
             "io_ms": mdd.io_ms,
             "reads": mdd.nread,
             "read_sectors": mdd.nrsect,
@@ -189,7 +189,7 @@ def parse_NETL(
         values = {
             "timestamp": record.curtime,
             "interval": record.interval,
-            "name": interface.name.decode(),
+            "name": interface.name.decode(errors="ignore"),
             "pkt_received": interface.rpack,
             "byte_received": interface.rbyte,
             "pkt_transmitted": interface.spack,
@@ -254,8 +254,8 @@ def parse_PRC(
             "timestamp": record.curtime,
             "interval": record.interval,
             "pid": stat.gen.pid,
-            "name": stat.gen.name.decode(),
-            "state": stat.gen.state.decode(),
+            "name": stat.gen.name.decode(errors="ignore"),
+            "state": stat.gen.state.decode(errors="ignore"),
             "ticks": header.hertz,
             "user_consumption": stat.cpu.utime,
             "system_consumption": stat.cpu.stime,
@@ -281,8 +281,8 @@ def parse_PRD(
             "timestamp": record.curtime,
             "interval": record.interval,
             "pid": stat.gen.pid,
-            "name": stat.gen.name.decode(),
-            "state": stat.gen.state.decode(),
+            "name": stat.gen.name.decode(errors="ignore"),
+            "state": stat.gen.state.decode(errors="ignore"),
             "kernel_patch": "y" if header.supportflags & atop_1_26.PATCHSTAT else "n",
             "standard_io": "y" if header.supportflags & atop_1_26.IOSTAT else "n",
             "reads": stat.dsk.rio,
@@ -306,15 +306,15 @@ def parse_PRG(
             "timestamp": record.curtime,
             "interval": record.interval,
             "pid": stat.gen.pid,
-            "name": stat.gen.name.decode(),
-            "state": stat.gen.state.decode(),
+            "name": stat.gen.name.decode(errors="ignore"),
+            "state": stat.gen.state.decode(errors="ignore"),
             "real_uid": stat.gen.ruid,
             "real_gid": stat.gen.rgid,
             "tgid": stat.gen.pid,  # This is a duplicate of pid per atop documentation.
             "threads": stat.gen.nthr,
             "exit_code": stat.gen.excode,
             "start_time": stat.gen.btime,
-            "cmd": stat.gen.cmdline.decode(),
+            "cmd": stat.gen.cmdline.decode(errors="ignore"),
             "ppid": stat.gen.ppid,
             "running_threads": stat.gen.nthrrun,
             "sleeping_threads": stat.gen.nthrslpi,
@@ -342,8 +342,8 @@ def parse_PRM(
             "timestamp": record.curtime,
             "interval": record.interval,
             "pid": stat.gen.pid,
-            "name": stat.gen.name.decode(),
-            "state": stat.gen.state.decode(),
+            "name": stat.gen.name.decode(errors="ignore"),
+            "state": stat.gen.state.decode(errors="ignore"),
             "page": header.pagesize,
             "vsize": stat.mem.vmem * 1024,
             "rsize": stat.mem.rmem * 1024,
@@ -368,8 +368,8 @@ def parse_PRN(
             "timestamp": record.curtime,
             "interval": record.interval,
             "pid": stat.gen.pid,
-            "name": stat.gen.name.decode(),
-            "state": stat.gen.state.decode(),
+            "name": stat.gen.name.decode(errors="ignore"),
+            "state": stat.gen.state.decode(errors="ignore"),
             "kernel_patch": "y" if header.supportflags & atop_1_26.PATCHSTAT else "n",
             "tcp_transmitted": stat.net.tcpsnd,
             "tcp_transmitted_size": stat.net.tcpssz,
-- 
2.43.0


From 40a1c2bc3f4ee59c4d8995053983f64f044a2693 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:22 +0000
Subject: [PATCH 4/8] fix: honor raise_on_truncation for truncated gzip files

---
 atoparser/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atoparser/utils.py b/atoparser/utils.py
index b822762..2ededde 100644
--- a/atoparser/utils.py
+++ b/atoparser/utils.py
@@ -119,7 +119,7 @@ def generate_statistics(
             else:
                 cgroups = []
             yield record, sstat, tstats, cgroups
-    except zlib.error:
+    except (zlib.error, EOFError):
         # End of readable data reached. This is common during software restarts.
         # All errors after the header are squashable errors, since that means the file is valid, but was not closed.
         if raise_on_truncation:
-- 
2.43.0


From eb434864021fd4e1a86c515cfd8e4b00bdadcb8c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:25 +0000
Subject: [PATCH 5/8] fix: read samples without stored cgroup sections

---
 atoparser/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/atoparser/utils.py b/atoparser/utils.py
index 2ededde..f6cda12 100644
--- a/atoparser/utils.py
+++ b/atoparser/utils.py
@@ -265,10 +265,11 @@ def get_cstat(
     """
     # Read the requested length instead of the length of the struct.
     # The data is compressed and must be decompressed before it will fill the final list of structs.
+    # Systems without cgroups do not store any bytes for these sections, leaving nothing to decompress.
     buffer_cstats = raw_file.read(record.ccomplen)
-    decompressed_cstats = zlib.decompress(buffer_cstats)
+    decompressed_cstats = zlib.decompress(buffer_cstats) if record.ccomplen else b""
     buffer_pidlist = raw_file.read(record.icomplen)
-    decompressed_pidlist = zlib.decompress(buffer_pidlist)
+    decompressed_pidlist = zlib.decompress(buffer_pidlist) if record.icomplen else b""
 
     cgroups = []
     cstat_start = 0
-- 
2.43.0


From 169c6d5af32409ffbf593828bb6f7b59cb1bb018 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:28 +0000
Subject: [PATCH 6/8] fix: publish the structs used by the 2.5 and 2.9 layouts

---
 atoparser/structs/atop_2_5.py | 4 ++--
 atoparser/structs/atop_2_9.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/atoparser/structs/atop_2_5.py b/atoparser/structs/atop_2_5.py
index 990cd95..ad76453 100644
--- a/atoparser/structs/atop_2_5.py
+++ b/atoparser/structs/atop_2_5.py
@@ -58,10 +58,10 @@ MemStat = atop_2_3.MemStat
 FreqCnt = atop_1_26.FreqCnt
 
 
-PerCPU = atop_2_3.PerCPU
+PerCPU = atop_2_4.PerCPU
 
 
-CPUStat = atop_2_3.CPUStat
+CPUStat = atop_2_4.CPUStat
 
 
 PerDSK = atop_2_3.PerDSK
diff --git a/atoparser/structs/atop_2_9.py b/atoparser/structs/atop_2_9.py
index fe7ff4f..149af10 100644
--- a/atoparser/structs/atop_2_9.py
+++ b/atoparser/structs/atop_2_9.py
@@ -166,7 +166,7 @@ ICMPv6Stats = atop_1_26.ICMPv6Stats
 UDPv6Stats = atop_1_26.UDPv6Stats
 
 
-NETStat = atop_1_26.NETStat
+NETStat = atop_2_8.NETStat
 
 
 SStat = atop_2_8.SStat
-- 
2.43.0


From 9c5bb0ef283b9ae2a75fec381617b4e7702569dd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:31 +0000
Subject: [PATCH 7/8] fix: detect gzip files by content instead of name

---
 atoparser/reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/atoparser/reader.py b/atoparser/reader.py
index 80c3e0d..4220bcd 100755
--- a/atoparser/reader.py
+++ b/atoparser/reader.py
@@ -76,8 +76,9 @@ def parse_file(  # pylint: disable=too-many-locals
         show_cstats: Wheter to include CGroup/CStats in output
     """
     samples = []
-    opener = open if ".gz" not in file else gzip.open
-    with opener(file, "rb") as raw_file:
+    with open(file, "rb") as log_file:
+        # Detect compression from the contents, since the name does not guarantee how the file is stored.
+        raw_file = gzip.GzipFile(fileobj=log_file) if log_file.peek(2)[:2] == b"\x1f\x8b" else log_file
         header = atoparser.get_header(raw_file)
         if parseables and header.semantic_version not in PARSEABLE_MAP:
             samples.append(
-- 
2.43.0


From 35ec7abaaa82f566250abb18175fed0fcc0565ae Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:31 +0000
Subject: [PATCH 8/8] fix: detect gzip data from pipes which provide a single
 byte first

---
 atoparser/reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/atoparser/reader.py b/atoparser/reader.py
index 4220bcd..7444317 100755
--- a/atoparser/reader.py
+++ b/atoparser/reader.py
@@ -77,8 +77,9 @@ def parse_file(  # pylint: disable=too-many-locals
     """
     samples = []
     with open(file, "rb") as log_file:
-        # Detect compression from the contents, since the name does not guarantee how the file is stored.
-        raw_file = gzip.GzipFile(fileobj=log_file) if log_file.peek(2)[:2] == b"\x1f\x8b" else log_file
+        # Detect compression from the contents, since the name does not guarantee how the file is stored. Pipes may
+        # provide less than the full gzip magic at first, but no log starts with the first byte of it.
+        raw_file = gzip.GzipFile(fileobj=log_file) if log_file.peek(1)[:1] == b"\x1f" else log_file
         header = atoparser.get_header(raw_file)
         if parseables and header.semantic_version not in PARSEABLE_MAP:
             samples.append(
-- 
2.43.0

