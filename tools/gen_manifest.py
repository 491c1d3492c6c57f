"""Writes MANIFEST.json (run by hand after adding or changing a check)."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True

TECH = {
    "P01": "bounded exhaustive enumeration of layouts/fields/contents on the real readers against a reference layout model (gcc-checked, bound to recorded logs)",
    "P02": "explicit-state exploration of all sample-shape sequences to a depth, each path executed on the real reader and compared with the log model",
    "P03": "bounded exhaustive enumeration of cgroup shape sequences on the real reader against the pairing model",
    "P04": "exhaustive crash-point enumeration: every cut position of the log and of its gzip container, on the real reader",
    "P05": "exhaustive crash-point enumeration in both truncation modes on the real reader",
    "P06": "exhaustive fault enumeration: every byte of every section x bit flips and every short section, on the real reader",
    "P07": "exhaustive enumeration of header lengths, magic values and length-field values against the acceptance model",
    "P08": "exhaustive enumeration of all 65,536 version encodings x structure lengths against the layout-selection model",
    "P09": "explicit-state model checking (all operation histories to a depth, then BFS to the fixpoint) with every transition replayed on the real library",
    "P10": "explicit-state exploration of all interleavings of reader programs executed on the real library",
    "P11": "stateless model checking: preemption-bounded exhaustive thread schedules of the real code under a controlled scheduler",
    "P12": "bounded exhaustive enumeration of structure contents, counts and text bytes against the reference conversion",
    "P13": "bounded exhaustive enumeration of entity counts, values and text bytes against the reference summary model",
    "P14": "bounded exhaustive enumeration of command lines, file kinds, names and cuts on the real command against the reference document",
    "P15": "explicit-state exploration of (samples, limit, end) on the real reader, including endless streams",
    "P16": "bounded exhaustive enumeration of stream kinds x offsets x versions, compared with the stored samples",
    "P17": "explicit-state exploration of all call histories to a depth, each executed from a forked pristine process on the real library",
    "P18": "bounded exhaustive enumeration of descriptive field values (single and paired) on the real reader, compared with the stored samples and positions",
    "P19": "exhaustive fault enumeration: every read call and byte position of the stream x kinds of exceptions x modes, on the real reader",
    "P20": "bounded exhaustive enumeration of file sequences (good and bad kinds), options and environments on the real command against the output model",
    "P21": "bounded exhaustive enumeration of operation sequences repeated on changing contents, with memory, descriptors and object life observed",
    "P22": "exhaustive fault enumeration: record values, lost and left-over blocks x modes, on the real reader against the log model",
    "P23": "bounded exhaustive enumeration of import orders, interpreter modes, environments and places, each a fresh interpreter compared with the reference conversion",
    "P24": "exhaustive fault enumeration: an exception injected at every executed line of every call, each from a forked pristine process on the real library",
    "P25": "explicit-state exploration of all sequences of derivations and uses to a depth, each executed on the real objects and compared with the stored bytes and the reference conversion",
    "P26": "bounded exhaustive enumeration of stated structure lengths, entries and sequences of logs on the real reader, compared with the stored entries and positions",
}
NOTE = {
    "P01": "Every field of every structure within the listed contents; trusts the frozen reference layout (recomputed with gcc and tied to the repository's recorded logs on each run).",
    "P02": "All sequences of sample shapes up to the depth plus count/size ladders; assumes counts and sizes off the ladders behave like those on them.",
    "P03": "All sequences of cgroup shapes up to the depth plus ladders of counts, name lengths and process counts.",
    "P04": "Every byte position of the logs listed (borders only inside sections of up to 1 MB); logs of up to three samples.",
    "P05": "As P04, comparing both modes at every cut.",
    "P06": "Every byte of every section of small logs with ten damage values each; checksum collisions are outside (one altered byte cannot collide).",
    "P07": "All values of the 16-bit fields, 65,536 and more of the 32-bit ones, single and in pairs, per version.",
    "P08": "All 65,536 version encodings; structure lengths of all supported versions.",
    "P09": "All histories to the depth and the complete reachable state space of the stream model; the model is replayed against the implementation on every transition.",
    "P10": "All interleavings of the listed programs for all version pairs; objects compared after every step.",
    "P11": "All schedules up to the preemption bound at line (parts: bytecode) granularity, two and three threads; C functions are atomic steps.",
    "P12": "All counts of the limited arrays at the edges (1.26: all), all byte values in all text fields, of all structure types.",
    "P13": "All entity counts to capacity, all byte values in text fields, all support flags; values from 12 fills.",
    "P14": "All option combinations x versions x container, file sequences up to three, all cuts of a 1.26 log; command run in process with captured stdout.",
    "P15": "All limits and log lengths listed; the default limit on endless and day-long logs of 1.26.",
    "P16": "All stream kinds listed x offsets x versions; streams return short reads only at their end.",
    "P17": "All ordered pairs (some triples) of calls with all argument mixes; earlier results kept or overwritten; objects changed or replaced in between.",
    "P18": "All 16-bit flag values, single-bit and extreme values of all other descriptive fields, and all pairs of fields.",
    "P19": "Every read call and byte of the logs listed; the exception is raised by the stream, before any data of that call is delivered.",
    "P20": "All sequences of up to three files over 18 kinds in process, the environments and single kinds as real processes.",
    "P21": "All operations (pairs for 1.26 and 2.12; thorough: triples), 600 rounds each; growth below 40 bytes per round is not seen.",
    "P22": "All listed values and block ranges of logs of three and four samples; forged check sums are outside.",
    "P23": "All listed combinations; one Python version (3.12) is installed.",
    "P24": "Every line of every call (long conversions at their ends and, on some versions, every fourth line); instruction granularity in the thorough tier.",
    "P25": "All sequences of 18 ways to copy and 3 uses up to length 2 (thorough: 3); process lists of cgroups are copied, not pickled (their array type is made while reading).",
    "P26": "All task lengths to 72 bytes above and 40 below the layout's and ladders beyond; record and header lengths are those of the layout.",
}

props = [json.loads(line) for line in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for prop in props:
    pid = prop["id"]
    mod = importlib.import_module(f"mc.checks.{pid.lower()}")
    checks.append({
        "property": pid, "quick_cmd": f"python3 -B run.py {pid}", "thorough_cmd": f"python3 -B run.py {pid} --tier thorough",
        "evidence_file": f"evidence/{pid}.json", "technique": TECH[pid], "level": mod.CHECK.level, "level_note": NOTE[pid],
    })
doc = {
    "version": 1,
    "setup_cmd": "python3 -B tools/selfcheck.py",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks: the checks import the library from /repo's working tree and explore it from outside. /repo carries fix: commits only (known_findings.txt).",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as handle:
    json.dump(doc, handle, indent=1)
    handle.write("\n")
