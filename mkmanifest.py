#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run by hand when checks are added)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
T = {
 "C01": ("round-trip monitor: real writer and readers against a content model", "random programs; model comparison of everything read back"),
 "C02": ("round-trip monitor over archive generations against a metadata model", "random histories of copies and edits; extra fields through an independent parser"),
 "C03": ("differential monitor: stream reader against random access", "random archives and walks (full, partial, skip, early finish)"),
 "C04": ("trace checker over produced bytes: strict independent parser, codec libraries, zip crate", "every produced byte is accounted for by an independent parser"),
 "C05": ("model-based monitor over synthesised foreign archives", "independent emitter and the zip crate as producers"),
 "C06": ("corruption injection with CRC oracle", "random and exhaustive single-byte corruption of data and checksums"),
 "C07": ("hostile-input execution with panic, overflow, hang and operation-budget monitors, also under AddressSanitizer", "structure-aware mutation of archives"),
 "C08": ("tracking allocator as memory monitor", "peak of live heap bytes measured around every call"),
 "C09": ("truncation at every byte", "every proper prefix of random archives"),
 "C10": ("schedule-injecting source with stall detector, differential oracle", "random delivery schedules against smooth delivery"),
 "C11": ("schedule-injecting sink, differential oracle", "random acceptance schedules and chunkings against smooth acceptance"),
 "C12": ("source fault at every operation", "every operation index of every scenario run fails, once, for a while, or for good"),
 "C13": ("sink fault or cancellation at every operation", "every operation index of every program run fails, is cut short, or is cancelled at"),
 "C14": ("boundary workloads over a sparse store with exact-value oracle", "counts, sizes and offsets at and around the classic limits"),
 "C15": ("boundary-length workloads with acceptance oracle", "lengths around the 16-bit limit for every field and call"),
 "C16": ("concurrent stress with per-reader content oracle, also under ThreadSanitizer", "many tasks and threads, injected yields and abandonment"),
 "C17": ("history monitor: seek reader against a stateless model", "random operation histories with cancellation at every kind of suspension point"),
 "C18": ("decision-table monitor for decoded strings", "all combinations of flag, bytes, Unicode extra fields"),
 "C19": ("exhaustive execution over all timestamps", "all 2^32 timestamps and random builder histories"),
 "C20": ("exhaustive execution over method numbers and feature configurations", "all 65536 method numbers, several feature builds"),
 "C21": ("exhaustive execution over comment lengths with read-region monitor", "all 65536 comment lengths, forged signatures, sparse non-archives"),
 "C22": ("history monitor: builders and strings against a model of plain values", "random histories of builder calls; all 65536 codes both ways"),
 "C24": ("leak monitor: tracking allocator over replayed histories, and open-descriptor listing", "random histories with abandonment, cancellation and faults; live heap bytes and descriptors afterwards"),
 "C23": ("targeted record damage with a model of the error and of what stays intact", "every kind of damaged record at random places; error variant and values compared"),
}
LV = {"C12": "fault_enumeration", "C13": "fault_enumeration", "C09": "fault_enumeration"}
have = {l.strip() for l in open(os.path.join(V, "claimed.txt")) if l.strip()}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in have:
        checks.append({"property": p, "quick_cmd": f"bash /verif/check.sh {p} quick", "thorough_cmd": f"bash /verif/check.sh {p} thorough",
                       "technique": T[p][0], "level": LV.get(p, "exploration"), "level_note": T[p][1]})
    else:
        na.append({"property": p, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "bash /verif/check.sh build", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
