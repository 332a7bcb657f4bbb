#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. Claimed checks are those whose executor exists."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
src = "".join(open(V + "/sim/" + f).read() for f in os.listdir(V + "/sim") if f.startswith("props_"))
NOTE = {
 "C01": "Sampled saves against simulated destinations that refuse, shorten or throw at a chosen byte, at open, flush or close, or refuse memory; oracle: the bytes of an undisturbed save. Trusts libc++ streams and the wrapped stdio below them.",
 "C02": "Sampled loads from sources that hand out seeded pieces and fail at a chosen byte; oracle: the undisturbed load and a call budget. A read error of a path load in text mode is not visible to the library (libc++ reports end of file) and is not judged.",
 "C03": "Sampled process deaths inside path saves (before/after open, after any byte that reached storage, before close), restart in a fresh process and load of what survived, plus cuts at sampled bytes. Storage keeps bytes in order (no reordering of writes).",
 "C04": "Sampled record sequences with seeded chunking on both sides, paths and re-formatted text; oracle: value equality and stream position.",
 "C05": "Sampled histories of clean and faulty loads into one object; oracle: snapshot of the object and load into a fresh one.",
 "C06": "Sampled damage to stored files; oracle: ASan, UBSan, memory cap, read budget, structural invariant, re-save.",
 "C07": "Sampled changes of global locale, stream locale and formatting state between operations, with and without refused writes; oracle: execution in the classic locale on a fresh stream, state of the caller's stream.",
 "C08": "Sampled interleavings of real threads released one at a time at instrumented memory accesses, atomics, locks, allocations and I/O; oracle: vector-clock race detector and fresh-process results. Accesses inside the C library and uninstrumented libc++ code are not seen.",
 "C09": "As C08, with threads working on objects, streams and files of their own, some with faults; oracle also progress within a step budget.",
 "C10": "Sampled allocation refusals (single and from one on) inside sampled calls; oracle: undisturbed result, object snapshot, repetition.",
 "C11": "Sampled histories of edits with refused allocations; oracle: list models, ASan.",
 "C12": "Sampled call histories with copies, in-place changes and failures; oracle: every call repeated as the first call of a fresh process with other memory contents, clock and entropy.",
 "C13": "Sampled calls with faults, repeated 20 times; oracle: live blocks and bytes of the process do not grow, no handle stays open.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i[0] == "C" and ('{"%s"' % i) in src:
        checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="python3 check.py %s --thorough" % i,
                           technique="deterministic simulation with fault injection (seeded search over fault sequences, histories and schedules)",
                           level="exploration", level_note=NOTE[i]))
    elif i[0] == "C":
        na.append(dict(property=i, reason="check not built yet"))
    else:
        na.append(dict(property=i, reason="A pure function of its input: no schedule, fault, crash, clock or history takes part, so deterministic simulation has nothing to decide; it would be plain input generation against a numeric reference."))
m = dict(version=1, setup_cmd="python3 build.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo: all seams are stream/file/allocator/thread interfaces replaced at link time or compiler instrumentation. Defects found and repaired are listed in known-findings.txt.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
