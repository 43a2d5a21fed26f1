#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORACLE = "Trusts the reference model (mc/flpfmt.py, mc/spec.py, mc/codecs.py), which shares no code with pyflp; every enumerated model trace is executed on the real code, so agreement is checked on every trace, within the bounds in the evidence file. "
T = {
 "C01": ("bounded-exhaustive enumeration of event streams, parse+save of the real code compared with a byte model", "All IDs, 8-bit payloads, structure lengths, event orders up to the bound."),
 "C02": ("bounded-exhaustive enumeration of event streams against a reference decoder", "All IDs, 8/16-bit values, version grid, event orders up to the bound."),
 "C03": ("exhaustive single-fault enumeration over file bytes, header values and truncation points", "One fault per file."),
 "C04": ("explicit-state exploration of read histories and of all interleavings of two projects' operations", "Reads: all, pairs (thorough: triples); interleavings: all 70 of 4+4 steps."),
 "C05": ("bounded-exhaustive enumeration of stored states; every attribute compared with the model's read function", "All values of 8-bit fields and flags, lanes of wider ones, all truncations and absent events."),
 "C06": ("exhaustive enumeration of write histories (depth 1-2) with read-back, save and reload against the model", "All writable attributes and domains as in the bounds."),
 "C07": ("exhaustive enumeration of write histories (all ordered pairs) with whole-file byte comparison against the model", "Whole-file byte equality with the model after each write."),
 "C08": ("exhaustive enumeration of refused writes; state before and after compared", "Every attribute x every absence/truncation; limits' neighbours."),
 "C09": ("exhaustive fault injection at every event position and all save/modify histories to a depth", "Faults are unserialisable event values, injected through public setters/values, and writes refused by the kernel (RLIMIT_FSIZE) at every byte."),
 "C10": ("explicit-state model checking: all edit sequences to a depth over a tree and its views vs a list model", "Depth-bounded; alphabet with duplicate IDs."),
 "C11": ("bounded-exhaustive enumeration of rack layouts against an ownership model", "All layouts in the bounds."),
 "C12": ("bounded-exhaustive enumeration of collections, indexes and slices against Python list semantics", "Collections up to N items, windows of indexes/slices."),
 "C13": ("bounded-exhaustive enumeration of playlists (tracks, items, versions, record sizes) against a placement model", "All track numbers, IIDs and pattern numbers in range."),
 "C14": ("exhaustive enumeration of conversion domains, decode/encode compared with exact arithmetic", "Full domains up to 16 bits, lanes/edges beyond."),
 "C15": ("bounded-exhaustive enumeration of mixer tables and write histories against an address model", "Every insert/slot/parameter address; pairs of writes."),
 "C16": ("exhaustive enumeration of a version grid around every threshold against the documented rules", "Version grid and all pairs for ordering."),
 "C17": ("explicit-state exploration of write/read histories over all pairs of aliasing paths", "All (write path, read path) pairs, histories to a depth."),
 "C18": ("exhaustive enumeration of event constructors: class x 256 IDs x payload lengths against the documented table", "All IDs, lengths 0-8, prefix boundaries, all pairs for equality."),
 "C19": ("explicit-state exploration of write histories over lists of records with whole-file comparison", "Counts to 200, all pairs of writes, histories to a depth."),
 "C20": ("bounded-exhaustive enumeration of name/data event sequences, plugin layouts and VST record subsets against a model", "All sequences to the depth, all 4096 record subsets."),
 "C21": ("bounded-exhaustive enumeration of mixer layouts against an ownership model", "All layouts in the bounds."),
 "C22": ("bounded-exhaustive enumeration of pattern/arrangement/marker layouts against an ownership model", "All layouts in the bounds."),
 "C23": ("stateless exploration of thread schedules of the real code under a controlled scheduler, up to two preemptions", "Two threads; scheduling points are lines of the library (traced), not single bytecodes."),
 "C24": ("bounded-exhaustive histories of event edits through all views of the real project, against the reference model of the edited file", "All edits in the bounds."),
}
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
assert set(ids) == set(T), set(ids) ^ set(T)
doc = {
 "version": 1,
 "setup_cmd": "./setup",
 "checks": [{
   "property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
   "evidence_file": "evidence/%s.json" % i, "technique": "model checking: " + T[i][0],
   "level": "fault_enumeration" if i == "C03" else "model_checking",
   "level_note": ("Exhaustive within the stated bounds. " + T[i][1] + " " + ORACLE).strip(),
 } for i in ids],
 "not_applicable": [],
 "notes": "No hooks: the checks drive the public API of the code imported from /repo's working tree. Known findings are in known_findings.txt. No random choices: VERIF_SEED has no influence.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
print(len(ids), "checks")
