#!/usr/bin/env python3
# Writes MANIFEST.json.
import json
T = {
 "C01": "deterministic simulation: the same work in differently seeded environments",
 "C02": "deterministic simulation: seeded thread schedules against solo runs",
 "C03": "deterministic simulation: histories with injected cancellations against fresh processes",
 "C04": "deterministic simulation: storage faults against a reference file model",
 "C05": "deterministic simulation: crash points and storage faults",
 "C06": "deterministic simulation of the shipped tool: fault injection against a fault-free twin and a document model",
 "C07": "deterministic simulation of the shipped tool: crash and fault injection, file-system difference",
 "C08": "deterministic simulation: torn writes of stored documents",
 "C09": "deterministic simulation: storage damage to documents, step budgets",
 "C10": "deterministic simulation: seeded interleavings and cuts of drawing-call streams, strict XML oracle",
 "C21": "deterministic simulation: repeated rounds of faulted and cancelled work, conservation of resources",
 "C22": "deterministic simulation: re-entrant callbacks under seeded schedules against solo runs",
 "C23": "deterministic simulation of several runs of the shipped tool on one disk: seeded interleavings, crashes, replaced inputs, against solo runs",
 "C24": "deterministic simulation: successive processes on one disk with crashes, faults and clock jumps, against runs on a fresh disk",
}
N = {
 "C01": "Seeded search, not proof. Differences that need an environment factor the simulator does not vary (CPU model, locale data files) are out of reach.",
 "C02": "Seeded search over sequentially consistent interleavings with switches at every basic block, load, store, lock and call of /repo's crates; weak memory effects are not explored.",
 "C03": "Seeded search over histories of up to about fifteen operations (some repeated up to 300 times); cancellation at any drawing or log call.",
 "C04": "Seeded search; storage errors that only show after the file was closed are not modelled.",
 "C05": "Seeded search; a crash loses the process, not what system calls have stored (no reordering of writes by a page cache).",
 "C06": "Seeded search with the real binary on a simulated disk; the document model covers a subset of DOT (generated documents).",
 "C07": "Seeded search with the real binary; 'complete' is decided by the presence of the finished drawing in the tool's memory when the output is first changed.",
 "C08": "Every character position of most generated documents is cut; the documents themselves are sampled.",
 "C09": "Seeded search over damaged documents with a step budget of 2e9 basic blocks and memory accesses, 2 MB stacks.",
 "C21": "Seeded search; growth is found when it shows within 600 rounds in the memory of the caller's threads, descriptors, threads, files or steps.",
 "C22": "Seeded search over nesting places (up to eight deep) and schedules; sequentially consistent.",
 "C23": "Seeded search over interleavings at system calls on the disk of up to three runs; files are replaced by rename, not rewritten in place; advisory locks are not modelled.",
 "C24": "Seeded search over histories of up to about ten processes; file times are drawn at random for every process, whatever the one before did.",
 "C10": "Seeded search; the XML checker covers well-formedness, identifiers and references, not the SVG schema.",
}
NA = {
 "C11": "Node positions are a pure, single-threaded function of the graph: no schedule, clock, I/O, fault or second party takes part, so simulation has nothing to decide.",
 "C12": "Lowering is a pure function of the graph; no nondeterminism or fault can enter.",
 "C13": "Attribute scoping is a pure function of the document text.",
 "C14": "Parsing is a pure function of the text; what faults can do to the text is C08 and C09.",
 "C15": "The optimiser is a pure, deterministic function of the ranked graph.",
 "C16": "Connection points are pure geometry.",
 "C17": "A relation between two pure computations; nothing to schedule or to fail.",
 "C18": "A pure function of the sequence of drawing calls.",
 "C19": "A sequential data structure: histories of one thread without faults are ordinary property-based testing, not simulation.",
 "C20": "A pure function of a string.",
}
m = {
 "version": 1,
 "setup_cmd": "./sim/build.sh lib cli",
 "checks": [{"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
   "evidence_file": f"evidence/{p}.json", "technique": T[p], "level": "exploration", "level_note": N[p]} for p in T],
 "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
 "notes": "No hooks in /repo: the simulator interposes libc symbols and instruments /repo's crates with SanitizerCoverage through a rustc wrapper. Repairs of genuine defects are listed in KNOWN_FINDINGS.txt.",
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
