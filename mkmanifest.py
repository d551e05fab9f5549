#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os, subprocess
here = os.path.dirname(os.path.abspath(__file__))
T = "deterministic simulation: "
CHECKS = {
 "C01": (T + "seeded workloads on a simulated disk whose reads and writes are split and interrupted, against the inserted vector", "exploration",
   "Seeded search over configurations x populations x I/O schedules; the data dimension is input sampling carried on simulated runs. Two runs carry files and a block of more than 2^32 bytes."),
 "C02": (T + "probes by several cursors on one simulated file, disturbed (moves, injected I/O failures) and reset before each seek, against binary search in the inserted vector", "exploration",
   "Seeded search; every probe class of every key is enumerated in a part of the runs."),
 "C03": (T + "interleaved histories of cursors and clones over shared file handles with transient I/O failures, against a position model", "exploration",
   "Seeded search over histories; relative moves after None/Err are not compared, as the statement leaves them open."),
 "C04": (T + "populations of range iterators and clones stepped in a seeded interleaving over a simulated file, against a filter of the inserted vector", "exploration",
   "Seeded search over bounds, layouts, interleavings, I/O schedules."),
 "C05": (T + "populations of prefix iterators and clones stepped in a seeded interleaving over a simulated file, against a filter of the inserted vector", "exploration",
   "Seeded search over prefixes, layouts, interleavings, I/O schedules."),
 "C06": (T + "mergers over simulated files that share or not a file position, the history of merge calls recorded, against a map union in source order", "exploration",
   "Seeded search over source sets, overlap patterns, output modes, I/O schedules."),
 "C07": (T + "sorters on simulated chunk storage under a scheduled stand-in for rayon-core, budgets through the hook, against a stable sort and merge", "exploration",
   "Seeded search over insert sequences, sorter configurations, parallel-sort schedules, chunk I/O schedules; the sort's tasks are atomic between fork points."),
 "C08": (T + "insert/create/drop history of the simulated chunk storage and the memory held between inserts as counted by the simulated allocator, checked after every insert", "exploration",
   "Seeded search over entry sizes, budgets, chunk limits and schedules; no failures are injected."),
 "C09": (T + "mixed-version deployment: nodes running the current code and grenad 0.4.7 exchange files over a simulated disk; files audited by an independent decoder", "exploration",
   "Seeded search over configurations, populations, node pairs and I/O schedules; two runs exchange files of more than 2^32 bytes."),
 "C10": (T + "version-1 files made by an independent encoder, read by several actors under I/O schedules, against the encoded vector", "exploration",
   "Seeded search over layouts (index depth, block sizes, codecs), operations and schedules."),
 "C11": (T + "the same scenario replayed under many I/O schedules (split at any byte, interrupted at any call) and repeated; byte and result equality", "exploration",
   "Seeded search over scenarios and schedules."),
 "C12": (T + "for small scenarios every component call is made to fail in turn (one error kind or all sixteen, once or for good, visible at once or deferred to the flush); larger ones are sampled", "fault_enumeration",
   "Fault points are enumerated per scenario when at most 120 (quick) or 600 (thorough); scenarios are seeded."),
 "C13": (T + "crash images of a writer at every byte, torn and rotted images, edited trailers and arbitrary bytes opened under I/O schedules, against an independent trailer classifier", "exploration",
   "Seeded search; the truncation points of small files are enumerated."),
 "C14": (T + "entries with lengths on and around every framing boundary travel through writers, foreign (0.4.7) files, sorters and mergers on a simulated disk with split and interrupted I/O; a few runs carry keys or values of 2^28 to 2^32-1 bytes", "exploration",
   "Seeded search; of the 2^32 lengths the boundaries, their neighbours, and drawn ones are tried. The framing arithmetic itself depends on no schedule or fault: the simulation brings the buffers and the I/O paths it runs on."),
 "C15": (T + "the emission history of the simulated sink against the insert history, cut rule recomputed by an independent decoder", "exploration",
   "Seeded search over block sizes, index levels, entry sizes, schedules."),
 "C16": (T + "reads of the simulated disk counted per operation over histories of cursors and iterators, interleavings and transient failures, against the depth from an independent decoder", "exploration",
   "Seeded search over files and operation histories."),
 "C17": (T + "the sorter, writer, reader, merger scenarios on a simulated allocator (guard pages, red zones, poison, quarantine, exact alignment, leak accounting, failing requests), overflow-checked and optimised builds", "exploration",
   "Seeded search; undefined behaviour is seen when it crosses a block's end, touches freed memory, breaks the allocator's contract or changes a result with the fill or the placement of memory."),
 "C18": (T + "a faulty producer (duplicates, reorderings, redeliveries) feeds a writer; a layout model predicts the panicking insert; emitted blocks are decoded and must ascend", "exploration",
   "Seeded search over configurations and fault sequences of the producer."),
}
NA = {}
all_ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
na = [{"property": i, "reason": NA.get(i, "check under construction")} for i in all_ids if i not in CHECKS]
m = {
 "version": 1,
 "setup_cmd": "./check.sh --build",
 "hooks": {
  "guard": "cfg(grenad_verif)",
  "enable": "sim/.cargo/config.toml: rustflags = [\"--cfg\", \"grenad_verif\"]; off by default",
  "source_commits": ["358dd97"],
 },
 "checks": [
  {"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
   "evidence_file": f"evidence/{i}.json", "technique": t, "level": l, "level_note": n}
  for i, (t, l, n) in CHECKS.items()],
 "not_applicable": na,
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
