#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (and, through gen_properties, /verif/properties.jsonl)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen_properties as g
here = os.path.dirname(os.path.abspath(__file__))

SIM = "deterministic simulation with fault injection: "
# property: (technique, level note)
CHECKS = {
 "P01": (SIM + "seeded fault schedules on a simulated token source, compared with the fault-free run",
         "Every single fault (each read, re-read, rewind, token) over a corpus of about 1500 texts, plus seeded multi-fault runs over generated programs; sampled, not proved. Trusts the fault-free parse as reference, the compiler and the derived tree equality; texts nest at most 16 brackets."),
 "P02": (SIM + "sources that end early at seeded bytes and tokens, compared with the tree of the whole text",
         "Every byte and token end of small corpus texts, seeded ends of the rest and of generated programs; sampled, not proved. Brackets are counted from the real token stream of the whole text."),
 "P03": (SIM + "seeded schedules of reads, re-reads, rewinds, seeks and faults on the real lexer, against a reference model of the token history",
         "Sampled schedules of up to about 40 operations over corpus, generated and damaged texts."),
 "P04": (SIM + "seeded sources, faults and operation schedules on the real look-ahead reader, against a queue model",
         "Sampled schedules; the model is a direct restatement of the reader's documented contract."),
 "P05": (SIM + "diagnostics rendered to a simulated output with short, interrupted, failing and exhausted writes",
         "Every write call of a diagnostic is failed in turn, plus seeded mixtures; the never-failing rendering is the reference."),
 "P10": (SIM + "storage and transit faults injected into source texts, then parsed and rendered",
         "Sampled damage of corpus and generated texts; texts nest at most 16 brackets."),
 "P07": (SIM + "trees stored and loaded through simulated storage with short, interrupted and failing calls, crashes at every byte and damage",
         "Sampled programs, one to three trees per store; every byte of small stores is a crash point. Derived tree equality is the oracle."),
 "P09": (SIM + "scripted visitors that skip, replace, re-enter and panic at every callback or seeded ones, against a reference traversal",
         "Every skip and every panic of corpus programs, seeded decisions on generated ones; the reference table is exhaustive by compilation and was checked by hand."),
 "P12": (SIM + "seeded schedules of pauses, resumes, returns and failing reads of a client that reads statement by statement, against the whole parse",
         "Sampled schedules; the whole parse of the same text is the reference; texts nest at most 16 brackets."),
 "P11": (SIM + "seeded histories of fixture reads and writes with simulated results of the system calls, against a model of the files",
         "Sampled histories and call results; the calls of the C library are replaced in the process and forwarded to the kernel as the script allows."),
 "P06": (SIM + "the real executable under a preloaded shim that scripts the result of every system call on its file and standard streams, allocation failures and kills, against the library's answer for the delivered bytes",
         "Seeded fault scripts derived from a fault-free run of each command; the library linked into the simulator is the reference."),
 "P08": (SIM + "seeded thread schedules at basic-block granularity, job histories and nested jobs, each outcome compared with the job alone in a fresh process",
         "Sampled schedules and histories of two to five jobs; the code under test is instrumented so that every edge is a scheduling point; memory is sequentially consistent."),
 "P13": (SIM + "repeated jobs with failing reads and writes, panicking callers and early abandonment on a counting allocator",
         "Sampled jobs and failure points; growth must persist over 512 repetitions to count, so bounded caches are no leak."),
 "P14": (SIM + "tokens and lexer errors stored and loaded through simulated storage with short, interrupted and failing calls, crashes at every byte and damage",
         "Sampled texts, one to three token lists per store; every byte of small stores is a crash point. Derived equality is the oracle."),
 "P15": (SIM + "the real macro expanded by the real compiler against simulated directory listings: seeded orders, entries without types, opening, listing or looking failing at one call",
         "Sampled trees (up to 1200 entries, some 60 levels), seven scripts each, one failing call per script."),
}
PENDING = [p["id"] for p in g.P if p["id"].startswith("P") and p["id"] not in CHECKS]

m = {
 "version": 1,
 "setup_cmd": "./build.sh sim sched cli macros",
 "checks": [
  {"property": k, "quick_cmd": f"./check.sh {k} quick", "thorough_cmd": f"./check.sh {k} thorough",
   "technique": t, "level": "exploration", "level_note": n} for k, (t, n) in CHECKS.items()],
 "not_applicable": [{"property": i, "reason": r} for i, r in g.na] +
  [{"property": i, "reason": "check under construction"} for i in PENDING],
 "notes": "No hooks in /repo are needed: token sources, item sources, readers, writers and visitors are caller-supplied traits; the executable's system calls and allocations are simulated by a preloaded shim; see DESIGN.md.",
}
with open(os.path.join(here, "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
