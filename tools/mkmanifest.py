#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of implemented checks."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TECH = {
 "C01": "explicit-state: exhaustive enumeration of (instruction x operand aliasing x value alphabet), each state transition replayed on every engine and compared with an executable ISA model",
 "C02": "exhaustive enumeration of all 2^32 instruction words per configuration on the real decoder against an independent decode table",
 "C03": "bounded exhaustive enumeration of programs, run on every engine and compared with an executable model",
 "C04": "bounded exhaustive enumeration of memory-operation histories on every backend against a flat-array reference model",
 "C05": "bounded exhaustive enumeration of guest access histories and fetch positions on every engine against a reference model",
 "C06": "bounded exhaustive enumeration of programs and of every cycle limit for each, stop state and continued run of every engine compared with the prefix states of an executable model",
 "C07": "bounded exhaustive enumeration of programs and of every pause point (and pairs of them), and of every pause/run schedule, on every engine compared with an executable model",
 "C08": "bounded exhaustive enumeration of programs and of every boundary of each run as a save point, restored on every engine, saved again and continued, compared with an executable model",
 "C09": "bounded exhaustive enumeration of mapping/write/flag/save/restore histories, of programs with every boundary as a save point, and of malformed snapshots, compared with an executable model on every engine",
 "C10": "exhaustive enumeration of ELF images over a grid of header and segment fields, of every truncation and every single-byte corruption of valid images, loaded on every engine and compared with an independent reader and loader",
 "C11": "exhaustive enumeration of argument lists and stack areas on every engine, the resulting memory compared byte for byte with a reference layout and read back through the pointers",
 "C12": "bounded exhaustive enumeration of instruction sequences around every fusible pattern (register assignments, single-point mutations, encodings, positions) run fused and unfused on every engine",
 "C13": "bounded exhaustive enumeration of histories of programs separated by resets from outside or from a system call, every engine reused throughout and compared with a fresh executable model after each program",
 "C16": "bounded exhaustive enumeration of call/breakpoint/exit sequences and of handler and debugger behaviours, run on every engine and in the executable model with the same handlers, their observations and the final state compared",
 "C14": "bounded exhaustive enumeration of atomic operations over operand aliasing x values x alignment, and of load-reserved/store-conditional histories with intervening operations, on every engine compared with an executable model",
 "C18": "exhaustive enumeration of packed words (opcode x registers x immediates x lengths), of every decodable instruction's tagged view and text, and of register operations over value squares; every instruction handler run on symbolic registers and its expressions evaluated over the value alphabet against the executable model",
 "C15": "bounded exhaustive enumeration of first-touch histories on machines built over poisoned heap blocks, of all interleavings of the life events of two machines, and of all schedules of two threads under a controlled scheduler switching at every host call; every outcome compared with an executable model or with the machine living alone",
 "C17": "bounded exhaustive enumeration of hostile parcels, parcel sequences at memory/page/frame boundaries, edge registers, edge program counters, header bytes and handler arguments, run on every engine over guard-paged memory with overflow checks and a canary- and layout-checking allocator, results compared with an executable model",
}
NOTE = "Everything inside the stated bounds is explored on the real code (x86-64 build, both interpreters and the assembly engine), every explored model trace is replayed on the implementation. Trusts the executable RISC-V model in harness/src/spec.rs (written from the specification; differences were investigated one by one), rustc and the CPU. Says nothing beyond the bounds listed in the evidence file."
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
exec(open(os.path.join(root, "tools", "claims.py")).read())
m = {"version": 1, "setup_cmd": "./run.sh --build",
     "checks": [{"property": q["id"], "quick_cmd": f"./run.sh {q['id']} --quick", "thorough_cmd": f"./run.sh {q['id']} --thorough",
                 "evidence_file": f"evidence/{q['id']}.json", "technique": TECH[q["id"]], "level": "model_checking", "level_note": NOTES.get(q["id"], "") + NOTE}
                for q in props if q["id"] in TECH],
     "hooks": {"guard": "none", "enable": "no hooks were added to /repo: the checks use its public API only", "source_commits": []},
     "not_applicable": [{"property": q["id"], "reason": NA.get(q["id"], "check not built yet")} for q in props if q["id"] not in TECH],
     "notes": "run.sh builds harness/ (path dependency on /repo) into target/ and runs the check; see DESIGN.md."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
