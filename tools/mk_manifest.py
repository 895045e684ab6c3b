#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
def c(pid, technique, note, level="exploration"):
    T[pid] = (technique, level, note)

BASE = "The password hashing crates are replaced by cheap functions with the same interface in this build (their real cost is checked by C30); everything else is /repo's code. "
c("C01", "runtime monitoring: round-trip oracle on recorded executions",
  BASE + "Every accepted combination of algorithm, hashing choice and header version at every block boundary, then seeded random ones; contents up to a few blocks.")
c("C02", "runtime monitoring: differential monitor under hostile I/O splitting",
  BASE + "Each operation is run with monitored streams that transfer 1..n bytes per call, and compared with the unsplit run or the independent decoder; real programs under a shim that shortens reads and writes.")
c("C03", "runtime monitoring: independent decoder/encoder as trace oracle",
  BASE + "Written files are decoded by a strict reference decoder written from the documented format; reference-made files of versions 1-5 are decrypted by the library. Trusts the same AEAD crates.")
c("C04", "runtime monitoring: tamper injection with detection oracle",
  BASE + "Every header byte, every byte of small bodies, block drops/repeats/swaps/splices and truncations at every length of small files; larger ones sampled.")
c("C05", "runtime monitoring: output monitor against the authenticated prefix",
  BASE + "As C04; every byte handed to the output is compared with the prefix that was authenticated before the damage.")
c("C06", "runtime monitoring: near-miss key oracle",
  BASE + "Decrypt and verify are run with near misses of each key of files with 1-4 keyslots of mixed hashing choices.")
c("C07", "runtime monitoring: history checker against a key-set model",
  BASE + "All short histories over a small alphabet, then seeded random longer ones; after each step every password ever used is tried.")
c("C08", "runtime monitoring: before/after byte monitor",
  BASE + "Histories as C07 with writes recorded; the difference before/after must lie in one slot.")
c("C09", "runtime monitoring: serialisation oracle",
  BASE + "Fields and bytes compared with the independent header codec for every version, algorithm, mode and slot pattern, at every stream offset tried.")
c("C10", "runtime monitoring: crash, hang, memory and acceptance monitor under hostile input",
  BASE + "All tag values, truncations and keyslot types systematically; seeded mutations of files, headers and archives beyond that. Inputs of many GiB and compression bombs are not generated; a hang is judged after 150 s on small inputs.")
c("C12", "runtime monitoring: before/after byte monitor",
  BASE + "Dump, strip and restore on tool-written files (V4, V5, key histories), with writes recorded.")
c("C13", "runtime monitoring: before/after byte monitor",
  BASE + "Targets of every length around the header size, single non-zero bytes at every position, invalid headers.")
c("C14", "runtime monitoring: uniqueness and bias monitor over recorded values",
  BASE + "Salts, nonces and unwrapped master keys of tens of thousands of operations over threads and processes; repeats are violations; per-byte and bit statistics at thresholds that sound randomness passes with overwhelming probability.")
c("C15", "runtime monitoring: statistical monitor over recorded passphrases",
  "Own copy of the word list; chi-square tests per word, edge words, adjacent pairs, at thresholds that sound randomness passes with overwhelming probability.")
c("C16", "runtime monitoring: instrumented allocator watching freed memory",
  BASE + "The global allocator searches every block at the moment it is freed for watched secrets. Stack memory and registers are not looked at; blocks larger than 48 bytes are not judged for bare key material, since cipher states hold it by design.")
c("C29", "runtime monitoring: leak and size monitor over produced artefacts",
  BASE + "Every window of plaintext, password, derived and master key is searched in the artefacts; sizes against the formula; equal blocks compared.")
c("C31", "runtime monitoring: primitive oracle with published vectors",
  BASE + "Published vectors and direct crate calls as oracle; every primitive and stream role, with every kind of change.")
BIN = "The library driver and the real program run as an unprivileged user under a preloaded monitor that records every file operation; the password hashing crates are replaced by cheap functions with the same interface. "
c("C17", "runtime monitoring: tree comparison oracle on real pack/unpack runs", BIN + "Trees with hidden, empty, deep and oddly named entries, several roots, all ways of naming them; up to a few hundred entries.")
c("C18", "runtime monitoring: system-call monitor on unpacking hostile archives", BIN + "Archives written by an independent zip writer with hostile names; every modifying call outside the output directory is recorded and refused by a jail. Links that were in the output directory beforehand are out of scope.")
c("C19", "runtime monitoring: system-call monitor with fault injection at every operation", BIN + "Every call index of small jobs is failed once with several error codes; every temporary file's writes are tallied byte by byte.", "fault_enumeration")
c("C20", "runtime monitoring: shadow-content checker over recorded writes", BIN + "All erase commands, with faults at every call; per-byte overwrite counts are rebuilt from recorded writes.")
c("C21", "runtime monitoring: write-log checker",  "Recorded writes are turned into per-byte histories; block boundaries, positions, splitting and passes.")
c("C22", "runtime monitoring: shadow-content checker over recorded writes, injected delays and faults", BIN + "Directory trees with links in and out, delays to vary the thread schedule, faults at every call.")
c("C23", "runtime monitoring: differential oracle for hashing", "One-shot BLAKE3 (checked with published vectors) as oracle; lengths around all boundaries, positions, read splitting, several files per command.")
c("C24", "runtime monitoring: fault injection at every I/O operation with a correctness oracle", BASE + "Every stream operation of small jobs fails once (several kinds, sticky, partial), and every system call of real runs; success must come with the complete result.", "fault_enumeration")
c("C32", "runtime monitoring: model-based monitor of the storage layer", BIN + "Random sequences of storage calls against a model of the file system, with faults.")
c("C25", "runtime monitoring: system-call monitor and before/after comparison on real runs", BIN + "Aliased paths in many spellings, commands that cannot succeed, refused prompts, one failing system call at a time.")
c("C26", "runtime monitoring: switch-by-switch oracle on real runs", BIN + "Every switch alone and in random combinations, all key sources (terminal included), all kinds of failure; outputs judged by the independent decoder.")
c("C27", "runtime monitoring: consent checker over questions, answers and recorded calls", BIN + "Random scripts of answers (clear, default, unclear, missing) and existing targets; a modifying call on a target needs a yes to the question that names it.")
c("C33", "runtime monitoring: kill injection at every modifying system call", BIN + "Every modifying call of a run (up to a cap) and the middle of every write; what was written before the kill is taken to be on disk.", "fault_enumeration")
c("C34", "runtime monitoring: allocation monitor and memory-limited real runs",
  BASE + "Peak heap of every streaming operation at two lengths that are far apart; the real program under RLIMIT_DATA on files longer than that limit, with the results compared. Threads' own heaps are seen only by the limited runs.")
c("C11", "sanitizers: AddressSanitizer and UBSan builds, Valgrind memcheck, Miri",
  BASE + "Fuzzed and ordinary work in children built with AddressSanitizer (std and zstd instrumented, zstd also for undefined behaviour), under memcheck for uninitialised memory, and the library's own logic under Miri. Whole encryption of megabyte blocks is too slow for Miri and left to the other two.")
c("C28", "data-race detection (ThreadSanitizer) and result comparison of concurrent operations",
  "Concurrent operations over independent streams and over one storage handle run under ThreadSanitizer (std rebuilt with it) and are compared with the same operations run alone; small cases additionally under Miri with several schedules.")
c("C30", "runtime monitoring: cost and parameter monitor on the real password hashing",
  "Uses the real hashing crates, unlike the other checks: derived keys compared with the documented parameters, and the memory each derivation allocates is measured.")
exec(open(os.path.join(root, "tools", "more_checks.py")).read()) if os.path.exists(os.path.join(root, "tools", "more_checks.py")) else None

ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./check.sh setup", "checks": [], "not_applicable": [],
     "notes": "No hooks were needed in /repo: monitors sit on public interfaces (streams, allocator, system calls). check.sh rebuilds from /repo's working tree."}
for i in ids:
    if i in T:
        t, l, n = T[i]
        m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i} thorough",
                            "evidence_file": f"evidence/{i}.json", "technique": t, "level": l, "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
