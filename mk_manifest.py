#!/usr/bin/env python3
"""Regenerate MANIFEST.json from config.py and the notes below."""
import json
from config import PROPS
M = {  # property: (technique, what the verdict rests on)
 "C01": ("round-trip monitor under ASan/UBSan", "every field of the dataset read back is compared with the one written, over generated datasets (all table kinds, optional parts, size classes, special values)"),
 "C02": ("output monitor: independent FITS decoder and OIFITS2 conformance checker on written bytes, ASan/UBSan", "bytes of every written file decoded without the library and compared with the standard's table layout and with the in-memory values"),
 "C03": ("differential monitor: independent FITS encoder with layout randomisation, ASan/UBSan", "dataset read is compared with the one that was encoded"),
 "C04": ("reference monitor for v1 defaults, header derivation and upgrade, ASan/UBSan", "generated v1 files read, written, merged and upgraded; compared with an independent statement of the v1 defaults"),
 "C05": ("sanitizer-monitored hostile-input execution of every public operation (ASan, UBSan, heap/stack fill variants), time and memory limits", "structure-aware mutations of valid files; every operation run on whatever is read"),
 "C06": ("fault injection (size limits at chosen offsets, unwritable paths, truncation at chosen offsets) with status and content monitors", "fault points sampled, quick; all byte classes near block boundaries"),
 "C07": ("lookup monitor on read, filtered and merged datasets", "every name and id present or absent is looked up and compared with a linear search"),
 "C08": ("reference-model monitor of classification, counts and summaries", "model evaluated next to each call"),
 "C09": ("reference-model monitor: independent filter model compared with every filter result, ASan/UBSan", "complete comparison of output datasets"),
 "C10": ("storage-disjointness and reference-integrity monitor on filter results, ASan use-after-free detection", "pointer sets, digests of the input before/after, reference following"),
 "C11": ("online trace checker for iterators against an independent visit list", "each step of each iteration is compared"),
 "C12": ("cross-component consistency monitor (filter, iterator, counts, idempotence)", "agreement of three implementations on the same inputs"),
 "C13": ("conservation monitor over merges, ASan/UBSan", "every input table located in the output and compared"),
 "C14": ("reference-following monitor over merges", "every reference of every record resolved in input and output and compared"),
 "C15": ("reference-model monitor of merged header and target list", "complete comparison"),
 "C16": ("reference-model monitor of the 14 conformance checks", "severity and breach count compared for datasets with planted breaches"),
 "C17": ("report monitor: locations, descriptions, truncation and reuse of results, ASan/UBSan", "report text compared with the model's list of breaches"),
 "C18": ("allocation-trace monitor (sanitizer malloc/free hooks over repeated operation sequences), pointer-disjointness, ASan", "net live blocks after identical sequences; copies compared and modified"),
 "C19": ("pending-status monitor: every I/O function called with an error pending", "status, file system, caller memory, allocation and output watched around each call"),
 "C20": ("repeatability monitor: same operations after other histories and in builds with different stale memory contents", "digests of all results compared within and across three builds"),
 "C21": ("table-level reading monitor on random HDU sequences and positions", "each read compared with the encoder's layout"),
 "C22": ("exhaustive day-by-day conversion monitor of the years 1-9999 plus derived dates of datasets", "independent calendar arithmetic"),
 "C23": ("process-level monitor of the four utilities (exit status, output text, output files, existing files), ASan/UBSan builds", "each run compared with the same operation done in-process and with reference models"),
 "C24": ("option-parsing monitor against an independent table of options", "parsed filter compared field by field, description line by line"),
 "C25": ("fault monitor: malformed tables planted in good files", "surviving tables compared with the file without the bad ones"),
 "C26": ("corruption monitor: bit flips in stored files with independently computed checksums", "warnings compared with HDUs whose sums no longer match"),
 "C28": ("history monitor of table-level writing: independent FITS decoder and conformance checker on the bytes of the file, ASan/UBSan", "random sequences of table and header writes, moves, reopening and reading in new and existing files"),
 "C30": ("output monitor: stdout and stderr recorded around every read and write call and compared with the status returned and the warnings the file or dataset calls for, ASan/UBSan", "intact and damaged files, refused, impossible and unrepresentable writes, with and without oi_hush_errors"),
 "C31": ("process-level monitor of the demonstration program: bytes of its output decoded independently and compared with the described dataset, its list compared with the file read, ASan/UBSan builds", "random descriptions and files, refusals and missing references"),
 "C29": ("fault injection: the n-th allocation of the library refused in a child process, outcome monitor, ASan/UBSan", "allocation points sampled over all operations; accepted outcomes are the message of the allocation check, a reported error, or an unchanged result"),
}
man = {"version": 1, "setup_cmd": "python3 check.py --build",
  "checks": [{"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p, "technique": "runtime monitoring: " + M[p][0],
    "level": "fault_enumeration" if p in ("C06", "C29") else "exploration", "level_note": M[p][1] + ". Holds for the executions observed (numbers in the evidence file), not for all."} for p in PROPS],
  "not_applicable": [{"property": "C27", "reason": "The Python modules are generated by SWIG, which is not installed here (nor can it be fetched), so they cannot be built or run; runtime monitoring needs an executable."}],
  "notes": "No hooks in /repo: the harness uses the public API, the utilities and sanitizer interfaces only. Every check rebuilds library, utilities and harness from /repo's working tree with ASan and UBSan (build cache in build/, keyed by source content)."}
json.dump(man, open("MANIFEST.json", "w"), indent=1); open("MANIFEST.json", "a").write("\n")
