#!/usr/bin/env python3
"""Rewrites MANIFEST.json from the list of claimed checks below."""
import json

CLAIMED = {
    "C01": "Seeded search over sink fault plans (short and interrupted writes, buffering layers, stale files); oracle is a forked fault-free save from the same state plus the attached pictures. Exploration, not proof.",
    "C02": "Seeded search over the position, kind and persistence of sink errors; any error delivered to the library must come out as an error. Exploration, not proof.",
    "C03": "Seeded histories of failing saves; oracle is a forked counterfactual without the failures, up to renaming of generated ids. Exploration, not proof.",
    "C04": "Seeded search over crash points, torn writes, lost and stale sectors, size and directory updates on a simulated disk; the read must fail or equal the intact old or new document. Exploration, not proof.",
    "C05": "Seeded media damage inside entry data of generated packages and fixtures; the read must fail or equal the intact export. Exploration, not proof.",
    "C06": "Seeded media faults on whole packages (bytes, archive fields, entries, XML with repaired checksums); each read runs in a process with time and memory limits. Exploration, not proof.",
    "C07": "Seeded media faults on flat packages and single parts; each read runs in a process with time and memory limits. Exploration, not proof.",
    "C08": "Seeded delivery schedules of a simulated stream (piece sizes, interruptions); oracle is the value read from memory. Exploration, not proof.",
    "C09": "Seeded read errors and early ends of a simulated stream inside the root element; the reader must report an error after boundedly many further reads. Exploration, not proof.",
    "C10": "Seeded fault plans of a simulated writer under the part and element writers; oracle is the forked in-memory build. Exploration, not proof.",
    "C11": "Seeded schedules at every atomic operation of the library; oracle is the history of ids handed out and uniqueness inside each package. Exploration, not proof.",
    "C12": "Seeded schedules and interleaved whole-document programs; oracle is each program alone in a forked process. Exploration, not proof.",
    "C13": "Seeded histories of blocks made on several threads, saves, exports, copies and reloads; oracle is an independent package reader. Exploration, not proof.",
    "C14": "Seeded assembly histories over threads; oracles are closure of the package under its references and the document description. Exploration, not proof.",
    "C15": "Seeded hash seeds, clocks, schedules and process histories; oracle is the first save, byte for byte up to renaming of ids drawn on save. Exploration, not proof.",
    "C16": "Seeded documents, histories and fault plans run through both save paths; each is the other's oracle. Exploration, not proof.",
    "C17": "Seeded construction histories with inspections at seeded points; oracle is the same history without them in a forked process. Exploration, not proof.",
    "C18": "Seeded histories of edit sessions in separate processes over a simulated two-file disk with crashes, torn saves and sink faults; oracles are the content acknowledged before and an independent description of the edits. Exploration, not proof.",
    "C19": "Seeded histories of open-save cycles over generated documents and the repository's fixtures, with process restarts, hash seeds and sink faults; oracle is the first reload. One known finding: text boxes and shapes cannot be saved again. Exploration, not proof.",
    "C24": "Seeded search over the position, kind and persistence of sink errors; what a failed save leaves must be refused by the reader and by an independent archive reader, or equal a forked fault-free save. Exploration, not proof.",
}
NA = {
    "C20": "Escaping is a pure function of the supplied text: no schedule, clock, I/O, fault or history can change the answer, so simulation decides nothing here; it needs input generation or proof.",
    "C21": "Schema conformance of the output is a pure function of the builder calls; deciding it needs a schema validator over generated inputs, not simulation.",
    "C22": "The shape of the JSON export is a pure function of the document; no nondeterminism to simulate. (Its independence from history is C17.)",
    "C23": "The WebAssembly binding cannot be built offline (git dependencies) and is single-threaded straight-line glue.",
}
m = {
    "version": 1,
    "setup_cmd": "bash build.sh",
    "hooks": {
        "guard": "none: /repo carries no hooks",
        "enable": "sim/wrap.sh (RUSTC_WRAPPER) compiles docx-rs with LLVM's tsan pass and the simulator supplies the atomic entry points; I/O seams are the library's own generic parameters",
        "source_commits": [],
    },
    "checks": [
        {
            "property": p,
            "quick_cmd": f"bash check.sh {p}",
            "thorough_cmd": f"bash check.sh {p}",
            "evidence_file": f"evidence/{p}.json",
            "technique": "deterministic simulation with fault injection: seeded search over simulated runs",
            "level": "exploration",
            "level_note": note,
        }
        for p, note in sorted(CLAIMED.items())
    ],
    "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())],
    "notes": "Each check forks one process per simulated run; replay a failure with: bash replay.sh <file>.",
}
# properties whose check is still being built are not claimed
ids = [json.loads(l)["id"] for l in open("properties.jsonl") if l.strip()]
for i in ids:
    if i not in CLAIMED and i not in NA:
        m["not_applicable"].append({"property": i, "reason": "check under construction; not claimed yet"})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
