#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
home = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
files = "Seeded search, not exhaustive. The real podo binary runs; the operating system (files with a durability model, clocks, time zone, randomness, output) is simulated below libc."
db = files + " The database is pgsim, a model of PostgreSQL (protocol, catalogs, DDL, locks, transactions) whose fidelity is trusted; definitions come from the schema model described in DESIGN.md."
notes = {
 "P01": files, "P02": files, "P03": files, "P04": files, "P05": files, "P06": files, "P16": files, "P17": files, "P19": files,
}
tech = "deterministic simulation with fault injection: seeded search over "
what = {
 "P01": "crash points, power losses and I/O errors of every file-writing command, old-or-new oracle and undisturbed twin",
 "P02": "command histories with clock faults, byte comparison of made versions",
 "P03": "command histories with clock and I/O faults, chain invariant after every command",
 "P04": "command histories with I/O faults against a list model",
 "P05": "edit histories, repeated stage under other hash seeds and directory orders against a schema model",
 "P06": "twin executions that differ only in hash seed, directory order, layout, clock and short reads",
 "P07": "edit histories migrated in a simulated PostgreSQL, catalog against a schema model",
 "P08": "up/down walks in a simulated PostgreSQL, catalog against a schema model",
 "P09": "crashes, lost connections, statement, commit and server failures at every message, atomicity of catalog and ledger",
 "P10": "interleavings of concurrent commands with faults, serializability of ledger and catalog",
 "P11": "histories, positions and targets against a list model",
 "P12": "local tampering between up and down, ledger and catalog against the applied files",
 "P13": "commands, states and faults, exit status against effect",
 "P14": "project and database states with faults, output of status against files, ledger and a twin",
 "P15": "multi-profile configurations, everything of other profiles unchanged",
 "P16": "malformed and unreadable files, no effect",
 "P17": "broken histories, refusal and no effect",
 "P18": "database schemas and faults, round trip through clone and up in a simulated PostgreSQL",
 "P19": "directory trees and faults, files before and after",
 "P20": "fault sequences followed by fault-free reruns, bounded progress to the state of an undisturbed twin",
}
checks = []
for p in sorted(what):
    checks.append({
        "property": p,
        "quick_cmd": f"./check.sh {p} quick",
        "thorough_cmd": f"./check.sh {p} thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": tech + what[p],
        "level": "exploration",
        "level_note": notes.get(p, db),
    })
m = {
    "version": 1,
    "setup_cmd": "./build.sh",
    "checks": checks,
    "not_applicable": [
        {"property": "P21", "reason": "A pure function of a string and the environment: no time, I/O, concurrency, faults or history for a simulator to decide. (That the expanded values are the ones used is part of P15.)"},
        {"property": "P22", "reason": "A pure function of one definition: no time, I/O, concurrency, faults or history for a simulator to decide. (Its effect through stage, clone and up is part of P05, P07 and P18.)"},
    ],
    "notes": "No hooks in /repo: the seam is libc, taken over by an LD_PRELOAD shim in the simulated processes only.",
}
json.dump(m, open(os.path.join(home, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(home, "MANIFEST.json"), "a").write("\n")
