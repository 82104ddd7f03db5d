#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = "deterministic simulation with fault injection: the whole qlc binary under a seeded scheduler, clock, random source and file system; "
J = "deterministic simulation with fault injection: the shipped script in a simulated node process (event queue, clock, sockets, files, child processes); "
E = {
 "C01": T + "oracle: executable reference model of which documents compile, one write each, under random-walk, priority and stalling schedules",
 "C02": T + "oracle: bounded progress (no deadlock, livelock, panic, signal) and bounded reads under cyclic and malformed inputs and I/O errors",
 "C03": T + "oracle: byte equality of executions of one project that differ in schedule, thread count, listing order, hash seed and clock",
 "C04": T + "injected errno on any open, read, listing, write or print; oracle: non-zero exit and an error naming the object",
 "C05": T + "persistent faults and broken documents; oracle: reference model says which documents are unaffected and what they yield",
 "C06": T + "short and interrupted transfers, unknown entry types, clock jumps; oracle: byte equality with the quiet run",
 "C07": T + "crash at any step, power loss tearing unsynchronised data, edits; oracle: equality with a clean checkout",
 "C08": T + "every write-like operation checked against the set of allowed targets, before/after snapshots, under faults and crashes",
 "C09": T + "oracle: globals file parsed and compared with the reference model's closure over what the outputs import",
 "C10": T + "truncated, misshapen or unreadable configuration and schema; oracle: status 1, an error, no write-like operation",
 "C11": T + "oracle: reference model of import resolution, with read faults on imported files",
 "C12": T + "oracle: declaration files parsed and compared with the reference model's field collection and types",
 "C13": T + "oracle: totals, messages and exit status agree with each other and with the reference model",
 "C14": T + "oracle: one-to-one matching of printed messages with the reference model's, including path, line, column and names",
 "C15": T + "failing thread creations and allocations; oracle: run ends, and status 0 only with complete results",
 "C19": T + "oracle: equal results for the same settings split differently over command line and configuration file",
 "C20": T + "histories of edits and runs with newer, equal and older time stamps; oracle: equality with a clean checkout",
 "C23": T + "schemas with arbitrary description texts; oracle: comments and declarations parsed and compared with the reference model",
 "C24": T + "oracle: every exported type is found under the name the reference model derives from its place, and describes that selection",
 "C26": T + "histories with failing, killed and torn runs; oracle: the TypeScript compiler accepts the outputs and a generated client that uses them",
 "C27": T + "two to four whole processes on one simulated project take turns access by access, with kills and edits; oracle: each prints and exits as on its own, files equal those of one run",
 "C28": T + "misspelt names among near ones under seeded hash orders, terminals and environments; oracle: excerpts equal the sources, suggestions equal the reference model's, colours change only colours",
 "C22": T + "pairs of projects differing in unrelated documents or place; oracle: equality of the untouched documents' results",
}
NA = {}
import sys
js = os.path.exists(os.path.join(V, "jssim"))
if js:
    E.update({
     "C16": J + "fragmented, truncated, reset responses and file errors; oracle: status 0 only with the complete body in the file, no partial file otherwise",
     "C17": J + "corrupted, truncated, redirected archives and file errors; oracle: bytes seen by the unpacker have the recorded SHA-256",
     "C18": J + "stalls, resets, redirect chains, file and unpacker failures; oracle: bounded simulated time to exit, status 0 only with the tool in place",
     "C25": "deterministic simulation with fault injection: the real CI configuration and release scripts under real bash with simulated services and programs, a seeded order of the shell's processes, and failing, dying or torn programs; oracle: invariants over GitHub and the registry after every job, and installation of what was published",
     "C21": J + "the downloader fetches a generated schema from a simulated introspection server; oracle: the compiler's results equal those for the full introspection result",
    })
else:
    for i in ("C16", "C17", "C18", "C21"):
        NA[i] = "the simulator for the npm scripts is not built yet"
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
note = {
 "C12": "exploration of random schemas and documents; one recorded finding (type-name clash)",
 "C26": "exploration of random projects and histories; two recorded findings (names that collide with an import or a reserved word)",
 "C14": "exploration of random documents with planted mistakes; one recorded finding (fragments outside the root)",
 "C02": "work bounds concern following imports; the size of outputs for nested spreads is inherent in the output format",
}
m = {
 "version": 1,
 "setup_cmd": "bash tools/build.sh",
 "checks": [{
    "property": p, "quick_cmd": f"bash tools/check.sh {p} quick", "thorough_cmd": f"bash tools/check.sh {p} thorough",
    "technique": E[p], "level": "exploration",
    "level_note": note.get(p, "seeded search over projects, schedules and faults; strength is the number of distinct simulated executions in the evidence file"),
 } for p in props if p in E],
 "not_applicable": [{"property": p, "reason": NA[p]} for p in props if p not in E],
 "notes": "No hooks in /repo: the seams are the libc symbols of the dynamically linked binary (LD_PRELOAD) and, for atomics, the compiler's sanitizer instrumentation points, both supplied from /verif. The release scripts' seams are PATH and a preloaded library that orders bash's forks. See DESIGN.md.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
