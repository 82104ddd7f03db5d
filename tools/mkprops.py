#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept here so the text is easy to edit)."""
import json, os
WP, G, IR, CLI, TS, SC, FI, VA = ("src/worker_pool.rs", "src/graphql.rs", "src/graphql/ir.rs", "src/cli.rs",
    "src/typescript.rs", "src/graphql/schema.rs", "src/graphql/schema/field.rs", "src/graphql/variable.rs")
DL, PI = "pkg/npm/lib/download.js", "pkg/npm/lib/postinstall.js"
P = []
def p(id, title, statement, over, q, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": q},
              "why_tests_cant": why, "anchors": a})

p("C01", "Every document in the tree is compiled, exactly once",
  "A run that ends has compiled every `.graphql` regular file below the root directory, at any depth and under any directory or file name, and nothing else: each valid one has a complete `.graphql.d.ts` beside it, written exactly once. This holds for every number of worker threads and every interleaving of them.",
  ["schedules", "inputs"], "every directory tree, every thread count from 1 up, every interleaving of the worker threads and the main thread",
  "The tests compile one or two files in one directory under whatever schedule the machine happens to take; a lost or repeated work item needs one worker to be delayed between taking work and announcing it.",
  [WP, G], [("work queue and directory walk", WP), ("termination detection of the pool", WP), ("compile_file writes the output", G)],
  [("outstanding work", "items queued or being processed; the pool may stop only when there are none", WP)], ["files in the tree after the run", "opens for writing"])
p("C02", "Every run ends by itself, cleanly and with bounded work",
  "For any project (import cycles, fragments that spread themselves or each other, recursive input types, malformed imports, deep or wide import graphs, broken documents, any thread count including 0) and any I/O errors on its files, the program ends by itself with exit status 0 or 1. It never hangs, deadlocks, panics, overflows its stack or is killed, and the files it reads and the steps it takes to follow imports stay proportional to the project rather than exploding with the number of import paths.",
  ["inputs", "schedules", "fault_sequences"], "every project including cyclic and malformed ones, every schedule, every sequence of I/O errors",
  "Tests contain no cycle, no malformed import and one schedule each; a hang or a crash appears only for particular inputs or interleavings.",
  [WP, G, IR, TS], [("import traversal", G), ("fragment spread traversal", IR), ("input type closure", TS), ("pool termination", WP)], None, ["process end", "number of scheduling steps and of file reads"])
p("C03", "Results do not depend on threads, scheduling, listing order or hashing",
  "For the same project and options, every run produces byte-identical output files, the same set of messages and the same exit status, whatever the number of threads, their interleaving, the order in which directories list their entries and the per-process hash seeds.",
  ["schedules", "inputs", "configurations"], "every pair of executions of one project that differ only in thread count, interleaving, directory order, hash seed and clock",
  "A test compares one execution with a fixture; two executions that differ need a particular hash seed or interleaving, which a test neither controls nor repeats.",
  [WP, IR, TS, G, CLI], [("sorting before output", TS), ("sorting of fields and possible types", IR), ("merge of worker results", WP)], None, ["bytes of outputs", "printed messages", "exit status"])
p("C04", "No I/O failure goes unreported",
  "If reading the configuration, the schema, a document or an imported file, listing a directory, writing an output or the globals file, or printing the messages fails, at any point and with any error, the run exits with a non-zero status; and it prints an error that names the file or directory concerned (for a configuration, schema or output stream failure, any error).",
  ["fault_sequences", "schedules"], "every I/O operation of a run failing with every errno, on first or later operations (open, read, listing, write)",
  "The tests never make a system call fail except by leaving the schema file out.",
  [G, WP, SC, CLI], [("error conversion at each I/O call", G), ("directory error result", WP), ("configuration and schema errors", CLI)], None, ["exit status", "printed messages"])
p("C05", "A failure affects only the documents that depend on it",
  "When some documents are broken or some files or directories cannot be read, listed or written, every other document still gets exactly the output it would have had without the failure, and every message it would have had. A document whose own compilation fails gets no output written in that run.",
  ["inputs", "fault_sequences", "schedules"], "every mixture of broken documents and of failing reads, listings and writes, under every schedule",
  "No test has more than one document in a failing run, so isolation between documents is never observed.",
  [WP, G], [("per-document result", WP), ("error return before writing", G)], None, ["output files of unaffected documents", "messages"])
p("C06", "Harmless I/O behaviour never changes a result",
  "Short reads, short writes, interrupted system calls, directory entries without type information, slow or stalled I/O and clock jumps change nothing: the run produces the same bytes, messages and exit status as without them.",
  ["fault_sequences", "schedules"], "every placement of partial transfers, interruptions, missing type information, delays and clock jumps in a run",
  "A real file system on a test machine practically never returns short or interrupted transfers.",
  [G, SC, WP, CLI], [("whole-file reads and writes", G), ("file type test while listing", WP), ("buffered JSON reading", SC)], None, ["bytes of outputs", "printed messages"])
p("C07", "A run after a crash repairs everything the crash left behind",
  "Wherever an earlier run was stopped (process killed or power lost, with unsynchronised writes lost or torn), and whatever the user changed in between, the next complete run leaves, for every document that compiles and for the globals file when one is needed, exactly the content that a run on a clean checkout of the same sources produces, and prints exactly the same messages. Sources, schema and configuration are intact.",
  ["crash_points", "histories", "schedules"], "every stopping point of an earlier run, every loss of unsynchronised data, every edit before the next run",
  "No test stops a run half way or starts from the remains of one.",
  [G, WP], [("outputs are rewritten from sources on every run", G), ("globals are rebuilt from the whole tree", G)], None, ["outputs after the second run", "inputs after the crash"])
p("C08", "Only the outputs are ever written",
  "Whatever the project, errors, faults or crash, a run creates or changes only the `.graphql.d.ts` files beside the documents below the root, and the one globals file. Sources, schema, configuration, other files, anything outside the root and anything reached through symbolic links while scanning stay untouched, and nothing is deleted.",
  ["inputs", "fault_sequences", "crash_points", "configurations"], "every tree (with symbolic links and odd names), every option, every fault and crash point",
  "Tests look only at the files they expect, never at what else a run touched, and never under faults.",
  [G, WP], [("output path derived from the document path", G), ("globals path", G), ("symbolic links are not followed while scanning", WP)], None, ["all write-like system calls", "all files before and after"])
p("C09", "The globals file declares exactly what the outputs need",
  "After a run the globals file declares exactly the enums and input types that the outputs written by that run import, closed under references between input types; each is declared once, with the schema's values or fields. Hence every name an output imports from it is declared there, and every name a declaration uses is declared too, whichever worker compiled which document.",
  ["inputs", "schedules"], "every schema (with nested and recursive input types), every set of documents, every distribution of documents over workers",
  "The tests check single-document globals; a name lost in merging the results of several workers or in the closure needs a particular distribution or type graph.",
  [TS, WP, G], [("global name collection per document", TS), ("merge over workers", WP), ("closure over input types", TS)], None, ["globals file", "import lines of the outputs"])
p("C10", "An unusable configuration or schema stops the run before any write",
  "If the configuration file or the schema is missing where it was named, unreadable (even half way through), truncated, not JSON, or not of the right shape, the run prints an error, exits with status 1 and writes no file at all. Only the absence of the default configuration file is accepted. A command line that is not understood (an unknown, repeated or incomplete option, a value of the wrong kind, an option without the one it requires, a second root) is refused with a message and the status 2, before any write.",
  ["inputs", "fault_sequences", "crash_points"], "every truncation and shape error of schema and configuration text, every read fault at every point of reading them, and every command line that is not understood",
  "Three fixed examples are tested; the property is about every prefix, every wrong shape and every read fault.",
  [CLI, SC, "src/graphql/schema/json.rs", "src/main.rs"], [("configuration loading", CLI), ("schema loading before the pool starts", "src/main.rs"), ("schema conversion", SC)], None, ["exit status", "messages", "absence of writes"])
p("C11", "Imports resolve as documented, and a bad import is always reported",
  "An import names a file relative to the importing document when it starts with a dot, relative to the root when it does not, and below the root when it starts with the configured prefix; exactly the fragments reached through imports, directly or through other imported documents, can be spread. An import that cannot be read, or that is not a fragment, is reported as an error at the import line of the document that contains it, and all other imports keep working.",
  ["inputs", "fault_sequences", "configurations"], "every import graph, every spelling of a path, every read fault on an imported file",
  "The tests have a handful of two-file imports; transitive, shared, cyclic and failing imports are not covered.",
  [G], [("path resolution", G), ("recursive import reading", G), ("fragment collection", G)], None, ["outputs", "messages with their place"])
p("C12", "Generated types describe exactly what the server may return",
  "For every valid document, the declared result type admits, per concrete object type, exactly the fields the GraphQL field-collection rules select (@skip and @include conditions and introspection fields aside), with aliases, with the schema's scalar, enum and list types at every level of nesting, and `null` exactly where the schema allows it; and the variables type has exactly the declared variables with their types and optionality. This does not depend on how selections are spread over inline and imported fragments.",
  ["inputs", "configurations"], "every schema and every valid document over it, with any nesting of lists, unions, interfaces and fragments, and every output option",
  "Fixtures cover a few dozen hand-written combinations; types are a function of an unbounded space of schema and document pairs.",
  [IR, TS, FI, VA], [("field collection per concrete type", IR), ("list and null modifiers", FI), ("type text", TS), ("variables", VA)], None, ["parsed declaration files"])
p("C13", "Exit status, messages and totals agree",
  "The exit status is 1 exactly when at least one error is printed and 0 otherwise; the closing totals equal the number of errors and warnings printed, with the right grammatical number. This holds for every mixture of messages from every number of workers.",
  ["inputs", "schedules", "fault_sequences"], "every mixture of errors and warnings over documents and workers, with and without I/O faults",
  "The tests look at runs with a single message.",
  [CLI, WP], [("counting and exit", CLI), ("merge of worker messages", WP)], None, ["exit status", "printed text"])
p("C14", "Every mistake is reported once, at its place, and nothing else is",
  "Each mistake in a document (unknown field, unknown fragment, missing or superfluous selection, unknown type, parse error, more than one definition, and so on), and with warnings enabled each use of a deprecated field and each over-narrowed fragment, is reported exactly once with the document's path, the line and column where it is, and the name concerned; mistakes in variables may be reported one at a time, after those in selections. Correct documents cause no message. A mistake in an imported fragment is reported for that fragment only, and a cycle of spreads is a mistake of every document that reaches it.",
  ["inputs", "schedules"], "every combination of mistakes over every set of documents and imports",
  "Each message has at most one test with one mistake; multiplicity, attribution across imports and absence of spurious messages are not tested.",
  [IR, G, CLI, VA], [("error collection", IR), ("message placement", CLI), ("local-only reporting through imports", IR)], None, ["printed messages"])
p("C15", "Running out of resources never yields a silently incomplete result",
  "If threads cannot be created or memory cannot be allocated, at any point, the run still ends, and it exits with status 0 only if everything was compiled completely and correctly. No thread is left waiting for one that never started or has died.",
  ["fault_sequences", "schedules"], "failure of the k-th thread creation (once or for good) and of the k-th allocation, for every k, under every schedule",
  "Nothing in the tests makes a thread creation or an allocation fail.",
  [WP], [("thread creation and joining", WP), ("pool termination", WP)], None, ["process end", "exit status", "outputs"])
p("C16", "A schema download is complete and successful, or fails visibly",
  "The schema downloader exits with status 0 only if the server answered 200 and the whole response body is in the output file. Otherwise (connection refused, reset or truncated at any byte, error status, full disk or any file error) it exits with a non-zero status and leaves no partial schema file behind. An attempt that was killed at any point does not keep a later one from succeeding.",
  ["fault_sequences", "schedules"], "every fragmentation and timing of the response, every point of connection loss, every file error, every order of completion of concurrent operations",
  "There is no test of the downloader at all.",
  [DL], [("request and response handling", DL), ("writing and cleaning up", DL)], None, ["exit status", "output file"])
p("C17", "The installer never unpacks or installs unverified bytes",
  "The post-install step unpacks an archive only if the complete file has the SHA-256 recorded in the package for the current platform, and exits successfully only if it did. Corrupted, truncated, substituted or redirected downloads, in any fragmentation and after any file error, never reach the unpacking step, and the rejected download is removed.",
  ["fault_sequences", "schedules", "inputs"], "every corruption, truncation, redirect and timing of the download, and every file error",
  "There is no test of the installer, and it needs a network.",
  [PI], [("checksum before unpacking", PI), ("download and redirect", PI)], None, ["unpack commands", "bytes of the archive when unpacked", "exit status"])
p("C18", "The installer ends within bounded time, with a working tool or an error",
  "Whatever the network and the disk do, including connections that stall, break at any byte or redirect without end, and however the unpacker ends, the post-install step ends within a bounded time. It exits with status 0 only if the unpacked tool is in place and executable, and with a non-zero status and a message in every other case. An attempt that was killed at any point does not keep a later one from succeeding.",
  ["fault_sequences", "schedules"], "every stall, reset, truncation, redirect chain, file error and unpacker failure, under every order of completion",
  "There is no test of the installer, and stalls do not occur on demand.",
  [PI], [("timeouts", PI), ("promise chain and exit", PI)], None, ["simulated time to exit", "exit status", "installed file"])
p("C19", "Options mean the same however they are given, and the command line wins",
  "Every setting that can be given on the command line and in the configuration file has the same effect either way; when both give it, the command line's value is used, and otherwise the documented default. A relative schema path in a configuration file is relative to that file, one on the command line to the working directory.",
  ["configurations", "inputs"], "every combination of settings over command line, configuration file and defaults, with every placement of the configuration file",
  "Tests give one option at a time in one place.",
  [CLI, G], [("merging command line and configuration", CLI), ("schema path resolution", CLI)], None, ["outputs", "globals path", "messages"])
p("C20", "Repeated runs over a changing project always match a clean run",
  "After any history of edits (documents, fragments, schema, options, files and directories added, changed, removed or renamed, with newer, equal or older time stamps) and earlier runs, a run yields for every current document, and for the globals file when one is needed, the same bytes and prints the same messages as a run on a clean checkout. Outputs of earlier runs are never mistaken for input, and repeating a run changes nothing.",
  ["histories", "inputs"], "every sequence of edits and runs, with every relation of time stamps",
  "Every test runs once in a fresh directory.",
  [G, WP], [("no state is carried between runs", G), ("only document files are scanned", WP)], None, ["outputs after each run of a history"])
p("C21", "A schema fetched by the downloader serves the compiler",
  "For every schema a server may have, the file the downloader writes for it is accepted by the compiler and leads to the same outputs and the same messages, deprecation warnings and marks included, as the server's full introspection result. Type references nest at most seven list and non-null wrappers, as in the downloader's query.",
  ["inputs"], "every schema (deprecated fields, lists nested up to the depth the query reaches, descriptions, every kind of type) and every project over it",
  "No test connects the two tools; the downloader's query is only ever run by users.",
  [DL, SC, "src/graphql/schema/json.rs", FI], [("introspection query text", DL), ("schema reading", "src/graphql/schema/json.rs")], None, ["outputs", "messages"])
p("C22", "A document's output depends only on itself, its imports, schema and options",
  "Adding, removing or breaking documents that a document does not import, or moving the whole project elsewhere, changes neither that document's output nor the messages about it, whatever the schedule.",
  ["inputs", "schedules"], "every project, every set of unrelated changes, every distribution of the documents over workers",
  "Every test compiles one fixed set of documents; independence is a statement about pairs of projects.",
  [WP, G, IR], [("per-document compilation without shared mutable state", G), ("worker loop", WP)], None, ["outputs and messages of the unchanged documents"])
p("C23", "Descriptions and deprecations reach the generated types and nothing but comments",
  "Every property of a generated result or input type carries the schema's description of its field as a documentation comment, and a deprecation mark exactly when the field is deprecated; every enum carries its description. Whatever text a description contains, it never changes or hides a declaration (characters that would open or close a comment may be dropped from it).",
  ["inputs", "configurations"], "every schema and every text of its descriptions, for every document over it",
  "Fixtures have a few one-line descriptions; the text is written by others than the user and can be anything.",
  [TS, FI, SC], [("documentation comments", TS), ("documentation and deprecation of fields", FI), ("reading them from the schema", SC)], None, ["parsed declaration files", "parsed globals file"])
p("C24", "Generated types have the names their place in the document gives them",
  "Each module exports the result type under the name of its operation or fragment (an unnamed operation's kind), the variables as that name followed by `Variables`, and every nested selection's type as its parent's name, an underscore and the response name. Where concrete types of one selection get different fields, each alternative is exported as that name, an underscore and the type's name, with `$$other` for the types that have the common fields only, and describes exactly those types. The default export is the configured module's document type over exactly these.",
  ["inputs", "configurations"], "every valid document and schema, with any nesting of aliases, fragments, interfaces and unions",
  "Client code imports these names; fixtures have a few dozen of them.",
  [TS, IR], [("names of nested and alternative types", TS), ("order and grouping of possibilities", TS), ("operation names", IR)], None, ["parsed declaration files"])
p("C25", "A published version can be installed on every platform",
  "Whatever fails or is killed while a release is made, and however often its failed jobs are rerun, a version is in the npm registry only when every platform's archive of that version is on GitHub, holds the binary built for that platform and has the checksum that the package records, so that the package installs on every supported platform. Releases come only from the release branches after linting and tests have passed, pre-releases are marked as such in both places, the published list of checksums names exactly the archives with their sums, and no token is printed or published. A release job that succeeds has published, and once nothing fails any more the release can be completed.",
  ["fault_sequences", "schedules", "histories"], "every failure or death of any program a release job starts, every full disk, every order in which the shell's concurrent processes run, every sequence of reruns, several versions one after another",
  "The release scripts are never run by the tests; they run once per release, against services outside the repository.",
  [".circleci/config.yml", ".circleci/bin/make-github-release.sh", ".circleci/bin/make-npm-release.sh", ".circleci/bin/build-release-binary.sh", ".circleci/bin/get-version-from-binary.sh", ".circleci/bin/get-release-platforms.sh", "pkg/npm/package.json", PI],
  [("order and filters of the jobs, what one hands to the next", ".circleci/config.yml"), ("archives, checksums and upload", ".circleci/bin/make-github-release.sh"), ("recording checksums and publishing", ".circleci/bin/make-npm-release.sh"), ("archive address and checksum", PI)],
  [("simulated GitHub releases and npm packages", "what a user can download; judged after every job", ".circleci/bin/make-github-release.sh")], ["releases and packages after every job", "installations of the published package"])
p("C26", "Generated types work in a TypeScript client",
  "After any history of edits, failed and killed runs, a run that ends with status 0 leaves declaration files for the current documents and the globals file that strict TypeScript accepts, together and with the packaged document node typings, once the client has declared its custom scalars. A client that imports a document gets exactly its types: `DataOf` of its default export is the exported result type and `VariablesOf` the exported variables type, or `never` where there are no variables, for queries, mutations, subscriptions and fragments alike, and so do functions that take the document node types.",
  ["histories", "inputs", "configurations", "fault_sequences"], "every valid project, every history of runs, edits, kills and failing operations before it",
  "Fixtures are compared as text; no test runs the TypeScript compiler, and the packaged typings have no test at all.",
  [TS, G, "pkg/npm/lib/typed-documentnode.d.ts"],
  [("declarations, imports and default export", TS), ("globals file", G), ("DataOf, VariablesOf and document node types", "pkg/npm/lib/typed-documentnode.d.ts")], None, ["diagnostics of the TypeScript compiler on the outputs and a generated client"])
p("C27", "Overlapping runs on one project do not harm each other",
  "However many runs are under way on the same project at the same time, and however their accesses to files interleave, each of them prints the messages and exits with the status that it would on its own. When all have ended, the outputs and the globals file are exactly those of a single run and nothing else is left behind or changed. When runs are killed or documents edited meanwhile, the other runs still end properly, and the next run leaves what a run on a clean checkout leaves.",
  ["schedules", "histories", "crash_points", "configurations"], "every interleaving of the file accesses of any number of processes, with kills and edits in between",
  "No test starts a second run; a watcher, an editor and a build script do it all the time.",
  [G, WP, CLI], [("outputs are written whole, from the start of the file", G), ("globals are written whole", G), ("listing directories in which outputs come and go", WP)], None, ["outputs after all runs have ended", "messages and status of every run"])
p("C28", "Messages quote their place and suggest what may have been meant",
  "Every message about a place in a document quotes that line of that document, with a mark below the column it names, whatever the line contains and whichever document leads to it. A message about an unknown field or fragment suggests exactly the fields of that type, or the fragments in scope, whose names are at most two edits (insertions, deletions, replacements, swaps of neighbours) away, whatever the order of hash tables and threads. Colours change nothing but colours, and there are none with `--no-color` or where the output is neither a terminal nor forced to be coloured.",
  ["schedules", "inputs", "configurations"], "every document with mistakes, every schema, every environment of the process",
  "The fixtures show a handful of messages without colours, in one order of hash tables.",
  [CLI, IR, G], [("excerpts, marks and suggestions", CLI), ("which names are suggested", IR), ("places of mistakes in imports", G)], None, ["everything printed, compared with the sources", "pairs of runs with different terminals and environments"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
