#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the committed file is the output of this script)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
B="src/bindgen/"
p("C01","Output is reproducible: same input, same bytes, in every run",
  "For a fixed set of sources, manifests, configuration and command line, every successful run produces byte-identical header, depfile and symbol file. The result never depends on hash-table seeds, process id, clock, memory layout, directory-listing order, the working directory or the location of the source tree (paths in the depfile aside).",
  ["inputs","configurations","schedules"],"Every input and configuration, and every value of the environment's hidden nondeterminism (hash seeds, pid, clock, heap layout, tree location).",
  "The tests compare one run, with one random hash seed, on about 120 fixed inputs; a collection whose iteration order leaks into the output agrees with the expectation on most seeds or on small inputs.",
  [B+"ir/item.rs",B+"ir/constant.rs",B+"ir/cfg.rs",B+"library.rs",B+"monomorph.rs",B+"dependencies.rs",B+"parser.rs",B+"bindings.rs",B+"cargo/cargo_metadata.rs"],
  [("insertion-ordered item maps",B+"ir/item.rs ItemMap"),("stable sort of items/functions/constants",B+"library.rs generate, "+B+"dependencies.rs sort"),("sorted source list in the depfile",B+"bindings.rs generate_depfile")],
  observe=["bytes of header, depfile, symfile, stdout"])
p("C02","The header is rewritten exactly when its content changes, and this is reported",
  "Writing bindings to a path leaves that path holding exactly the generated bytes. If it already held them, the file is not opened for writing, replaced or touched and the call reports 'unchanged' (verify mode exits 0); if it was absent or differed in any byte, the call reports 'changed' (verify mode exits with the mismatch status 2).",
  ["histories","inputs","configurations"],"Every history of edits, runs and externally modified prior contents of the output path (absent, empty, prefix, extension, same length, other line endings, symlink), also when reads of the old file are short or interrupted.",
  "No test runs cbindgen twice on one output file, checks the returned flag, the modification time or verify mode's exit status.",
  [B+"bindings.rs","src/main.rs"],
  [("compare-before-write",B+"bindings.rs write_to_file"),("verify exit status","src/main.rs main")],
  observe=["file bytes, mtime, inode, write-opens","return value of write_to_file","exit status"])
p("C03","Success means every requested output is complete on disk",
  "If cbindgen exits with status 0 (or a library write call returns normally), every requested output - header file or stdout, and with a header file its depfile and symbol file - holds its complete, correct content. In particular, any failure to create a directory or file or to write part of an output (disk full, I/O error, quota, closed pipe) at any point makes the run fail visibly.",
  ["fault_sequences","configurations"],"Every placement of one or several create/write failures (one-off or persistent, with or without a preceding partial write) over every operation on every output.",
  "The tests never make an output operation fail; an ignored error or an unflushed buffer is invisible on a healthy disk.",
  [B+"bindings.rs",B+"writer.rs","src/main.rs"],
  [("errors unwrapped at each write",B+"writer.rs, "+B+"bindings.rs"),("explicit flushes",B+"bindings.rs generate_depfile/generate_symfile/write")],
  observe=["exit status against bytes of all outputs"])
p("C04","After a crash at any point, one clean re-run restores exact outputs",
  "However a previous run was killed - at any system call, in the middle of a write, repeatedly, or with unsynced data lost - and whatever partial or stale output files it left, the next undisturbed run succeeds and leaves header, depfile and symbol file byte-identical to those of a run in a fresh directory. It needs no manual clean-up and no more than a bounded number of steps, and the run after it leaves the header untouched.",
  ["crash_points","histories"],"Every crash point (including torn writes) of every run in a history of runs, crashes, edits and lost writes, for every kind of residue.",
  "No test starts from a partially written output or kills a run.",
  [B+"bindings.rs","src/main.rs"],
  [("content comparison instead of timestamps",B+"bindings.rs write_to_file"),("truncating creation",B+"bindings.rs File::create"),("no persistent lock or state files","whole program")],
  observe=["output bytes and exit status of the recovery run"])
p("C05","An unreadable input never silently changes or damages the output",
  "If a source, module, configuration, manifest, lock or metadata file cannot be examined, opened or read, or is not valid text, the run either fails with non-zero status, or produces the undisturbed output, or reports on stderr what it skipped; it never silently emits a header lacking items or using another configuration. A run that fails leaves every already existing output byte-identical to what it was, or completely updated - never emptied, truncated or partially written.",
  ["fault_sequences","inputs"],"Every placement of open/stat/read failures, mid-file read errors and invalid bytes over every input operation of every run.",
  "The tests only read healthy files; no test makes an open, stat or read fail, nor looks at a pre-existing output after a failed run.",
  [B+"parser.rs",B+"config.rs",B+"cargo/cargo.rs",B+"cargo/cargo_toml.rs",B+"cargo/cargo_lock.rs",B+"cargo/cargo_metadata.rs","src/main.rs"],
  [("read errors become errors",B+"parser.rs parse_mod"),("generation precedes any write",B+"builder.rs generate, src/main.rs main"),("warnings for tolerated omissions",B+"parser.rs process_mod, "+B+"cargo/cargo.rs load")],
  observe=["exit status, stderr, output bytes before/after"])
p("C06","A failing or misbehaving cargo/rustc child never yields a silent wrong header",
  "If the metadata or macro-expansion command cannot be started, fails, is killed, or returns an unusable answer (empty, cut off so that it does not parse, not text), the run fails with non-zero status and leaves existing outputs untouched, or reports the problem on stderr; it never exits 0 without a diagnostic while the header differs from what the complete answer would give. Neither the amount nor the interleaving of what the child prints on its two streams can make the run hang.",
  ["fault_sequences","schedules"],"Every child failure (spawn error, exit status, signal at any output offset, empty/truncated/invalid answer) at every child invocation, and every volume and interleaving of its stdout and stderr.",
  "All tests run a healthy cargo; no test makes the child fail, die or print a lot.",
  [B+"cargo/cargo_metadata.rs",B+"cargo/cargo_expand.rs",B+"cargo/cargo.rs",B+"parser.rs"],
  [("exit status check of metadata",B+"cargo/cargo_metadata.rs metadata"),("empty/failed expansion check",B+"cargo/cargo_expand.rs expand"),("both pipes drained together","std::process::Command::output")],
  observe=["exit status, stderr, output bytes, termination"])
p("C07","A recursive cbindgen run inside its own macro expansion is inert",
  "When cbindgen runs (as a program or from a build script) underneath a cargo process that another cbindgen started for macro expansion, it creates, changes and removes no file, prints no bindings, starts no further expansion, and reports success without change. The outer run's outputs are the same whether or not, and at whatever point, such nested runs happen.",
  ["schedules","histories","configurations"],"Every point of the outer expansion at which a nested run (CLI or library, any output options and prior files) happens.",
  "No test has a crate whose build script runs cbindgen during expansion, so the recursion guard and the no-op behaviour of the output functions are never executed.",
  [B+"builder.rs",B+"bindings.rs",B+"cargo/cargo_expand.rs"],
  [("recursion marker in the child's environment",B+"cargo/cargo_expand.rs expand"),("no-op bindings",B+"builder.rs generate, "+B+"bindings.rs")],
  observe=["all mutating system calls of the nested process","outer outputs"])
p("C08","Concurrent cbindgen processes do not corrupt each other's outputs",
  "Several cbindgen processes running at the same time on the same sources, writing different output files or the same output file with the same content, each exit successfully under every interleaving. When the last one has finished, every header, depfile and symbol file holds exactly the content a single process running alone would have produced.",
  ["schedules"],"Every interleaving, at system-call granularity, of two to four processes sharing sources, output directories (possibly not existing yet) and output files.",
  "The tests give each process its own output and never control the interleaving.",
  [B+"bindings.rs","src/main.rs"],
  [("race-tolerant directory creation",B+"bindings.rs write_to_file/generate_depfile/generate_symfile"),("whole-content rewrite by every writer",B+"bindings.rs write_to_file")],
  observe=["exit statuses and final bytes"])
p("C09","Generations in one process are independent across threads and time",
  "In a build script that performs several generations - one after another or in parallel threads, with different inputs, configurations and languages, some of them failing - each generation gives exactly the result it gives when it is the only one in a fresh process. No earlier or concurrent generation can influence it, and none changes the process environment.",
  ["schedules","histories"],"Every interleaving of up to four threads (at I/O, allocation and lock operations) and every sequence of generations in one process.",
  "Every test starts a fresh single-threaded process for one generation.",
  [B+"builder.rs",B+"parser.rs",B+"library.rs",B+"bindings.rs",B+"config.rs","src/lib.rs"],
  [("all state owned by the builder/parser/library values",B+"builder.rs generate"),("child environment set on the command only",B+"cargo/cargo_expand.rs expand")],
  observe=["per-generation bytes, returned flags and errors"])
p("C10","Interrupted calls and short transfers are invisible",
  "Interrupted system calls, short reads and short writes on any input file, output file, pipe or caller-supplied writer never change the outcome: the run succeeds with exactly the undisturbed bytes, each delivered once and in order. If a caller-supplied writer fails for good, the bytes it had accepted are an exact prefix of the undisturbed output and the call does not return normally.",
  ["fault_sequences","schedules"],"Every chunking and every placement of interruptions over all reads and writes of a run, and every point of permanent writer failure.",
  "Regular files in the tests always transfer whole buffers and are never interrupted.",
  [B+"writer.rs",B+"bindings.rs",B+"parser.rs",B+"config.rs",B+"cargo/cargo_toml.rs",B+"cargo/cargo_lock.rs",B+"cargo/cargo_metadata.rs",B+"cargo/cargo_expand.rs"],
  [("retrying whole-buffer reads and writes",B+"writer.rs InnerWriter, "+B+"parser.rs parse_mod"),("line accounting by bytes actually written",B+"writer.rs InnerWriter::write")],
  observe=["bytes accepted by the writer / on disk, exit status"])
p("C11","The depfile names exactly the files read, so incremental builds are correct",
  "After every successful run with a depfile (macro expansion not in use), the depfile is one make rule for the header whose prerequisites are exactly the Rust source files the run read plus the configuration file it used, as resolved absolute paths with spaces escaped. Consequently a build that re-runs cbindgen only when a listed prerequisite changed always has the same header as a clean build, after any history of edits, crashes and re-runs.",
  ["histories","inputs","crash_points"],"Every module layout (inline, nested, mod.rs, path attributes, dependencies) and every history of edits to existing files, module additions/removals, configuration edits and crashed runs.",
  "Three fixed small projects are tested, each built twice without edits.",
  [B+"bindings.rs",B+"parser.rs",B+"builder.rs",B+"config.rs"],
  [("parse cache keys become the source list",B+"parser.rs parse_src/parse_lib"),("config path recorded",B+"config.rs from_file"),("canonicalise, sort, escape",B+"bindings.rs generate_depfile")],
  observe=["depfile content against the files the process actually opened","header of incremental against clean build"])
p("C12","Nothing but the named outputs is ever modified",
  "Whatever happens - success, failure, I/O errors, concurrent runs - cbindgen creates, changes or removes no file other than the requested header, depfile and symbol file and their missing parent directories; sources, manifests, configuration and unrelated files are never opened for writing, anything temporary is made in the system's temporary directory or beside the outputs, and no temporary file or directory is left behind by a run that was not killed. Even a killed run leaves every pre-existing file other than its outputs unchanged.",
  ["fault_sequences","crash_points","inputs"],"Every run under every fault sequence and crash point.",
  "The tests look only at the expected output file of successful runs.",
  [B+"bindings.rs",B+"cargo/cargo_expand.rs","src/main.rs"],
  [("only three writers of files",B+"bindings.rs"),("temporary directory guard",B+"cargo/cargo_expand.rs expand")],
  observe=["every mutating system call; file-tree snapshot before/after"])
p("C13","Macro expansion uses a build directory that cannot block, clash or leak",
  "The cargo process started for macro expansion is always directed away from a build directory held by an enclosing cargo: in clean mode to a fresh private temporary directory, otherwise to the one set by the expansion override variable, otherwise, inside a build script, to a directory below the script's own output directory - so expansion from a build script always makes progress. A private temporary directory exists for the whole life of the child, is not shared between concurrent runs, and is gone when the run has ended, whether it succeeded or failed.",
  ["schedules","fault_sequences","configurations"],"Every combination of clean mode, override variables, enclosing cargo and concurrent runs, and every child outcome.",
  "The tests expand with an override directory and a healthy cargo only; clean mode and the build-script deadlock are never exercised.",
  [B+"cargo/cargo_expand.rs",B+"cargo/cargo.rs","src/main.rs"],
  [("target/build dir selection",B+"cargo/cargo_expand.rs expand, set_target_dir"),("temporary directory drop guard",B+"cargo/cargo_expand.rs expand")],
  observe=["environment of the child, existence and contents of its directory, leftovers in the temp directory"])
p("C14","Each input file is seen in exactly one version, even while being edited",
  "When files are replaced by an editor or another build step while cbindgen runs, the result corresponds, for every input file, to one single version of that file that existed during the run - even if the file is reached through several modules. All items of that version that belong in the header are there and no item of any other version is.",
  ["schedules","histories"],"Every placement of atomic replacements of input files between any two system calls of a run.",
  "No test changes a file during a run.",
  [B+"parser.rs",B+"config.rs",B+"builder.rs"],
  [("per-path source cache",B+"parser.rs parse_mod cache_src"),("whole-file reads",B+"parser.rs parse_mod, "+B+"config.rs from_file")],
  observe=["version-tagged items in the header"])
p("C15","The right crates are bound, whatever order and spelling cargo and the user use",
  "For a given workspace, the crate whose items are exported and the dependency packages (name and version) whose types are used do not depend on the order in which cargo lists packages or lock entries, on hash seeds, on whether metadata is queried or supplied as a file, or on how the crate directory is spelled (absolute, relative, through symlinks). The crate in the given directory wins over a dependency of the same name, shared and cyclic dependencies are handled once and terminate, and cargo is asked for metadata at most once and to expand each requested crate at most once per generation.",
  ["schedules","inputs","histories"],"Every dependency graph (diamonds, cycles, several versions, same-named packages), every permutation of cargo's answers and every spelling of the directory.",
  "The fixture workspaces are small, are listed in one order by the real cargo, and are always addressed by absolute path.",
  [B+"cargo/cargo.rs",B+"cargo/cargo_metadata.rs",B+"cargo/cargo_lock.rs",B+"parser.rs","src/main.rs"],
  [("manifest path comparison",B+"cargo/cargo.rs find_pkg_to_generate_bindings_ref"),("name+version keyed package set",B+"cargo/cargo_metadata.rs Package"),("parsed-crate set and expansion cache",B+"parser.rs parse_crate/parse_expand_crate")],
  observe=["marker items in the header, child invocations"])
p("C24","A generation leaves nothing behind in the process that runs it",
  "In a long-lived process (a build script, a daemon, a test runner), after every generation through the library - successful, failed with an error, ended by a panic the caller catches, or with failed writes - every file and pipe cbindgen opened is closed, every child process it started has been waited for, every thread has ended, and the umask, signal dispositions, resource limits, panic hook, environment and working directory are what they were before. During a generation the number of files open at one time stays bounded however many modules and crates are read. (A child whose pipe itself fails hard while its answer is read is outside the guarantee.)",
  ["histories","fault_sequences","inputs"],"Every project, sequence of generations in one process and failure point; every process state before.",
  "Tests start a fresh process per generation and end it: nothing left behind is ever seen, and their module trees are too small to run out of descriptors.",
  [B+"builder.rs",B+"parser.rs",B+"bindings.rs",B+"cargo/cargo_metadata.rs",B+"cargo/cargo_expand.rs",B+"cargo/cargo_toml.rs",B+"config.rs"],
  [("files read whole and closed at once",B+"parser.rs parse_mod"),("children run to completion and reaped",B+"cargo/cargo_expand.rs expand, "+B+"cargo/cargo_metadata.rs metadata"),("outputs closed at return",B+"bindings.rs write_to_file/generate_depfile/write_symbols_file")],
  observe=["/proc/self of a driver process before and after each generation; files open at each operation"])
p("C25","Every failing run says why",
  "Whenever the command-line tool exits with a failure, at every verbosity including --quiet, it has printed at least one message to standard error; a source that cannot be read or parsed, or a configuration or manifest that cannot be read, is named in it, a failing output is reported with the operating system's reason, and what a failing child printed is quoted (for expansions a warning, so not with --quiet). The messages do not depend on hash seeds, heap layout, pid or directory order. More verbosity only adds lines (quiet within normal within -v within -vv) and never changes the outputs or the exit status.",
  ["fault_sequences","configurations","schedules"],"Every point at which an input, output or child can fail, at every verbosity.",
  "The tests never look at messages and run with one verbosity; failures at arbitrary points are not reachable with fixtures.",
  ["src/main.rs","src/logging.rs",B+"error.rs",B+"parser.rs",B+"cargo/cargo_metadata.rs",B+"cargo/cargo_expand.rs",B+"config.rs"],
  [("error display",B+"error.rs impl Display for Error"),("logger levels","src/logging.rs, src/main.rs"),("warnings for skipped input",B+"parser.rs")],
  observe=["standard error and exit status of command-line runs under faults"])
na=[
("C16","Generated headers compile",
 "For every accepted input and configuration the generated C, C++ or Cython text is accepted without errors by a conforming compiler of that language, also when included twice or (in compatibility mode) from C++.",
 [B+"language_backend/clike.rs",B+"language_backend/cython.rs",B+"cdecl.rs",B+"writer.rs"],"language backends"),
("C17","Declared types have the layout and calling convention Rust uses",
 "Every type emitted with a definition has the same size, alignment, field offsets, discriminant values and calling convention in the foreign language as in Rust; a type without guaranteed layout is emitted only as an opaque declaration.",
 [B+"ir/repr.rs",B+"ir/structure.rs",B+"ir/enumeration.rs",B+"ir/union.rs",B+"ir/ty.rs"],"repr handling and type mapping"),
("C18","Exactly the exported items are declared",
 "Every exported function, static and public constant of the bound crates that is supported and not excluded is declared exactly once per configuration, with every type it needs; ignored, excluded, test-only and unexported items are not, and the symbol file lists exactly the exported functions and statics.",
 [B+"parser.rs",B+"library.rs",B+"utilities.rs",B+"bindings.rs"],"item loading and dependency spidering"),
("C19","Distinct items keep distinct, stable names",
 "Monomorphised generics, prefixed, renamed and rule-converted items never collide with each other or with reserved words, and the same generic instantiation always gets the same name everywhere it is used.",
 [B+"mangle.rs",B+"monomorph.rs",B+"rename.rs",B+"reserved.rs"],"mangling and renaming"),
("C20","Conditional compilation is preserved",
 "Each item, field and variant guarded by cfg conditions appears under a preprocessor condition that is true for exactly the configurations in which the Rust item exists, given the define mapping.",
 [B+"ir/cfg.rs",B+"cargo/cargo.rs"],"cfg to condition translation"),
("C21","Types are declared before use",
 "In every generated header each type is complete before any use that requires completeness and declared before any other use.",
 [B+"dependencies.rs",B+"library.rs",B+"ir/structure.rs"],"dependency ordering"),
("C22","Constants keep their values",
 "Every emitted constant or discriminant expression evaluates in the foreign language to the value it has in Rust.",
 [B+"ir/constant.rs",B+"ir/enumeration.rs",B+"bitflags.rs"],"literal translation"),
("C23","Settings take effect with the documented precedence",
 "Every documented configuration key has exactly its documented effect, item annotations override it, command-line flags override the file, and unknown or ill-typed keys are rejected.",
 [B+"config.rs",B+"ir/annotation.rs","src/main.rs"],"config deserialisation and overrides"),
]
for id,t,s,f,m in na:
    p(id,t,s,["programs","configurations"],"All Rust programs and configurations.",
      "The tests compare fixed inputs with stored outputs.",f,[(m,f[0])])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as o:
    for x in P: o.write(json.dumps(x)+"\n")
import sys
for x in P: assert len(x["title"])<=80,x["title"]
