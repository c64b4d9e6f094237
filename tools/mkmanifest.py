#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (the committed file is the output of this script)."""
import json, os
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
common=(" Seeded search over schedules and fault sequences, not exhaustive: it shows presence of violations with a minimised, exactly repeatable replay file, and gives statistical confidence in their absence for the generated projects, configurations and fault kinds in the evidence file. Trusts: the interposition shim, tmpfs semantics for operations that are not faulted, the scripted cargo/rustc stand-in, the project generator's range.")
notes={
"C01":"Each case runs one generated project repeatedly with different hash seeds, heap layouts, pids, clocks, directory orders, working directories and tree locations and compares all outputs byte for byte.",
"C02":"Histories of runs, edits and 14 kinds of prior content of the header path against a model of write-iff-changed; every open-for-write, inode, mtime, returned flag and verify status is checked, with short and interrupted reads injected.",
"C03":"Create, mkdir and write failures, partial writes and finite disks on the outputs; exit 0 is checked against the undisturbed outputs and an independent list of symbols.",
"C04":"Histories of crashes (any operation, torn writes, lost unsynced data), errors and edits; one undisturbed run must reproduce a fresh directory's outputs.",
"C05":"Stat/open/read failures and invalid bytes on every kind of input, with prior outputs in place.",
"C06":"Child processes that cannot be started, fail, die, answer nonsense or flood their streams; hang detection by the scheduler.",
"C07":"Nested program and library runs are placed at chosen points of the outer macro expansion; every mutating operation of theirs is checked.",
"C08":"Two to four real processes interleaved by the scheduler at system-call granularity.",
"C09":"Sequences and threads of generations in one process, compared with each generation alone in a fresh process.",
"C10":"Interruptions and short transfers on all reads and writes, and caller-supplied writers that are short, interrupted or fail for good.",
"C11":"Build histories driven only by the depfile against clean builds; the depfile is compared with the files the process opened.",
"C12":"Every mutating system call and a snapshot of the whole tree before and after, under faults, crashes and concurrency.",
"C13":"The environment, directory and leftovers of every expansion child, under clean mode, overrides, enclosing builds, failures and concurrency.",
"C14":"Atomic replacements of version-tagged input files between any two system calls; the header must combine one version per file.",
"C15":"Generated dependency graphs, permuted metadata and lock files, spellings of the crate directory, namesakes and cycles against a model of the crates to be bound.",
"C24":"A driver process runs sequences of generations (successes, errors, caught panics, failing writes) and compares its own kernel state - descriptors, children, threads, umask, signals, limits, panic hook, environment, directory - before and after each; the shim counts files open at once, also on projects with hundreds of modules and under a small descriptor limit.",
"C25":"Faults on every input, output and child, each run at four verbosities and under another hash seed; standard error is matched against what the injected fault says must be named.",
}
checks=[{"property":k,"quick_cmd":f"bash check.sh {k}","thorough_cmd":f"VERIF_TIER=thorough bash check.sh {k}",
 "technique":"deterministic simulation with fault injection (seeded schedule and fault search over real processes)","level":"exploration","level_note":n+common} for k,n in notes.items()]
pure="pure function of the source text and configuration: "
na={
"C16":pure+"whether a header compiles depends on no schedule, clock, I/O outcome, crash or other party, so a simulator has nothing to decide.",
"C17":pure+"layout agreement is a static relation between the Rust type and the emitted text; no concurrency, time, I/O or faults are involved.",
"C18":pure+"which items are declared is decided by one sequential pass over the parsed text. (The parts that depend on I/O - items missing because an input was unreadable, torn or in the wrong crate - are C05, C06, C14 and C15.)",
"C19":pure+"names are computed from names; the only environment dependence (hash order) is covered by C01.",
"C20":pure+"translation of cfg expressions; the only environment dependence (choice among matching defines under hash order) is covered by C01.",
"C21":pure+"ordering of declarations; the only environment dependence (hash order) is covered by C01.",
"C22":pure+"translation of literals and expressions.",
"C23":pure+"mapping from settings to text. (Where settings meet I/O - the configuration file that cannot be read, changes during the run, or is missing from the depfile - C05, C14 and C11 decide.)",
}
json.dump({"version":1,"setup_cmd":"bash setup.sh","checks":checks,
 "not_applicable":[{"property":k,"reason":r} for k,r in na.items()],
 "notes":"No hooks in /repo: the seams are the C library's system-call wrappers (an LD_PRELOAD shim), the CARGO and RUSTC variables, and the public library API. See DESIGN.md."},
 open(os.path.join(V,"MANIFEST.json"),"w"),indent=1)
