#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
W = "src/vfcwrapper/main.c.in"
RNG = "src/interflop-stdlib/rng/vfc_rng.c"
MCA = "src/backends/interflop-backend-mcaquad/interflop_mca.c"
MCI = "src/backends/interflop-backend-mcaint/interflop_mca_int.c"
BM = "src/backends/interflop-backend-bitmask/interflop_bitmask.c"
CA = "src/backends/interflop-backend-cancellation/interflop_cancellation.c"
IE = "src/backends/interflop-backend-ieee/interflop_ieee.c"
VP = "src/backends/interflop-backend-vprec/interflop_vprec.c"
VF = "src/backends/interflop-backend-vprec/interflop_vprec_function_instrumentation.c"
FI = "src/vfcwrapper/funcinstr.c"
LOG = "src/interflop-stdlib/iostream/logger.c"
HM = "src/interflop-stdlib/hashmap/vfc_hashmap.c"
PR = "src/common/vfc_probes.c"
DS = "src/tools/ddebug/DD_stoch.py"
DD = "src/tools/ddebug/DD.py"
DM = "src/tools/ddebug/main.py"
CI = "src/tools/ci/test.py"
CD = "src/tools/ci/test_data_processing.py"
SU = "src/tools/ci/setup.py"
VTK = "src/tools/vtk/__main__.py"
PX = "src/tools/optimize/precexp.py"
DRV = "verificarlo.in.in"
P = []
def p(id, title, statement, over, qtext, why, files, mech, state, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=s, where=files[0]) for s in state], observe_at=[observe], hook_needed=hook)))

p("P01", "A fixed seed reproduces every result under any thread interleaving",
  "With a fixed seed, the perturbed results a thread obtains depend only on the seed, on how many threads of the process drew noise before it, and on the operations it performs itself. The interleaving of threads, the wall clock, thread and process identifiers and repeated executions never change them, and seeds saved and restored by the program continue exactly where they stopped.",
  ["schedules", "inputs", "histories", "configurations"],
  "all interleavings of 1-6 threads at every memory access, all clocks and thread ids, all noise backends and modes that draw random numbers",
  "The repository's fixed-seed test runs one thread once per backend; interleavings at memory-access granularity, clocks and identifiers are not controlled by any test.",
  [RNG, MCA, MCI, BM, CA],
  [("per-thread generator state and its lazy seeding", RNG), ("backend context copies seed settings to generator", MCA)],
  ["thread-local generator state", "shared thread counter", "backend context"],
  "values returned by the instrumented operations")
p("P02", "Threads never share a noise stream, whatever the clock does",
  "No two threads of one process draw the same sequence of perturbations, with a fixed seed or without one. This holds for every interleaving of their first operations and for every behaviour of the clock, including a stopped clock, a clock stepping backwards and threads starting within the same clock tick.",
  ["schedules", "fault_sequences", "histories"],
  "all orders of first draws, all clock readings and thread identifiers of concurrently living threads",
  "Collisions need specific clock readings and thread identifiers or a race during the first draw; tests use the real clock and one thread.",
  [RNG, MCA, MCI, BM, CA],
  [("stream seeding from counter or clock and thread id", RNG)],
  ["thread-local generator state", "shared thread counter"],
  "values returned to distinct threads executing identical operations")
p("P03", "Operations of one thread are never affected by other threads",
  "Every arithmetic operation, fused multiply-add and cast returns what it would return if its thread ran alone, for every backend without randomness and for every chain of such backends. No interleaving loses, mixes or tears operands or results, for scalar and vector operations of both precisions.",
  ["schedules", "inputs", "configurations"],
  "all interleavings at memory-access granularity of 2-6 threads with different operands, precisions and vector widths, over IEEE and VPREC configurations and chains",
  "The suite has no multi-threaded numerical test; a shared temporary or static buffer only shows for particular interleavings.",
  [W, IE, VP, MCA, BM, CA],
  [("dispatch loop over loaded backends", W), ("per-operation context reads", VP)],
  ["backend contexts", "any static storage in wrapper or backends"],
  "values returned to each thread compared with a single-threaded execution of the same thread")
p("P04", "Operation counters equal the operations executed, on every schedule",
  "When operation counting is enabled, the totals reported at exit for additions, subtractions, multiplications, divisions and fused multiply-adds equal exactly the number of operations of each kind executed by all threads, vector operations counting one per lane. The report appears once per counting backend, and counting never changes a result.",
  ["schedules", "histories", "configurations"],
  "all interleavings of up to 6 threads, all mixes of scalar/vector/float/double operations, all positions of the counting backend in a chain",
  "Lost updates need two threads inside the same read-modify-write; tests count single-threaded.",
  [IE, W],
  [("counter increments", IE), ("report at finalisation", IE)],
  ["per-backend operation counters"],
  "report on standard error at process exit")
p("P05", "Every operation reaches every loaded backend once, in order",
  "Each operation is applied exactly once by every loaded backend that implements it, in the order the backends are listed and with the original operands, and the program receives the result of the last one. Each backend is initialised exactly once before the first operation, receives every user call once with all its arguments, and is finalised exactly once, even when several instrumented libraries are loaded or loaded concurrently with use.",
  ["schedules", "histories", "configurations"],
  "all chains of 1-16 backends including partial ones, all interleavings, all orders of library loading, user calls and exit",
  "Tests use one or two real backends single-threaded and cannot see which backend received what.",
  [W, FI],
  [("dispatch loops", W), ("loading and once-only initialisation", W), ("user call forwarding", W), ("function enter/exit forwarding", FI)],
  ["table of loaded backends", "initialisation flag"],
  "calls received by recording backends placed in the chain, and values returned to the program")
p("P06", "A faulty configuration stops the program before its first operation",
  "If the backend configuration is missing, malformed or names a library or option that cannot be honoured, or if reading it fails, the program ends with a failure status and a message on standard error before any operation executes. It never runs with fewer, other or default backends or options, whatever the logger settings.",
  ["configurations", "fault_sequences", "inputs"],
  "all single and combined configuration faults: absent/empty variables, unreadable or empty configuration file, read errors, missing library, missing entry points, unknown or out-of-range options, too many backends or arguments, incomplete operation coverage, failing allocations; all logger settings",
  "Tests check a few bad options; faults in opening and reading, limits, and combinations with logger settings are not exercised.",
  [W, LOG, MCA, VP, BM, CA, IE, MCI],
  [("configuration parsing and library loading", W), ("error reporting terminates", LOG), ("option parsers", MCA)],
  ["table of loaded backends", "logger settings"],
  "exit status, standard error, and whether any operation returned")
p("P07", "Loading the configuration does not alter it for anyone else",
  "The configuration a program receives through its environment or a configuration file has the same effect whichever way it is given, and loading it leaves environment and file unchanged. Processes started by an instrumented program therefore run with the same backends and options as their parent, generation after generation.",
  ["histories", "configurations"],
  "all configurations (number of backends, arguments, spacing), both ways of giving them, all process trees up to depth 3",
  "Tests start one process from a shell; inheritance across generations of instrumented processes is never exercised.",
  [W],
  [("parsing of the configuration string", W)],
  ["process environment", "configuration file"],
  "environment seen by a child and the backend behaviour of the child")
p("P08", "The delta-debug site list is exactly the set of executed sites",
  "In site-generation mode the file written at exit lists every instrumented operation site that was executed by any thread, each exactly once, and no other site. This holds for every interleaving, whatever the file contained before, and whatever other child processes the program has; if the list cannot be produced completely the program fails visibly.",
  ["schedules", "fault_sequences", "histories"],
  "all interleavings of first executions of up to several hundred sites by up to 6 threads, all previous file contents, failing or interrupted helper processes, unrelated children",
  "Tests generate from single-threaded programs into fresh files.",
  [W, HM],
  [("recording of executed sites", W), ("site list writer", W), ("hash table growth", HM)],
  ["table of executed sites", "output file"],
  "content of the generated file and exit status")
p("P09", "Delta-debug filters perturb exactly the selected sites",
  "With an inclusion list only listed sites are perturbed, with an exclusion list every site but the listed ones, exclusion winning over inclusion; every other operation returns the plain floating-point result. A list that cannot be opened, read or understood stops the program instead of changing which sites are perturbed, and a generated list used for inclusion selects all executed sites.",
  ["schedules", "inputs", "fault_sequences", "configurations"],
  "all pairs of include/exclude subsets of up to several hundred sites, all interleavings, all list sizes across table growth, missing/unreadable/truncated lists",
  "Tests use one small list and one thread, never a list that fails to open or read.",
  [W, HM],
  [("filter file reader", W), ("filter lookup per operation", W), ("hash table", HM)],
  ["include and exclude tables"],
  "per-site results compared with plain arithmetic")
p("P10", "A probe dump that reports success is complete on disk",
  "When dumping probes reports success, the output file holds every registered probe with its exact value, threshold and check kind, and nothing else. If opening, writing or closing the file fails at any point, the dump reports failure to the caller or ends the program with a failure status.",
  ["fault_sequences", "crash_points", "histories", "inputs"],
  "all probe histories, an I/O error or short write at any write, flush or close, a full disk after any number of bytes, pre-existing file contents",
  "Tests dump to a healthy disk only.",
  [PR, HM],
  [("CSV writer", PR)],
  ["probe table", "output file"],
  "return value or exit status versus file content")
p("P11", "Probe registration keeps distinct names and rejects duplicates",
  "Every accepted probe is kept with its exact value until dumped or freed, distinct test and variable name pairs never disturb one another, and the reported number of probes is the number accepted. Registering a pair twice, or a name containing the field separator, always ends the program with a failure status.",
  ["histories", "inputs"],
  "all sequences of registrations up to several thousand probes, including names chosen to collide in the table, several probe sets, and reuse after freeing",
  "Tests register a handful of short names that never collide.",
  [PR, HM],
  [("duplicate detection", PR), ("table insertion, lookup and growth", HM)],
  ["probe table"],
  "probe counts, dumped file and exit status")
p("P12", "VPREC function scopes apply and restore precision exactly",
  "While an instrumented function with its own precision settings runs, its operations use those settings, and after it returns its caller's settings are in force again, for every nesting, recursion and sequence of calls. Arguments and results are rounded to their own settings, all elements of array arguments included, and with no settings the program computes as without function instrumentation.",
  ["histories", "inputs", "configurations"],
  "all call trees to depth 12 with recursion and repeated call sites, all settings files for the functions called, all instrumentation modes, chains of backends",
  "Tests use a few fixed call trees with scalar arguments.",
  [VF, VP, FI],
  [("enter/exit handling", VF), ("call stack", FI)],
  ["effective precision and range", "call stack", "function table"],
  "values returned by operations and arguments seen by functions")
p("P13", "VPREC profiles are exact, reloadable, and complete or reported",
  "The profile written at exit lists every instrumented call site reached with its exact number of calls, argument counts, types and settings, and reading it back reproduces these settings. A profile that cannot be opened, read or written completely makes the program fail visibly instead of continuing with partial settings or leaving a truncated profile behind as success.",
  ["histories", "fault_sequences", "configurations"],
  "all call histories, all I/O faults while reading or writing, truncation of the profile at any byte",
  "Tests write and read small profiles on a healthy disk.",
  [VF],
  [("profile writer", VF), ("profile reader", VF)],
  ["function table", "profile file"],
  "profile file content, exit status, and settings in effect after reload")
p("P14", "Perturbation always matches the virtual precision in force",
  "After any sequence of precision changes, explicit perturbation requests and seed changes made by the program, every operation is perturbed at exactly the virtual precision then in force for its type: the error stays within the bound for that precision and mode, noise reaches the last protected bit, and results that the mode promises to leave exact stay exact. Changes made for one precision never affect the other, and no schedule makes an operation use a precision that was not in force during it. Denormal operands and results of arithmetic operations are flushed to zero exactly when this was requested.",
  ["schedules", "histories", "inputs", "configurations"],
  "all interleavings of operations with precision changes by one thread, all histories of user calls, modes, error modes, sparsity and flushing options of the MCA backends",
  "Tests check fixed precisions with no changes during execution or from another thread.",
  [MCA, MCI, W],
  [("noise application", MCA), ("user calls", MCA), ("noise application on integers", MCI)],
  ["backend context", "generator state"],
  "distance between returned values and the exact results")
p("P15", "Delta-debug search results fail, are minimal and leave nothing out",
  "Each minimal set the search reports contains a recorded failing run, and removing any single site from it gives a set whose runs all passed, as many as requested; the sites outside all reported sets pass together. The outcome is the same whether sample runs execute one after another or in parallel in any completion order, and no comparison uses a run that has not finished.",
  ["schedules", "inputs", "histories", "configurations"],
  "all failure patterns over up to 40 sites (single, joint, flaky by run), all completion orders of parallel runs, all search variants and sample counts",
  "Tests run one program with one pattern sequentially.",
  [DS, DD, DM],
  [("search algorithms", DD), ("search drivers", DS), ("sample execution and result cache", DS)],
  ["result directories on disk", "site list"],
  "reported sets and result directories")
p("P16", "An interrupted delta-debug session can be repeated to the same answer",
  "If a delta-debug session is killed at any moment or hits a storage error, running the same command again in the same directory completes and reports the same sets as a session that was never interrupted. Runs left unfinished by the first session are never counted as passed or failed, and sites selected for a run are always those of its set.",
  ["crash_points", "fault_sequences", "histories"],
  "a kill before or after any file-system operation, at any byte of any file written, or during any run, up to 3 interruptions in a row, disk errors",
  "No test interrupts a session.",
  [DS],
  [("result cache reuse", DS), ("include/exclude file generation", DS)],
  ["result directories on disk"],
  "outcome of the repeated session and include lists seen by runs")
p("P17", "CI results contain exactly what completed runs recorded",
  "A CI test run executes every configured executable with every configured backend the configured number of times, and its results contain every value recorded by executions that exported their probes, once, attributed to the right test, variable and backend. An execution that crashed, timed out, or exported nothing or a torn file contributes nothing, is listed as a warning, and never stops or alters the others.",
  ["fault_sequences", "histories", "configurations", "crash_points"],
  "all configurations of executables/backends/repetitions, crash or timeout of any execution at any point, probe files torn at any byte",
  "Tests run healthy executables only.",
  [CI, CD],
  [("execution loop", CI), ("probe file reader", CI), ("aggregation", CI)],
  ["probe files", "collected data"],
  "results file and warnings")
p("P18", "A CI results file is complete whenever it exists",
  "A results file found after a CI test run, successful or interrupted at any point, contains the run's metadata and all of its data; an interrupted or failed export leaves no file under the final name and never damages an earlier results file. Success is announced only when the file was written.",
  ["crash_points", "fault_sequences"],
  "a kill or storage error before, during or after each step of the export, with and without raw export, existing files of the same name",
  "Tests never interrupt an export.",
  [CI],
  [("export of metadata, data and deterministic data", CI)],
  ["results file"],
  "directory content after the interruption")
p("P19", "Precision exploration terminates with a validated configuration",
  "Precision exploration ends after a bounded number of runs for every program behaviour, including runs that fail, hang, print large outputs or never match the reference. Each precision it reports as sufficient was checked by a run that matched the reference, and the whole reported configuration is one the last accepted run used.",
  ["fault_sequences", "histories", "inputs"],
  "all acceptance patterns (monotone, non-monotone, never accepting), hanging or crashing runs at any point, any output volume",
  "The tool has no test; hangs and non-monotone behaviour need controlled program behaviour.",
  [PX],
  [("dichotomic search", PX), ("run and compare helper", PX)],
  ["configuration file", "result tables"],
  "tool termination, runs requested and results tables")
p("P20", "The compiler driver reports any failed stage and cleans up",
  "If any stage of a compilation fails, is killed or cannot start, the driver exits with a failure status; it exits with success only when every requested output was produced from the given sources by every stage. No temporary file remains in any case unless requested, and concurrent compilations in one directory never read or remove each other's intermediate files.",
  ["fault_sequences", "schedules", "crash_points", "configurations"],
  "a failure of any stage of any source, all interleavings of up to 4 concurrent compilations, colliding temporary names, all option combinations",
  "Tests compile one file at a time with all stages succeeding.",
  [DRV],
  [("stage runner", DRV), ("temporary files", DRV), ("compile and link pipelines", DRV)],
  ["temporary files", "outputs"],
  "exit status, outputs and directory content")
p("P21", "The IEEE backend is transparent",
  "A program run with the IEEE backend, or a chain ending with it, obtains bit for bit the results of the uninstrumented program for every arithmetic operation, fused multiply-add, cast and comparison predicate, including special values, scalar and vector, in every thread. Printing and counting options never change a result, and disabled flushing options leave denormals untouched.",
  ["schedules", "inputs", "configurations"],
  "all operands including infinities, NaN, zeros, denormals, all 16 comparison predicates, all interleavings, all option combinations",
  "Tests sample a few values and predicates, single-threaded.",
  [IE, W],
  [("operations and comparison predicates", IE), ("dispatch", W)],
  ["backend context"],
  "values returned compared with the host floating-point unit")

p("P22", "CI setup announces success only when in place and spares the user's work",
  "CI setup reports success only when the remote holds the workflow commit on the development branch and the CI branch, and its commits contain only what it generated. Whether it succeeds, fails, is killed or loses the remote at any step, the user's files (tracked or not), the checked out branch, and the contents of existing remote branches are kept.",
  ["fault_sequences", "crash_points", "histories", "configurations"],
  "failure or kill at any git command or file operation, a remote that is down, read-only or moved by others at any time, any repository state",
  "The command has no test; the faults concern a remote and processes the tests do not control.",
  [SU],
  [("checks before the setup", SU), ("workflow commit and CI branch", SU)],
  ["work tree, index and branches", "remote branches"],
  "announced outcome, local and remote repository contents")
p("P23", "VTK postprocessing merges every trace and leaves its inputs alone",
  "For any set of traces, in any directory listing order, a successful run writes for every Float32 array of the reference the mean or the reference values and the accuracy computed over all traces. A file or array missing or damaged in one trace, an unreadable or full disk, or an existing output directory makes the tool fail, and inputs and existing outputs are never modified, whatever happens.",
  ["fault_sequences", "crash_points", "inputs", "configurations"],
  "any number of traces, files, pieces and arrays, any listing order, storage errors and kills at any file operation",
  "The tool has no test.",
  [VTK],
  [("merge of one file", VTK), ("output directory and list of files", VTK)],
  ["output directory"],
  "exit status, output directory and inputs after the run")

# not decided here (see MANIFEST not_applicable)
p("N01", "VPREC rounding is correct for every value, precision and range",
  "For a single operation, the returned value is the correctly rounded value of the chosen format, including overflow, underflow and denormal results.",
  ["inputs"], "all operands, precisions and ranges", "The value space cannot be enumerated by tests.",
  [VP, "src/backends/interflop-backend-vprec/common/vprec_tools.c"], [("rounding kernels", VP)], [], "returned value")
p("N02", "Instrumentation replaces exactly the selected floating-point operations",
  "Every floating-point operation of a selected function, and no other, is replaced by its instrumented counterpart, and the instrumented program is otherwise unchanged.",
  ["programs"], "all programs and selection files", "Tests compile a handful of programs.",
  ["src/libvfcinstrument/libVFCInstrument.cpp", "src/libvfcfuncinstrument/libVFCFuncInstrument.cpp"], [("instrumentation passes", "src/libvfcinstrument/libVFCInstrument.cpp")], [], "emitted code")
p("N03", "Noise follows the documented distributions",
  "Perturbations are uniformly distributed over the documented interval and unbiased, for every mode and precision.",
  ["inputs"], "all modes and precisions", "A statistical property of a pure function.",
  [MCA, MCI, BM, CA], [("noise generation", MCA)], [], "distribution of returned values")
p("N04", "The PRISM backend rounds stochastically and in order",
  "Programs compiled for the PRISM backend obtain stochastically rounded results under both dispatch modes.",
  ["inputs", "configurations"], "all vector widths and dispatch modes", "Not built in this environment.",
  ["src/libvfcinstrumentprism/libVFCInstrumentPRISM.cpp"], [("PRISM pass", "src/libvfcinstrumentprism/libVFCInstrumentPRISM.cpp")], [], "returned values")
p("N05", "The CI report shows the data of the run files",
  "The report server displays for every run, test and variable the metrics stored in the run files.",
  ["inputs", "histories"], "all sets of run files", "The rendering is not tested.",
  ["src/tools/ci/vfc_ci_report/main.py"], [("report pages", "src/tools/ci/vfc_ci_report/main.py")], [], "rendered report")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        assert x["statement"].count(". ") <= 2, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
