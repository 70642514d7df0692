#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                    "observe_at": list(observe), "hook_needed": hook}})


SOLVER = "licant/solver.py"
CORE = "licant/core.py"
MAKE = "licant/make.py"
CLI = "licant/cli.py"

prop("C01", "A build step starts only after everything it depends on has finished",
     "In every build, whatever the number of parallel jobs and however the running steps interleave, a step (command, file "
     "operation or user function) starts only after every step it depends on, directly or through other targets (file sets, "
     "directories, sources, routines), and which has to run in this build, has finished successfully. "
     "This holds whichever spelling (relative, absolute, with . or ..) the dependencies use and in whichever order the targets were declared.",
     ["schedules", "inputs", "configurations"],
     "for all acyclic target graphs, all spellings and declaration orders, all job counts >= 1, all durations of the steps and all "
     "interleavings of the worker threads with the event loop",
     "The one solver test runs a single five-target graph with 3 threads under whatever schedule the machine gives; an ordering hole "
     "that needs two completions to race, a shared dependency or an alias of a file name is never met.",
     [SOLVER, CORE, MAKE],
     [("dependency counters decreased on completion, queue of ready targets", "licant/solver.py DependableTargetRuntime/TaskInvoker"),
      ("closure of the requested target and its name resolution", "licant/core.py recurse_update, depends_as_set, get/has")],
     [("depcount", "unfinished dependencies of a target", "licant/solver.py"),
      ("inverse_deps", "targets to release when a target is done", "licant/solver.py")],
     ["start and end of every command / build function / file mutation"])

prop("C02", "A successful build runs every needed step exactly once and nothing else",
     "When a build reports success, every out-of-date step in the dependency tree of the requested target has been executed exactly once. "
     "No build, successful or not, executes a step twice, and none executes a step outside the dependency tree of the requested target.",
     ["schedules", "inputs", "configurations"],
     "for all acyclic graphs (shared dependencies, several spellings of one file), job counts, durations and interleavings",
     "Tests build chains of at most three files and check that outputs exist; a step run twice under a race, a step silently skipped when workers "
     "shut down early, or a step of an unrelated target leaves the same files there.",
     [SOLVER, CORE],
     [("each target enters the ready queue once, when its counter reaches zero", "licant/solver.py decrease_inverse_deps_count"),
      ("workers leave only when all are idle and the queue is empty", "licant/solver.py TaskInvoker.worker"),
      ("deduplication of the dependency tree by target object", "licant/core.py recurse_update")],
     [("queue", "ready targets", "licant/solver.py"), ("thread_on_base", "which workers are idle", "licant/solver.py")],
     ["executed steps per build"])

prop("C03", "Every build terminates: no schedule or step outcome can hang it",
     "For every acyclic graph and every job count of at least one, a build returns control (or ends the process) once its steps have ended, "
     "under every interleaving and whatever the steps do: succeed, return failure, raise an exception, exit, be killed, print any amount "
     "of output or output that is not valid text. This also holds when writing to licant's own standard output fails. licant's own work for a "
     "build stays proportionate to the size of the graph (its targets and edges), not to the number of paths through it.",
     ["schedules", "fault_sequences", "inputs", "configurations"],
     "for all graphs, job counts, interleavings and assignments of outcomes (including exceptions and outputs larger than a pipe) to steps, and all "
     "points at which standard output starts to fail",
     "No test has a failing, raising or verbose step, and a lost wake-up needs one particular interleaving; a hung run is only seen by a user.",
     [SOLVER, MAKE],
     [("queue.join()/task_done() accounting and draining of the queue after an error", "licant/solver.py TaskInvoker"),
      ("waiting for a command and collecting its output", "licant/make.py do_execute")],
     [("error_while_execution", "a step failed", "licant/solver.py")],
     ["return of the build call", "deadlock: no runnable thread, command or timer"])

prop("C04", "After a step fails nothing that depends on it runs and no new work starts",
     "If a step fails (non-zero exit, explicit failure result, exception), no step that depends on it, directly or indirectly, starts in that build, "
     "and once the failure has been noticed no further step starts at all. "
     "Steps that were already running are allowed to finish before the build returns: when it returns, nothing of it is still running.",
     ["schedules", "fault_sequences", "inputs"],
     "for all graphs, all non-empty sets of failing steps and ways to fail, all job counts and interleavings",
     "No existing test has a failing step.",
     [SOLVER, MAKE, CORE],
     [("error flag checked around every queue operation, queue drained on error", "licant/solver.py TaskInvoker.worker"),
      ("result False of a build step", "licant/core.py update_if_need, licant/make.py do_execute")],
     [("error_while_execution", "a step failed", "licant/solver.py")],
     ["start/end of steps after the end of the first failing step"])

prop("C05", "Build outcome and exit status report failure exactly when a step failed",
     "A build reports success (result of the call, zero exit status of the command line) if and only if every step it ran succeeded, under every schedule and for every "
     "failing step, including one that fails while others are finishing or have already failed. "
     "On failure the exit status is non-zero and a failing target is named in the output.",
     ["schedules", "fault_sequences", "inputs", "configurations"],
     "for all graphs, sets of failing steps (including the empty set), ways to fail, job counts, entry points (command line, library calls) and interleavings",
     "Tests only run builds that succeed and do not look at the result or exit status.",
     [SOLVER, CLI, CORE, MAKE],
     [("error flag to result of exec()", "licant/solver.py InverseRecursiveSolver.exec"), ("exit status of the command line", "licant/cli.py cliexecute"),
      ("exit code of a command to the step's result", "licant/make.py do_execute")],
     [], ["value returned by the build call", "exit status of the simulated process", "text on standard output"])

prop("C06", "At most N steps run at once with N jobs, and no free job idles beside ready work",
     "With a job count of N, no more than N steps of a build are ever running at the same time. "
     "Conversely (for N up to the number of processors), whenever the build is waiting for running steps, either N steps are running or every "
     "step whose dependencies are all done is already running.",
     ["schedules", "inputs", "configurations"],
     "for all graphs, job counts, step durations and interleavings, at every instant of the build",
     "Tests never observe how many steps overlap.",
     [SOLVER, CLI],
     [("N worker coroutines, each awaiting one step in a thread", "licant/solver.py TaskInvoker.start/worker"), ("-j option", "licant/cli.py")],
     [("thread_on_base", "idle workers", "licant/solver.py")],
     ["number of running steps at every quiescent instant of the simulation"])

prop("C07", "After a successful build every output equals a clean build of current sources",
     "Whenever a build of a target reports success, every file in its dependency tree has exactly the content that building it from nothing out of the "
     "current sources would give. This holds after any history of edits, touches and deletions of sources and deletions of outputs between builds, of earlier builds of "
     "other targets, of failed builds and of cleans, for every declaration order, spelling of paths, job count and schedule "
     "(assuming an edited file gets a modification time later than everything built before it, and that no file is taken away from a wildcard dependency).",
     ["histories", "schedules", "inputs", "configurations"],
     "for all rule graphs over copies, commands, build functions, file sets, directories and routines, all edit/build/clean histories, all declaration orders and "
     "interleavings",
     "The tests do one edit in one two-file project within one process; staleness needs histories (edit, partial build, restart, rebuild) and particular declaration orders.",
     [MAKE, CORE, "licant/cache.py", SOLVER],
     [("modification time comparison", "licant/make.py internal_update_if"), ("propagation of need over dependencies", "licant/core.py recursive_update_needed_request"),
      ("file information cache refreshed after each step", "licant/cache.py"), ("lookup of targets by name and canonical path", "licant/core.py get/has")],
     [("fcache", "per process cache of existence and mtime", "licant/cache.py"), ("need_update", "decision per target", "licant/core.py")],
     ["content of all files of the tree after each successful build"])

prop("C08", "Up-to-date steps are not rerun; a second build right after success runs nothing",
     "A build executes only steps that are out of date: those whose output is missing or older than a file they depend on, those "
     "forced or always-run by declaration, and those depending on such steps. In particular, repeating a successful build with nothing changed in between runs "
     "no file step, and after an edit exactly the steps downstream of it run, for every history, schedule and time stamp granularity.",
     ["histories", "schedules", "inputs", "configurations"],
     "for all rule graphs, histories and interleavings, with nanosecond and with coarse time stamps (many files of one build sharing one)",
     "One test copies a file twice and compares the time stamps; over-building needs shared dependencies, directories, equal time stamps or partial earlier builds.",
     [MAKE, CORE, "licant/cache.py"],
     [("strict mtime comparison, directories without mtime", "licant/make.py internal_update_if, DirectoryTarget.mtime"),
      ("propagation of need", "licant/core.py")],
     [("fcache", "cache of existence and mtime", "licant/cache.py")],
     ["executed steps of each build against the reference model"])

prop("C09", "After a failed, interrupted or killed build, the next build repairs everything",
     "After a build that failed, was interrupted or whose process was killed at any moment, running the build again (with nothing failing any more) succeeds and leaves every output in the tree "
     "with the content of a clean build. Nothing a failed or interrupted step left behind is ever taken for an up-to-date output.",
     ["crash_points", "fault_sequences", "histories", "schedules"],
     "for all rule graphs, all points at which a command fails (before, during or after writing its output) or a build function raises, all points at which licant is interrupted or killed with its "
     "commands killed or surviving, repeated any number of times before the successful run",
     "No test fails or kills anything; the states in between exist only for an instant of one schedule.",
     [MAKE, CORE, "licant/cache.py", SOLVER, "licant/cxx_modules.py"],
     [("decision from durable files only", "licant/make.py internal_update_if"), ("handling of the output of a failed step", "licant/make.py FileTarget.update")],
     [], ["content of all files after the recovering build"])

prop("C10", "Licant touches only declared outputs; clean removes exactly those",
     "Whatever the history, schedule and faults, licant itself never creates, changes or removes a file that is not a declared output (or a directory needed for one): sources are "
     "never modified or deleted. Cleaning a target removes every generated file of its dependency tree and nothing else (no sources, directories or files of other "
     "targets), and a following build restores everything; a clean that could not remove a file does not report success.",
     ["histories", "fault_sequences", "schedules", "inputs"],
     "for all rule graphs, histories of builds, failures, kills and cleans, and all interleavings",
     "No test cleans anything or looks at files other than the requested output.",
     [MAKE, CORE],
     [("sources have no delete action", "licant/make.py source"), ("clean walks the dependency tree", "licant/make.py MakeFileTarget.clean, clr")],
     [], ["every mutation of the simulated file system, with the step it belongs to"])

prop("C11", "All output of every command is relayed whole, once, unmixed with others",
     "Everything a command of the build writes to its standard output and standard error appears on licant's standard output exactly once and as one contiguous block per stream, for any amount and "
     "encoding of output, whether the command succeeds or fails, and however many commands run at the same time.",
     ["schedules", "inputs", "fault_sequences"],
     "for all sizes and contents of output (larger than a pipe, no final newline, invalid UTF-8), exit statuses, job counts and interleavings, including those inside the printing code",
     "Tests run quiet commands one at a time and do not look at the output.",
     [MAKE],
     [("print lock around each message", "licant/make.py do_execute sprint"), ("collection of both pipes", "licant/make.py do_execute")],
     [("_rlock", "serialises printing", "licant/make.py")],
     ["captured standard output of the simulated process"])

prop("C12", "C/C++ objects are rebuilt whenever any header they include changes",
     "For applications, libraries and object sets built from C/C++ modules, a successful build in a new process leaves every object, library and executable as a clean build from the current sources and headers would, after any history of "
     "editing and adding sources, and of editing, adding, removing, moving and re-including headers (apart from those for Qt's moc not named in the build script, and no new header hiding another of the same name), across repeated, failed, interrupted and partial "
     "builds and process restarts. Repeating a successful build in a new process compiles nothing, and editing one header recompiles only the objects that include it. Taking sources away, changing options or the script, and edits during the life of one "
     "process are outside this property.",
     ["histories", "crash_points", "schedules", "inputs"],
     "for all include graphs and their evolution, module layouts (local, nested and library directories), build directories, job counts and interleavings, and failures or kills between the dependency pass and the compilation",
     "One test compiles a single main() with no include, once; the dependency information lives in generated files that are produced in one run and used in the next.",
     ["licant/cxx_modules.py", "licant/cxx_make.py", "licant/util.py", MAKE],
     [("generated .d files read when the script is loaded", "licant/cxx_modules.py link_objects, licant/util.py cxx_read_depends"),
      ("missing/empty .d forces regeneration", "licant/cxx_modules.py link_objects")],
     [("*.d files", "headers found by the last dependency pass", "build directory")],
     ["content of objects and executables", "compile commands executed"])

prop("C13", "Directories for outputs exist before the step that writes there starts",
     "Every step whose output lies in a directory that did not exist when the script was loaded finds that directory, with all its parents, created when it starts, for every job count and interleaving and however many outputs share "
     "the directory; creation happens only when the build needs it. A directory that somebody else creates at any moment in between does not make the build fail.",
     ["schedules", "inputs", "fault_sequences"],
     "for all output layouts (shared and nested new directories, both APIs), job counts, interleavings, and all moments at which a directory may appear from outside",
     "Tests create one or two outputs in one new directory without other activity.",
     [MAKE],
     [("directory targets added as dependencies", "licant/make.py dirkeep"), ("creation at build time", "licant/make.py DirectoryKeeper")],
     [], ["existence of the parent directory at every step start", "mkdir operations"])

prop("C14", "A crash or disk error never damages the library registry",
     "If updating the registry of libraries (system-wide or per-user) is killed, loses power or meets a disk error or full disk at any point, the registry file afterwards holds either exactly its contents before the update or exactly those after it, and stays readable for "
     "later updates, listings and library lookups by build scripts. An update that reports success has reached the file.",
     ["crash_points", "fault_sequences", "histories"],
     "for all registry contents and updates, all kill points, all file operations failing with I/O error or no space, short writes, and loss of data not yet flushed at a power cut",
     "There is no test of the registry at all.",
     ["licant/licant_libs.py", "licant/libs.py"],
     [("rewrite of the JSON registry file", "licant/licant_libs.py licant_libs_utility")],
     [("registry file", "name -> path", "/var/lib/licant, ~/.licant")],
     ["registry file after restart", "listing and lookups after restart"])

prop("C15", "The library registry reflects every past add and remove",
     "After any sequence of successful registry commands (add one library, add all of a directory, replace, remove; system-wide or per-user) the registry maps exactly the names added and not removed since, each to the "
     "absolute path given last; the other registry is untouched. Listings and build scripts see precisely this, with a user's entry winning over a system entry of the same name.",
     ["histories", "fault_sequences", "inputs"],
     "for all sequences of commands over a few names and both registries, with failing commands (missing files, wrong arguments, disk errors, kills) in between",
     "There is no test of the registry at all.",
     ["licant/licant_libs.py", "licant/libs.py"],
     [("command line of the registry tool", "licant/licant_libs.py"), ("merging of both registries", "licant/libs.py init")],
     [("registry file", "name -> path", "/var/lib/licant, ~/.licant")],
     ["registry files", "output of list", "library paths used by include"])

prop("C16", "Install brings the target tree up to date; uninstall removes exactly that",
     "After a successful install every installed application, library and header equals the current project file, whatever was edited, installed, removed or failed before. Uninstall removes exactly the installed "
     "files: project files, built files and foreign files in the same directories stay, and a later install restores everything.",
     ["histories", "fault_sequences", "schedules", "inputs"],
     "for all sets of headers (nested directories), libraries and applications, all histories of edits, builds, installs, uninstalls and restarts, failing or killed copy commands, and all interleavings",
     "tests/install_test.py does not exercise installation at all.",
     ["licant/install.py", MAKE],
     [("copy targets into the prefix, grouped in file sets", "licant/install.py"), ("uninstall as clean over weak dependencies", "licant/install.py, licant/make.py MakeFileTarget.clean")],
     [], ["content of the installation prefix and of the project after each operation"])

prop("C17", "Ctrl-C stops a build promptly, cleanly and with a failure status",
     "When the user interrupts licant at any moment of a run, no step starts afterwards, the process terminates (without needing a second interrupt) as soon as the commands that were running have ended, with a non-zero exit status (a caller inside the process gets a failure result or KeyboardInterrupt instead).",
     ["crash_points", "schedules", "fault_sequences"],
     "for all graphs, job counts and moments of the interrupt (while loading, deciding, starting, waiting, finishing), with commands that die from or survive the signal",
     "No test interrupts anything.",
     [SOLVER, CLI],
     [("KeyboardInterrupt handling around the event loop and in the workers", "licant/solver.py TaskInvoker.run_until_complete/worker"), ("exit status", "licant/cli.py cliexecute")],
     [], ["step starts after the interrupt", "end and exit status of the simulated process"])

prop("C18", "Builds repeated within one process behave like builds in fresh processes",
     "When one process requests several builds, cleans or single actions in a row (on the same or different targets, with new targets declared in between, source edits announced through the update-information call), "
     "each of them executes the same steps, reports the same outcome and leaves the same files as it would in a freshly started process with the same declarations.",
     ["histories", "schedules", "fault_sequences", "inputs"],
     "for all rule graphs, all sequences of requests in one process (including ones that fail) and all interleavings",
     "Tests repeat one copy within one process; stale decisions or cached file information need failure, clean, or another target in between.",
     [CORE, MAKE, "licant/cache.py"],
     [("decisions recomputed before each action", "licant/core.py update_update_needity"), ("file information refreshed after each step", "licant/make.py update_info, licant/cache.py")],
     [("fcache", "cache of existence and mtime", "licant/cache.py"), ("need_update", "decision per target", "licant/core.py"), ("cached_deplist", "resolved dependencies", "licant/core.py")],
     ["executed steps, outcome and file contents of each request"])

prop("C19", "Registry commands running at the same time never corrupt the registry",
     "When several licant-libs commands run at the same time, the registry file holds at every moment, and after all of them or a crash or power loss in between, exactly what some of the commands, in some order, "
     "make of its previous contents. Each command succeeds or fails as it would alone, a listing shows such a state, and an update that no other one competes with is never lost "
     "(of competing updates to one registry at least one stays; licant does not lock).",
     ["schedules", "crash_points", "histories"],
     "for all combinations of two or three commands on both registries, all interleavings of their system calls, crashes and power cuts",
     "No test runs licant-libs at all.", ["licant/licant_libs.py", "licant/libs.py"],
     [("registry replaced in one step, through a temporary file of each process", "licant/licant_libs.py save_records")],
     [("/var/lib/licant, ~/.licant", "the registries", "licant/libs.py")], ["contents of both registries at every moment", "exit status of each command"])

# ---- not decidable by simulation here (pure functions of their input) ----
prop("C30", "Cyclic or dangling dependency graphs are rejected before any step runs",
     "A request to build a target below which the dependency graph has a cycle (a target may even depend on itself) or names an unknown target is refused "
     "with an error (exception, failure result, non-zero exit status) and no step is executed, whatever the job count, the state of the files and what the "
     "same process has built before. A graph made usable again by a new declaration builds as any other.",
     ["inputs", "histories", "configurations", "schedules"], "for all graphs, targets, job counts, sessions with declarations in between and states of the files",
     "The tests give three fixed graphs to the solver; that nothing at all runs, through every entry point, in sessions and with part of the graph out of date, is not tested.", [SOLVER, CORE],
     [("checks in the constructor", "licant/solver.py InverseRecursiveSolver.__init__"), ("look-up of names", "licant/core.py Core.get")], [], ["raised error, result, exit status", "steps executed"])
prop("C31", "Module requests resolve to the requested or the single default implementation",
     "Collecting what a module asks for, over any number of scripts and through any chain or cycle of requests, yields each needed module exactly once: with the implementation that a request names, "
     "otherwise with the module's default (the last one declared). Requests for different implementations of one module, unknown modules and implementations, and modules without a default end "
     "the run with a non-zero exit status before any command runs. The module queries of the command line report the same library and the same resolution.",
     ["inputs", "programs", "fault_sequences"], "for all module libraries, requests, scripts they are declared in, read errors and interrupts", "No test uses module dependencies.",
     ["licant/cxx_modules.py", "licant/modules.py"],
     [("collect_modules", "licant/cxx_modules.py"), ("library of modules", "licant/modules.py ModuleLibrary")],
     [("mdepends", "implementations chosen so far", "licant/cxx_modules.py"), ("mlibrary", "implementations and defaults", "licant/modules.py")],
     ["command lines", "output of cxxm collect_modules and m list", "exit status"])
prop("C32", "Options of included modules merge field by field as declared",
     "Every command that builds an assembly carries what its modules declare, and nothing else: sources, objects, include paths, defines, flags, libraries and linker scripts of the module itself, of what it "
     "includes and of what it depends on; a submodule inherits search paths, defines, flags, libraries, standards, tool chain and build directory of the assembly around it but not its sources or dependencies, "
     "and its own single values win; where none names a tool chain, the one the command line asks for is used; relative paths are those of the directory of the declaring script (and srcdir for sources), build directory and target those of the working directory. Everything named is "
     "compiled and is in the product. Options that do not exist or have the wrong type, on an assembly or submodule, and unknown kinds of source end the run with a non-zero exit status before any command runs.",
     ["inputs", "programs", "fault_sequences", "histories"], "for all option sets, nestings, scripts in any directories, failing commands, interrupts and repeated runs", "One module with two options is tested.",
     ["licant/cxx_modules.py", "licant/cxx_make.py", "licant/modules.py"],
     [("field table with merge functions", "licant/cxx_modules.py cxx_module_field_list"), ("modmake", "licant/cxx_modules.py prepare_targets"), ("rules", "licant/cxx_make.py options")],
     [("locopts", "options of the module being assembled", "licant/cxx_modules.py")], ["command lines of compiler, linker, archiver, moc and uic", "products", "exit status"])
prop("C33", "Command-line words select target, action and arguments unambiguously",
     "The words of a command line ask for exactly one call: none, the default target's default action; a target (a file in any spelling), its default action; a target and one of its actions, that action; a word "
     "that is no target but an action of the default target, that action; a routine with all that follows. Each remaining word is one argument, unchanged. That call and no other is made, whatever stands in the words, "
     "and the exit status tells whether it succeeded. All other command lines end with a non-zero exit status and nothing called, built or removed.",
     ["inputs", "histories", "fault_sequences"], "for all command lines, declared targets and actions, defaults, failing functions and commands, interrupts and broken output", "Only the empty command line is tested.",
     [CLI, "licant/core.py"], [("__cliexecute", "licant/cli.py"), ("invoke, hasaction", "licant/core.py Target")], [("default target", "name given by the script", "licant/cli.py")],
     ["invoked action and its arguments", "exit status", "files"])
prop("C34", "Nested scripts and libraries are executed once, relative to their own directory",
     "Executing sub-scripts, whole directories of scripts and libraries evaluates each requested script completely, in the order asked for (any order within a directory), with its own directory as "
     "the base of its relative paths, and each library at most once per run, also when libraries include each other; after a nested script has ended, in whatever way, relative paths are those of the "
     "script that asked for it again. A script that fails, is missing or cannot be read ends the run with a non-zero exit status and nothing after it is evaluated (unless a script handles the exit).",
     ["inputs", "programs", "fault_sequences", "histories"],
     "for all script trees and registries, starting directories, failing scripts, read errors, interrupts and earlier runs (links of local tunnels stay)",
     "No test executes a sub-script or includes a library.", ["licant/scripter.py", "licant/libs.py", "licant/util.py"],
     [("script stack", "licant/scripter.py ScriptQueue"), ("included table, local tunnels", "licant/libs.py include"), ("directories of scripts", "licant/util.py find_recursive")],
     [("stack", "scripts being evaluated", "licant/scripter.py"), ("included", "libraries evaluated so far", "licant/libs.py")],
     ["order of evaluation", "directory each script sees", "exit status"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
