#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept readable here; run to regenerate)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

T = "buildcc/lib/target/src/target/"
F = T + "friend/"
CG = "buildcc/lib/target/src/custom_generator/custom_generator.cpp"

prop("C01", "Incremental target builds equal a clean build",
 "After any history of builds and edits to declared inputs (contents with a changed modification time in either direction, additions and removals of sources, headers, precompiled headers, libraries, compile and link dependencies, directories, external libraries and every kind of flag, on targets and on their toolchain, including edits made while the previous build was running), a successful build leaves every object, precompiled header and linked output identical to what a build into an empty build directory produces.",
 ["histories", "inputs", "configurations"],
 "every project shape, every sequence of edits between builds, every number of builds",
 "Unit tests replay about a dozen fixed two-step rebuilds against a mocked process runner and never compare produced files with a clean build.",
 [T+"build.cpp", T+"tasks.cpp", F+"compile_object.cpp", F+"compile_pch.cpp", F+"link_target.cpp", "buildcc/schema/include/schema/path.h", "buildcc/schema/src/target_serialization.cpp"],
 [("comparison of recorded and current inputs per stage", F+"compile_object.cpp BuildObjectCompile, "+F+"compile_pch.cpp BuildCompile, "+F+"link_target.cpp BuildLink"), ("timestamp hash of every declared file", "buildcc/schema/include/schema/path.h ComputeHash")],
 ["commands executed and files written under the build directory"],
 [("target state file", "inputs of the last build", "<build>/<toolchain>/<name>/<name>.bin")])

prop("C02", "Rebuilds run only the commands whose declared inputs changed",
 "Building again with nothing changed runs no command and no generator. After an edit, a source is compiled only if it is new, its file changed, or a compile input shared by the whole target (declared header, precompiled header or its list, compile dependency, include directory, compile-side flag) changed; the precompiled header is rebuilt only if one of its own inputs changed; and a target is linked only if something in it was rebuilt, a source was added or removed, or a link input changed. Other targets and generators not affected through files they declare run nothing.",
 ["histories", "inputs", "configurations"],
 "every project shape and every sequence of edits between builds",
 "Unit tests check the number of mocked executions for a handful of single-target two-step histories.",
 [F+"compile_object.cpp", F+"compile_pch.cpp", F+"link_target.cpp", T+"tasks.cpp", CG],
 [("per-source selection", F+"compile_object.cpp RecompileSources"), ("per-id selection", CG+" Comparator"), ("stage dirty flag", T+"tasks.cpp")],
 ["commands executed by a build"])

prop("C03", "A failed build is completely recovered by the next one",
 "When any precompile, compile, link or generator step of a build fails (error status or death by signal, with or without partial output, or a missing input file), the build reports failure and nothing that did not succeed is ever treated as up to date. Once the cause is gone, the next build reruns exactly what is still outstanding, repeats no step that succeeded and is still current, and ends with the outputs of a clean build.",
 ["fault_sequences", "histories", "schedules"],
 "every step that can fail, every combination of simultaneous failures, every worker count, any number of failed builds in a row, edits in between",
 "Tests inject at most one mocked failure per stage with a single worker and do not rebuild multi-target projects afterwards.",
 [T+"tasks.cpp", "buildcc/schema/src/target_serialization.cpp", F+"link_target.cpp", CG],
 [("only successful sources are recorded", T+"tasks.cpp CompileObject::Task"), ("stage completion flags", "buildcc/schema/src/target_serialization.cpp UpdateStore"), ("only successful ids are recorded", CG+" GenerateTask")],
 ["exit status, commands executed, files under the build directory"])

prop("C04", "A killed build never makes a later build stale",
 "If the build process is killed at any instant, the next build succeeds without manual cleaning and ends with exactly the outputs of a clean build. This holds whatever the inputs of that next build are, including the inputs from before the killed build.",
 ["crash_points", "histories", "inputs"],
 "every kill point (before, during and after every command and every file operation of the build), every edit made before and after the kill",
 "No test kills a build; state on disk mid-build is never observed.",
 [T+"tasks.cpp", CG, "buildcc/schema/include/schema/interface/serialization_interface.h", "buildcc/lib/env/include/env/util.h"],
 [("state is stored by the last task of a builder", T+"tasks.cpp EndTask, "+CG+" GenerateTask"), ("unparsable state is treated as absent", "buildcc/schema/src/target_serialization.cpp Load")],
 ["files under the build directory after SIGKILL and after the following build"])

prop("C05", "Build state round-trips; damaged state is never trusted",
 "State recorded by a successful build is recognised by the next build for every name, path, flag, command and user value the build used (any UTF-8 text), so nothing is rebuilt. State that is missing, empty, truncated, altered, of another shape or not text at all never crashes or wedges a build: the affected builder rebuilds what it cannot vouch for and the outputs equal those of a clean build.",
 ["inputs", "fault_sequences", "histories"],
 "every recorded content, every damaged form of every state file",
 "Tests load a few hand-written broken files through the schema classes only.",
 ["buildcc/schema/include/schema/target_schema.h", "buildcc/schema/include/schema/custom_generator_schema.h", "buildcc/schema/src/target_serialization.cpp", "buildcc/schema/src/custom_generator_serialization.cpp", "buildcc/lib/target/include/target/custom_generator/custom_blob_handler.h"],
 [("JSON encode/decode of every tracked field", "buildcc/schema/include/schema/*.h"), ("parse failure means not loaded", "buildcc/schema/src/*_serialization.cpp Load")],
 ["exit status, commands executed, outputs"])

prop("C06", "Generators run exactly the steps that are out of date",
 "A build runs a generator step if and only if it is new, its last run failed, its list of inputs or outputs changed, one of its input files changed (including a change made while the previous build was running), or its attached user value changed (after a build that was killed, steps that had already finished in it may run again); each such step runs exactly once, with exactly its declared inputs, outputs and value. Steps removed from the generator are forgotten.",
 ["histories", "inputs", "schedules", "fault_sequences"],
 "every set of steps, every history of edits, failures and concurrent input edits, every worker count",
 "Tests cover one or two ids and a single change each, with mocked callbacks and one thread.",
 [CG, "buildcc/lib/target/include/target/custom_generator.h", "buildcc/schema/src/custom_generator_serialization.cpp"],
 [("id comparison", CG+" Comparator"), ("state per id", CG+" TaskFunctor")],
 ["generator callback invocations with their arguments"])

prop("C07", "Nothing runs before everything it depends on has finished",
 "For every dependency declared between builders (targets and generators), no step of the dependent starts before every step of the dependency has finished, transitively. In a successful build every out-of-date step of every registered builder runs exactly once, and independent builders need not wait for each other.",
 ["schedules", "programs"],
 "every acyclic dependency graph, every interleaving and worker count",
 "Tests register at most a few targets and only inspect the task graph; nothing executes concurrently.",
 ["buildcc/lib/args/src/register.cpp", "buildcc/lib/args/src/tasks.cpp", T+"tasks.cpp"],
 [("task succession", "buildcc/lib/args/src/register.cpp Dep"), ("module tasks", "buildcc/lib/args/src/tasks.cpp BuildTask")],
 ["start and end events of every command and generator callback"])

prop("C08", "Malformed registrations are refused, well-formed ones accepted",
 "Declaring a dependency that would close a cycle of any length (including of a builder on itself), repeating a dependency, depending on or testing a builder that is not registered, or registering the same builder or test twice ends the program with a failing status before any build step runs. Every acyclic set of distinct dependencies between registered builders is accepted, in any declaration order and promptly.",
 ["programs", "inputs"],
 "every sequence of registration calls",
 "Tests try one two-target and one three-target cycle and one duplicate.",
 ["buildcc/lib/args/src/register.cpp", "buildcc/lib/args/include/args/register.h"],
 [("duplicate and cycle detection", "buildcc/lib/args/src/register.cpp DepDetectDuplicate, DepDetectCyclicDependency")],
 ["exit status and absence of commands"])

prop("C09", "Within a target: precompiled header, then objects, then one link",
 "In every build of a target the precompiled header step finishes before any source compile starts, all source compiles finish before the link or archive starts, and recorded state is written only after the link. The link receives exactly one object per current source of the target, whether or not that source was recompiled in this build.",
 ["schedules", "programs", "configurations"],
 "every target shape, interleaving and worker count, first and incremental builds",
 "Tests run single targets with mocked commands that take no time.",
 [T+"tasks.cpp", F+"link_target.cpp", F+"compile_object.cpp"],
 [("stage precedence", T+"tasks.cpp TaskDeps"), ("object list", F+"compile_object.cpp GetCompiledSources")],
 ["start/end events of commands; link command lines"])

prop("C10", "A failing step stops dependents and fails the whole run",
 "When any build step fails, the run ends with a failing status and runs no step of any (transitive) dependent of the failed builder, no later stage of the failed builder, no post-build callback and no registered test; steps already running are waited for and the process neither crashes nor hangs. When no step fails the run succeeds and the post-build callback runs exactly once, after the last build step and before the first test.",
 ["fault_sequences", "schedules", "programs"],
 "every step failing in every way (status, signal, exception, missing input), every graph, interleaving and worker count",
 "Tests mock the fatal-assert handler and the process runner, so the real exit path and threads are never exercised.",
 [T+"tasks.cpp", CG, "buildcc/lib/args/src/tasks.cpp", "buildcc/lib/env/src/task_state.cpp", "buildcc/lib/env/src/assert_fatal.cpp"],
 [("sticky task state", "buildcc/lib/env/src/task_state.cpp"), ("fatal on main thread, exception on workers", "buildcc/lib/env/src/assert_fatal.cpp"), ("state check after the build", "buildcc/lib/args/src/tasks.cpp RunBuild")],
 ["exit status, event trace"])

prop("C11", "Command lines carry exactly the configured inputs, in order",
 "Every compile, precompile and link command invokes the tool configured for that kind of step and file (assembler, C or C++ compiler, archiver or linker) with exactly the configured flags, in the order they were added and in the order the target's command template prescribes (toolchain flags before target flags), every include and library directory, library and object, and the right input and output. A path containing spaces arrives at the tool as one argument.",
 ["configurations", "inputs", "programs"],
 "every target type, toolchain family, flag set, path set, including names with spaces",
 "Tests compare a few complete command strings with short fixed inputs and never pass them through a shell.",
 [T+"build.cpp", T+"target.cpp", F+"compile_object.cpp", F+"compile_pch.cpp", F+"link_target.cpp", "buildcc/targets/include/targets", "buildcc/lib/target/include/target/common/util.h", "buildcc/lib/target/src/target_info/target_info.cpp"],
 [("command templates", "buildcc/targets/include/targets/*.h"), ("template arguments", T+"build.cpp")],
 ["argv received by the tools"])

prop("C12", "Each source gets its own object, inside the target's build directory",
 "Every source of a target, inside or outside the target's root directory and in any mix of directories, file names and extensions, is compiled to a distinct object file, distinct from every other output of the target (whose name does not consist of underscores only). Every file a build produces lies inside the build directory of the builder it belongs to.",
 ["inputs", "configurations"],
 "every set of source paths relative to the target root",
 "Tests check three fixed paths.",
 [F+"compile_object.cpp"],
 [("object path construction", F+"compile_object.cpp ConstructObjectPath")],
 ["output paths in compile commands, files created"])

prop("C13", "Pattern substitution is exact",
 "Substituting a pattern replaces every {name} with the value given for that name, keeps all other text unchanged ({{ and }} yield single braces, values are never themselves re-expanded), and a value once set for a name is kept when the name is set again. A pattern naming an unknown value, or malformed, is a fatal error rather than a wrong result.",
 ["inputs"],
 "every pattern, name set and value, including braces, format specifiers, empty and long values",
 "Tests use a handful of literal patterns.",
 ["buildcc/lib/env/src/command.cpp", CG],
 [("named format arguments", "buildcc/lib/env/src/command.cpp Construct")],
 ["constructed strings"])

prop("C14", "File generator commands run in order and stop at the first failure",
 "When a file generator is out of date its commands run one after another in the order they were added, each exactly once, and no command runs after one that failed. A change to any command, or to their order or number, makes the generator run again; a failed generator runs again from the first command in the next build.",
 ["histories", "fault_sequences", "inputs", "schedules"],
 "every list of commands, failure position, edit history and worker count",
 "Tests run one or two mocked commands.",
 ["buildcc/lib/target/src/generator/file_generator.cpp", CG, "buildcc/lib/target/include/target/custom_generator/custom_blob_handler.h"],
 [("command list as user value", "buildcc/lib/target/src/generator/file_generator.cpp Build"), ("sequential loop", "buildcc/lib/target/src/generator/file_generator.cpp FileGeneratorGenerateCb")],
 ["start/end events of commands"])

prop("C15", "Copying settings between targets transfers exactly what is asked",
 "Copying a set of settings from one target to another replaces exactly those settings with the source's values, and inserting appends exactly those values after the existing ones, in order. Settings not named, and the source when it was not handed over, are unchanged, for every subset of settings.",
 ["inputs", "programs"],
 "every subset and order of the seventeen settings, every content, by copy and by move, repeated and chained",
 "Tests copy all settings at once from fixed values.",
 ["buildcc/lib/target/src/api/sync_api.cpp"],
 [("per-option transfer", "buildcc/lib/target/src/api/sync_api.cpp SpecializedCopy, SpecializedInsert")],
 ["values reported by the target afterwards"])

prop("C16", "Stored objects are unique, typed, stable and destroyed once",
 "An object put in storage under a name is returned, at the same address and with the same value, by every later lookup of that name with its type until storage is cleared or destroyed, when it is destroyed exactly once. Looking up an unknown name or a wrong type is refused, and adding under a name already taken leaves the first object in place and loses no object's destruction.",
 ["histories", "inputs"],
 "every sequence of add, lookup, containment and clear operations over names and types",
 "Tests add two or three objects; the error path leaks are invisible without a monitor.",
 ["buildcc/lib/env/include/env/storage.h", "buildcc/toolchains/src/toolchain_aggregate.cpp"],
 [("type name and destructor per entry", "buildcc/lib/env/include/env/storage.h")],
 ["constructor and destructor events, lookup results"])

prop("C17", "Registered tests run once after the build and decide the outcome",
 "After a successful build every registered test whose toolchain is selected for build and test runs exactly once, whether or not other tests fail, with the command, substituted arguments and working directory it was registered with; output redirected to the user is complete and separate for stdout and stderr. If any test fails the run ends with a failing status, and otherwise it succeeds.",
 ["fault_sequences", "schedules", "configurations"],
 "every set of tests, pass or fail outcome, output mode and size, worker count",
 "Tests replace the process runner by a mock and run on the main thread.",
 ["buildcc/lib/args/src/register.cpp", "buildcc/lib/args/src/tasks.cpp", "buildcc/lib/args/include/args/register/test_info.h"],
 [("test runner", "buildcc/lib/args/src/register.cpp TestInfo::TestRunner"), ("parallel test run", "buildcc/lib/args/src/tasks.cpp RunTest")],
 ["test process events, exit status, captured output"])

prop("C18", "Builds are free of data races, memory errors and undefined behaviour",
 "No build (first, incremental, failing, or with tests), whatever its graph, schedule and worker count, and no use of the library's helper functions, performs a data race, an invalid memory access, a use of freed or uninitialised memory, a leak of objects it owns, or undefined behaviour.",
 ["schedules", "programs", "inputs"],
 "every build, interleaving and worker count",
 "The test suite runs without sanitizers, mostly on one thread, with the threaded parts mocked.",
 ["buildcc/lib/env/src/task_state.cpp", "buildcc/lib/env/src/logging.cpp", "buildcc/lib/env/src/assert_fatal.cpp", "buildcc/schema/src/target_serialization.cpp", T+"tasks.cpp", CG],
 [("source recording under a mutex", "buildcc/schema/src/target_serialization.cpp AddSource"), ("task state", "buildcc/lib/env/src/task_state.cpp")],
 ["sanitizer reports"])

prop("C19", "File save and load report the truth",
 "Saving reports success only if the file afterwards holds exactly the given bytes, and replaces any previous content; loading reports success only if it returns exactly the file's bytes. Unwritable, full, missing, or directory targets are reported as failure, and a build that could not record its state reports failure.",
 ["inputs", "fault_sequences"],
 "every content (embedded zeros, newlines, large), every failing file operation",
 "Tests save and load one small string and a missing file.",
 ["buildcc/lib/env/include/env/util.h", "buildcc/schema/src/target_serialization.cpp", "buildcc/schema/src/custom_generator_serialization.cpp"],
 [("stream state checked after writing", "buildcc/lib/env/include/env/util.h save_file"), ("store result asserted", T+"tasks.cpp EndTask")],
 ["return values versus bytes on disk, exit status"])

prop("C20", "Toolchain lookup finds a directory iff it holds every tool",
 "Searching for a toolchain reports exactly the searched directories (given paths first, then each environment variable's entries in order) that contain all five of its tools, skipping missing or unreadable entries. Verifying picks the first of them, points every tool at that directory, reports the compiler's own version and architecture, and is refused when nothing is found or the compiler cannot be queried. Searching the host for an executable reports exactly the entries of the directories in the given environment variable whose whole name matches the pattern, in the variable's order.",
 ["configurations", "inputs"],
 "every search path layout: duplicates, missing entries, files in place of directories, partial tool sets, links",
 "Tests use two fixed directories and a mocked process runner.",
 ["buildcc/lib/toolchain/src/api/toolchain_find.cpp", "buildcc/lib/toolchain/src/api/toolchain_verify.cpp", "buildcc/toolchains/src/toolchain_infos.cpp", "buildcc/plugins/src/buildcc_find.cpp"],
 [("directory scan", "buildcc/lib/toolchain/src/api/toolchain_find.cpp"), ("first match", "buildcc/lib/toolchain/src/api/toolchain_verify.cpp")],
 ["reported paths, tool paths, exit status"])

prop("C21", "The command line decides what is configured, built and tested",
 "Every option given on the command line or in configuration files (root and build directory, log level, clean, and per toolchain and custom target selection, identity, name, tools and commands) reaches the build script with exactly the given value, the declared default otherwise, and invalid or missing required ones end the program with a failing status. Builders, dependencies and callbacks registered under a toolchain take effect only if it is selected for building, and its tests only if it is selected for both building and testing.",
 ["configurations", "inputs"],
 "every combination of options, selected toolchains and registrations",
 "Tests parse a few fixed argument vectors and mock the parse-error exit.",
 ["buildcc/lib/args/src/args.cpp", "buildcc/lib/args/src/parse.cpp", "buildcc/lib/args/include/args/register.h", "buildcc/lib/args/src/register.cpp"],
 [("option bindings", "buildcc/lib/args/src/args.cpp"), ("condition gates", "buildcc/lib/args/include/args/register.h ToolchainInstance")],
 ["values seen by the script, commands executed, exit status"])

prop("C22", "compile_commands.json is valid and matches what is executed",
 "Whenever the compile-commands plugin generates its file, the file is valid JSON listing every source of every added target exactly once, each entry giving the project's build directory, that source's path and exactly the command used to compile it. It is regenerated whenever one of the added targets was rebuilt.",
 ["inputs", "histories", "configurations"],
 "every set of targets, paths and flags (quotes, backslashes, spaces), every rebuild history",
 "Tests generate the file once for one target without flags and do not parse it.",
 ["buildcc/plugins/src/clang_compile_commands.cpp"],
 [("generation from target commands", "buildcc/plugins/src/clang_compile_commands.cpp Generate")],
 ["compile_commands.json versus executed compile commands"])

prop("C23", "Executing a command reports its true status and complete output",
 "Running a command succeeds exactly when the command exits with status zero, runs it once in the requested working directory (the current one otherwise), and delivers every byte it writes to a redirected stdout or stderr to the right list in order; streams not redirected pass through. Concurrent executions do not mix.",
 ["inputs", "fault_sequences", "schedules"],
 "every exit status and signal, output size and split, working directory, number of concurrent executions",
 "The repository's tests replace this function by a mock; its source file is not even compiled by them.",
 ["buildcc/lib/env/src/execute.cpp"],
 [("subprocess wrapper", "buildcc/lib/env/src/execute.cpp Execute")],
 ["returned status, captured text, process events"])

prop("C24", "Template outputs always reflect template and values",
 "After a successful build every template output holds exactly the template's current text with every placeholder replaced by its current value, for any history of edits to templates, values and output locations (a location is not handed over from one generator to another). A template naming an unknown value fails the build; unchanged templates with unchanged values are not regenerated.",
 ["histories", "inputs"],
 "every template text, value set and edit history",
 "Tests generate one template once.",
 ["buildcc/lib/target/src/generator/template_generator.cpp", CG],
 [("one generator step per template", "buildcc/lib/target/src/generator/template_generator.cpp Build")],
 ["output file contents, modification times"])

prop("C25", "Files are classified by extension; globbing takes exactly the matching ones",
 "A file is accepted as a source or header, and treated as assembly, C, C++ or header, exactly according to the extension sets of its toolchain; adding a file with any other extension is refused. Globbing a directory adds exactly its direct entries with a matching extension, each once, and file paths given in different spellings of the same location are recorded in one normal form.",
 ["inputs", "configurations"],
 "every file name, extension set and directory content",
 "Tests use a few fixed names and directories.",
 ["buildcc/lib/toolchain/src/common/toolchain_config.cpp", "buildcc/lib/target/include/target/api/source_api.h", "buildcc/lib/target/include/target/api/include_api.h", "buildcc/schema/include/schema/path.h"],
 [("extension sets", "buildcc/lib/toolchain/src/common/toolchain_config.cpp"), ("directory iteration", "buildcc/lib/target/include/target/api/source_api.h GlobSources")],
 ["recorded file lists, compile commands, exit status"])

prop("C26", "buildexe builds, runs and reports exactly what its configuration says",
 "For every valid configuration, however split over configuration files and the command line, buildexe compiles each configured source (in script mode also the source files selected under [libs]) with the configured toolchain, include directories and flags, links all of them with the configured libraries into the configured target below the build directory, and a repeated run redoes exactly what an edit of the configuration or of a declared file affects (clean empties the build directory first). In script mode it first verifies the toolchain, brings the buildcc library of BUILDCC_HOME up to date with all its sources and headers, links the script against it and then runs the script once, with every configured --config file in order. The exit status is zero only if every step and the script itself succeeded, and nothing is started after a failed step it needs. A configuration that cannot be built as written (a missing required option, an unknown mode, type, toolchain id, option or tool, an incomplete BUILDCC_HOME, a missing or unusable source) is refused with a failing status. compile_commands.json lists exactly the target's sources; buildexe_lib_dirs.h names every library directory.",
 ["configurations", "inputs", "histories", "fault_sequences"],
 "every configuration, split of it, edit history and failing command",
 "buildexe and the bootstrap package have no tests at all: they are only compiled.",
 ["buildexe/buildexe.cpp", "buildexe/src/args_setup.cpp", "buildexe/src/build_env_setup.cpp", "buildexe/src/toolchain_setup.cpp", "buildexe/src/build_env_home.cpp", "bootstrap/src/build_buildcc.cpp"],
 [("configuration", "buildexe/src/args_setup.cpp"), ("user target and script run", "buildexe/src/build_env_setup.cpp"), ("bootstrap library", "bootstrap/src/build_buildcc.cpp")],
 ["commands, their order and status, exit status, outputs, compile_commands.json"])

prop("C27", "With the host's gcc, the built programs behave as their current inputs say",
 "For every project of executables, static and shared libraries (C, C++ and assembly sources, precompiled headers, toolchain and target flags, include and library search order, prebuilt libraries, headers and sources made by file, template and custom generators) built with the default gcc toolchain and target commands, after any history of edits and failed builds: the build succeeds, every program runs - also as a registered test - and computes exactly what its current sources, headers, flags, libraries and generated files say; a precompiled header that is valid is used; a build with no change rewrites no output; a source that does not compile fails the build and no test runs; the recorded compile commands, run by hand, make the same objects. This holds for scripts that register with Reg and for scripts that run the builders' taskflows themselves.",
 ["histories", "inputs", "configurations"],
 "every project, edit history and way of running the builders",
 "The unit tests never run a compiler; the examples are only compiled by hand.",
 ["buildcc/targets/include/targets/target_gcc.h", "buildcc/targets/include/targets/target_generic.h", "buildcc/toolchains/include/toolchains/toolchain_gcc.h", "buildcc/lib/target/src/target", "buildcc/lib/target/src/generator", "buildcc/lib/args/src/register.cpp", "buildcc/plugins/src/clang_compile_commands.cpp"],
 [("default gcc commands", "buildcc/targets/include/targets/target_gcc.h"), ("build steps", "buildcc/lib/target/src/target/tasks.cpp")],
 ["standard output of the built programs, captured test output, modification times, exit status, compile_commands.json"])

prop("C28", "What a builder says about itself is what it does",
 "At every moment a script may ask (before the build and after it, in any edit history) a target's answers agree with what was declared and with what was executed: its sources, headers, precompiled headers, dependencies, libraries, directories and flags are the declared ones in the declared order (toolchain's first), its name, type, toolchain and folders are its own; its path, state file and precompiled header are the files the build wrote, inside its build folder; its compile and link commands are the ones that were executed last; it says it was built exactly if its link step ran in this run. The task graph drawn by Reg has exactly the registered builders and declared dependencies, and after the run names every source and precompiled header of each target and every generated id. A generator's stored values and parsed patterns are those of the reference substitution; an unknown value or malformed pattern ends the script with a failure.",
 ["histories", "inputs", "configurations"],
 "every project, edit history and moment of asking",
 "The unit tests read back single values right after setting them and never compare an answer with an executed step or the graph with the declared dependencies.",
 ["buildcc/lib/target/src/api/target_getter.cpp", "buildcc/lib/target/include/target/api", "buildcc/lib/target/src/target/tasks.cpp", "buildcc/lib/args/src/register.cpp", "buildcc/lib/target/src/custom_generator/custom_generator.cpp"],
 [("getters", "buildcc/lib/target/src/api/target_getter.cpp"), ("task graph", "buildcc/lib/target/src/target/tasks.cpp")],
 ["values of the getters, the drawing of Reg::GetTaskflow(), executed commands, files on disk"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
