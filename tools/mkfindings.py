#!/usr/bin/env python3
"""Source of /verif/known_findings.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = """c8f203c C01 objects were not recompiled when the last precompiled header of a target was removed
79d71a2 C01 a precompiled header was kept when a target switched between C and C++
2c80aff C01 a header edited while the precompiled header was being compiled was never seen by later builds
14829d5 C02 a source added twice was compiled twice, at the same time, to the same object
f5a8469 C03 a failure elsewhere made a generator forget steps that were still current
ea0680f C04 a build killed between a command and the recording of state left state describing older artifacts
108d6d2 C05 a stored user value that could not be decoded failed every later build
c7c1aa4 C06 removing the attached value of a generator step did not rerun it
223be98 C06 an input edited while its generator step ran was never seen by later builds
d4a70e8 C08 a dependency of a builder on itself was accepted and the build never ran it
5ecc433 C08 cycle detection took exponential time on dense acyclic graphs
e02c483 C17 a failing registered test terminated the process from a worker thread
f98c132 C11 source, include, library directory and library paths with spaces arrived as several arguments
48d4286 C11 the precompiled header source could not be created in a build directory with spaces
741e188 C12 sources outside the root, or in folders named like the output, shared object files or output paths
850355f C12 the output of a target with extension .bin was overwritten by its recorded state
a2b9781 C12 folders named like an object or a generated file of the target took that file's path, so the build failed
22a6f0a C13 a field without a name ({} or {0}) took an arbitrary value
eabf544 C13 with a single value, a second field without a name ({}{} or {1}) read past the end of the values
d4583cf C16 adding under a name already taken leaked the new object
a37745e C16 the static storage used the logger after its destruction when it was not cleared before exit
2c0c9bf C18 data race on the task state
2f4d643 C18 a failing run ended the process while worker threads were still using the scheduler
1b952f5 C18 set_log_pattern read past the end of a view that is not null terminated
5515db7 C19 save_file reported success although buffered data could not be written
1d74a8a C19 load_file returned short or padded data as success
ddac39a C20 toolchain lookup accepted tools by name prefix and stopped at unreadable search paths
0e703e1 C20 the reported compiler version and architecture were cut when the compiler's answer arrived in several parts
11c0e9a C22 compile_commands.json was not valid JSON for commands or paths that need escaping
1940960 C24 template outputs were not regenerated when a substituted value changed
f86fbd0 C24 an output handed to another template in a failed build was believed up to date after the change was reverted
83ab370 C26 the toolchain verification program could not be run when its path contains spaces
0da6447 C26 buildexe reported success although the script it ran had failed
17f3630 C26 config files with spaces in their path reached the script in several pieces
c5dc3e5 C26 library paths with spaces were quoted twice in buildexe_lib_dirs.h, so the script did not compile
bc04566 C26 the script was compiled and linked again at every run of buildexe
fb1f495 C26 the bootstrap library was not rebuilt when some of its headers changed
dcaebe7 C11 paths with characters the shell interprets, but no space, were split, expanded or run as commands
438c336 C20 a toolchain in a directory with spaces was found but refused by the verification"""
out = []
for l in F.splitlines():
    c, p, w = l.split(" ", 2)
    out.append({"property": p, "status": "fixed", "commit": c, "text": "fixed: property=%s %s %s" % (p, c, w)})
json.dump({"findings": out}, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
