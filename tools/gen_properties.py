#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or []}})

prop("P01", "A failed command never counts as a successful build step",
 "Whenever a command that Autark runs for a rule (run, shell, check script, cc/cxx compile, command substitution) exits non-zero, is killed by a signal, or cannot be started or waited for, the build stops with a failure exit. No such outcome is ever treated as a completed step.",
 ["inputs", "fault_sequences"], "every command, every wait status, every failure of pipe/fork/exec/wait, every call site that runs a command",
 "Tests run a handful of commands that all succeed; no test makes a compiler die by a signal or fork fail.",
 ["spawn.c", "node_run.c", "node_cc.c", "node_check.c", "node_subst.c"],
 [("exit status decoding and spawn result", "spawn.c: spawn_do, spawn_exit_code"), ("callers turn a non-zero result into a fatal error", "node_*.c call sites of spawn_do")])

prop("P02", "Output of a child process is delivered completely",
 "Everything a command writes to its stdout and stderr is handed to the registered output handlers, in order, with its exact length, until end of stream on both; a hang-up, an interrupted or short read, or one stream closing early never discards data that is still pending.",
 ["schedules", "inputs"], "every interleaving of child writes, stream closes and child exit, every output size",
 "Tests only see small outputs that arrive in one read before the hang-up is noticed.",
 ["spawn.c"], [("poll/read loop over both pipes", "spawn.c: spawn_do")])

prop("P03", "A dependency counts as fresh only if it was checked and is unchanged",
 "For every kind of recorded dependency (file, aliased file, variable, system environment variable, evaluated value, always-outdated marker) the check answers 'outdated' when the thing is missing, unreadable, newer than recorded, or has a different value, and when the record itself is malformed or of an unknown kind; it answers 'fresh' when nothing changed. A rule is skipped only if its record exists, has at least one entry, and every entry was checked and fresh.",
 ["inputs", "histories"], "every record kind, every state of the file system and environment, every record content",
 "Tests touch one or two files; they never present missing, unreadable or damaged records nor every kind.",
 ["deps.c", "script.c"], [("per-kind staleness verdict", "deps.c: deps_cur_is_outdated, deps_cur_next"), ("decision to skip or re-run a rule", "script.c: node_resolve")])

prop("P04", "Every input that a rule's result depends on is recorded",
 "After a rule (check, run, cc/cxx, configure, command substitution, install) has been executed, its dependency record names the build scripts enclosing it, every file it consumed (sources, consumed products, compiler-reported headers, templates), every output whose absence must trigger a re-run, and every variable or evaluated value used to form the command. None of them is left out for any combination of rule parts.",
 ["programs", "histories"], "every rule kind and every combination of optional rule parts, and every subsequent change to an input",
 "A test would have to change each input of each rule kind separately and rebuild; existing tests change very few.",
 ["node_run.c", "node_cc.c", "node_configure.c", "node_subst.c", "node_install.c", "node_check.c", "script.c"],
 [("each rule's on_resolve writes the dependency record", "node_*.c: on_resolve callbacks"), ("unit scripts recorded", "script.c: node_add_unit_deps")])

prop("P05", "A rule is recorded up to date only after its work succeeded",
 "The dependency record that lets a rule be skipped next time becomes visible only by atomically renaming a completely written temporary file, after all of the rule's work has succeeded and after the values it exports have been published; a stale temporary from an earlier run is removed first. At every crash point before that the rule is executed again on the next build.",
 ["crash_points", "fault_sequences"], "every point at which the process can be killed or a command can fail during a build",
 "Tests never kill a build or let a command fail half-way and rebuild.",
 ["script.c", "node_cc.c", "node_run.c", "deps.c"],
 [("unlink tmp, resolve, rename env and deps", "script.c: node_resolve"), ("callbacks write only to the temporary record", "node_*.c: on_resolve")])

prop("P06", "Dependency records are read back exactly as they were written",
 "For every kind of dependency, the kind, flags, resource, alias or key and stored stamp that are written to a record are the ones found when it is read: writer and reader use the same field order and separators for each kind, values containing line breaks are encoded and decoded symmetrically, and every kind that can be written is understood by the reader.",
 ["inputs"], "every record kind and every resource or value text",
 "Tests write and read only a few kinds with simple texts.",
 ["deps.c", "deps.h"], [("record writer", "deps.c: deps_add*"), ("record reader", "deps.c: deps_cur_next")])

prop("P07", "Cyclic build dependencies are detected, never built or looped on",
 "If building a rule requires, through any chain of consumed products, building the same rule again while it is still in progress, the build stops with a cyclic dependency error; it neither recurses without end nor silently treats the unfinished rule as built. Building a rule that is already finished is a no-op and a non-cyclic project is never reported as cyclic.",
 ["programs"], "every product graph, every entry point into a cycle",
 "The existing tests contain no product cycles.",
 ["script.c"], [("in-progress counter around each build and post-build action", "script.c: node_build, node_post_build")])

prop("P08", "A product belongs to exactly one rule",
 "Registering a product path that another rule already owns stops the build with an error, whatever the spelling of the path; registering it again from the same rule is harmless, and the first owner is never silently replaced.",
 ["programs"], "every set of rules and product names",
 "No existing test declares conflicting products.",
 ["script.c", "node_run.c", "node_cc.c", "node_configure.c"], [("product registry", "script.c: node_product_add*")])

prop("P09", "Consumed products are built before they are used",
 "For every path in a consumes list, sources list or object list that another rule produces, that rule is brought up to date before the consuming rule checks freshness of the path or runs its command; a path that exists neither as product nor as source file stops the build with an unresolved dependency error.",
 ["programs", "histories"], "every project graph and every state of the cache left by earlier builds",
 "Tests use one or two producer/consumer pairs on an empty cache.",
 ["script.c", "node_cc.c", "node_run.c", "node_configure.c", "node_install.c"],
 [("consume resolution", "script.c: node_consumes_resolve"), ("build of source producers", "node_cc.c: source resolution")])

prop("P10", "Parallel compile jobs are bounded, reaped, and all accounted for",
 "At no time do more compile processes run than the configured number of jobs; every started process is waited for before the rule ends, each source is compiled at most once per run, and the outcome of every process is attributed to its own source, so that one failure among many is never lost.",
 ["schedules", "fault_sequences"], "every completion order of the compile jobs and every subset of them failing",
 "Tests compile a couple of files which all succeed, in whatever order happens to occur.",
 ["node_cc.c", "spawn.c"], [("task list, wait loop and job limit", "node_cc.c: task execution loop")])

prop("P11", "Working directory and unit context are restored on every path",
 "Every evaluation, initialisation or build step that switches to another unit or working directory switches back before it returns normally, so each rule always runs in the directory the documentation assigns to it. Each unit context that is entered is left exactly once.",
 ["programs"], "every nesting of scripts, includes, checks, consumes and phases",
 "Tests cannot enumerate every return path of every phase.",
 ["script.c", "autark_core.c", "node_check.c", "node_run.c", "node_cc.c", "node_configure.c", "node_install.c", "node_subst.c"],
 [("unit push/pop pairs, chdir with saved cwd", "script.c, autark_core.c, node_*.c")])

prop("P12", "Cleaning never touches anything outside the cache directory",
 "Cleaning deletes only entries of the cache directory tree itself: it never follows a symbolic link out of it, never ascends out of it, and keeps the Autark distribution stored there. A cache directory which is, or contains, the project root is rejected before anything is deleted, and nothing is deleted unless cleaning was requested.",
 ["inputs", "configurations"], "every cache content including symbolic links, every choice of cache and project directories",
 "Tests clean only ordinary trees; a wrong deletion is the kind of thing they never set up.",
 ["paths.c", "autark_core.c"], [("recursive removal", "paths.c: path_rm_cache / path_rm_*"), ("precondition and request flag", "autark_core.c: autark_build_prepare")])

prop("P13", "Conditions evaluate as documented",
 "In if conditions, 'and' is true exactly when all operands are true, 'or' exactly when any operand is, 'defined' exactly when any of the listed variables is defined, prefix/contains/eq compare the evaluated operands, and '!' negates whichever of them it is applied to; the then-part is kept exactly when the condition is true and the else part exactly when it is false. This holds for any number of operands, any nesting, and inside macros and foreach bodies.",
 ["inputs", "programs"], "every condition tree and every operand value",
 "Tests sample a few conditions with one or two operands.",
 ["node_if.c", "script.c", "node_macro.c", "node_call.c"], [("condition evaluation", "node_if.c"), ("negation flag set by the parser and kept by macro cloning", "script.c: _rule_type, node_clone_and_register")])

prop("P14", "Macro calls are bounded in arguments and recursion",
 "Expanding a macro call never reads or writes outside the fixed argument table, whatever the number of call arguments or the argument index used in the macro body; unset or out-of-range arguments stop with an error, and a macro that calls itself directly or indirectly is stopped at the configured recursion limit.",
 ["programs"], "every macro body, argument count, index and call graph",
 "Tests call macros with one or two arguments.",
 ["node_call.c", "node_macro.c", "script.c"], [("argument collection and index checks", "node_call.c"), ("recursion counter", "node_macro.c: macro_register_call")])

prop("P15", "Text from scripts or the environment is never used as a format string",
 "No text that originates in a build script, command line, environment, file or child process is ever interpreted as a printf-style format; error, warning, info and echo output show such text literally, including any percent signs. Every format string has arguments of matching number and kind.",
 ["inputs"], "every script text, value and path",
 "Tests contain no percent signs in messages.",
 ["script.c", "log.c", "node_error.c", "node_echo.c", "xstr.c", "pool.c"], [("printf-like wrappers and their callers", "log.c, script.c, xstr.c, pool.c")])

prop("P16", "Writes into fixed-size buffers are bounded by the buffer",
 "No copy, formatted write, read or path operation into a fixed-size buffer can write past the end of that buffer, however long the script text, path, variable or child output is; over-long input is truncated or rejected and always stays terminated.",
 ["inputs"], "every length of every input",
 "Tests use short paths and values.",
 ["paths.c", "utils.h", "utils.c", "deps.c", "spawn.c", "node_cc.c", "script.c", "autark_core.c"], [("bounded copy helpers and explicit sizes", "utils.h: utils_strncpy, utils_strnncpy; call sites with sizeof")])

prop("P17", "Files, directories, pipes and buffers are released on every path",
 "Every file, directory handle, pipe end, dynamic string, list and memory pool that an operation acquires is released exactly once before the operation returns, on success and on every error path, so that arbitrarily large projects do not exhaust descriptors or memory.",
 ["fault_sequences", "programs"], "every exit path of every operation, including error paths",
 "Tests neither force the error paths nor count open descriptors.",
 ["script.c", "deps.c", "utils.c", "spawn.c", "paths.c", "node_*.c", "pool.c"], [("acquire/release pairs", "throughout")])

prop("P18", "No pointer into a resized or released container is used again",
 "A pointer obtained to an element of a growable list or string is never used after an operation that may move or release the storage, and no object is used after it was destroyed or destroyed twice, on any path.",
 ["inputs", "fault_sequences"], "every list size (growth and shrink boundaries) and every error path",
 "Tests stay below the growth/shrink thresholds and do not take the error paths.",
 ["autark_core.c", "ulist.c", "script.c", "node_cc.c", "node_configure.c", "xstr.c"], [("element access and mutation of lists", "ulist.c and its users")])

prop("P19", "Empty or undefined values never crash the build",
 "Any value expression may be absent, undefined or empty: using it in any rule position either yields an empty text, is skipped, or stops with a diagnostic; it never leads to a null dereference.",
 ["inputs", "programs"], "every rule with each of its parts missing or undefined",
 "Tests use well-formed scripts with all parts present.",
 ["node_*.c", "script.c", "spawn.c", "utils.h", "xstr.c"], [("null checks on evaluated values", "call sites of node_value and variable lookup")])

prop("P20", "Every documented directive has exactly one handler that binds it",
 "Each directive keyword of the build language is mapped to its own rule kind, each rule kind is bound to its handler when the script is loaded, and each handler provides the actions its kind needs in every phase; no documented directive is silently treated as plain text.",
 ["programs"], "every directive keyword and every rule kind",
 "Tests use a subset of the directives.",
 ["script.c", "nodes.h", "node_*.c"], [("keyword to rule kind table", "script.c: _rule_type"), ("rule kind to setup handler table", "script.c: _node_bind")])

prop("P21", "Running out of memory stops the build cleanly",
 "No result of a memory allocation is used before it is known to be non-null: an allocation failure always ends the process with a diagnostic and is never handed on as a null pointer to code that dereferences it.",
 ["fault_sequences"], "every allocation site failing",
 "Tests never run out of memory.",
 ["alloc.h", "pool.c", "xstr.c", "ulist.c", "map.c", "utils.c"], [("checked allocation wrappers", "alloc.h"), ("allocation users", "pool.c, xstr.c, map.c, ulist.c")])

prop("P22", "Install copies whole files, faithfully, and only on request",
 "Files are installed only when installation was requested on the command line; each installed file has the complete content and the permission bits of its source, symbolic links are recreated as links, other kinds of file are refused, and any failure to create, read, write or finish a file stops the build with an error instead of leaving a silently incomplete copy.",
 ["inputs", "fault_sequences", "configurations"], "every file content and mode and every point of I/O failure",
 "Tests install a couple of small files without faults.",
 ["node_install.c", "utils.c", "script.c"], [("install action and copy helpers", "node_install.c, utils.c: utils_copy_file"), ("request flag", "node_install.c: setup")])

prop("P23", "Phases run in order and each rule at most once per phase",
 "A build runs init, setup, build and post-build in this order over the whole tree; within a phase each rule's action runs at most once, the parts of a rule are initialised, set up and built before the rule itself, and rules removed by conditions never run any later phase.",
 ["programs"], "every rule tree",
 "Tests only observe final results of small trees.",
 ["script.c", "node_if.c"], [("phase drivers and flags", "script.c: node_init/node_setup/node_build/node_post_build, script_build")])

prop("P24", "A variable resolves to its nearest definition",
 "Looking up a variable yields the definition in the innermost enclosing script that defines it, then outer scripts, and only then the process environment; assignments go to the enclosing script they appear in (or its parent or the root when so directed) and an unset removes it there. Options given on the command line are visible to the root script.",
 ["programs", "configurations"], "every nesting of scripts and every placement of definitions",
 "Tests use at most two nested scripts.",
 ["script.c", "autark_core.c", "node_set.c"], [("scope walk", "script.c: node_env_get/node_env_set; autark_core.c: unit_env_*")])

prop("P25", "Values are evaluated as often as documented",
 "A value introduced with set is evaluated once and keeps that value, one introduced with let is evaluated anew at each use, and any value that depends on a foreach variable is evaluated anew for each item; a cached value of one item is never reused for another.",
 ["programs"], "every combination of set, let, foreach and value expressions",
 "Tests use a few fixed combinations.",
 ["node_set.c", "node_subst.c", "node_foreach.c", "node_join.c", "node_basename.c", "node_dir.c"], [("value caching in value_get callbacks", "node_set.c, node_subst.c, node_join.c, node_basename.c, node_dir.c")])

prop("P26", "Moving a file never loses it",
 "When a file cannot be renamed directly and is copied instead, the original is removed only after the complete copy was written and closed without error; if anything fails, the original stays in place and the error is reported.",
 ["fault_sequences", "crash_points"], "every failure point of the copy fallback",
 "Tests never rename across file systems or on a full disk.",
 ["utils.c"], [("rename with copy fallback", "utils.c: utils_rename_file, utils_copy_file")])

prop("P27", "Every documented command line option has its documented effect",
 "Each option accepted by the command line parser, in its short and long form, takes an argument exactly when it is documented to, is handled, and reaches the setting it is documented to control; unknown options print usage and exit with failure.",
 ["configurations"], "every option in each form",
 "Tests call the internals directly and do not go through the command line parser.",
 ["autark_core.c"], [("option tables and handlers", "autark_core.c: autark_run, _usage_va")])

prop("P28", "Commands are executed directly, and the child never escapes",
 "Commands are started with an explicit argument vector and never through a shell or other interpretation of script text, except in the documented shell section of run; after forking, the child only redirects its descriptors and executes the program, and if that fails it exits immediately with failure instead of continuing as a second build process.",
 ["inputs", "fault_sequences"], "every command text and every failure in the child",
 "Tests execute only programs that exist.",
 ["spawn.c"], [("fork/exec section", "spawn.c: spawn_do")])

prop("P29", "Failures while writing build results are not ignored",
 "Every failure to create, write, flush, close, rename or change into a file or directory that holds build results or build state (dependency records, exported values, configured files, moved or installed files) is reported as an error and stops the build; it is never dropped.",
 ["fault_sequences"], "every failing file operation on build state and results",
 "Tests run on a healthy file system.",
 ["deps.c", "script.c", "autark_core.c", "node_configure.c", "node_install.c", "utils.c", "node_cc.c", "node_run.c"], [("result checks of file operations", "throughout")])

prop("P30", "Only documented places are written",
 "Autark itself creates, modifies or deletes files only in the cache directory, at rule products, and at install destinations on request; sources, templates and other inputs are opened for reading only.",
 ["programs"], "every project and rule",
 "Tests do not watch for stray modifications of the source tree.",
 ["script.c", "deps.c", "node_configure.c", "node_install.c", "utils.c", "paths.c"], [("all file creating and deleting operations", "throughout")])

prop("P36", "Exported values reach the build exactly as the script gave them",
 "Every KEY=VALUE a check script exports with `autark set` sets the variable KEY to exactly VALUE in the build: every value, in order, once, whatever its length and whatever bytes it contains (other than a line break), also when it is empty or contains '='; nothing that was not exported is set. This holds in the run that executes the script and in every later run that finds the script up to date.",
 ["inputs", "histories"], "every key and value, every number of values and commands, runs with and without executing the script",
 "Tests export a few short values; length limits and unusual values are never reached.",
 ["autark_core.c", "script.c", "node_check.c"],
 [("exporting command", "autark_core.c: autark set"), ("restoring exported values", "script.c: node_resolve"), ("receiver", "node_check.c: _check_on_env_value")])

prop("P37", "Configured files are the template with the documented replacements",
 "The file a configure rule writes is its template with every @KEY@ replaced by the value of the variable (nothing if it is undefined, list items separated by spaces) and every `//autarkdef KEY` line replaced by the documented #define if the variable is defined; every other byte, lone '@' signs and overlong lines included, is copied unchanged. Every variable a template refers to, defined or not, becomes a dependency of the rule.",
 ["inputs"], "every template, every placement of references, every value, lines and files of every length",
 "Tests configure one small header; adjacent references, lone '@' signs, list values and long lines never occur.",
 ["node_configure.c", "xstr.c"],
 [("replacement of references", "node_configure.c: _line_replace_subs"), ("//autarkdef lines", "node_configure.c: _line_replace_def"), ("reading of lines", "node_configure.c: _process_file")])

prop("P38", "Path and text helper rules and variables give the documented text",
 "S, SS, C and CC give the absolute path of their arguments, joined into one path, below the project root, the script's directory, the project cache and the script's cache directory; % gives its argument with the extension of the file name (and only that) removed or replaced; ^ gives its arguments joined without any change; set, let and env give their single value unchanged, or the list of their values in order, in which lists are merged and the values marked '..' are split into words at white space, with quotes and backslashes honoured. Asked again, they give the same value, except that let, and every variable inside foreach, gives the value its members have by then. This holds for every argument, list and empty or undefined value, inside and outside foreach.",
 ["inputs"], "every number and kind of arguments, every placement of dots and slashes",
 "Tests use S{} without arguments and % on plain file names only.",
 ["node_dir.c", "node_basename.c", "node_join.c", "node_set.c", "utils.c"],
 [("path helpers", "node_dir.c: _dir_value"), ("file name helper", "node_basename.c: _basename_value"), ("concatenation", "node_join.c: _join_value"), ("variables", "node_set.c: _set_value_get")])

prop("P31", "Paths are normalised and related correctly",
 "Normalising a path gives the absolute path, free of '.', '..', empty parts and '/' at the end, of the place the path names when its parts are read one after another from the given directory; the relative path between two places leads from the one to the other without needless steps (a start at the root excepted); a directory contains a path exactly if the path begins with all of its parts (not merely with its characters), and the rest is given; the name of a path is its last part. This holds for every path that fits into PATH_MAX.",
 ["inputs"], "every path text, every placement of dots and slashes, every length of common beginning",
 "Tests check a table of examples.",
 ["paths.c"], [("path arithmetic", "paths.c: path_normalize_cwd, path_relativize_cwd, path_is_prefix_for, path_basename")])

prop("P32", "The parser builds exactly the documented tree",
 "Every syntactically valid script is parsed to the tree the grammar documents, quoting and escapes included, and every invalid one is rejected with a syntax error.",
 ["inputs"], "every script text", "Tests parse a fixed set of scripts.",
 ["scriptx.leg", "script.c"], [("grammar", "scriptx.leg")])

prop("P33", "An incremental build equals a clean build",
 "After any sequence of edits and builds, the products are the same as those of a clean build of the final sources.",
 ["histories"], "every sequence of edits and builds", "Tests exercise one or two steps.",
 ["script.c", "deps.c", "node_*.c"], [("staleness machinery", "script.c: node_resolve, deps.c")])

prop("P34", "Containers behave as their abstract data types",
 "Lists, maps, dynamic strings and pools behave like the abstract sequence, dictionary, text and arena for every sequence of operations.",
 ["histories"], "every sequence of container operations", "Tests use few sequences.",
 ["ulist.c", "map.c", "xstr.c", "pool.c"], [("containers", "ulist.c, map.c, xstr.c, pool.c")])

prop("P35", "Loading and evaluation always terminate",
 "Loading and evaluating any project terminates: include cycles, self-referencing variables and repeated definitions end in a value or an error.",
 ["programs"], "every project", "Tests contain no such cycles.",
 ["node_include.c", "node_set.c", "script.c"], [("recursion guards", "node_set.c, node_macro.c")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
