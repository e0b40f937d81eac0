#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the text stays easy to edit)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(zip(("name", "meaning", "where"), s)) for s in state],
                               mechanism=[dict(zip(("name", "where"), m)) for m in mech], observe_at=list(observe),
                               hook_needed=hook)))


prop("C01", "No program, input text or command line makes the interpreter corrupt memory",
     "Whatever program is run, whatever values built-in functions are given and whatever bytes are read, the "
     "interpreter never reads or writes outside the objects it owns, never uses a value after it was released, never "
     "releases it twice, never runs into undefined C behaviour and never dies of a signal. "
     "It may print, return NIL or report an error. "
     "The only programs left out are those that evaluate a list assembled by hand like, or from the parts of, a function, that tie a value "
     "into a cycle with conc or <-, or that need more than the 64 MB of cells or the C stack.",
     ["programs", "inputs"], "all programs over the modules, all argument values, all input bytes, both build configurations",
     "the tests run well-typed examples in one configuration without instrumentation, and the cell allocator hides "
     "use-after-free from malloc-level tools",
     ["lib/core/eval.c", "lib/core/lisp.c", "lib/core/utils.c", "lib/core/slab.c", "lib/core/read.c", "lib/core/print.c",
      "lib/core/module.c", "lib/grammar/lexer.rl", "lib/grammar/parser.y", "lib/mnml"],
     [("reference counting", "include/mnml/lisp.h X/UP/DOWN, lib/core/slab.c"),
      ("argument checks of the built-ins", "lib/mnml/*/*.c"), ("bounded buffers", "lib/core/utils.c, lib/core/module.c")],
     [("refs", "owners of a cell", "include/mnml/types.h struct atom"),
      ("first", "head of the free list", "include/mnml/slab.h struct slab")],
     ["ASan/UBSan reports", "slab_allocate/slab_deallocate", "process exit status"])

prop("C02", "Every cell is released: nothing leaks, repeated work does not accumulate",
     "When a program ends, normally or after malformed input or failing calls, every cell it ever allocated has been "
     "released, so that `mnml -d` exits with the status of the program. "
     "Evaluating the same expression again and again keeps the number of live cells constant once its bindings exist, "
     "and reading, evaluating, loading, opening channels or failing to, again and again, does not make the interpreter's "
     "native memory grow. "
     "Programs that tie a value into a cycle with conc or <- are left out.",
     ["programs", "histories"], "all acyclic programs, all error paths of the reader, the built-ins and the modules",
     "a leak shows only on the path that leaks; the tests check slab balance on a few dozen fixed expressions",
     ["lib/core/eval.c", "lib/core/lisp.c", "lib/core/utils.c", "lib/core/tree.c", "lib/core/read.c", "lib/core/module.c",
      "lib/grammar/parser.y", "lib/mnml"],
     [("consume/borrow discipline", "lib/core/*.c, lib/mnml/*/*.c"), ("parser destructors", "lib/grammar/parser.y"),
      ("weak parent links of the symbol tree", "lib/core/tree.c")],
     [("n_alloc - n_free", "live cells", "include/mnml/slab.h struct slab")],
     ["slab counters at exit and through slabinfo", "exit status of mnml -d"])

prop("C03", "Programs evaluate to what the language manual says",
     "For every program, the values and the output produced are those of the documented evaluation rules: arguments are "
     "evaluated left to right, a name refers to the innermost of argument, let or captured binding, then to the "
     "caller's, then to the global one; lambdas keep the bindings they were made with; let binds in sequence; control "
     "forms evaluate only the branch they select, and time evaluates its first argument once and gives the nanoseconds "
     "that took. "
     "A call with too many arguments is NIL, an unbound symbol is NIL, and a list whose head is not a function evaluates "
     "to itself with its head evaluated.",
     ["programs", "configurations"], "all programs made of the std, logic, math and io built-ins; debug/SSE and release builds",
     "the tests evaluate isolated forms; scoping and sharing faults need combinations of closures, shadowing, nesting "
     "and mutation",
     ["lib/core/eval.c", "lib/core/lisp.c", "lib/core/utils.c", "lib/mnml/std", "lib/mnml/logic"],
     [("lisp_eval, lisp_eval_func, lisp_eval_args", "lib/core/eval.c"), ("lisp_merge/lisp_sss environments", "lib/core/utils.c"),
      ("lisp_lookup", "lib/core/lisp.c")],
     observe=["values and text printed by the program"])

prop("C04", "Tail calls run in bounded space and mean the same as ordinary calls",
     "A function whose recursive call is its last action, directly or through if, cond, match, prog, when or unless, can "
     "recur any number of times (defined globally or bound by let) with a number of live cells and a stack that do not "
     "grow with the number of calls. "
     "Its result and its effects are exactly those the same program gives when the call is not in tail position, "
     "including through aliases, higher-order calls, shadowed names, redefinitions and partial applications.",
     ["programs", "inputs"], "all self-recursive functions, recursion depths from 0 to hundreds of thousands",
     "the tests cover a few tail-recursive shapes at small depth and never compare with the non-tail meaning",
     ["lib/core/eval.c", "lib/core/utils.c", "lib/mnml/std/def.c", "lib/mnml/std/let.c"],
     [("lisp_mark_tail_calls, lisp_collect_tails", "lib/core/utils.c"), ("tail-call loop", "lib/core/eval.c lisp_eval_func")],
     [("F_TAIL_CALL", "call site to be run by the loop of the caller", "include/mnml/types.h")],
     ["peak live cells by depth", "stack limit", "printed results"])

prop("C05", "A function can be given its arguments one by one, in any grouping",
     "For every function of fixed arity, built-in or defined, supplying its arguments in any grouping of successive "
     "calls gives the same result and effects as supplying them at once, in the same order. "
     "A partial application keeps the values it was given, can be stored, passed and applied any number of times "
     "independently, and leaves the original function as it was. "
     "Supplying too many arguments gives NIL.",
     ["programs", "inputs"], "all functions, all groupings of their arguments, all interleavings of uses of shared partial applications",
     "groupings and interleaved reuse of partial applications multiply quickly; the tests have a handful",
     ["lib/core/eval.c", "lib/core/utils.c", "include/mnml/module.h"],
     [("partial application branch", "lib/core/eval.c lisp_eval_func"), ("lisp_may_apply", "lib/core/utils.c"),
      ("LISP_ARGS", "include/mnml/module.h")],
     observe=["printed results"])

prop("C06", "The reader gives the same data whatever the layout and the way the text arrives",
     "Well-formed text reads as the data it denotes, for every length of line, token, string, list and nesting. "
     "The result depends neither on white space, newlines and comments between tokens, nor on how the text is cut into "
     "lines or delivered in pieces by a file, a pipe, the prompt or -e. "
     "Several expressions on one line are all read, in order.",
     ["inputs", "schedules"], "all well-formed texts, all layouts, all chunkings",
     "the lexer is a state machine resumed across buffers; the tests use short one-line inputs",
     ["lib/grammar/lexer.rl", "lib/grammar/parser.y", "lib/core/read.c", "lib/core/utils.c", "bin/mnml.c"],
     [("ragel scanner with saved prefix", "lib/grammar/lexer.rl"), ("line accumulation", "lib/core/read.c lisp_read"),
      ("string escapes", "lib/core/utils.c lisp_process_escapes")],
     observe=["data printed back", "values delivered by the lexer to its consumer"])

prop("C07", "What print writes reads back as the same value, at any size",
     "For every value made of numbers, characters, symbols as the reader makes them, T, NIL, _ and pairs, the text "
     "written by print is the documented notation and reads back as an equal value (characters other than the "
     "printable ones, escape, newline, return and tab have no notation: they are written as their byte), and prin "
     "writes the bare text of strings and atoms. The output is complete and in order whatever its length, and printing never changes the value.",
     ["inputs"], "all acyclic values without functions, all output sizes",
     "values of all shapes and output lengths around the internal buffer cannot be sampled by examples",
     ["lib/core/print.c", "lib/mnml/io/print.c", "lib/mnml/io/printl.c", "lib/mnml/io/prin.c", "lib/mnml/io/prinl.c"],
     [("lisp_prin_atom, lisp_write buffering", "lib/core/print.c")],
     observe=["bytes written", "read of those bytes"])

prop("C08", "Global bindings behave as a map: a lookup gives the last value set",
     "After any history of def, setq, <-, module loads and lookups, each global name has the value last given to it and "
     "no operation on one name affects another, whatever the number, order and similarity of the names. "
     "All occurrences of a name, including ones already evaluated, ones inside functions defined earlier and names made "
     "with sym, see the new value at once.",
     ["histories"], "all histories of definitions, redefinitions, updates and lookups over any set of names",
     "the symbol table is a balanced tree with per-occurrence caches; faults need particular insertion orders and "
     "redefinition histories",
     ["lib/core/tree.c", "lib/core/lisp.c", "lib/mnml/std/def.c", "lib/mnml/std/setq.c", "lib/mnml/std/set.c"],
     [("lisp_tree_add/upd/get", "lib/core/tree.c"), ("lookup cache", "lib/core/lisp.c lisp_lookup"),
      ("symbol comparison", "include/mnml/utils.h")],
     [("cache", "binding found by this occurrence of the symbol", "include/mnml/types.h struct atom")],
     ["values printed by the program"])

prop("C09", "The symbol tree is an ordered map that stays balanced and releases its nodes",
     "After any sequence of additions, updates and removals the tree contains exactly the surviving keys with their last "
     "value, visits them in increasing order, and lookups, updates and removals find a key exactly when it is present. "
     "It remains a red-black tree: consistent parent links, black root, no red child of a red node, equal black heights. "
     "Releasing the tree releases every cell.",
     ["histories"], "all sequences of add, update, get and remove over any keys",
     "rebalancing cases depend on the exact history; the unit test inserts and removes a fixed sequence",
     ["lib/core/tree.c", "include/mnml/tree.h"],
     [("tree_add_check, tree_rem_check, rotations", "lib/core/tree.c"), ("weak parent references", "include/mnml/tree.h")],
     [("F_HAS_COLOR", "red node", "include/mnml/types.h"), ("F_WEAKREF", "CAR is not owned", "include/mnml/types.h")],
     ["tree structure after each operation", "slab counters"])

prop("C10", "The allocator gives each cell to one owner at a time and can fill its arena",
     "For every sequence of allocations and releases, an allocated cell is zeroed, aligned within the arena, distinct "
     "from every other live cell, and keeps its contents until it is released. "
     "The arena grows up to its full 64 MB without losing or duplicating cells, released cells are reused, and the "
     "allocation and release counts are exact.",
     ["histories"], "all sequences of allocations and releases up to a full arena",
     "growth steps and free-list orders are reached only by long mixed histories; the tests allocate a few cells",
     ["lib/core/slab.c", "include/mnml/slab.h"],
     [("free list by index", "lib/core/slab.c slab_allocate/slab_deallocate"), ("slab_expand", "lib/core/slab.c")],
     [("first", "head of the free list", "include/mnml/slab.h"), ("n_alloc/n_free/n_pages", "counters", "include/mnml/slab.h")],
     ["cells returned", "slab counters"])

prop("C11", "Numbers are 64-bit integers and comparisons are consistent for all operands",
     "+, - and * give the 64-bit two's complement result, / and % the quotient truncated toward zero and its remainder, "
     "and a division by zero gives NIL; <, <=, >, >= are the integer order for every pair of operands. "
     "= is structural equality on every pair of values and <> is exactly its negation; predicates classify every value "
     "into its type, and and, or, not follow the truth of their operands; str and sym convert between a symbol and its "
     "name (the first sixteen characters of a longer one), chr gives the character of a code.",
     ["inputs"], "all pairs of 64-bit operands, all pairs of values",
     "edge operands (extremes, sign combinations, values differing deep inside) are not in the tests",
     ["lib/mnml/math", "lib/mnml/logic", "include/mnml/module.h", "lib/core/utils.c", "lib/mnml/std"],
     [("BINARY_NUMBER_GEN, BINARY_COMPARE_GEN", "include/mnml/module.h"), ("lisp_equ, lisp_neq", "lib/core/utils.c")],
     observe=["printed results"])

prop("C12", "match, cond and deconstruction select and bind exactly what the patterns say",
     "match evaluates its subject once and runs the first clause whose pattern has the structure and atoms of the "
     "subject, _ standing for anything, and no other clause; cond does the same with predicates that must return T. "
     "Deconstruction in let, lambda and def arguments binds every symbol of the pattern to the part of the value at its "
     "position, NIL where the value is too short, and ignores _ .",
     ["inputs", "programs"], "all patterns, all subjects, all nestings",
     "patterns and subjects that differ in one deep position or in list length are a large space; tests have a few",
     ["lib/mnml/std/match.c", "lib/mnml/std/cond.c", "lib/core/lisp.c", "lib/mnml/std/let.c"],
     [("atom_match", "lib/mnml/std/match.c"), ("lisp_bind", "lib/core/lisp.c"), ("lisp_cond", "lib/mnml/std/cond.c")],
     observe=["printed results"])

prop("C13", "Reads and writes go to the innermost in/out and every byte arrives in order",
     "Inside in and out, reading and printing use the given file, descriptor or standard stream, and when the form ends, "
     "however deeply nested, the enclosing channel continues exactly where it was. "
     "What is written to a file or a descriptor is there completely and in order when out returns, appended to what the "
     "file had; readline gives each line without its newline and EOF at the end, read gives each expression, and a "
     "channel that cannot be opened makes the form NIL without effect. "
     "No descriptor stays open after the form.",
     ["programs", "inputs", "histories"], "all nestings of in and out, all file contents, all line lengths",
     "nesting, restore and buffering faults need multi-step histories on real files and pipes",
     ["lib/mnml/io", "lib/core/read.c", "lib/core/print.c", "include/mnml/utils.h", "lib/core/utils.c"],
     [("PUSH_IO_CONTEXT/POP_IO_CONTEXT", "include/mnml/utils.h"), ("lisp_function_in/out", "lib/mnml/io"),
      ("readline", "lib/mnml/io/readline.c")],
     [("ichan/ochan", "stacks of open channels", "include/mnml/lisp.h struct lisp")],
     ["file contents", "printed results", "open descriptors"])

prop("C14", "Standard library functions compute what they document on every input",
     "The functions of the standard library (folds, maps, zip, append, reverse, filter, flatten, sort, insert, merge, "
     "dedup, assoc, replace, erase, split, join, trim, truncate, repeat, padding, string comparison, number conversion, "
     "option parsing and the others under share/mnml) return the documented result for every well-typed argument, "
     "including empty lists and single elements. "
     "They call the functions they are given once per element, in the documented order, and do not alter their "
     "arguments. "
     "A test suite given to test:run runs the tests chosen on the command line, each once, in order, reports which passed, "
     "failed or do not exist, and gives T exactly when all of them passed.",
     ["inputs", "programs"], "all well-typed arguments: lists of any length and content, any callback",
     "the tests call each function on one or two fixed lists",
     ["share/mnml"], [("library definitions", "share/mnml/*.l")], observe=["printed results", "printed argument after the call"])

prop("C15", "Transpiled functions behave as their interpreted source",
     "A function compiled to C by mnmlc and loaded as a module returns the same values, makes the same callbacks in the "
     "same order, and is as memory-safe and leak-free as the same function interpreted from its source, for all "
     "arguments including partial application, nested and recursive use through callbacks. "
     "This holds for the shipped compiled modules (iterators, manips) and for functions of the same kind compiled by "
     "the user: up to four parameters, all used, bodies made of tail ifs, arithmetic, comparisons of numbers, list operations "
     "and calls of parameters, of themselves and of other functions. "
     "mnmlc writes a module of exactly the functions it was asked for, whatever the order of its options, and with incomplete options "
     "or a source that cannot be loaded prints its usage and writes nothing.",
     ["programs", "inputs"], "all arguments and callbacks of the shipped modules, all functions of the supported subset",
     "generated code has its own memory management; the tests run each compiled function on one list",
     ["share/mnml/cc.l", "share/mnml/cps.l", "bin/mnmlc", "lib/core/closure.c", "include/mnml/closure.h", "lib/stubs/extern.c",
      "share/mnml/iterators.l", "share/mnml/manips.l"],
     [("CPS conversion and code generation", "share/mnml/cps.l, share/mnml/cc.l"), ("closure cache", "lib/core/closure.c")],
     [("closure cache", "released closures kept for reuse", "lib/core/closure.c")],
     ["printed results of both versions", "sanitizers, slab counters"])

prop("C16", "Processes, pipes, sockets and select deliver every byte and event exactly once",
     "Data written by one process to a pipe or a socket is read by the other completely and in order, whatever the sizes, "
     "pauses and number of peers; run gives the exit status and all the output lines of the command; wait reports the "
     "status of the right child; dup and close act on the descriptors given; writing for a reader that is gone loses those bytes only; "
     "names longer than the system allows are refused; unlink removes the named file or link and nothing else. "
     "select calls the read callback exactly for descriptors that are readable, keeps, replaces or adds descriptors as "
     "the callbacks answer, closes those it drops, and calls the error callback for failing ones. "
     "After these operations no descriptor is left open beyond those the program still holds.",
     ["schedules", "inputs", "histories"], "all sizes and timings of peers, all sets of descriptors, all callback answers",
     "partial reads, EOF timing and descriptor bookkeeping depend on schedules the tests do not produce",
     ["lib/mnml/unix", "share/mnml/run.l", "share/mnml/http.l"],
     [("select loop", "lib/mnml/unix/select.c"), ("fork/exec/wait/pipe/dup/close", "lib/mnml/unix"), ("run", "share/mnml/run.l")],
     observe=["bytes exchanged with real peers", "exit statuses", "/proc/self/fd"])

prop("C17", "Loading gives exactly the named definitions, from the right place, however often",
     "load of a module defines the requested symbols, or all of them, and returns the list of their names; other names "
     "are untouched and loading again changes nothing. "
     "load of a file evaluates its expressions in order in the global environment and returns the last value; relative "
     "names are resolved from the directory of the file being loaded, @lib from the library (the first directory of "
     "MNML_SCRIPT_PATH that has it) and ~ from HOME, at any depth of nested loads. "
     "A missing file, a missing module or an unknown symbol gives NIL or is skipped and leaves the interpreter usable.",
     ["histories", "configurations", "inputs"], "all sequences of loads, directory layouts, path lengths and environment settings",
     "nested relative loads, environment variables and failing loads combine in ways the tests do not",
     ["lib/core/module.c", "lib/core/utils.c", "lib/mnml/std/load.c", "include/mnml/module.h"],
     [("lisp_load_file, lisp_get_fullpath", "lib/core/utils.c"), ("module_load, module cache", "lib/core/module.c")],
     [("modules", "loaded libraries", "include/mnml/lisp.h struct lisp")],
     ["printed results", "definitions visible after the load"])

prop("C18", "Malformed text is reported and does not derail the interpreter",
     "Whatever bytes are typed at the prompt or read from a file or a channel, the interpreter does not crash, hang or "
     "leak; the expressions completed before the malformed text are evaluated exactly as written, and nothing is "
     "evaluated that the text does not contain. "
     "A closing parenthesis without its opening one, a byte that starts no token, an ill-formed character or quote and a "
     "misplaced dot drop the expression in which they occur and the rest of their line (with -e, the rest of the "
     "argument), are reported once as a parse error at the prompt, and the lines after it are read normally. "
     "Unterminated input at the end of a file is discarded.",
     ["inputs"], "all byte sequences, all positions of the error",
     "the space of malformed inputs is unbounded; the tests have well-formed inputs only",
     ["lib/grammar/lexer.rl", "lib/grammar/parser.y", "lib/core/read.c", "bin/mnml.c"],
     [("purge state, parse error action", "lib/grammar/lexer.rl"), ("parser destructors", "lib/grammar/parser.y"),
      ("REPL", "bin/mnml.c run")],
     observe=["REPL transcript", "exit status", "sanitizers and slab counters"])

prop("C19", "Only conc and <- modify existing values, and exactly the value they name",
     "Every other function leaves its arguments and everything that shares structure with them unchanged. "
     "conc replaces the end of its first list in place, visible through every holder of that list and nowhere else; <- "
     "changes the innermost binding of the name, visible to every closure sharing that binding and to no other binding "
     "of the same name, returns the previous value, and creates nothing when the name is unbound.",
     ["programs", "histories"], "all sharing patterns between values, variables, closures and quoted constants",
     "aliasing faults are invisible unless shared values are looked at again afterwards",
     ["lib/mnml/std/conc.c", "lib/mnml/std/set.c", "lib/core/lisp.c", "lib/core/utils.c", "lib/core/eval.c"],
     [("lisp_conc", "lib/core/lisp.c"), ("lisp_dup of environments", "lib/core/utils.c"), ("lisp_function_set", "lib/mnml/std/set.c")],
     observe=["values printed before and after"])

prop("C20", "The command line: exit status, ARGV, ENV, -e and the prompt reflect what was run",
     "mnml exits with status 0 when the last value is not NIL and with a failure status when it is; -d changes this only "
     "when cells leaked; -e evaluates every expression of its argument in order. "
     "ARGV holds the script and its arguments and ENV the environment variables that are not empty, byte for byte, for any "
     "content; the prompt prints one result per expression in order. "
     "At the prompt and with -e, SIGTERM and SIGQUIT (and quit) let the expression being evaluated finish, then end the session in order; "
     "SIGPIPE has no effect.",
     ["inputs", "configurations", "schedules"], "all argument vectors, environments, expressions and scripts",
     "the tests start the interpreter with one form of command line",
     ["bin/mnml.c", "lib/core/lisp.c"],
     [("main, lisp_build_argv, lisp_build_env", "bin/mnml.c")],
     observe=["exit status", "stdout"])

prop("C21", "Conversion to continuation-passing style preserves the meaning of a function",
     "For every function whose body is made of nested calls of named functions, two-armed ifs anywhere and one-armed if, "
     "when and unless in tail position, over variables, numbers and T, the function produced by >& applied to the original "
     "arguments and a continuation k makes the same calls in the same order and gives the value of k applied to the result of the original "
     "function (a one-armed form whose branch is not taken gives NIL without calling k). "
     "The conversion leaves the original function as it was. "
     "Type inference on the converted function gives its parameters and its result the types with which they are used, "
     "ERROR where the uses conflict, and reference counting finds every use of a parameter.",
     ["programs", "inputs"], "all functions of the subset and all arguments",
     "the transformation is checked by the tests on fixed bodies by comparing text, not meaning",
     ["share/mnml/cps.l"], [("cps:lift, cps:swap", "share/mnml/cps.l"), ("cps:infer", "share/mnml/cps.l")],
     observe=["printed results of both versions"])

prop("C22", "Debug tracing observes and takes no part",
     "In a debug build, whatever categories MNML_DEBUG names, a program prints the same to its standard output, exits with the "
     "same status and allocates and releases the same cells as without tracing. Each category named is traced, and nothing "
     "that only other categories trace; the trace of several categories is that of each of them together; the traces of "
     "allocations are exactly the allocations made. Tracing values of any shape and size is safe. A release build does not "
     "trace at all.",
     ["programs", "inputs"], "all programs and all sets of categories",
     "tests run without tracing; a trace macro that evaluates, consumes or keeps what it shows breaks programs only when somebody debugs them",
     ["include/mnml/debug.h", "lib/core/debug.c", "lib/core", "lib/mnml"],
     [("TRACE macros", "include/mnml/debug.h"), ("categories", "lib/core/debug.c")],
     observe=["stdout, stderr and exit status with and without MNML_DEBUG", "allocator counters"])

prop("C23", "Backtick and tilde stand for a value taken when the expression is read",
     "A backtick before a list, symbol or number stands for the value of that expression, and a tilde before one that is not the first "
     "item of its list for the elements of its value, taken once, in the order of the text, under the global bindings of the "
     "moment the lines of the expression are read: after the expressions of the lines before were evaluated, and before any "
     "expression of the same lines is. (With -e the whole argument is read first.) "
     "What was read does not change when the bindings do, reading does not alter the values it uses, and no cell is lost, "
     "whether the text is a script, loaded, a channel given to read, the prompt or the argument of -e, and also when it is malformed.",
     ["programs", "histories"], "all programs with read-time expressions that have a value at any depth, all global bindings before",
     "the tests read two or three fixed expressions; aliasing with the values spliced shows only when they are used again",
     ["lib/grammar/parser.y", "lib/grammar/lexer.rl", "lib/core/read.c", "bin/mnml.c"],
     [("BACKTICK and TILDE rules", "lib/grammar/parser.y"), ("prefixed tokens", "lib/grammar/lexer.rl")],
     observe=["stdout", "slab counters", "sanitizers"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as fh:
    for p in P:
        fh.write(json.dumps(p) + "\n")
