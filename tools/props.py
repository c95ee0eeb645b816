PROPS = [
 dict(
  id="C01", title="Operators compute the documented result in every syntactic form",
  statement="For all operands, every arithmetic, bitwise, shift, comparison, logical, conditional and typeof operator yields the documented result bit for bit: 64-bit wrapping integers, truncating division, IEEE doubles, floor conversion and range errors for bitwise operands, signed shift counts, lazy && || ?:, exceptions for division by zero, overflow and unsupported types. The result is the same whether operands are literals, constants, variables or captured variables, whether the operator is plain or a compound assignment, whether it stands in a value or in a condition, and for any nesting of operators.",
  over=["inputs", "programs"],
  quant="all operand values (all int64, all doubles except NaN converted to integer, strings, booleans, void), all operators, all syntactic forms, all expression trees",
  why="tests/interpreter_tests/operators.kos samples a few hundred literal cases; they missed wrong code for nested && and || in conditions, lost signs of zero and a folding error",
  files=["core/kos_vm.c", "core/kos_compiler.c", "core/kos_compiler_optim.c", "core/kos_utils.c"],
  mech=[("run-time arithmetic", "core/kos_vm.c"), ("constant folding mimics the VM", "core/kos_compiler_optim.c:optimize_binary_op"), ("conditional jump generation", "core/kos_compiler.c:gen_cond_jump"), ("comparison", "core/kos_utils.c:KOS_compare")],
  observe=["value of a Kos expression"],
  technique="property-based testing: generated operator applications and expression trees against a Python reference model, two build flavours",
  note="random search over operators x forms x edge-biased operands against an independent model; trusts Python's IEEE arithmetic"),
 dict(
  id="C02", title="Compile-time optimisation never changes what a program does",
  statement="For every program that compiles, the observable behaviour (values passed to calls, order of side effects, exceptions, result) is the same whether the compiler can see constants (literals, constant variables, constant conditions, dead code, unused variables and functions) or the same values are produced at run time. Constant folding, dead-code and dead-branch removal, unused-variable removal, register reuse and jump simplification are invisible, in debug and release builds.",
  over=["programs"],
  quant="all programs made of expressions, variables, closures, loops, switch, try/defer/with, generators and dead code, each also with every literal hidden behind a call",
  why="optimisations interact: removing one construct changes what another sees; tests/interpreter_tests check isolated cases and missed five miscompilations repaired here",
  files=["core/kos_compiler_optim.c", "core/kos_compiler.c", "core/kos_compiler_vars.c"],
  mech=[("folding and dead code removal", "core/kos_compiler_optim.c"), ("register allocation and destination registers", "core/kos_compiler.c:gen_reg"), ("variable usage analysis", "core/kos_compiler_vars.c")],
  observe=["trace of calls made by the program", "uncaught exception"],
  technique="property-based testing: generated programs, metamorphic (literals visible vs hidden, debug vs release) and differential against an equivalent Python program",
  note="random program search; oracle is the same program emitted in Python"),
 dict(
  id="C03", title="Control flow, scoping and closures follow the language definition",
  statement="For every program, if/else, while, repeat, loop, for-in, switch (case lists, default, fallthrough, break, continue), nested and recursive functions, default and variadic arguments, shadowing, closures that read and write captured variables, destructuring, assignments and compound assignments to variables, elements and properties execute statements in the defined order, the defined number of times, and every variable read yields the last value assigned to that variable.",
  over=["programs"],
  quant="all terminating programs built from these constructs in any nesting, at module level, in functions and in nested closures",
  why="the number of nestings is unbounded and register allocation depends on the whole function; tests sample a few nestings of each construct",
  files=["core/kos_compiler.c", "core/kos_compiler_vars.c", "core/kos_vm.c", "core/kos_parser.c"],
  mech=[("statement code generation", "core/kos_compiler.c"), ("jump offsets", "core/kos_compiler.c:finish_break_continue"), ("closure capture", "core/kos_compiler_vars.c"), ("interpreter loop", "core/kos_vm.c:execute")],
  observe=["trace of calls made by the program"],
  technique="property-based testing: generated programs compared with an equivalent generated Python program",
  note="random program search; Python semantics of the emitted twin program is the reference"),
 dict(
  id="C04", title="Exceptions, defer and with run exactly the right handlers",
  statement="For every program, a thrown value reaches exactly the innermost enclosing catch of the dynamic call chain with the value thrown; every defer block of a scope that was entered runs exactly once, in reverse order, on every way out of the scope (end, return, break, continue, fallthrough, throw, rethrow) before the enclosing code continues; with blocks acquire in order and release in reverse order exactly when acquired; an exception thrown by a cleanup replaces the pending one; a return value computed before the cleanup is preserved; errors raised by the run time behave like thrown values.",
  over=["programs", "fault_sequences"],
  quant="all nestings of try, catch, defer, with, loops, switch, functions and generators, and all exits from them",
  why="exit paths multiply with nesting; tests exercise single levels and missed a handler left installed after break out of try",
  files=["core/kos_compiler.c", "core/kos_vm.c", "core/kos_parser.c"],
  mech=[("try/defer code generation", "core/kos_compiler.c:try_stmt"), ("unwinding", "core/kos_vm.c"), ("desugaring of defer and with", "core/kos_parser.c")],
  observe=["trace of calls made by the program", "uncaught exception value"],
  technique="property-based testing: generated programs compared with an equivalent generated Python program (try/finally)",
  note="random program search; Python's try/finally semantics is the reference"),
 dict(
  id="C05", title="Calls bind arguments to parameters as the definition says",
  statement="In every form of call (plain, method, spread, named arguments, apply, async, stream operator, constructor, super method, generator instantiation) the arguments are evaluated once, left to right, and bound in order: missing trailing arguments take the default values computed once when the function was declared, the extra ones go to the ellipsis parameter as a fresh array or are ignored, `this` is the object of the call; this holds for any number of parameters (also beyond the 32 kept in registers), whether parameters are captured, assigned or unused; a call without a mandatory argument or with an unknown name throws and does not run the function.",
  over=["inputs"],
  quant="all parameter lists, all argument lists, all call forms",
  why="registers, rest arrays, defaults and spreads interact by counts the tests never combine; defaults beyond the 32nd parameter came from a wrong offset",
  files=["core/kos_vm.c", "core/kos_compiler.c", "core/kos_compiler_args.c", "modules/kos_mod_base.c"],
  mech=[("binding", "core/kos_vm.c:init_registers"), ("named arguments", "core/kos_vm.c:get_named_args"), ("placement of parameters", "core/kos_compiler_args.c:update_arguments"), ("async call", "core/kos_compiler.c:async_op")],
  observe=["values of all parameters", "order of evaluation", "exception"],
  technique="property-based testing: generated parameter lists and calls against a model of the binding rules",
  note="random search, up to about 120 parameters; trailing parameters a function never uses become optional by design and the generator always uses the last mandatory one"),
 dict(
  id="C06", title="Generators suspend and resume without losing state",
  statement="For every generator function and every way of driving it (for-in, spread, destructuring, manual calls with sent values, interleaved instances, use after partial consumption), the sequence of values produced, the values received by yield, the side effects and their order, the end of iteration and the propagation of exceptions out of the generator are those of a coroutine whose locals, loops, open try/defer/with blocks and captured variables persist between resumptions; separate instances never share state.",
  over=["programs", "histories"],
  quant="all generator bodies built from the language's statements and all interleavings of resumptions of several instances",
  why="a resumption can happen at any yield inside any nesting, interleaved with other instances; tests resume a handful of fixed generators",
  files=["core/kos_vm.c", "core/kos_compiler.c", "core/kos_object.c"],
  mech=[("generator state machine", "core/kos_vm.c:prepare_call"), ("stack save and restore", "core/kos_vm.c:kos_stack_push"), ("iterator protocol", "core/kos_vm.c:INSTR_NEXT_JUMP")],
  observe=["trace of calls made by the program"],
  technique="property-based testing: generated programs with generators compared with equivalent Python generators",
  note="random program search; Python generators are the reference"),
 dict(
  id="C07", title="Garbage collection never changes results and reclaims all garbage",
  statement="For every history of allocations and mutations of arrays, objects, strings, buffers, closures, generators, prototypes, exceptions and long chains, collections at any point (explicit, automatic, or at every single allocation) leave every reachable value intact and identical, and a program whose live data is small relative to the heap limit never runs out of memory however much garbage it produces.",
  over=["histories", "schedules"],
  quant="all object graphs, all mutation histories, all positions of collections, all heap sizes accepted by -m",
  why="a missed root or an unrewritten pointer shows only when a collection falls between two specific steps; tests collect at a few places",
  files=["core/kos_heap.c", "core/kos_vm.c", "core/kos_array.c", "core/kos_object.c", "core/kos_string.c", "core/kos_buffer.c", "interpreter/kos.c"],
  mech=[("mark", "core/kos_heap.c:mark_children_gray"), ("evacuate", "core/kos_heap.c:evacuate"), ("pointer update", "core/kos_heap.c:update_after_evacuation"), ("local roots", "core/kos_heap.c:KOS_init_local"), ("heap limit", "interpreter/kos.c")],
  observe=["digests of the object graph", "program traces", "out of memory exceptions"],
  technique="property-based testing: model-based heap histories and generated programs, run with small heaps, with injected collections and with a collection at every allocation (CONFIG_MAD_GC); long runs of garbage-making work under -m 8 to 16 against a reference value, a bound on the growth of live memory and no out of memory",
  note="random histories; the build that collects and moves at every allocation makes missed roots deterministic"),
 dict(
  id="C08", title="Memory and system failures surface as exceptions and leave everything intact",
  statement="When any single allocation, file, thread or other system operation made by the runtime fails (or several in a row), at any point of start-up, compilation or execution, the program sees an exception (or the operation still succeeds with the correct result); the process never crashes, hangs, reads or writes outside its objects, or reports success with a wrong result; objects involved in the failed operation are in the state before it or a valid state after it, no file descriptors or local references are leaked, and repeating the operation afterwards works as if nothing had failed.",
  over=["crash_points", "inputs"],
  quant="all operations, all data, all positions of the fault, all lengths of the failing window; start-up is enumerated point by point",
  why="the existing fault tests stop at the first success of whole scripts and check only the exit code; the state left behind and the reuse of objects after the failure are never examined",
  files=["core/kos_heap.c", "core/kos_malloc.c", "core/kos_array.c", "core/kos_object.c", "core/kos_compiler.c", "core/kos_parser.c", "core/kos_vm.c", "core/kos_modules_init.c", "modules/kos_mod_os.c", "modules/kos_mod_re.c", "modules/kos_mod_io.c"],
  mech=[("fault points", "core/kos_misc.c:kos_seq_fail"), ("allocation", "core/kos_heap.c:alloc_object"), ("compiler cleanup", "core/kos_compiler.c:kos_compile"), ("module load", "core/kos_modules.c:import_module")],
  observe=["result or exception", "digest of the data before, after the fault and after the repetition", "open file descriptors", "sanitizer reports and assertions", "exit status"],
  technique="fault-injection property-based testing: generated operations and programs, each repeated with faults at its fault points, against the fault-free run; start-up enumerated",
  note="fault points are the runtime's own kos_seq_fail() calls; real exhaustion of the address space is not driven. At most 60 fault points per operation (quick), 1000 (thorough)"),
 dict(
  id="C10", title="Arrays behave like the mathematical sequence model",
  statement="For every history of array operations (construction, indexing with positive, negative and fractional indexes, assignment, push, pop, insert with any range and iterable, resize, reserve, slice, fill, cas, destructuring, iteration), each operation returns and stores exactly what the sequence model says; indexes outside the array throw and range ends are clamped, whatever the magnitude of the number; operations which throw leave the array unchanged; an array inserted into or spread over itself, or resized while iterated, never corrupts memory.  Arrays compare element by element and then by size, also when they share elements or one contains the other.",
  over=["histories"],
  quant="all histories of operations on up to two arrays with all index and element values",
  why="storage is moved, shared and overlapped by insert and resize; the tests use short fixed arrays and never indexes beyond 32 bits, which were accepted by cas",
  files=["core/kos_array.c", "modules/kos_mod_base.c", "modules/base.kos"],
  mech=[("insert with overlap and aliasing", "core/kos_array.c:KOS_array_insert"), ("resize", "core/kos_array.c:KOS_array_resize"), ("index clamping", "core/kos_array.c:kos_fix_index")],
  observe=["value of every operation", "array contents"],
  technique="property-based testing: generated operation histories against a Python list model, debug and AddressSanitizer builds",
  note="random histories; pop(n) with n beyond the size is not generated (documented as an error, the array is emptied first)"),
 dict(
  id="C11", title="Objects, prototypes and classes behave like linked dictionaries",
  statement="For every history of operations on objects and classes (property reads, writes, compound assignments, deletes by name or computed key, optional access, in, propertyof, instanceof, get, method calls, apply, super calls and constructors, implicit and explicit, with missing and extra arguments, prototypes changed or replaced, static properties, object(), iteration with shallow, deep and for-in, adding, changing and deleting properties during iteration, growth to hundreds of properties) every lookup yields the nearest property in the prototype chain, writes and deletes affect only the object itself, each existing property is iterated exactly once with its current value, and keys equal as strings are the same property however they are stored. Types without own properties reject writes.",
  over=["histories"],
  quant="all histories on up to 8 objects and 3 classes with any inheritance among them",
  why="hash tables are resized, rehashed and leave tombstones depending on the whole history; the tests use a handful of keys and missed inherited properties hidden by deleted ones",
  files=["core/kos_object.c", "core/kos_vm.c", "core/kos_compiler.c", "modules/kos_mod_base.c"],
  mech=[("property tables, resize and tombstones", "core/kos_object.c"), ("iteration", "core/kos_object.c:kos_object_walk"), ("constructors and super", "core/kos_compiler.c:super_invocation"), ("object()", "modules/kos_mod_base.c:object_constructor")],
  observe=["value of every operation", "properties of every object, own and inherited"],
  technique="property-based testing: generated operation histories against a Python dictionary-chain model, debug and AddressSanitizer builds",
  note="random histories; the prototype of a class with derived classes is not replaced"),
 dict(
  id="C12", title="Strings behave like sequences of code points",
  statement="Every string operation (indexing, slicing, code, find, rfind, scan, rscan, starts_with, ends_with, ljust, rjust, zfill, strip, split, split_lines, case conversion, reverse, repeats, concatenation, interpolation, join, comparison, use as a property name, switch) gives the result the code point sequences define, for every position argument (negative, beyond the end, float, void), whatever way the strings are stored: 8, 16 or 32 bits per character, literals, slices of longer or wider strings, concatenations, in any combination of operands. Equal strings are interchangeable.",
  over=["inputs", "histories"],
  quant="all strings in all storage forms, all positions and patterns",
  why="the width and storage combinations of both operands multiply; tests missed patterns narrower than the searched characters, negative rfind positions and truncating case conversion",
  files=["core/kos_string.c", "modules/kos_mod_base.c", "modules/base.kos", "core/kos_unicode.h"],
  mech=[("find and scan", "core/kos_string.c:KOS_string_find"), ("slices share storage", "core/kos_string.c:KOS_string_slice"), ("comparison and hash", "core/kos_string.c:KOS_string_compare"), ("case conversion", "modules/kos_mod_base.c:lowercase")],
  observe=["value of every operation", "AddressSanitizer reports"],
  technique="property-based testing: generated strings in generated storage forms, operation by operation against Python strings, debug and AddressSanitizer builds",
  note="random histories; empty patterns of find and scan are not generated; case conversion in the C.UTF-8 locale only"),
 dict(
  id="C13", title="Buffers, pack/unpack and UTF-8 conversion are exact",
  statement="For every history of buffer operations (construction from numbers, strings, arrays, buffers and iterators, element access, slice, insert of any range and source including the buffer itself, fill, copy_buffer with overlap, resize, reserve, comparison, iteration, printing) the buffer holds exactly the bytes the byte-sequence model says, values outside 0..255 and indexes outside the buffer throw. Every pack format writes the documented bytes (sizes 1 to 8, both endiannesses, floats, strings, buffers, padding, counts) and unpack of the same format returns the packed values truncated to their size; malformed formats and short buffers throw. Every sequence of code points up to 0x1FFFFF round-trips through UTF-8, malformed UTF-8 is rejected. No operation, whatever its arguments, reads or writes outside the buffer.",
  over=["histories", "inputs"],
  quant="all operation histories, all pack formats and values, all byte sequences",
  why="empty buffers, self-aliasing and sizes whose product overflows 32 bits are outside the tests' samples and crashed or corrupted memory before the repairs made here",
  files=["core/kos_buffer.c", "modules/kos_mod_base.c", "modules/base.kos", "core/kos_utf8.c", "core/kos_utils.c"],
  mech=[("pack and unpack", "modules/kos_mod_base.c:pack_format"), ("storage", "core/kos_buffer.c"), ("insert", "modules/base.kos"), ("UTF-8", "core/kos_utf8.c")],
  observe=["value of every operation", "buffer contents", "AddressSanitizer reports"],
  technique="property-based testing: generated operation histories and pack formats against a Python bytearray/struct model, debug and AddressSanitizer builds",
  note="random histories; overlong UTF-8 forms, which the decoder accepts, are only checked for memory safety"),
 dict(
  id="C14", title="Numbers convert to and from text exactly as documented",
  statement="For every integer, string(), interpolation, hex() and printing give its exact text and integer()/number()/literals give the integer back, in decimal, hexadecimal and binary, with underscores and signs; integers that do not fit in 64 bits throw. For every decimal float text, float(), number() and a literal in the source give the same double, which is the nearest one within the precision of the 64-bit decimal parser (exact for integers of up to 17 digits), out-of-range exponents throw, and malformed text throws. string(), interpolation, stringify() and compile-time folding print a float's exact value rounded to 15 decimals. integer(float) is the floor and throws outside 64 bits and for NaN.",
  over=["inputs"],
  quant="all 64-bit integers, all doubles, all numeric texts and damaged numeric texts",
  why="the input space is all doubles and all digit strings; tests use some dozens of literals and missed rounding to the smallest normal number, truncated prints and NaN",
  files=["core/kos_misc.c", "core/kos_utils.c", "modules/kos_mod_base.c", "core/kos_lexer.c", "modules/base.kos"],
  mech=[("decimal parser", "core/kos_misc.c:kos_parse_double"), ("integer parser", "core/kos_misc.c:kos_parse_int"), ("printing", "core/kos_misc.c:kos_print_float"), ("conversion classes", "modules/kos_mod_base.c:integer_constructor")],
  observe=["value of every conversion"],
  technique="property-based testing: generated numbers and texts against exact rational arithmetic in Python, debug and AddressSanitizer builds",
  note="random search; the accepted error of the decimal parser is bounded analytically (about 1/1024 ulp per decimal digit or power); texts without any digit, which the parser accepts as 0, are not generated; floats whose integer part has 30 digits print with a bare point, as the tests specify"),
 dict(
  id="C15", title="json.dump and json.parse are inverse and follow the JSON grammar",
  statement="For every value made of void, booleans, 64-bit integers, floats, strings, arrays and objects, json.parse(json.dump(v)) equals v and json.dump produces the text of the JSON grammar; json.parse accepts every rendering of the value in JSON syntax (whitespace, every escape form, surrogate pairs, number forms) given as a string, a buffer or a generator of pieces, parse_array yields the elements of the same array, dump throws for values JSON does not have, and text which is not JSON throws.",
  over=["inputs"],
  quant="all JSON values, all renderings, all texts near JSON",
  why="strings with quotes, control characters, escapes, and truncated or damaged texts are outside the module's tests; escapes did not work at all",
  files=["modules/json.kos", "modules/kos_mod_kos.c", "core/kos_lexer.c"],
  mech=[("tokens", "modules/json.kos:tokenize"), ("parser", "modules/json.kos:parse_value"), ("writer", "modules/json.kos:dump"), ("lexer generator", "modules/kos_mod_kos.c:raw_lexer")],
  observe=["parsed value", "dumped text", "exception"],
  technique="property-based testing: generated values, renderings and damaged texts against a reference parser and writer in Python",
  note="random search; comments, repeated commas and hexadecimal numbers, which the module accepts beyond JSON, are part of the model or not generated; object order in dumps is not checked"),
 dict(
  id="C16", title="Regular expressions match as their grammar says",
  statement="For every regular expression of the documented grammar and every string and search range, find returns the first match of leftmost, ordered-alternative, greedy or lazy backtracking semantics with exact positions and groups, or void when there is none; ^, $ and word boundaries are decided as documented; classes contain exactly the listed characters however their ranges overlap; repetitions of empty matches end; text outside the grammar throws; and no expression or string corrupts memory or crashes.",
  over=["inputs"],
  quant="all expressions of the grammar and texts near it, all strings including those of maximum length",
  why="the tests sample fixed expressions; joined class ranges lost characters and nested empty repetitions ran practically forever before the repairs made here",
  files=["modules/kos_mod_re.c", "modules/re.kos"],
  mech=[("classes", "modules/kos_mod_re.c:add_class_range"), ("compiler", "modules/kos_mod_re.c:parse_alternative_match_seq"), ("matcher", "modules/kos_mod_re.c:match_string"), ("cache", "modules/re.kos:re")],
  observe=["match positions, text and groups", "exception", "AddressSanitizer reports"],
  technique="property-based testing: generated expressions, damaged expressions and subjects against a reference backtracking matcher in Python (itself compared with Python's re), debug and AddressSanitizer builds",
  note="random search; expressions on which the reference needs over 4000 steps are skipped; escapes listed in the source but not implemented and unescaped dashes in classes are only checked not to crash"),
 dict(
  id="C17", title="Sorting is a stable permutation in comparison order",
  statement="For every array and iterable of comparable values, array.prototype.sort and base.sort, with or without a key function and reverse flag, produce a permutation of the input ordered by the language's < operator on the keys, equal elements keep their order (reverse gives the exact reverse), the key function is called once per element in order, an exception of the key function leaves no crash, key functions which change the array cannot corrupt memory, and inputs of any size and any order (sorted, reversed, constant) are sorted without running out of stack or quadratic time.",
  over=["inputs"],
  quant="all arrays up to some 60000 elements, all key functions including those which modify the array",
  why="tests sort a handful of short arrays; sorted inputs took quadratic time and overflowed the stack, and a key function resizing the array crashed, before the repairs made here",
  files=["modules/kos_mod_base.c", "modules/base.kos", "core/kos_array.c", "core/kos_object_alloc.c"],
  mech=[("quicksort", "modules/kos_mod_base.c:sort"), ("aux array", "core/kos_array.c"), ("generic sort", "modules/base.kos:sort")],
  observe=["sorted array", "calls of the key function", "AddressSanitizer reports"],
  technique="property-based testing: generated arrays, keys and mutations against Python's stable sort, debug and AddressSanitizer builds",
  note="random search; arrays larger than a few dozen elements are a few fixed shapes"),
 dict(
  id="C18", title="Iteration, generators' helpers and lazy pipelines match lists",
  statement="For every pipeline of base and iter functions (range, map, filter, enumerate, zip, slices, reverse, repeats, cycle, product, iproduct, iota, cached generators) over any iterable, the elements produced equal those of the same list computation; folds (count, any, all, first, last, sum, join, reduce, each) give its value; functions are called lazily, exactly once per consumed element and in order; an iterator shared by several operations continues where the previous one stopped and throws once it has ended; exceptions end the pipeline; and a for loop directly over range() behaves as over the generator for every variable, constant, argument form, step and body.",
  over=["inputs", "histories"],
  quant="all compositions of up to four stages over all kinds of sources, all range bounds and steps",
  why="the tests sample single calls; the compiler's own code for loops over range() looped forever for a zero step, and range() did not stop at the end of the 64-bit integers",
  files=["modules/base.kos", "modules/iter.kos", "core/kos_compiler.c", "core/kos_vm.c", "core/kos_utils.c"],
  mech=[("range loops", "core/kos_compiler.c:for_range"), ("range", "modules/base.kos:range"), ("generator slices", "modules/base.kos"), ("iter", "modules/iter.kos"), ("iteration", "core/kos_utils.c:KOS_iterator_next")],
  observe=["elements of every pipeline", "log of function calls", "value of every fold", "exception"],
  technique="property-based testing: generated pipelines and loops against Python lists, debug and AddressSanitizer builds",
  note="random search; loops over range() with a step other than one which passes the end of the 64-bit integers are a known finding, float bounds beyond 2^63 with integer starts are not generated"),
 dict(
  id="C19", title="Threads exclude, signal, lose and invent nothing",
  statement="For every number of threads up to the limit and every schedule: async calls run exactly once with their own arguments and wait() returns the value or throws the exception of that call, for every waiter, repeatedly; regions guarded by a mutex or a semaphore never overlap beyond its count and a mutex is released only by the thread which holds it; semaphore counts are conserved and checked against their limits; queue and stack deliver every pushed element to exactly one consumer, queue in the order of each producer; arrays, objects, buffers and generators used by several threads at once never lose atomic updates, never yield a value which was not stored, and never corrupt memory, with garbage collected at any moment; waiting for itself, too many threads and bad arguments throw.",
  over=["schedules", "histories"],
  quant="all schedules of generated programs with 2 to 12 threads, and all sequential histories of each synchronisation object",
  why="a lost wake-up, a torn update or a release by the wrong thread needs a particular interleaving; the tests run each primitive in one schedule",
  files=["modules/kos_mod_threads.c", "modules/threads.kos", "core/kos_threads.c", "core/kos_object.c", "core/kos_array.c", "core/kos_heap.c"],
  mech=[("mutex and semaphore", "modules/kos_mod_threads.c"), ("queue and stack", "modules/threads.kos"), ("thread start, wait and context suspension", "core/kos_threads.c"), ("lock-free property tables and array storage", "core/kos_object.c:KOS_set_property")],
  observe=["value of every wait()", "merged logs of producers and consumers", "counters under lock", "process exit"],
  technique="property-based testing: generated multi-threaded programs with schedule perturbation, checked by conservation, exclusion and order invariants and by models of sequential histories; release and AddressSanitizer builds",
  note="schedules are sampled by the operating system with random delays inserted, not enumerated"),
 dict(
  id="C20", title="Files, pipes and directories keep exactly the bytes and names given",
  statement="For every history of operations on files (open in each mode, write, print, read, read_some, read_line, read_lines, seek, position, size, resize, flush, close; several handles; strings, buffers and empty values; sizes around the buffering limits), pipes and directories (mkdir, rmdir, remove, stat, listdir, chdir, cwd, relative paths and either separator) every read returns exactly the bytes the model of the file holds at that position, every file and directory ends with the modelled contents, and operations on closed, read-only, write-only, missing or wrong-typed things throw without changing anything.",
  over=["histories"],
  quant="all histories of file and directory operations over generated names and data",
  why="buffering, text decoding across block boundaries, append mode, end of file and switching between reading and writing depend on the whole history of a handle, which the tests sample with a few fixed sequences",
  files=["modules/kos_mod_io.c", "modules/io.kos", "modules/kos_mod_fs.c"],
  mech=[("file holder and buffering", "modules/kos_mod_io.c:acquire_file_object"), ("line splitting and UTF-8 tails", "modules/io.kos:read_lines"), ("deep mkdir", "modules/kos_mod_fs.c:kos_mkdir")],
  observe=["data read", "positions and sizes", "final files and directories", "exceptions"],
  technique="stateful property-based testing: generated histories against a model of files and directory tree, run as an unprivileged user inside a scratch directory",
  note="random search; links, permissions and special files are only sampled; of the system's errors only a full device, missing and wrong-typed paths are provoked"),
 dict(
  id="C21", title="Tokens partition every source text and carry true kinds and places",
  statement="For every text - valid or not, as string, buffer or generator of strings - raw_lexer yields exactly the tokens of the lexical grammar by longest match: their texts concatenated are the text (without the leading byte order mark), each has the right type, keyword, operator and separator, and the line and column where it starts (CR, LF and CR LF ending lines, inside comments and strings too). What the grammar does not allow stops it with an error placed within the offending token, or with ignore_errors becomes a whitespace token after which lexing goes on without losing text or position, and always ends. A string is continued after a closing parenthesis exactly when asked; lexer does this by itself and rejects mismatched brackets.",
  over=["inputs", "histories"],
  quant="all texts and byte sequences, ways of feeding them, and points at which string continuations are requested",
  why="the tests tokenize a handful of fixed lines; maximal munch, literals cut by the end of the text, invalid encodings and positions after multi-line tokens or errors depend on arbitrary neighbours",
  files=["core/kos_lexer.c", "modules/kos_mod_kos.c", "modules/kos.kos", "core/kos_utf8.c"],
  mech=[("tokens and positions", "core/kos_lexer.c:kos_lexer_next_token"), ("operators by longest match", "core/kos_lexer.c:collect_operator"), ("feeding and error recovery", "modules/kos_mod_kos.c:raw_lexer"), ("brackets and continuations", "modules/kos.kos:lexer")],
  observe=["tokens with all their properties", "errors and their place"],
  technique="property-based testing: generated texts and token soups against an independent tokenizer written from the lexical grammar",
  note="the exact column of an error inside a token is not claimed, only that it lies in the token; tokens above 65535 bytes are only tried without ignore_errors; which neighbouring bytes an invalid UTF-8 sequence takes with it is not claimed for truncated sequences"),
 dict(
  id="C22", title="Imports load each module once, in order, and bind live globals",
  statement="For every acyclic graph of modules spread over directories (imports by name, by relative path with any nesting, of the module, of single globals, of lists of globals, of everything, and with module.load at run time) each module is found where the documented search order says, executed exactly once and before the first importer continues, and the public names it declares - constants, variables, functions, classes - are the ones importers see, with later assignments visible through the module. Missing modules and globals, circular imports, compile errors and exceptions in a module stop the import with an error naming the cause, nothing after it runs, and the exit status is the one main() or the failure gives.",
  over=["programs"],
  quant="all acyclic module graphs and single faults over generated trees of files",
  why="order, identity and visibility of modules depend on the whole import graph and on where the files lie; the tests import a few fixed files from one directory",
  files=["core/kos_module.c", "core/kos_parser.c", "core/kos_compiler.c", "modules/kos_mod_base.c", "interpreter/kos.c"],
  mech=[("module search", "core/kos_module.c:find_module"), ("loading and executing once", "core/kos_module.c:import_module"), ("runtime loading", "modules/kos_mod_base.c:module_load"), ("exit status", "interpreter/kos.c:main")],
  observe=["order of executed top-level code", "values of imported globals", "error text", "exit status"],
  technique="property-based testing: generated trees of modules against a model of the loader, through the interpreter's command line in release, debug and ASan builds",
  note="two modules with the same base name in different directories are one module to the loader (recorded as a known finding); native modules are not generated; a module which failed and is imported again is out of scope"),
 dict(
  id="C23", title="Seeded random numbers are reproducible, in range and uniform",
  statement="For every seed (any integer or float) and every history of integer(), integer(min, max), float() and shuffle() calls, equally seeded generators produce exactly the sequence of the PCG XSH RR generator the code names, independently of each other; integers lie within the inclusive range for every range of 64-bit integers (floats rounded down), floats within [0, 1); shuffle permutes; unseeded generators differ; ranges with min above max and values which are not numbers throw.",
  over=["histories"],
  quant="all seeds, ranges and histories of calls on up to three generators",
  why="range reduction has separate code for 32-bit, 64-bit and power-of-two widths; the tests draw a few values from small ranges",
  files=["core/kos_random.c", "modules/kos_mod_random.c", "modules/random.kos"],
  mech=[("PCG step", "core/kos_random.c:kos_rng_random"), ("range reduction", "core/kos_random.c:kos_rng_random_range"), ("float and integer conversion", "modules/kos_mod_random.c")],
  observe=["every drawn value", "exceptions"],
  technique="property-based testing: generated histories against an independent implementation of the generator in Python",
  note="uniformity beyond equality with the reference algorithm is not tested statistically; the values printed in the module's documentation come from some earlier seeding scheme and are not expected"),
 dict(
  id="C24", title="Dates and timestamps convert exactly in both directions",
  statement="For every timestamp in microseconds (integer or float, also before 1970) datetime gives the year, month, day, hour, minute, second, microsecond and leap flag of the proleptic Gregorian calendar, and for every valid date from 1970 to 290307, given by position, by name and with fractional values, the timestamp of that date; the two conversions are inverse; dates which do not exist and combinations of a date and a timestamp throw.",
  over=["inputs"],
  quant="all 64-bit timestamps and all dates of the supported range",
  why="century and leap rules, month ends and negative times are wrong only for particular dates; the tests walk a fixed list of dates",
  files=["modules/datetime.kos"],
  mech=[("day of year from year", "modules/datetime.kos:first_day_from_year"), ("month search", "modules/datetime.kos:get_month"), ("validation", "modules/datetime.kos:date_check")],
  observe=["all fields", "exceptions"],
  technique="property-based testing: generated timestamps and dates around calendar boundaries against an independent calendar in Python",
  note="random search; now() is only required to be consistent with the system clock by the repository's tests"),
 dict(
  id="C25", title="Child processes get exactly what was asked and report how they ended",
  statement="For every os.spawn() the program found by path or by the search path is started with exactly the given arguments, environment (given variables over the inherited ones, or alone), directory and redirected standard files, with no other open file; wait() reports its exit code, signal or stop, once; a spawn which cannot be carried out throws and has no other effect (no output written twice, no process or descriptor left); children whose process objects were dropped never stay zombies; os.getenv() returns the variables of the environment.",
  over=["inputs", "histories", "schedules"],
  quant="all arguments, environments, redirections (also of standard files to each other), ways to end, failures, orders of spawning, waiting, abandoning and collecting, in several threads",
  why="the tests start one program at a time and never look at what it got, nor at what is left after failed or abandoned children",
  files=["modules/kos_mod_os.c", "modules/kos_mod_io.c"],
  mech=[("arguments and environment", "modules/kos_mod_os.c:get_env_array"), ("program search", "modules/kos_mod_os.c:find_program"), ("start", "modules/kos_mod_os.c:spawn"), ("reaping", "modules/kos_mod_os.c:destroy_zombies"), ("waiting", "modules/kos_mod_os.c:wait_for_child")],
  observe=["what each child found (program, arguments, environment, directory, descriptors)", "its output and input", "status objects", "exceptions", "children left behind"],
  technique="stateful property-based testing: generated histories of child processes which report how they were started, compared with a model (checked, release and AddressSanitizer builds, unprivileged user, scratch directory)",
  note="POSIX side only; schedules are those the operating system gives; stdin given as text is a known finding"),
 dict(
  id="C26", title="Sockets deliver exactly the bytes sent, to the right peer, or say why not",
  statement="For every history of operations on sockets: a stream delivers to its peer exactly the bytes sent (strings as UTF-8, buffers and slices as they are, in order, none lost, added or changed), cut into pieces only within the requested sizes, up to the end of stream once the sender shuts down or closes; a datagram is received whole (or cut to the requested size) with the address and port of its sender, and empty data is not sent; received bytes are appended to a given buffer, whose contents are otherwise unchanged (also when nothing was received and when another thread collects garbage meanwhile); MSG_PEEK leaves the data and MSG_WAITALL waits for all of it; a non-blocking socket (created or accepted) returns 0 bytes when there is no data and still sends everything; wait() tells truly whether there is something to read and never returns false early; accept() returns a socket and the address of its client; options read back as they were set; getaddrinfo() of a numeric address denotes that address; closed sockets, unknown flags and bad arguments throw.",
  over=["inputs", "histories", "schedules"],
  quant="all data, sizes, flags, buffers, options, addresses and orders of sending, receiving, waiting, shutting down and closing, for IPv4 and IPv6, streams and datagrams",
  why="the tests exchange two short messages; flags, empty receives, appending, partial sends, ends of streams, accepted sockets' modes and addresses with runs of zeroes are never combined",
  files=["modules/kos_mod_net.c"],
  mech=[("receiving into buffers", "modules/kos_mod_net.c:kos_recv"), ("sending in parts", "modules/kos_mod_net.c:send_loop"), ("waiting", "modules/kos_mod_net.c:kos_wait"), ("addresses as text", "modules/kos_mod_net.c:address_to_string"), ("life of the descriptor", "modules/kos_mod_net.c:acquire_socket")],
  observe=["bytes received by each socket", "addresses and ports", "results of wait()", "option values", "exceptions"],
  technique="stateful property-based testing: generated histories of stream and datagram sockets on the loopback interface against a model of the bytes in flight (checked and AddressSanitizer builds)",
  note="loopback only, where nothing is lost; out-of-band data, raw and local sockets are not covered; IPv6 falls back to IPv4 where it is not available"),
 dict(
  id="C27", title="Errors are reported with their true place and chain of calls",
  statement="For every program which fails at run time, the backtrace (of the caught exception, of debug.backtrace() at the same place, and as printed for an uncaught exception) lists exactly the calls in progress, innermost first, each with the function's name, its module and file and a line inside the statement being executed, through every kind of call (plain, spread, apply, method, constructor, generator, stream operator, lambdas, callbacks, recursion, asynchronous, other modules), rethrowing included; for every program which does not compile, the first error is reported with the exact line and column, in any layout of the source (line ends, comments, raw strings, long gaps, non-ASCII text).",
  over=["programs", "histories"],
  quant="all call chains, places of failure, source layouts and line ends",
  why="line tables are delta-encoded and rewritten by the optimiser; the tests look at a handful of short chains at small line numbers",
  files=["core/kos_vm.c", "core/kos_stack.c", "core/kos_compiler.c", "core/kos_lexer.c", "core/kos_parser.c", "core/kos_module.c", "core/kos_instance.c", "modules/kos_mod_debug.c", "interpreter/kos.c"],
  mech=[("address to line tables", "core/kos_compiler.c"), ("wrapping of exceptions", "core/kos_stack.c:kos_wrap_exception"), ("positions of tokens", "core/kos_lexer.c")],
  observe=["frames of e.backtrace and of debug.backtrace()", "text printed for an uncaught exception", "place of the first compile error"],
  technique="property-based testing: generated multi-module programs with a known chain of calls ending in a known failure, or with an error planted at a known place; compared with what is reported (checked, release and AddressSanitizer builds)",
  note="frames inside library modules written in Kos (map and so on) are not compared; a call in a statement spanning several lines may be reported at any of its lines"),
 dict(
  id="C30", title="Printed text denotes the value it was printed from",
  statement="For every value (numbers, strings with any code points, buffers, functions, classes, arrays and objects of any size, shared or recursive), every documented way of turning it into text (print, print_lines, file.print, stringify, string interpolation, string()) writes exactly one text which denotes that value: literals in the text read back as the same numbers and strings, containers show every element once in order and every enumerable property once, recursion is shown as [...] or {...} and always ends, functions show their name and line, separators and line ends are exactly as documented.",
  over=["inputs", "programs"],
  quant="all values, nesting, sharing and recursion patterns, and routes of printing",
  why="the tests print a couple of dozen values; escapes at the edges of each code point length, lengths of internal buffers and recursion patterns are not sampled",
  files=["core/kos_utils.c", "core/kos_string.c", "core/kos_object_base.c", "modules/base.kos", "modules/io.kos", "modules/kos_mod_base.c", "modules/kos_mod_io.c"],
  mech=[("quoting and length of quoted strings", "core/kos_utils.c:extra_len_map"), ("recursion", "core/kos_utils.c:KOS_print_to_cstr_vec"), ("functions", "core/kos_utils.c")],
  observe=["bytes of standard output", "exit status"],
  technique="property-based testing: generated programs which build and print values; a reader of the printed text decides whether it denotes the value (AddressSanitizer and checked builds)",
  note="the order of properties is free; strings directly inside an array given to stringify are accepted quoted without escapes, as the implementation and its tests have it"),
 dict(
  id="C31", title="Any size or depth works or is refused in an orderly way",
  statement="For every program, however deeply its constructs are nested in each other, however long its lists, chains and bodies are, however deep its calls (through functions, apply, constructors, generators, callbacks of library functions, in any thread) and its data are, and however large the sizes it asks for: the program either gives its result, or is refused with a compile error or ended by a catchable exception, after which the same things work as before; the interpreter never crashes, hangs or gives a wrong result, and moderate sizes always work.",
  over=["programs", "inputs"],
  quant="all combinations of constructs, sizes and depths",
  why="limits of registers, jumps, code size, stack depth and recursion are only met by extreme programs, which the tests do not contain",
  files=["core/kos_parser.c", "core/kos_compiler.c", "core/kos_compiler_vars.c", "core/kos_compiler_optim.c", "core/kos_stack.c", "core/kos_vm.c", "core/kos_heap.c", "core/kos_utils.c"],
  mech=[("depth of nested expressions", "core/kos_parser.c:increase_ast_depth"), ("registers", "core/kos_compiler.c:str_err_too_many_registers"), ("stack depth", "core/kos_stack.c:kos_stack_push"), ("marking of deep data", "core/kos_heap.c:mark_object_black")],
  observe=["exit status and crashes", "output", "kind of error", "depth possible before and after an overflow"],
  technique="property-based testing and fuzzing: generated programs of extreme nesting, length and depth with a known result, run under AddressSanitizer and in checked and release builds",
  note="random search; the limits of the native stack are those of the build flavour; two known findings (printing and comparing extremely nested arrays)"),
 dict(
  id="C33", title="Mathematical functions return correctly typed and accurate values",
  statement="For every pair of numbers every function of module math returns the mathematical value (exactly for abs, floor, ceil, sqrt, min, max and the classification functions, within one unit in the last places for transcendental functions) with the documented type, preserving integers where documented; arguments outside the domain and arguments which are not numbers throw instead of producing a value.",
  over=["inputs"],
  quant="all integers, floats (infinities, not-a-number, denormals, signed zeros) and other values as arguments",
  why="domain edges, sign of zero, type of the result and precision of large integers are corners which the tests sample at a few round numbers",
  files=["modules/kos_mod_math.c", "modules/math.kos"],
  mech=[("domain checks", "modules/kos_mod_math.c"), ("integer preservation", "modules/kos_mod_math.c:kos_abs")],
  observe=["value and type of every call", "exceptions"],
  technique="property-based testing: generated arguments against Python's math library with exact or near comparison",
  note="accuracy is compared with the C library used by Python"),
]
