#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit)."""
import json, os
S='source/'
def P(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    return dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=observe or [],hook_needed=hook))
T=[]
T.append(P('C01','Expressions evaluate to the value the language defines',
 "Every expression of a compiled program yields the value the language defines: multiplicative operators bind tighter than additive, those tighter than comparisons, then `not`, then `and`/`or`, all binary operators group left to right, and unary minus applies to the operand it precedes. Integer arithmetic is 32-bit two's complement (including the extremes), mixing in a float gives single precision arithmetic, `+` with a string concatenates the complete text of both sides, and comparisons, equality, truthiness, `and`, `or` and `not` give exactly 0 or 1. Operands are evaluated left to right, each exactly once (`and`/`or` do not short-circuit).",
 ['programs','inputs'],'every expression tree over every combination of operand types and values, in every syntactic position (initialiser, assignment, argument, index, condition, return, global initialiser)',
 'The tests evaluate a few dozen fixed expressions with small values; operator pairs, extreme integers, long strings, mixed types and positions multiply far beyond that.',
 [S+'lib_compiler/lexer.cpp',S+'lib_compiler/parser.cpp',S+'lib_compiler/codegen.cpp',S+'lib_vm/thread.cpp',S+'lib_vm/value.h'],
 [('operator precedence parser',S+'lib_compiler/parser.cpp parse_expr_ex_/op_push_/op_reduce_'),('operator instructions',S+'lib_vm/thread.cpp do_INS_ADD_ ... do_INS_EQ_'),('literals',S+'lib_compiler/lexer.cpp push_val_')],
 observe=['values handed to host functions','return value of the called function']))
T.append(P('C02','Statements and variables behave as written for every program',
 "if/else, while, for and return transfer control exactly as written for any nesting, and assignments (plain and compound) change exactly the named variable. Every name refers to the declaration visible at that point: variables of different blocks, functions and activations never share storage, a variable declared without initialiser is `none` each time its declaration runs, and a call in progress never disturbs its caller's variables. Globals are initialised in declaration order before the first function call, are shared by all functions, and keep their value between calls; a function that ends without `return` yields 0 and a bare `return` yields none.",
 ['programs','histories'],'every well-formed program: any nesting of blocks, loops, declarations and recursion, and any sequence of calls into it',
 'The tests run fixed programs with shallow nesting; slot assignment, jump fix-ups and scope lookup depend on the combination and order of blocks.',
 [S+'lib_compiler/sema.cpp',S+'lib_compiler/pre_codegen.cpp',S+'lib_compiler/codegen.cpp',S+'lib_vm/thread.cpp'],
 [('name resolution',S+'lib_compiler/sema.cpp sema_decl_annotate_t'),('slot assignment',S+'lib_compiler/pre_codegen.cpp pregen_offset_t'),('branch and loop code',S+'lib_compiler/codegen.cpp'),('frames',S+'lib_vm/thread.cpp enter_/leave_/do_INS_RET_')],
 observe=['ordered trace of host calls','return values','global variable values']))
T.append(P('C03','Calls pass arguments by position, run once and return in balance',
 "A call, direct or through a function value held in a variable, array element, argument or returned by another call, evaluates its arguments left to right exactly once, binds them to the parameters by position, runs exactly the designated function and delivers its return value in place of the call. After any call returns, however deep the recursion, the caller continues with its own arguments, locals and pending operands intact and the evaluation stack back in balance. A function value called with the wrong number of arguments, or a non-function that is called, raises an error instead of running.",
 ['programs','histories'],'every call graph, arity, recursion depth, and route by which a function value reaches its call site',
 'Tests call functions with few arguments and shallow recursion; stack balance and fix-ups need arities, nesting of calls inside calls and depths they do not sample.',
 [S+'lib_compiler/codegen.cpp',S+'lib_compiler/pre_codegen.cpp',S+'lib_vm/thread.cpp',S+'lib_common/program.cpp'],
 [('call code and fix-ups',S+'lib_compiler/codegen.cpp visit(ast_exp_call_t)'),('call/return',S+'lib_vm/thread.cpp do_INS_CALL_, do_INS_ICALL_, do_INS_RET_')],
 observe=['ordered trace of host calls','value stack height at host calls','return value']))
T.append(P('C04','Arrays are shared by reference, strings and numbers by value',
 "An array keeps exactly the elements stored in it: a read returns the last value stored at that index, untouched elements of a new array are none, its length never changes, and every alias (variable, element, argument, return value, cycle) sees every update while no other array does. Strings and numbers never change once stored: later operations on the original never alter a stored copy, string length and character codes match the text, and concatenation never alters its operands. Any access outside 0..length-1, with a non-integer index, or on something that is not an array (or, for reads, a string) raises an error and changes nothing.",
 ['programs','histories'],'every history of array creation, store, load, aliasing and string building, with any sizes and nesting, including cyclic structures',
 'Tests store a few values in small arrays; aliasing graphs, sizes and interplay with collection are not sampled.',
 [S+'lib_vm/thread.cpp',S+'lib_vm/vm_gc.cpp',S+'lib_builtins/builtin.cpp',S+'lib_compiler/codegen.cpp'],
 [('array and string instructions',S+'lib_vm/thread.cpp do_INS_DEREF_, do_INS_SETA_, do_INS_ARY_INIT_, do_INS_GETM_'),('allocation',S+'lib_vm/vm_gc.cpp')],
 observe=['deep dump of array graphs at host calls (with identity)','error codes']))
T.append(P('C05','Optimisation never changes what a program does',
 "For every source accepted by the compiler, compiling with optimisation on and off gives programs with the same observable behaviour: same sequence of host calls with the same values, same results, same globals, same runtime error if any. The two settings also accept the same sources, except that a constant division by zero may be diagnosed at compile time instead of failing at run time.",
 ['programs','configurations'],'every program, compiled under both settings',
 'The tests run each program under a single setting and compare one exit value.',
 [S+'lib_compiler/optimize.cpp',S+'lib_compiler/sema.cpp',S+'lib_compiler/nano.cpp'],
 [('constant folding, dead branch and dead code removal',S+'lib_compiler/optimize.cpp'),('constant inlining',S+'lib_compiler/sema.cpp sema_const_t')],
 observe=['event traces of both builds']))
T.append(P('C06','Garbage collection is invisible to programs',
 "Whenever collections happen - never, at every instruction, or at any point in between - a program computes the same results, host calls and errors, and array identity (aliasing, cycles) is preserved. No value reachable from a global, or from the variables and pending operands of any thread, is ever lost, changed, or left referring to reclaimed memory.",
 ['programs','schedules'],'every program and every placement of collections between its instructions',
 'Collection starts only after about 0.75 MiB of allocation, so most tests never collect; none vary when it happens.',
 [S+'lib_vm/vm_gc.cpp',S+'lib_vm/vm_gc.h',S+'lib_vm/vm.cpp',S+'lib_vm/thread.cpp'],
 [('copying collector',S+'lib_vm/vm_gc.cpp trace/collect'),('roots',S+'lib_vm/vm.cpp gc_collect')],
 state=[('semi-spaces','where live values are kept',S+'lib_vm/vm_gc.h space_'),('forwarding table','keeps identity of moved arrays',S+'lib_vm/vm_gc.h forward_')],
 observe=['address sanitizer with reclaimed memory poisoned','event traces under different collection placements'],
 hook='poison/unpoison reclaimed arena memory (guarded)'))
T.append(P('C07','Garbage is always reclaimed: bounded live data runs forever',
 "A program whose live data stays small relative to the heap can allocate without limit, in any thread and by any kind of operation (numbers, strings, arrays, calls, cyclic structures), without exhausting memory, failing or slowing down progressively. The memory in use after a collection depends on what is still reachable, not on what was ever allocated.",
 ['programs','histories'],'every allocation history with bounded live data, in every way of running a thread (run to completion, sliced, line stepping)',
 'Tests allocate little; a leak of one object per operation or cycle never fills the heap in them.',
 [S+'lib_vm/vm_gc.cpp',S+'lib_vm/vm_gc.h',S+'lib_vm/thread.cpp',S+'lib_vm/vm.cpp'],
 [('collection trigger',S+'lib_vm/vm_gc.cpp should_collect, '+S+'lib_vm/thread.cpp tick_gc_'),('space flip',S+'lib_vm/vm_gc.cpp collect')],
 observe=['hundreds of heap turnovers per run; process memory; monitor on live bytes after collection']))
T.append(P('C08','Results do not depend on how execution is sliced',
 "Running a thread to completion in one go, in slices of any number of cycles, one instruction at a time or one source line at a time gives the same host calls, results, errors and globals. A slice of n cycles executes at most n instructions, a paused thread keeps its state indefinitely, and resuming a finished thread is refused and does nothing.",
 ['schedules','programs'],'every program and every way of cutting its execution into resume/step calls',
 'Tests run every program with one large budget; no test pauses and resumes at arbitrary instructions.',
 [S+'lib_vm/thread.cpp',S+'lib_vm/vm.cpp'],
 [('interpreter loop',S+'lib_vm/thread.cpp resume/step_inst/step_line/step_imp_')],
 observe=['event traces, cycle counter, errors under different slicings']))
T.append(P('C09','Threads are scheduled fairly, isolated, and wait as asked',
 "On each scheduling pass every live thread that is not waiting runs for at most the given budget exactly once, a thread that asked to wait n passes is skipped for exactly n of them and then continues where it stopped, and threads started during a pass join from the next pass on. Threads share globals and arrays but never each other's locals, arguments or operands; the operations of one thread appear in its program order. Finished threads are removed and reported finished exactly once, and the virtual machine reports itself finished exactly when no live thread remains.",
 ['schedules','histories'],'every set of threads, start order, budget sequence and pattern of waits',
 'Only a couple of tests start threads, with one fixed budget; the interleavings depend on budgets and waits they do not vary.',
 [S+'lib_vm/vm.cpp',S+'lib_vm/thread.cpp',S+'lib_builtins/builtin.cpp'],
 [('scheduler pass',S+'lib_vm/vm.cpp vm_t::resume/new_thread/finished'),('wait and new_thread builtins',S+'lib_builtins/builtin.cpp')],
 observe=['log of (pass, thread, event) records from host functions and callbacks']))
T.append(P('C10','Runtime errors are precise, contained and recoverable',
 "An operation that the language does not define for its operands (wrong types, division by zero, bad index, wrong arity, unknown member, missing host function, bad builtin argument) stops exactly that thread at exactly that operation with the documented error code, at the source line of the operation, and nothing after it in that thread runs. The error is reported once, other threads and globals are unaffected, and the virtual machine stays usable for further calls. No script can crash or corrupt the host process.",
 ['programs','fault_sequences'],'every failing operation, operand types and values, call depth and set of other threads',
 'The failing-program tests only check that the exit status is not zero, so any error, a crash, or an abort at the wrong place passes.',
 [S+'lib_vm/thread.cpp',S+'lib_vm/vm.cpp',S+'lib_vm/thread_error.cpp',S+'lib_builtins/builtin.cpp'],
 [('error raising',S+'lib_vm/thread.cpp set_error_/raise_error'),('scheduler error path',S+'lib_vm/vm.cpp resume/call_once')],
 observe=['error code and line after failure, event trace, sanitizer reports']))
T.append(P('C11','The compiler survives any input and answers accept or reject',
 "For every byte sequence given as source text, compilation terminates and either succeeds or fails with a non-empty message carrying the position inside the given source; it never crashes, hangs, reads or writes out of bounds, or relies on undefined behaviour. A rejected source leaves the process and the source set usable for further compilations.",
 ['inputs'],'every sequence of bytes, of any length, as source text (nesting depth bounded by the host stack)',
 'The fuzz corpus is a fixed list of files and counts any non-zero exit, including a crash, as a pass.',
 [S+'lib_compiler/lexer.cpp',S+'lib_compiler/parser.cpp',S+'lib_compiler/sema.cpp',S+'lib_compiler/errors.h',S+'lib_compiler/token.cpp'],
 [('error reporting',S+'lib_compiler/errors.cpp on_error_'),('lexer, parser and semantic checks',S+'lib_compiler/')],
 observe=['address/undefined sanitizers, termination, returned message and line']))
T.append(P('C12','Static rules are enforced, at the right place, and nothing else is',
 "Every violation of a language rule - undeclared or doubly declared name, assignment to a constant, constant without usable initialiser, wrong number of arguments to a known function, constant division by zero in a global, malformed statement or expression, unterminated string, unknown import - is rejected with an error naming the file and line of the offending text. Every program that breaks no rule is accepted.",
 ['programs'],'every program with one planted rule violation at any position, and every rule-abiding program',
 'Tests check a fixed set of rejected programs, and only that something was rejected, not what or where.',
 [S+'lib_compiler/sema.cpp',S+'lib_compiler/parser.cpp',S+'lib_compiler/lexer.cpp',S+'lib_compiler/errors.h'],
 [('semantic passes',S+'lib_compiler/sema.cpp'),('token expectations',S+'lib_compiler/token.cpp')],
 observe=['build result, reported line and message category']))
T.append(P('C13','A saved program loads back as the same program',
 "Saving any compiled program and loading it, in the same or another process and any number of times, gives a program with identical code, functions (names, parameters, locals, code ranges), host function table, strings and line information. Once host functions are bound again it behaves identically in every run, including errors and their source lines.",
 ['programs','histories'],'every compiled program, however large or small its tables, saved and loaded any number of times',
 'The test driver writes a program file but nothing ever loads one back.',
 [S+'lib_common/program.cpp',S+'lib_common/program.h'],
 [('serialiser',S+'lib_common/program.cpp serial_save/serial_load')],
 observe=['field by field comparison, byte comparison of a second save, traces of both programs']))
T.append(P('C14','Damaged program files and failed I/O are reported, never trusted',
 "Loading a file that is missing, truncated at any byte, not a program, or with damaged size fields either fails cleanly or yields a fully read program; it never crashes, never allocates without bound, and leaks no file handles. Saving reports failure whenever the file could not be completely written (unwritable path, full device). After any failure the program object can be loaded or built again.",
 ['fault_sequences','inputs','crash_points'],'every truncation point, every single-field corruption, and every failing write position of every program file',
 'No test loads a program file at all.',
 [S+'lib_common/program.cpp'],
 [('checked reads and writes',S+'lib_common/program.cpp consume/emit/TRY')],
 observe=['return values, sanitizer reports, open descriptor count, allocation size']))
T.append(P('C15','Debug information, stepping and breakpoints follow the source',
 "While a program runs, the reported source line (of the current position and of every active call) is the line of the statement being executed, whatever the layout of the source or the file it came from. Stepping by line stops whenever the line changes and visits the lines in execution order, and a breakpoint stops the thread every time execution arrives at its line from another line - before that line's effects - and at no other place; neither changes what the program does. Function tables name every function with its parameters and locals and the stack positions these really have, and map every code address to its function.",
 ['programs','histories'],'every program and layout, every set of breakpoints added and removed at any time, every mix of stepping and running',
 'No test uses breakpoints, stepping or line information.',
 [S+'lib_vm/thread.cpp',S+'lib_common/program.h',S+'lib_compiler/codegen.cpp',S+'lib_compiler/program_builder.cpp',S+'lib_compiler/pre_codegen.cpp'],
 [('line table',S+'lib_common/program.h get_line'),('breakpoints and stepping',S+'lib_vm/thread.cpp step_imp_/step_line')],
 observe=['line seen by host function here(n) placed on line n; halts of the thread']))
T.append(P('C16','Builtin functions compute what they promise for every argument',
 "abs, min, max, bitand, sin, cos, tan, round, floor, ceil, sqrt, len, chr and new_array return the mathematically defined result for every argument value of a supported type (abs and bitand of integers, len, and chr of 1..255 exactly; the others computed on the single precision value of their arguments and correctly rounded, sin, cos and tan to within 2 units in the last place), with the result type they always have; a new array has the length asked for and holds only none. For any unsupported argument type, range or number of arguments they raise an error instead of returning, and they leave their arguments, the stack and all other state untouched.",
 ['inputs'],'every argument value (extreme integers, zeros, negatives, fractions, huge values) and every type, called directly or through a function value',
 'Tests call each builtin with one or two ordinary values.',
 [S+'lib_builtins/builtin.cpp'],
 [('builtin implementations',S+'lib_builtins/builtin.cpp')],
 observe=['returned value and type, error code']))
T.append(P('C17','Host functions, handlers and calls exchange values faithfully',
 "A host function receives exactly the argument values of its call site, in order and with the right count, and its pushed result is what the script sees; registered operator, member and index handlers are asked exactly when the language itself does not define the operation (index handlers: always first), with the right operands, and their answer or refusal is respected. A host call into a script function receives arguments and returns results of every value type unchanged, reports a wrong argument count as an error, and the finish callback (and for a failing thread the error callback) fires exactly once per thread, however the thread was driven to its end. Each virtual machine has its own globals, threads and heap.",
 ['programs','histories','configurations'],'every mix of host functions, handlers (present, absent, refusing), argument values and re-entrant or repeated calls, over any number of virtual machines',
 'Tests only use the fixed host functions of the command line driver and never install handlers.',
 [S+'lib_vm/vm.h',S+'lib_vm/vm.cpp',S+'lib_vm/thread.cpp',S+'lib_common/program.cpp'],
 [('host call',S+'lib_vm/thread.cpp do_syscall_'),('handlers',S+'lib_vm/vm.h handlers_t'),('call_once/new_thread',S+'lib_vm/vm.cpp')],
 observe=['log of host calls and handler calls with operands']))
T.append(P('C18','Multi-file programs mean the same as their concatenation',
 "A program spread over several files by `import` (relative to the importing file, nested, repeated, mutual or diamond shaped, with redundant `.`, `..` and doubled separators) or by loading several sources has every file compiled exactly once, and behaves as the single program made of all declarations. A file that cannot be read, is empty or is a directory is reported as a failed load or a failed import at the import's line; errors inside a file name that file and line.",
 ['configurations','programs'],'every import graph and directory layout, including names that are prefixes of each other',
 'Tests have a handful of two-file imports in one directory.',
 [S+'lib_common/source.cpp',S+'lib_common/source.h',S+'lib_common/file.h',S+'lib_compiler/parser.cpp',S+'lib_compiler/nano.cpp'],
 [('import resolution',S+'lib_common/source.cpp imported_path/load'),('source loop',S+'lib_compiler/nano.cpp build')],
 observe=['build result, reported file and line, behaviour against the single-file program']))
T.append(P('C19','Generated code is well formed and dumps describe it exactly',
 "For every accepted program the code decodes completely into valid instructions, functions cover it without gap or overlap, every jump and call lands on an instruction of the right function or a function start, every table index is in range, and operands stay balanced along every path. The disassembly lists every instruction once, in order, under its function with its real operands, and dumping the syntax tree after a build shows every declaration, statement and expression of the program that was kept, without touching freed memory.",
 ['programs'],'every accepted program, with and without optimisation',
 'Tests never inspect generated code; the dump options are never exercised.',
 [S+'lib_compiler/codegen.cpp',S+'lib_compiler/disassembler.cpp',S+'lib_compiler/ast.cpp',S+'lib_compiler/ast.h',S+'lib_compiler/program_builder.h'],
 [('emission and fix-ups',S+'lib_compiler/codegen.cpp'),('disassembler',S+'lib_compiler/disassembler.cpp'),('tree printer and node reclamation',S+'lib_compiler/ast.h ast_printer_t, '+S+'lib_compiler/ast.cpp gc')],
 observe=['decoded code of every built program; dump text; sanitizer']))
T.append(P('C20','Compilers and machines can be reused, combined and destroyed freely',
 "Compiling, running, resetting and destroying compilers, programs, sources and virtual machines in any valid order and any number of times - also after failed builds, runtime errors, or with threads still running or waiting - releases all memory, touches no freed or uninitialised memory, and leaves nothing behind: a build or run after any history gives the same result as in a fresh process. Independent instances used in the same process, including from different operating system threads, never influence each other.",
 ['histories','schedules'],'every sequence of create/build/run/reset/destroy operations on any number of instances',
 'Each test is a fresh process that does one build and one run.',
 [S+'lib_compiler/nano.cpp',S+'lib_compiler/ast.cpp',S+'lib_vm/vm.cpp',S+'lib_common/program.cpp',S+'lib_common/source.h'],
 [('ownership and reset',S+'lib_compiler/nano.cpp reset, '+S+'lib_vm/vm.cpp reset, '+S+'lib_compiler/ast.cpp reset')],
 observe=['leak/address/uninitialised-memory/race detectors; comparison with a fresh process']))
T.append(P('C21','Compilation depends only on the meaning of the text',
 "Building the same sources again, in the same or another process, gives byte-identical programs. Changing only blank lines, spaces, tabs, carriage returns, comments (also at the very end of the file), letter case of keywords, redundant parentheses, or consistently renaming user-chosen names gives a program with the same behaviour, and the same code up to line information and names.",
 ['programs','inputs','configurations'],'every program and every meaning-preserving rewriting of its text',
 'Each test source is compiled once in one layout.',
 [S+'lib_compiler/lexer.cpp',S+'lib_compiler/parser.cpp',S+'lib_compiler/sema.cpp',S+'lib_compiler/codegen.cpp'],
 [('lexer',S+'lib_compiler/lexer.cpp lex/munch'),('name lookup',S+'lib_compiler/sema.cpp find_decl')],
 observe=['code bytes, tables, event traces of both variants']))
T.append(P('C22','Command line tools report outcomes truthfully',
 "The run tool exits 0 exactly when the sources load, compile, have a `main` and it completes without error, after printing the program's output in order followed by its result in the defined form; in every other case it exits non-zero without printing a result. The compile tool exits 0 exactly when the sources compile and otherwise prints the file, line and message; the dump files it writes on request are complete, and its optimisation switch does not change what programs mean.",
 ['inputs','programs','configurations'],'every source file content, option combination and standard input',
 'Tests only look at exit status and the final value of fixed programs.',
 [S+'driver/driver.cpp',S+'comp/driver.cpp'],
 [('drivers',S+'driver/driver.cpp main, '+S+'comp/driver.cpp main')],
 observe=['exit status, standard output and error, written files, of the real executables']))
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for p in T:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p,ensure_ascii=False)+'\n')
print(len(T))
