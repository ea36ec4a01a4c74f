"""text of DESIGN.md that is not in the checks themselves"""

HEAD = '''
# Deciding the properties of ccml by running it under monitors

(Written by tools/gen_design.py from the checks and tools/design_notes.py. The properties themselves are in properties.jsonl.)

## The system and what its users rely on

ccml ("nano") is a small scripting language: a compiler library (lexer, parser, checker, optimiser, code generator), a
virtual machine with a copying collector and cooperative threads, a builtin library, program files, debug support, and two command
line tools. Users are script authors (C01-C05, C12, C16, C18, C21), hosts that embed the library (C06-C11, C13-C15, C17, C19, C20)
and people at the shell (C22). The 320 tests compile and run fixed scripts with fixed inputs and compare one return value; they
never slice execution, collect at chosen points, schedule threads, damage files, reuse objects, or look at debug information.

## Technique

Everything is decided by running the real code under instrumentation (no model, no proof, no bounded checker):

* `harness/probe.cpp` links the whole library (compiler, VM, builtins) from /repo's working tree and executes scripts of
  API commands given on stdin: load sources, build, save, load, create machines and threads, run in any slicing, set breakpoints,
  bind recording host functions and handlers. It reports every observable event (host calls with their complete values and array
  identities, depth of the operand stack, errors, results, globals, lines, cycle counts, heap use) and checks invariants as it goes
  (`X` lines: a slice that overran, a finished thread that ran, a result code that contradicts the error state ...).
* `lib/build.py` builds it with `-fsanitize=address,undefined` and the guarded hooks (`NANO_VERIF`): unused parts of the two heap
  spaces are poisoned, so any use of a moved or reclaimed value is reported at its first access. If a change to the code makes the
  guarded hooks impossible to build, they are left out and process-level measurements are used instead. Other builds: ThreadSanitizer,
  plain (for valgrind memcheck and fresh-process comparisons), libFuzzer, and the two command line tools (ASan and UBSan).
  UBSan's null check is off: calling methods on a null `value_t*` (which stands for none) is how the code base works.
* `lib/lang.py` is an independent reference interpreter of the language (written from LanguageRef.md, the tests and the behaviour the
  manual implies), `lib/parse.py` an independent parser, `lib/rules.py` an independent checker of the static rules, `lib/gen.py` a
  generator of typed programs, `lib/mutate.py` damages texts, `lib/core.py` compares logs event by event. These are the online and
  offline oracles; a disagreement is a violation and the replay file holds the program, both logs and the first difference.
* `lib/engine.py` runs the cases of `checks/cNN.py` on all cores from VERIF_SEED, writes evidence and replay files. Evidence counts what
  the monitors saw: events compared, stops, variables looked at, distinct logs, executions, cases by family, and samples.
  A case is a small tuple; `python3 run.py CNN --replay FILE` reruns exactly one.
* Numbers and words that occur in the sources of /repo (constants, sizes, identifiers in string literals) are mined at run time and
  mixed into the generators, so that a special case in the code becomes an input of the workload.
* `lib/shapes.py` makes programs that grow along one dimension (parameters, locals, globals, constants, functions, strings, nesting,
  recursion, operands, arguments, lines, names, loop turns, ...: 25 dimensions). Implementations tend to change behaviour from some size on,
  so nearly every check runs its own oracle over all of them, with sizes around powers of two and around all numbers (and products and
  shifts of numbers) in the sources.
* A hang is a violation when the executor uses more than its CPU time limit twice in a row; wall clock never decides.

Checks judge behaviour only. Nothing compares instruction sequences with expected ones, except between two builds of the same
compiler (C13, C21) and against the compiler's own tables (C19).

## Properties
'''

# oracle, bounds and cost, why the tests cannot
NOTES = {
    'C01': ('reference interpreter with exact 32-bit integer and correctly rounded single precision arithmetic; grouping by an independent precedence parser.',
            'value grid of about 40 values of all types, operator sequences up to three operators, trees up to depth 6, chains up to thousands of terms; quick about 15 s.',
            'tests sample a few dozen expressions; here every operator meets every pair of kinds and extremes, folded and not folded.'),
    'C02': ('reference interpreter; templates with results known in closed form.', 'up to 300 locals, thousands of globals, nesting to 60, code beyond 64 KB; quick about 15 s.',
            'scoping and slot sharing depend on the shape of the whole program; the generator makes shapes no test has.'),
    'C03': ('reference interpreter, plus a stack-balance monitor: at every host call the operand stack depth must equal that of earlier arrivals at the same place through the same call chain.',
            '0..255 arguments, recursion to 30000, 400 functions; quick about 15 s.', 'imbalance of one slot is invisible in a single result and shows after many calls only.'),
    'C04': ('reference interpreter with object identities (aliasing is part of every dump).', 'arrays to 30000 elements, strings to 64 KB; quick about 10 s.', 'tests compare return values, never identity of shared arrays.'),
    'C05': ('the two builds against each other, and the reference interpreter.', 'random programs dense in constants, exhaustive placements, damaged samples; quick about 15 s.', 'tests run each script with one setting per expectation.'),
    'C06': ('reference interpreter (which has no collector) and AddressSanitizer on the poisoned heap spaces.', 'a collection at every instruction, at random ones and as triggered; up to 6 threads; quick about 25 s.',
            'no test runs long enough to collect at an awkward moment.'),
    'C07': ('heap-use hook after collections, low points of heap use, process memory, and the result of the run.', 'hundreds of MB of garbage per case in a 1 MiB heap; live data below 45 % of it; quick about 30 s.', 'no test allocates more than one heap.'),
    'C08': ('reference interpreter, and the executor\'s monitors on every resume.', 'slices from 1 to everything, a cut at every cycle of short programs; quick about 15 s.', 'tests run in one go.'),
    'C09': ('an online checker of scheduling rules over pass records, and the predicted event sequence per thread.', 'up to 200 threads, waits to thousands of passes; quick about 10 s.', 'no test schedules more than a pair of threads.'),
    'C10': ('reference interpreter for code, line, prior events and globals; undisturbed runs of the other threads; sanitizers.', 'all operations on all kinds, 64 K frames, heaps filled to the brim; quick about 20 s.', 'tests only check that some scripts fail.'),
    'C11': ('sanitizers, CPU time limit, position inside the text, second compilation equal to the first, a good program afterwards.', 'texts to a few MB, nesting to 2000 judged (100000 is a known finding), libFuzzer with a fixed seed and run count; quick about 25 s.',
            'the fuzz tests of the repository are about 200 fixed files.'),
    'C12': ('independent parser and rule checker that returns the set of lines on which a rule is broken.', 'tens of thousands of texts per run; quick about 20 s.', 'tests have one file per rule and do not check the line.'),
    'C13': ('equality of dumps of all tables and of files, reference interpreter for behaviour after loading.', 'programs of a few hundred KB; quick about 15 s.', 'no test saves a program.'),
    'C14': ('an independent reader of the file format (used only when it can read the undamaged file, so that a change of format is no alarm), allocation limit, descriptor count.', 'every cut, every aligned word, every number of bytes of room; quick about 20 s.', 'no test.'),
    'C15': ('line trace of the reference interpreter; a nondeterministic matcher keeps the set of places the thread can be at.', 'programs of up to a few hundred lines, 1-3 files, both settings; quick about 15 s.', 'no test looks at lines.'),
    'C16': ('mpmath-free exact arithmetic: results are computed in double precision or integers and rounded once.', 'every exponent, tens of thousands of bit patterns; quick about 10 s.', 'tests call each builtin a few times.'),
    'C17': ('reference interpreter extended by the same handlers.', '0..300 arguments, all handler masks; quick about 20 s.', 'tests have no host functions besides the builtins.'),
    'C18': ('reference interpreter running the concatenation; path model for the loaded set.', 'trees of up to 150 files; quick about 15 s.', 'tests have three import scripts.'),
    'C19': ('independent decoder and abstract stack checker; independent matcher for the listing and the tree dump.', 'all generated programs, extreme shapes; quick about 15 s.', 'no test looks at code or dumps.'),
    'C20': ('the same job in a fresh process; reference interpreter; ASan, exact heap accounting, memcheck, TSan.', 'histories of up to 40 operations over 3 compilers, 3 programs, 4 machines; 4-8 OS threads; quick about 30 s.', 'every test is a fresh process.'),
    'C21': ('equality of code, strings and tables through a known mapping of lines and names; reference interpreter.', 'all generated and sample programs; quick about 15 s.', 'each test has one spelling.'),
    'C22': ('a model of the tool functions on top of the reference interpreter; the library itself predicts rejections.', 'a few thousand processes; quick about 30 s.', 'tests use a runner of their own and ignore most output.'),
}

TAIL = '''
## Known findings (not repaired)

* C11: parser, checker and syntax tree visitors recurse once per nesting level, so that about 100000 levels overflow an 8 MB stack.
  A repair means a depth limit through all of them (a change of the accepted language) or rewriting them without recursion; neither is
  small. Nesting up to 2000 levels is checked and must work. Listed by shape in known-findings.json (paren, array, if, minus, indexes,
  chain); other shapes or smaller depths are still reported.

## What is deliberately left open

* Heap: live data above 75 % of the 1 MiB heap makes the machine collect at every instruction; a single allocation above about 256 KB may
  fail with out_of_memory although garbage exists. C07 stays below 45 % / 10 %.
* Threads that failed keep their stack as a root until the next pass; call_once leaves its finished threads in the list until the next
  pass; in a pass that fails, vm.resume returns at the first failing thread.
* Constants: only literals and integer constant expressions are usable initialisers; `const N = none` and a constant used before its
  definition in a chain are rejected; C12 does not judge other forms.
* Lines: the jump after a then-branch and the prologue and epilogue of the global initialiser have no line. Whether a fresh thread stops at
  a breakpoint on its first line is open.
* build() twice without reset() accumulates; a build with no sources returns false without a message.
* Program files: negative table counts in damaged files are read as 0; names of globals are not part of the file.
* Builtins: min/max with NaN or zeros of different sign, sign of NaN, chr(0) and chr(>255), abs(-0.0).
* The text of a function value holds a code address, which depends on the optimisation setting.
* Imports: backslash separators, symbolic links and mixing absolute and relative loads of one file are out of scope on this platform; a NUL
  byte ends the text of a file.
* The tools: text printed for a host function result, options before the file name, unwritable dump files. The SDL driver cannot
  be built here (no SDL). The run tool only drives `main`; threads started by a script never run there.

## False alarms found and corrected (the check was wrong)

* C05: texts of function values differ by address between the settings: such values are compared by kind only.
* C12: several rules broken in one text: any of the lines is accepted; with a doubly declared global the uses of it are open.
* C15: stops at function heads, `end`, constant conditions and `= none` globals are optional.
* C17: nested host calls: the harness picked the wrong failing thread.
* C18: encoding of file names; a comment that closed an open string.
* C19: `= none` globals have no child in the tree dump; a missing newline before appended text.
* C20: growth of the harness' own vectors; thread numbers in raw logs.
* C22: an empty memcpy in the harness.
* C18: a text import resolved to a file that an earlier case had left in the shared scratch directory.
* C17: the harness' own index handler overflowed for the smallest integer; C03: an error line of an earlier thread was printed for a call
  that never started, and deep recursion with fresh integers in every local fills the heap (live data above the limit stated above).
* C06: programs whose threads had not finished their waits, and a name clash with the generated program.

## Testing the checks

* seeded/ holds planted bugs (tools/plant.py builds, tests, demonstrates and checks each); the lines "Planted bugs" above say which check
  reports which. Bugs that were missed at first and what was added: waiting threads not traced (C06: sleeping, idle and scheduled
  threads), `return` without line (C15: line of every instruction), local positions in the function table (C15: variables of all active
  calls read through the table).
* A batch of 33 "from some size on" bugs (behaviour wrong only beyond 40 arguments, 30 frames, 4000 elements, 9 path parts, 65536 stack
  slots ...) was written from the property texts; 11 were missed at first and led to lib/shapes.py, the constant matrices of C05, the
  nesting sweep of C12, the directory depths of C18 and the first-instruction errors of C10. All are reported now.
* About 90 further bugs were written in batches from the property texts, without looking at the checks. Misses led to: monitors of
  the value and stack accessors in the probe, programs whose code is beyond 16 bits (on the plain build), unusual waits (C09), globals
  with constant initial values (C01), one token of every kind replaced by another (C12), long host function names and unbinding
  (C17), globals used before they are initialised and large arguments (C10), lines and offsets outside the program (C15). The ones
  still unreported turned out to be no violation (equivalent code, or a budget that is used up less: "at most").
* Line coverage of the checks was measured with a clang profile build; what stays uncovered is code nothing calls (instruction
  helpers, the declaration elimination pass, messages without a user, backslash paths).
* tools/mutation.py makes small random edits of the sources, keeps those that compile and pass the 320 tests, and runs the
  relevant checks on them. Survivors were inspected one by one; what remains undetected is equivalent code (asserts, reserve(),
  unreachable branches, error codes of states no program reaches).
* Behaviour-preserving edits (helpers extracted, loops rewritten, statements reordered, tables reordered) were applied by hand and left
  all checks quiet.
'''
