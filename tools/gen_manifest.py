#!/usr/bin/env python3
"""writes MANIFEST.json from the list of properties and the checks there are"""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': ('online differential monitoring of generated expressions against a reference evaluator, under ASan and UBSan',
         'Value logs of the real VM compared with an independent interpreter of the language on generated programs; trusts lib/lang.py (and numpy-free IEEE single arithmetic).'),
 'C02': ('trace monitoring of generated programs against a reference interpreter, under ASan and UBSan',
         'Every host call, result and global of random programs compared with the reference interpreter.'),
 'C03': ('trace monitoring of call sequences and stack balance hooks, under ASan and UBSan',
         'Arguments, order, results and the operand stack height at every host call are compared with the reference.'),
 'C04': ('model based monitoring of array and string operations, under ASan and UBSan',
         'Histories of aliasing operations replayed against a heap model; whole object graphs compared.'),
 'C05': ('differential monitoring of optimised and unoptimised builds of the same sources',
         'Both builds and the reference must give identical logs.'),
 'C06': ('metamorphic monitoring under forced collection schedules with heap poisoning (ASan)',
         'The same program under many collection schedules; unused semispace memory is poisoned so a stale reference is caught at its first use.'),
 'C07': ('resource monitoring of long allocation workloads',
         'Heap use after collections and cost per round recorded over long runs.'),
 'C08': ('metamorphic monitoring under randomised slicing schedules',
         'Logs under every slicing equal the log of the uninterrupted run; cycle counters checked per slice.'),
 'C09': ('online checker of a scheduler specification over recorded pass logs',
         'Each pass of the real scheduler is compared with a scheduler model fed with the events the threads produce.'),
 'C10': ('fault provoking workloads with error monitors and a reference interpreter, under ASan and UBSan',
         'Error code, line, last event, global state and other threads compared with the reference after every error.'),
 'C11': ('sanitizer monitored hostile inputs and coverage guided fuzzing (libFuzzer)',
         'Every text is accepted or rejected with a position inside it, without sanitizer report or hang. Very deep nesting is a known finding.'),
 'C12': ('rule violation injection with an oracle for verdict and line',
         'Valid programs with one injected violation must be rejected at its line; the untouched ones accepted.'),
 'C13': ('round trip monitoring of saved programs: structure and behaviour',
         'Program dumps and logs before saving and after loading compared, over generated programs, several generations and processes.'),
 'C14': ('fault injection: truncation at every byte, damaged fields, failing devices, under ASan and UBSan with handle and memory monitors',
         'Every truncation point of the sampled files and many damaged fields are tried; each load must fail cleanly or read the file fully.'),
 'C15': ('online monitoring of positions, line steps and breakpoints against the reference line trace',
         'The source line at every host call, for every active call, and the sequence of lines stepped are compared with the reference.'),
 'C16': ('argument matrix monitoring of builtins against exact reference functions',
         'All kinds and boundary values of arguments, exhaustive chr and small ranges; sin, cos and tan within 2 ulp.'),
 'C17': ('monitoring of values crossing the host boundary with recorded handler traces',
         'Recording host functions and handlers compared with the reference.'),
 'C18': ('metamorphic monitoring of multi file programs in scratch directories',
         'Programs split over generated file trees behave as their concatenation; failures are reported at the import.'),
 'C19': ('bytecode verifier and dump checker run as monitors on every generated program',
         'An independent decoder checks the emitted code, its control flow and stack effect; listings are compared with the decoded code.'),
 'C20': ('lifecycle stress under ASan, LeakSanitizer, TSan and memcheck with state comparison',
         'Random histories of the API; logs must equal those of a fresh process, memory must return to its level.'),
 'C21': ('metamorphic monitoring of layout, case and naming changes, and byte comparison of repeated builds',
         'Code and behaviour of rewritten texts compared with the original.'),
 'C22': ('process level monitoring of the command line tools against the reference interpreter',
         'Exit code and output of the real tools (sanitizer builds) compared with what the reference predicts.'),
}
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(V, 'checks', p.lower() + '.py')):
        lvl = [l for l in open(os.path.join(V, 'checks', p.lower() + '.py')) if l.startswith('LEVEL')][0].split("'")[1]
        checks.append({'property': p, 'quick_cmd': 'python3 run.py ' + p, 'thorough_cmd': 'python3 run.py %s --tier thorough' % p,
                       'evidence_file': 'evidence/%s.json' % p, 'technique': T[p][0], 'level': lvl,
                       'level_note': T[p][1] + ' No violation on the executions explored; not a proof.'})
    else:
        na.append({'property': p, 'reason': 'check not built yet'})
hook = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--grep=^verif: guarded hooks', 'HEAD'], text=True).split()
m = {'version': 1, 'setup_cmd': 'python3 lib/build.py probe:asan fuzz:fuzz driver:asan comp:asan probe:tsan probe:plain',
     'hooks': {'guard': 'NANO_VERIF', 'enable': 'lib/build.py compiles /repo/source with -DNANO_VERIF', 'source_commits': hook},
     'checks': checks, 'not_applicable': na,
     'notes': 'run.py Cxx builds an executor from the current tree of /repo and runs the cases of checks/cxx.py on all cores; --replay FILE reruns a recorded violation.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
