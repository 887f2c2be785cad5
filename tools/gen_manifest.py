#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property that has a harness."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl') if l.strip()]
checks, na = [], []
NOTE = {
 'C08': 'History is checked against a FIFO recursive mutex (linearizability); plus every guard operation sequence up to length 4.',
 'C28': 'Happens-before under the C++ memory model (memory orders as written) is computed along every explored execution and every conflicting pair of accesses judged by it. ',
 'C29': 'Built against the installed asio 1.28; the adapters for asio 1.12.0 and 1.12.2 interfaces are both driven, the one for 1.10 does not fit that asio. ',
 'C30': 'The harnesses of other properties, compiled again with the options and compilers named in the scenario names (a part of their scenarios). ',
 'C11': 'Coroutine/coroutine, coroutine/plain and plain/plain list locking; livelock is judged under a fair continuation of the schedule.',
}
BASE = ('Every schedule of the real library code up to the stated preemption bound, every enumerated choice (program, argument, time advance), for the finite scenarios of '
        'the harness; use-after-free, double free, leak, deadlock, missed completion and wrong results are all judged on every execution. Assumes that weak memory shows no behaviour that is neither a sequentially consistent one nor preceded by a data race (C28), '
        'clang 16 -O1 code generation, and that larger programs need no more threads, operations or preemptions to fail.')
for p in props:
    i = p['id']
    if i == 'C30' or os.path.exists('%s/harness/%s.cpp' % (V, i.lower())):
        checks.append(dict(property=i, quick_cmd='./check.py %s' % i, thorough_cmd='./check.py %s --tier thorough' % i, evidence_file='evidence/%s.json' % i,
            technique='stateless model checking of the compiled library under a controlled scheduler (iterative preemption bounding, happens-before caching, virtual time)',
            level='model_checking', level_note=(NOTE[i] + ' ' if i in NOTE else '') + BASE))
    else: na.append(dict(property=i, reason='no harness yet'))
json.dump(dict(version=1, setup_cmd='./check.py build ' + ' '.join(c['property'] for c in checks), checks=checks, not_applicable=na,
    notes='No hooks in /repo: the library is compiled unmodified with -fsanitize=thread instrumentation calls that go to mc/rt.cpp instead of the sanitizer runtime.'), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed;', len(na), 'not')
