#!/usr/bin/env python3
"""Writes sim/checks.json: run counts and descriptions of the checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RT_STUB = ('thread scheduling, mutexes, condition variables, static '
           'initialisation guards, clocks, heap and processor count are the '
           "simulator's (libsimrt.so); threads are OS threads of which one runs "
           'at a time')
SC = ('Interleavings are sequentially consistent; wrong memory orders show only '
      'as data races found by vector clocks, not as stale values.')
LOOPS = ['include/utl/parallel_for.h', 'include/utl/logging.h',
         'libstdc++ std::thread, std::mutex, std::atomic, std::exception_ptr']
C = {}
def add(i, runs, over, note, real, stub=(), rule='', assume=(), stubs=False):
    C[i] = {'runs': runs, 'over': over, 'note': note, 'real': real,
            'stub': [RT_STUB] + list(stub), 'rule': rule,
            'assumptions': [SC] + list(assume)}
    if stubs:  # build with sim/stubs on the include path
        C[i]['stubs'] = True

SAMPLED = ('Exploration: the real code is run under a seeded scheduler at the '
           'granularity of single memory accesses, with a data race detector and '
           'a heap checker; sampled, not exhaustive. ')
exec(open(os.path.join(V, 'tools/checks_table.py')).read())
json.dump(C, open(os.path.join(V, 'sim/checks.json'), 'w'), indent=1)
print(len(C), 'checks')
