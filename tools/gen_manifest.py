#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl.
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
RT = {f'P{i:02d}' for i in range(1, 17)}
NA = {}
COMP = {
 'P20': 'deterministic simulation with fault injection: seeded programs through the real compiler, deployed on a simulated chain and driven through seeded histories with faults, checked effect by effect against an executable EVM model of the source',
 'P21': 'deterministic simulation with fault injection: one seeded program under several option sets, each driven through the same seeded history with faults on a simulated chain, compared with each other and with the model',
 'P22': 'deterministic simulation of the operating system: the same compilation in processes with seeded randomness, clocks, ids, heap layout, directories and leftovers, outputs compared',
 'P23': 'deterministic simulation of the operating system with fault injection: seeded histories of compilations on a simulated disk with read, write, full-disk, torn-write, crash and child-process faults and damaged sources',
 'P30': 'deterministic simulation with fault injection: texts in seeded unusual forms compiled and driven through seeded histories on a simulated chain; stored sources damaged by seeded disk faults judged by a reference grammar',
 'P31': 'deterministic simulation with fault injection: two seeded texts of one program compiled, compared, deployed on a simulated chain and driven through a seeded history with faults',
 'P32': 'deterministic simulation with fault injection: seeded arithmetic-heavy contracts in both word representations driven through seeded histories with faults on a simulated chain, checked against an executable model',
}
CNOTE = ('Seeded random exploration: no violation on the explored programs, histories and faults, no proof. Trusted: the reference model of Yul, the simulated chain as a reading of '
         'stdlib/hostapi.h, thin bindings (yulc/) to LLVM 16 in place of the inkwell, wizer and wasm-opt crates, which are not available offline, and V8.')
OSNOTE = ('Seeded random exploration, no proof. Trusted: the preloaded operating system simulation (sim/yul/os), thin bindings (yulc/) to LLVM 16 in place of the inkwell, wizer and wasm-opt crates, which are not available offline.')
NOTE = ('Seeded random exploration: no violation on the explored histories, no proof. Trusted: the simulated host chain as a reading of stdlib/hostapi.h, '
        'the executable reference model, clang-16/wasm-ld and V8. Operations are issued by the simulator in place of compiler-emitted code.')
checks, na = [], []
for p in props:
    i = p['id']
    if i in RT:
        checks.append({'property': i, 'quick_cmd': f'node sim/check.js {i}', 'thorough_cmd': f'node sim/check.js {i} --thorough',
          'technique': 'deterministic simulation with fault injection: seeded histories of transactions, call trees and faults on the real runtime, checked step by step against a reference model',
          'level': 'exploration', 'level_note': NOTE})
    elif i in COMP:
        checks.append({'property': i, 'quick_cmd': f'node sim/check.js {i}', 'thorough_cmd': f'node sim/check.js {i} --thorough',
          'technique': COMP[i], 'level': 'exploration', 'level_note': OSNOTE if i in ('P22', 'P23') else CNOTE})
    else:
        na.append({'property': i, 'reason': NA[i]})
json.dump({'version': 1, 'setup_cmd': 'node sim/lib/build.js', 'checks': checks, 'not_applicable': na,
  'notes': 'No hooks: the runtime is reached through its exported functions and its host imports, the compiler through its command line, its files and its operating system calls.'}, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
