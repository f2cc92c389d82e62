#!/usr/bin/env python3
# Writes /verif/MANIFEST.json.
import json
T = 'deterministic simulation with fault injection: seeded search over schedules, histories and faults, exact replay'
TRUST = ' Assurance is that of seeded search, not exhaustion. Trusted: the simulation runtime and oracles in /verif, g++ 11 with its memory-access instrumentation, libstdc++ and libc. Executions are sequentially consistent.'
notes = {
 'C01': 'Every simulated call is compared bit for bit with the same call alone in a fresh process, and a vector-clock race detector watches every instrumented memory access of all simulated threads.',
 'C02': 'Every byte the device accepts is compared with the text of the expression made by an independent string stream; failures are injected at every kind of device, flush and inserter point.',
 'C03': 'Every callback is compared with an independent statement of the components; the callback cancels, throws, re-enters and is preempted at seeded calls.',
 'C04': 'Everything that reaches the device behind std::clog is compared with the set of conversion kinds made; std::clog fails, blocks and recovers under the seeded plan.',
 'C05': 'Every copy is compared with an independent statement of source and target components; the n-th coefficient copy fails and the copy is repeated; live coefficients are counted.',
 'C06': 'Every evaluation is compared with direct evaluation on the inputs; inputs are modified and destroyed, memory and stack are reused, contexts are carried and shared; a registry catches dead reads.',
 'C07': 'Coefficients report construction, copies, moves, reads and destruction to a registry outside their own memory; operands and results are modified and destroyed between calls.',
}
na = {
 'C08': 'The products are pure functions of their operands: no concurrency, time, I/O, allocation failure or history takes part, so there is no schedule or fault for a simulator to decide; what remains is input testing, another technique. That the products have no hidden state and own their results is decided by C01 and C07.',
 'C09': 'A statement about compile-time rewriting of types; nothing happens at run time that a simulator could schedule or make fail.',
 'C10': 'Pure function of one multivector and the tolerance; no concurrency, time, I/O or fault takes part. Isolation and ownership of these operations are decided by C01 and C07.',
 'C11': 'Algebraic identities of pure functions; no concurrency, time, I/O or fault takes part. Isolation and ownership of these operations are decided by C01 and C07.',
 'C12': 'Pure functions of two blades; no concurrency, time, I/O or fault takes part. Isolation and ownership of these operations are decided by C01 and C07.',
 'C13': 'Pure functions of one blade; no concurrency, time, I/O or fault takes part. Isolation and ownership of these operations are decided by C01 and C07.',
}
m = dict(version=1, setup_cmd='python3 tools/setup.py',
         checks=[dict(property=p, quick_cmd='python3 check.py ' + p, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + p, evidence_file='evidence/%s.json' % p, technique=T, level='exploration', level_note=n + TRUST) for p, n in notes.items()],
         not_applicable=[dict(property=p, reason=r) for p, r in na.items()],
         notes='No hooks in /repo: memory accesses, threads, locks, once-flags, static guards, the heap, clocks, random sources, streams and coefficient types are all reached through seams outside the library. The fix: commits in /repo are listed in known_findings.txt and DESIGN.md.')
with open('/verif/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
