"Writes MANIFEST.json from the registry and properties.jsonl."
import json, re, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claimed = re.findall(r"^    '([A-Z]\d\d)': \('", open(here + '/sim/registry.py').read(), re.M)
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
PURE = ('a pure function of its arguments: one thread, no time, no I/O, no randomness and no state '
        'that outlives the call, so there is no schedule, fault or history for a simulator to decide; '
        'sampling its inputs would be ordinary property-based testing')
NOTE = {
 'A01': 'real la, h5py and HDF5 on a simulated disk; seeded search over histories, reopening in new processes; against a dictionary model',
 'A02': 'as A01 with a failure or interrupt injected at a chosen line, library call or C call; whole-archive comparison after every failure',
 'A03': 'as A01 with one-off disk errors, full disk, short transfers and EINTR; a persistently failing disk and a killed process are outside (HDF5 1.8 has no journal)',
 'A04': 'crash before, in and after every kind of system call of the repack, power loss with unsynced writes dropped or torn, disk errors, stale leftovers',
 'A05': 'system calls on the file are recorded and its bytes compared around every reading or rejected operation',
 'A06': 'partial reads and writes on long-lived partial readers against an independent reference of indexing',
 'A07': 'real threads under a seeded line-level scheduler with chosen preemptions; oracle: the archived values',
 'A09': 'processes killed without cleaning up, between two operations or at a system call of a read, with the archive open or not; the next process must find every acknowledged change',
 'T01': 'disk errors, short writes and full disk at chosen system calls of the export; oracle: the bytes a complete file has',
 'T02': 'read errors, short reads and truncation of the file; oracle: the exported larry',
 'N01': 'scripted server (errors, timeouts, cut off or reordered bodies) and clock behind the urlopen and datetime seams; oracle: the price table of the server',
 'R01': 'scripted and hostile random sources, several generators interleaved, failures injected; exact partition oracle, and spread over 700 seeds per case with bounds of 8 sigma',
 'R02': 'as R01, for shuffling data and labels, with failures injected at lines and calls; oracle: multiset of labelled slices',
 'M01': 'failure or interrupt at a chosen line, call or allocation in one of the catalogued operations; operands, numpy settings and random state compared exactly',
 'M02': 'two or three threads under a seeded line-level scheduler; oracle: the result of each operation alone in a process of its own',
 'M03': 'pool of operands and results whose owners change them in place; a model of what the documentation lets share storage decides',
 'M04': 'sequences of in-place operations with failures injected; well-formedness and before/after comparison after each',
 'M05': 'histories in one process, each operation repeated in a pristine process on operands rebuilt with the same memory layout; exact comparison',
 'D01': 'the same programs in a second interpreter (hash seed, extension source or none, absent packages, flags, time zone, locale); exact comparison; files exchanged',
 'A08': 'open descriptors and open HDF5 file ids are counted after every operation, while the traceback still lives',
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in claimed:
        checks.append({'property': i, 'quick_cmd': './check %s quick' % i,
                       'thorough_cmd': './check %s thorough' % i,
                       'technique': 'deterministic simulation with fault injection: seeded search over '
                                    'histories, schedules and fault plans of the real code',
                       'level': 'exploration', 'level_note': NOTE.get(i, '')})
    elif i[0] == 'P':
        na.append({'property': i, 'reason': PURE})
    else:
        na.append({'property': i, 'reason': 'no check yet: being built'})
m = {'version': 1, 'setup_cmd': './check --build', 'checks': checks, 'not_applicable': na}
with open(here + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), len(na))
