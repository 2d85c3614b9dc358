"""Write MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
MON = 'runtime monitoring: '
E = MON + 'the real command line runs on generated and real TZ sources; every artefact is decoded and an online oracle compares each record with an executable reference model'
T = {
    'P01': MON + 'local-time step functions interpreted from every decoded artefact are compared with those interpreted from the source text',
    'P13': MON + 'generated C++ is compiled with -Wconversion-style errors and walked under address and undefined-behaviour sanitizers; decoded tables are compared with the reference model',
    'P14': MON + 'generated C is compiled with narrowing errors and walked under address and undefined-behaviour sanitizers; decoded tables are compared with the reference model',
    'P15': MON + 'generated Go is compiled and its binary tables are decoded through their own offsets by a monitor program; compared with the reference model',
    'P19': MON + 'byte comparison of repeated executions under different hash seeds, environments, directory contents, languages and actions',
    'P29': MON + 'the real scripts run unprivileged on scratch git repositories with injected failures; snapshots before and after are compared',
    'P30': MON + 'executions over option combinations; files, contents, exit status and side effects observed and compared',
    'P31': MON + 'fresh processes with injected I/O faults (full device, file size limits, unreadable inputs); exit status and files compared with the undisturbed execution',
}
S = {'P05', 'P09', 'P12', 'P18', 'P22', 'P23', 'P24'}
checks = []
for i in ids:
    t = T.get(i, E)
    if i in S:
        t += '; plus an oracle over observed calls of the underlying functions across their domain'
    checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                       technique=t, level='exploration', level_note='Held on the executions counted in evidence/%s.json; says nothing about inputs not run.' % i))
m = dict(version=1, setup_cmd='python3 setup_check.py', checks=checks, not_applicable=[])
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
