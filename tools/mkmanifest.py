#!/usr/bin/env python3
"""Write MANIFEST.json for the scenarios that exist."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 'C01': 'seeded schedules, worker counts, tile layouts and configurations against an independent projection model and against a single-worker run; no exhaustiveness',
 'C02': 'every rasterio call of every simulated thread is watched for overlap and use after close, over seeded schedules and faults',
 'C03': 'seeded schedules and configurations against an independent Gram-Schmidt model (double precision, whole area)',
 'C04': 'seeded faults at every rasterio / file-system call and library source line; a normal return has to come with the undisturbed output',
 'C05': 'seeded faults and interrupts; deadlock and step bound detection by the scheduler; threads, descriptors and datasets counted after the call',
 'C06': 'seeded output kinds, drivers, stores, existing contents and faults; byte comparison',
 'C07': 'seeded process deaths at any decision point, torn leftovers, faults and object reuse histories; comparison with an undisturbed run',
 'C08': 'seeded completion orders and failing subsets; comparison with what was stored and with single-file reads',
 'C09': 'seeded histories and interleavings of get / refine / export / use; comparison with directly created cameras',
 'C10': 'seeded operation sequences and interleavings on one camera; comparison with a new camera',
 'C11': 'seeded schedules of one to three concurrent callers and faults; process state compared before and after',
 'C12': 'seeded faults and process deaths; directory trees and the simulated store compared before and after',
 'C13': 'seeded command lines with good and bad images, faults and schedules; comparison with each image by itself',
 'C14': 'seeded parameters, faults and process deaths; exported files read back and compared',
 'C15': 'seeded schedules and faults; the progress stream compared with the work completed so far',
 'C16': 'seeded supply forms and stores; comparison with plain local paths',
 'C20': 'seeded sequences and interleavings of calls, replaced inputs and faults; each result compared with the same call alone in a process of its own',
}
NA = {
 'C17': 'a projection is a pure function of its arguments: no schedule, time, I/O, fault or history for a simulator to control (its use by threads and after other calls is C10)',
 'C18': 'fitting is a pure function of its arguments: no schedule, time, I/O, fault or history for a simulator to control',
 'C19': 'the conversions are pure functions of their arguments: no schedule, time, I/O, fault or history for a simulator to control',
}
checks = []
missing = []
for p, note in NOTE.items():
    f = os.path.join(V, 'sim', 'scenarios', p.lower() + '.py')
    if not os.path.exists(f):
        missing.append(p)
        continue
    cmd = f'/opt/venv/bin/python /verif/check.py {p} --tier '
    checks.append(dict(property=p, quick_cmd=cmd + 'quick', thorough_cmd=cmd + 'thorough',
                       technique='deterministic simulation with fault injection: seeded search '
                                 'over schedules and fault sequences of the real code',
                       level='exploration', level_note=note, evidence_file=f'evidence/{p}.json'))
m = dict(version=1, setup_cmd='/opt/venv/bin/python -c "import rasterio, cv2, fsspec, tqdm"',
         hooks=dict(guard='none', enable='no hooks in /repo: the simulator replaces locks, thread '
                    'start, clocks and rasterio entry points from outside the package',
                    source_commits=[]),
         checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NA.items()] +
         [dict(property=p, reason='the check is being built') for p in missing])
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
