#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'sim'))
import plans
NOTE = {
 'C01': 'seeded search over old contents, permission combinations and start methods; every single fault kind at sampled operations; snapshot oracle is exact',
 'C02': 'seeded search over old contents, histories of earlier (killed) runs and listing orders; oracle: tree of the same run in a fresh directory',
 'C03': 'seeded search over scenes, links and up to two faults; oracle: exact snapshots plus every modifying call leaving the scratch root',
 'C04': 'seeded search over a catalogue of defects of the parameter file in every section and over read faults; oracle: exact snapshots',
 'C05': 'seeded search over error kinds (once or persistent) at sampled operations of runs with every format; oracle: outputs of the undisturbed run',
 'C06': 'seeded search over grids, format subsets and benign events; independent readers of all eight formats',
 'C07': 'seeded search over stop points of runs with several realisations; finished realisations are compared before and after',
 'C08': 'seeded search over stop points and parameter files; the backup is parsed independently and run again',
 'C09': 'seeded search over stop points, repeated up to three times, then recovery run',
 'C10': 'seeded search over missing libraries, formats and I/O errors; oracle: run with the remaining formats only',
 'C11': 'seeded scheduler interleaves two to four processes at every file system operation (random walk, bursts, priority changes), with kills',
 'C12': 'seeded search over pairs of environments (clock, entropy, hash seed, listing order, places, formats, earlier runs)',
 'C13': 'seeded search over model descriptions and streams of random draws with extreme values; oracle computed from the parameter file alone',
 'C14': 'as C13; executable cursor-free reference model of the cell assignment over the generated structures',
 'C15': 'as C13; black-box order and contact oracle plus stacking of the generated surfaces',
 'C16': 'as C13; closed form for values without variance and for the tensors; one listed finding',
 'C17': 'seeded search over histories of realisations, runs and failed runs in one process; oracle: fresh process from the recorded random state',
 'C18': 'seeded search over failure causes, faults and kill points of the command line program',
 'C19': 'seeded search over stop points of the first and second run; oracle: undisturbed run',
 'C22': 'seeded random streams over sequences of realisations; moments and lagged correlations with tolerances several standard errors wide',
 'C24': 'as C13; sizes, positions, ranges and alternation of the generated structures computed from the parameter file',
 'C25': 'seeded random streams over sequences of realisations; frequencies and means with tolerances several standard errors wide',
}
NA = {
 'C20': 'parsing one option string is a pure function of that string: no scheduling, time, I/O, crash or randomness for a simulator to control; what a rejected file does to the disk is C04',
 'C21': 'translation of deprecated parameter files is a pure function of the file; there is nothing for a simulator to schedule or to fail (and several documented deprecated options are not translated at this commit)',
 'C23': 'orientation of flow models is a pure function of the arrays and the documentation does not fix it; that both flow models agree with each other and the arrays is part of C06',
}
checks = []
for p in sorted(plans.PROPS):
    checks.append(dict(property=p, quick_cmd='/opt/venv/bin/python sim/vc.py check %s' % p,
                       thorough_cmd='VERIF_TIER=thorough /opt/venv/bin/python sim/vc.py check %s' % p,
                       technique='deterministic simulation with fault injection (seeded schedules, faults and random streams)',
                       level='exploration', level_note=NOTE[p]))
m = dict(version=1, setup_cmd='/opt/venv/bin/python sim/vc.py setup', checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NA.items()])
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
