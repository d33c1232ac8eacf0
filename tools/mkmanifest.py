"""Writes /verif/MANIFEST.json from the check modules that exist and the table below."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import mkprops  # noqa: E402

BASE = ('Seeded search, not exhaustive: nothing is claimed beyond the explored runs. Trusted: the simulated file layer, the '
        'independent reader and generator of files in sim/, CPython. ')
T = {
    'S01': ('write faults and short writes on the simulated destination; bytes and outcome compared with a fault-free run', ''),
    'S02': ('read, memory and interruption faults at every stage of preparing a save over an existing file', ''),
    'S03': ('random edit/commit/save/restart histories; every prefix checked against a reference model and an independent reader', ''),
    'S04': ('crash inside the simulated save, torn and zero-filled tails, restart; history check against the revisions that existed', ''),
    'S05': ('random edit histories with process restarts, refined against an executable reference model and an independent reader', ''),
    'S06': ('random histories over documents sharing ancestry; invariant re-check of every earlier document and isolated replay', ''),
    'S07': ('scheduling of reads between the steps of a history; comparison with the unread twin', ''),
    'S08': ('line-granular seeded thread scheduler under one shared set of documents; comparison with the thread alone', ''),
    'S09': ('interleaving of several sessions in one simulated process; comparison with each session alone', ''),
    'S10': ('split, short, interrupted and failing reads in every way to open a file; comparison with the fault-free answers', ''),
    'S11': ('random commit/rewind/save/restart histories refined against a reference model of revisions', ''),
    'S12': ('random compositions of page operations refined against a list-of-pages model, with restarts', ''),
    'S13': ('random histories ending in squash/compress, content compared as a multiset of object graphs by a model and an independent reader', ''),
    'S14': ('seeded storage damage under a metered step budget, with intact files handled before and after', ''),
    'S15': ('command runs under read and output faults, compared with the generator\'s truth', ''),
    'S16': ('interruptions and failing allocations injected at seeded step numbers inside operations; retry and sanity check', ''),
    'S17': ('the same plan in simulated processes with different hash seeds, clocks, zones, locales and schedules', ''),
}
have = [p for p in T if os.path.exists(os.path.join(HERE, 'sim', 'props', p.lower() + '.py'))]
m = {
    'version': 1,
    'setup_cmd': 'true',
    'checks': [{
        'property': p,
        'quick_cmd': f'python3 check.py {p} --tier quick',
        'thorough_cmd': f'python3 check.py {p} --tier thorough',
        'evidence_file': f'evidence/{p}.json',
        'technique': 'deterministic simulation with fault injection: ' + T[p][0],
        'level': 'exploration',
        'level_note': BASE + T[p][1],
    } for p in have],
    'not_applicable': [{'property': k, 'reason': v} for k, v in mkprops.NA.items()]
    + [{'property': p, 'reason': 'check not built yet'} for p in T if p not in have],
    'notes': 'No hooks in /repo: the simulator replaces open, os, sys.stdout and threading underneath the unmodified modules. '
             'A violation prints its seed and a minimised plan; "python3 check.py replay FILE" repeats it exactly.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
