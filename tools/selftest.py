"""Determinism of the simulator itself: every check gives the same event log whatever the number of processes,
the hash seed and the run before.  usage: python3 tools/selftest.py [COUNT [SEED [PROP...]]]"""
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'sim'))
import core  # noqa: E402

count = int(sys.argv[1]) if len(sys.argv) > 1 else 60
seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1
bad = 0
for prop in sys.argv[3:] or [f'S{k:02}' for k in range(1, 18)]:
    logs = []
    for jobs, hashseed in ((8, '0'), (3, '7'), (1, '12345')):
        recs = core.batch(prop, seed, 'quick', count, jobs, [time.monotonic() + 3000], hashseed)
        logs.append({r['i']: (r['kind'], r['dig'], r['sig'], r['steps']) for r in recs if 'i' in r and 'harness' not in r})
    diff = sorted(i for i in range(count) if len({log.get(i) for log in logs}) != 1)
    bad += bool(diff)
    print(prop, f'{count} runs,', 'the same three times' if not diff else f'DIFFERENT: runs {diff[:10]}', flush=True)
    for i in diff[:2]:
        print('   ', [log.get(i) for log in logs])
sys.exit(bool(bad))
