"""S13: squash and compress against the content they must keep."""
import simio
from checked import rnd_plan, drive
from session import EDIT

PROP = 'S13'
COUNT = {'quick': 4000, 'thorough': 200000}
RULE = 'a run counts when at least one squash or compress was performed'
REAL = ['pdfsyntax: all modules, from the working tree', 'Python buffered file layers']
STUB = ['raw file calls, file system and disk (in memory)', 'process image (package re-imported at every restart)']
LISTS = ['ops', 'files.*.revs', 'noise']
MEASURE = 'hash of the layouts, operations, saves and restarts'
KINDS = ['squash'] * 4 + ['compress'] * 4 + EDIT + ['keep', 'rem', 'cat', 'filt', 'group', 'force', 'rewind']


def gen(rng, tier):
    return rnd_plan(rng, KINDS, rng.choice([2, 4, 6]) if tier == 'quick' else rng.choice([5, 10, 20]), nfiles=rng.choice([1, 1, 2]), blank=.1, restart=.2, last=.85)


def execute(plan, st):
    w = simio.World()
    with simio.use(w):
        c, edits, restarts = drive(plan, st, w)
    st.nontrivial = st.n.get('op squash', 0) + st.n.get('op compress', 0) >= 1
