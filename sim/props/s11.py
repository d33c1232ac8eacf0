"""S11: commit and rewind against a model of revisions."""
import simio
from checked import rnd_plan, drive
from session import EDIT

PROP = 'S11'
COUNT = {'quick': 4000, 'thorough': 200000}
RULE = 'a run counts when at least two commits or rewinds took place'
REAL = ['pdfsyntax: all modules, from the working tree', 'Python buffered file layers']
STUB = ['raw file calls, file system and disk (in memory)', 'process image (package re-imported at every restart)']
LISTS = ['ops', 'files.*.revs', 'noise']
MEASURE = 'hash of the layouts, operations, saves and restarts'
KINDS = EDIT + ['commit'] * 4 + ['rewind'] * 6 + ['group', 'force', 'keep', 'squash']


def gen(rng, tier):
    return rnd_plan(rng, KINDS, rng.choice([4, 8, 12]) if tier == 'quick' else rng.choice([8, 16, 40]), blank=.15, restart=.15, nrevs=rng.choice([1, 1, 2, 3, 4]))


def execute(plan, st):
    w = simio.World()
    with simio.use(w):
        c, edits, restarts = drive(plan, st, w)
    st.nontrivial = st.n.get('op commit', 0) + st.n.get('op rewind', 0) >= 2
