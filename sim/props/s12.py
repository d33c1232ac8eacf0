"""S12: compositions of page operations against lists of pages."""
import simio
from checked import rnd_plan, drive
from session import EDIT, PAGE

PROP = 'S12'
COUNT = {'quick': 4000, 'thorough': 200000}
RULE = 'a run counts when at least two page operations were performed'
REAL = ['pdfsyntax: all modules, from the working tree', 'Python buffered file layers']
STUB = ['raw file calls, file system and disk (in memory)', 'process image (package re-imported at every restart)']
LISTS = ['ops', 'files.*.revs', 'noise']
MEASURE = 'hash of the layouts, operations, saves and restarts'
KINDS = PAGE + PAGE + ['cat', 'cat', 'rot', 'commit', 'add', 'rewind', 'squash']


def gen(rng, tier):
    return rnd_plan(rng, KINDS, rng.choice([2, 4, 7]) if tier == 'quick' else rng.choice([5, 10, 20]), nfiles=rng.choice([1, 2, 2, 3]), blank=.15, restart=.15, last=.6, grow=0)


def execute(plan, st):
    w = simio.World()
    with simio.use(w):
        c, edits, restarts = drive(plan, st, w)
    st.nontrivial = sum(v for k, v in st.n.items() if k[3:] in PAGE) >= 2
