"""S03: histories of saves: the original bytes, one update per revision, every revision reachable by cutting."""
import simio
from checked import rnd_plan, drive
from session import EDIT

PROP = 'S03'
COUNT = {'quick': 4000, 'thorough': 200000}
RULE = 'a run counts when a saved file with at least one appended revision was cut at every revision'
REAL = ['pdfsyntax: all modules, from the working tree', 'Python buffered file layers']
STUB = ['raw file calls, file system and disk (in memory)', 'process image (package re-imported at every restart)']
LISTS = ['ops', 'files.*.revs', 'noise']
MEASURE = 'hash of the layouts, operations, saves and restarts'
KINDS = EDIT + ['commit', 'commit', 'rewind', 'keep', 'rem', 'cat', 'filt', 'group', 'force']


def gen(rng, tier):
    return rnd_plan(rng, KINDS, rng.choice([3, 6, 9]) if tier == 'quick' else rng.choice([6, 12, 25]), blank=.05, restart=.25)


def each(c, path):
    m, _, _ = c.files[path]
    c.cuts(m, c.w.get(path), m.cuts)


def execute(plan, st):
    w = simio.World()
    with simio.use(w):
        c, edits, restarts = drive(plan, st, w, each)
    st.nontrivial = st.n.get('revision cut', 0) >= 2
