"""S05: histories of edits, saves and restarts against the reference model and the independent reader."""
import simio
from checked import rnd_plan, drive
from session import EDIT

PROP = 'S05'
COUNT = {"quick": 4000, "thorough": 200000}
RULE = 'a run counts when at least two edits were made and a save was read back after a restart'
REAL = ['pdfsyntax: all modules, from the working tree', 'Python buffered file layers']
STUB = ['raw file calls, file system and disk (in memory)', 'process image (package re-imported at every restart)']
LISTS = ['ops', 'files.*.revs', 'noise']
MEASURE = 'hash of the layouts, operations, saves and restarts'
KINDS = EDIT + ['filt', 'group', 'force', 'rewind']


def gen(rng, tier):
    return rnd_plan(rng, KINDS, rng.choice([3, 6, 10]) if tier == 'quick' else rng.choice([6, 12, 30]))


def execute(plan, st):
    w = simio.World()
    with simio.use(w):
        c, edits, restarts = drive(plan, st, w)
    st.nontrivial = edits >= 2 and restarts >= 1
