"""S06: documents are immutable - every document against a twin made with only the operations it needs."""
import sut
import simio
import pdfgen
from core import Violation
from session import Sess, rnd_ops, digest, difference, ALL

PROP = 'S06'
COUNT = {'quick': 1600, 'thorough': 60000}
RULE = ('a run counts when at least two operations were applied and at least two documents sharing history were compared with '
        'their isolated twins')
REAL = ['pdfsyntax: all modules, from the working tree', 'Python buffered file layers']
STUB = ['file system and disk (in memory)', 'process image (package re-imported for every twin)']
LISTS = ['ops', 'files.*.revs', 'early']


def gen(rng, tier):
    nf = rng.choice([1, 1, 2])
    files = [pdfgen.rnd_file(rng) for _ in range(nf)]
    ops = rnd_ops(rng, rng.randrange(3, 9 if tier == 'quick' else 14), ALL, last=rng.choice([.3, .6, .8]))
    return {'files': files, 'modes': [rng.choice(['readfile', 'loads', 'cont']) for _ in files], 'ops': ops,
            'early': sorted(rng.sample(range(12), rng.randrange(0, 4)))}


def start(plan, builds):
    lib = sut.fresh()
    w = simio.World()
    for i, b in enumerate(builds):
        w.put(f'/sim/in{i}.pdf', b.bytes)
    return Sess(lib, w)


def execute(plan, st):
    builds = [pdfgen.build(f) for f in plan['files']]
    s = start(plan, builds)
    w = s.w
    applied = 0
    with simio.use(w):
        for i, b in enumerate(builds):
            s.add_file(f'/sim/in{i}.pdf', b, plan['modes'][i])
        for op in plan['ops']:
            try:
                n = s.do(op)
            except Exception as e:
                st.hit('operation refused ' + op['op'])
                st.log(op['op'], type(e).__name__)
                continue
            if n is None:
                continue
            applied += 1
            st.hit('op ' + op['op'])
            st.mark(op['op'], n.npages)
            if len(s.slots) in plan['early']:
                digest(s.lib, w, n)
        ends = [digest(s.lib, w, x) for x in s.slots]
    s.close()
    st.nontrivial = applied >= 2
    for i, slot in enumerate(s.slots):
        t = start(plan, builds)
        with simio.use(t.w):
            try:
                twin = t.again(slot, {})
            except Exception as e:
                raise Violation('outcome-depends-on-others', f'document {i} ({slot.how[0]}) exists, but made alone it fails: {e!r}')
            d = digest(t.lib, t.w, twin)
        t.close()
        st.log(i, sorted(d.items(), key=repr))
        if d != ends[i]:
            raise Violation('document-changed', f'document {i} made by {name(slot)}: after the session / made alone: '
                            + difference(ends[i], d))
    st.hit('documents compared', len(s.slots))


def name(slot):
    return slot.how[0]['op'] if slot.how[0] != 'file' else 'opening'
