"""S04: torn saves - only part of the appended bytes survives a crash."""
import io
import errno
import sut
import simio
import pdfgen
from core import Violation
from session import Sess, rnd_ops, digest, difference, short, objects, ALL, EDIT
from model import content

PROP = 'S04'
COUNT = {'quick': 1700, 'thorough': 60000}
RULE = 'a run counts when the save appended bytes and at least four torn remains of it were opened'
REAL = ['pdfsyntax: all modules, from the working tree', 'Python buffered file layers']
STUB = ['raw file calls, file system, disk contents after the crash (in memory)', 'process image (package re-imported after every crash)']
LISTS = ['ops', 'cuts', 'file.revs']
MEASURE = 'hash of the layouts, operations and crash points'
KINDS = ['add', 'add', 'upd', 'upd', 'upd', 'del', 'del', 'rot', 'ann', 'ver', 'commit', 'commit', 'keep', 'rem', 'filt', 'group', 'cat', 'force']


def gen(rng, tier):
    f = pdfgen.rnd_file(rng)
    if rng.random() < .2:
        pdfgen.grow(rng, f)
    cuts = []
    for _ in range(rng.choice([4, 6, 10]) if tier == 'quick' else 24):
        k = rng.randrange(6)
        # where the surviving part ends: anywhere, near an end, near a line or a marker
        cuts.append({'x': rng.random(), 'near': rng.choice([None, None, 'end', 'start', 'eol', 'startxref', 'trailer', 'obj', 'xref', 'eof']),
                     'off': rng.randrange(-3, 12), 'tail': rng.choice([None, None, None, 'zero', 'zeros', 'sector'])})
    return {'file': f, 'ops': rnd_ops(rng, rng.randrange(1, 6), KINDS, last=.97), 'cuts': cuts, 'crash': rng.random() < .5,
            'mode': rng.choice(['readfile', 'readfile', 'cont']), 'bufsize': rng.choice([8192, 512, 64]), 'noeol': rng.random() < .15}


def point(new, base, c):
    """Length of the surviving prefix."""
    n = len(new)
    span = n - base
    k = base + int(c['x'] * span)
    near = c['near']
    if near == 'end':
        k = n - 1 - abs(c['off'])
    elif near == 'start':
        k = base + 1 + abs(c['off'])
    elif near:
        pat = {'eol': b'\n', 'startxref': b'startxref', 'trailer': b'trailer', 'obj': b'endobj', 'xref': b'xref', 'eof': b'%%EOF'}[near]
        j = new.find(pat, k)
        if j < 0:
            j = new.rfind(pat)
        k = j + c['off']
    return min(max(k, base), n)


def remains(new, k, tail):
    b = new[:k]
    if tail == 'zero':
        b += bytes(len(new) - k)
    elif tail == 'zeros':
        b += bytes(min(100, len(new) - k))
    elif tail == 'sector':
        b += bytes((-k) % 512)
    return b


def load(data, mode):
    w = simio.World()
    w.put('/sim/torn.pdf', data)
    lib = sut.fresh()
    s = Sess(lib, w)
    with simio.use(w):
        doc = s.open_doc('/sim/torn.pdf', mode)
        objs = content(objects(lib, doc))
        t = lib.trailer(doc)
        tr = tuple(int(t[k].imag) if isinstance(t.get(k), complex) else None for k in ('/Root', '/Info'))
        npages = len(lib.pages(doc))
        flat = [int(r.imag) for r, _ in lib.flat_page_tree(doc)]
        ups = lib.updates(doc)
    s.close()
    if w.get('/sim/torn.pdf') != data:
        raise Violation('input-changed', 'opening the remains changed them')
    return objs, tr, npages, flat, ups


def execute(plan, st):
    b = pdfgen.build(plan['file'])
    old = b.bytes
    if plan['noeol'] and plan['file']['layout'] not in ('linear', 'linstream'):
        old = old.rstrip(b'\r\n')
    w = simio.World()
    w.bufsize = plan['bufsize']
    w.put('/sim/in.pdf', old)
    s = Sess(sut.fresh(), w)
    made = []
    with simio.use(w):
        s.add_file('/sim/in.pdf', b, 'readfile')
        for op in plan['ops']:
            op = dict(op, s=-1)
            if op['op'] == 'cat':
                op['left'], op['t'] = True, 0
            try:
                if s.do(op) is not None:
                    st.hit('op ' + op['op'])
                    st.mark(op['op'])
            except Exception:
                pass
        slot = s.slots[-1]
        s.lib.writefile(slot.doc, '/sim/new.pdf')
    new = w.get('/sim/new.pdf')
    if not new.startswith(old):
        raise Violation('not-appended', f'the save did not extend the file: {len(old)} bytes before, {len(new)} after')
    # the revisions that exist: what the complete prefixes hold, read back by the library itself (S03 and S05 judge those),
    # the base from the generator's own knowledge
    base = (content(b.truth[-1]), (b.trailers[-1]['Root'], b.trailers[-1]['Info']))
    ends = [len(old)]
    i = len(old)
    while True:
        i = new.find(b'%%EOF', i)
        if i < 0:
            break
        ends.append(i + 5)
        i += 5
    if len(new) == len(old):
        st.nontrivial = False
        ends = [len(old)]
    revs = [(base, ends[0])]
    for e in ends[1:]:
        try:
            r = load(new[:e], plan['mode'])
        except Exception as x:
            if e + 1 >= len(new):
                raise Violation('complete-save-unreadable', f'all {e} bytes survive, yet opening fails: {x!r}')
            continue                  # an end-of-file marker inside an object's data
        revs.append(((r[0], r[1]), e))
    # nothing appended survives: the previous revision
    r = load(old, plan['mode'])
    if (r[0], r[1]) != base:
        raise Violation('previous-revision-changed', f'without the appended bytes: {first_diff(r[0], base[0])}')
    if plan['crash']:
        crash(plan, st, s, slot, new, old, revs)
    known = [x for x, _ in revs]
    opened = 0
    for c in plan['cuts']:
        k = point(new, len(old), c)
        data = remains(new, k, c['tail'])
        if data == new or len(new) == len(old):
            continue
        st.hit('fault torn write' + (' + zeroes' if c['tail'] else ''))
        st.mark(k - len(old), c['tail'])
        opened += 1
        try:
            r = load(data, plan['mode'])
        except Violation:
            raise
        except Exception as e:
            st.hit('remains refused')
            st.log(k, type(e).__name__)
            if k == len(old) and not c['tail']:
                raise Violation('previous-revision-lost', f'nothing appended survives, yet opening fails: {e!r}')
            continue
        st.hit('remains opened')
        st.log(k, r[0])
        if (r[0], r[1]) not in known:
            raise Violation('never-existed', f'{k - len(old)} of {len(new) - len(old)} appended bytes survive{" and zeroes" if c["tail"] else ""}: '
                            f'opens as a document that never existed; against the closest revision: {closest(r, known)}')
    st.nontrivial = opened >= 4
    s.close()


def crash(plan, st, s, slot, new, old, revs):
    """The process dies inside the save itself: whatever the disk then holds."""
    for c in plan['cuts'][:2]:
        w = simio.World()
        w.bufsize = plan['bufsize']
        w.put('/sim/in.pdf', old)
        w.script([{'at': 'crash', 'n': int(c['x'] * 3), 'arg': int(c['x'] * len(new))}])
        with simio.use(w):
            try:
                s.lib.writefile(slot.doc, '/sim/in.pdf')
            except simio.Crash:
                pass
        st.world(w)
        if not w.crashed:
            continue
        data = w.get('/sim/in.pdf')
        if len(data) < len(old):
            st.hit('crash before the appended part')
            continue
        if not new.startswith(data):
            raise Violation('save-not-sequential', f'after a crash inside the save the file holds {len(data)} bytes that are no prefix of the saved file')
        st.hit('crash inside the save')
        try:
            r = load(data, plan['mode'])
        except Violation:
            raise
        except Exception:
            continue
        if (r[0], r[1]) not in [x for x, _ in revs]:
            raise Violation('never-existed', f'after a crash at {len(data)} of {len(new)} bytes: {closest(r, [x for x, _ in revs])}')


def first_diff(a, b):
    for n in sorted(set(a) | set(b)):
        if a.get(n) != b.get(n):
            return f'object {n}: {short(a.get(n))} / {short(b.get(n))}'
    return 'trailer'


def closest(r, known):
    objs, tr = r[0], r[1]
    best = min(known, key=lambda x: sum(1 for n in set(objs) | set(x[0]) if objs.get(n) != x[0].get(n)) + (tr != x[1]))
    return first_diff(objs, best[0]) + f' trailer {tr} / {best[1]}'
