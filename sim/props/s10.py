"""S10: reading - every way to open a file agrees, split reads change nothing, failing reads never give wrong answers."""
import errno
import sut
import simio
import pdfgen
from core import Violation
from session import Sess, rnd_ops, rnd_question, ask, digest, difference, short, plain, ONCE, ALL, EDIT

PROP = 'S10'
COUNT = {'quick': 1600, 'thorough': 60000}
RULE = 'a run counts when a read was split, interrupted or failed, or when at least two ways to open were compared'
REAL = ['pdfsyntax: all modules, from the working tree', 'Python buffered and unbuffered file objects', 'io.BytesIO']
STUB = ['raw file calls, file system and disk (in memory)', 'process image (package re-imported)']
LISTS = ['ops', 'faults', 'modes', 'questions', 'file.revs']
MODES = ['readfile', 'loads', 'bytesio', 'single', 'single0', 'cont', 'cont0', 'contbytes']
MEASURE = 'hash of the layouts, ways to open, operations and read faults'


def gen(rng, tier):
    f = pdfgen.rnd_file(rng)
    if rng.random() < .4:
        pdfgen.grow(rng, f)
    faults = []
    err = rng.random() < .6
    for _ in range(rng.randrange(1, 5)):
        k = rng.randrange(5)
        n = rng.choice([0, 1, 2, 3, 5, 8, 13, 21, 34, 55])
        if k < 2:
            faults.append({'at': 'read', 'n': n, 'do': 'short', 'arg': rng.choice([1, 2, 7, 33, 100, 500]), 'from': rng.random() < .5})
        elif k == 2:
            faults.append({'at': 'read', 'n': n, 'do': 'eintr'})
        elif err and k == 3:
            faults.append({'at': 'read', 'n': n, 'do': 'err', 'arg': rng.choice([errno.EIO, errno.ESTALE, errno.ENOMEM]),
                           'from': rng.random() < .4})
        elif err:
            faults.append({'at': rng.choice(['open', 'seek', 'read']), 'n': rng.choice([0, 0, 1, 2, 5, 9]), 'do': 'err', 'arg': errno.EIO})
    return {'file': f, 'modes': rng.sample(MODES, 3), 'ops': rnd_ops(rng, rng.choice([0, 0, 1, 2, 4]), ALL), 'faults': faults,
            'bufsize': rng.choice([16, 64, 300, 1024, 8192]), 'phase': rng.choice(['open', 'ask', 'ask']),
            'questions': [rnd_question(rng) for _ in range(rng.randrange(2, 8))]}


def execute(plan, st):
    b = pdfgen.build(plan['file'])
    errs = [f for f in plan['faults'] if f['do'] == 'err']
    splits = [f for f in plan['faults'] if f['do'] != 'err']

    def start(mode, faults):
        w = simio.World()
        w.bufsize = plan['bufsize']
        w.put('/sim/in.pdf', b.bytes)
        s = Sess(sut.fresh(), w)
        w.script(faults)
        return s, w

    def session(mode, faults):
        s, w = start(mode, faults)
        with simio.use(w):
            s.add_file('/sim/in.pdf', b, mode)
            for op in plan['ops']:
                try:
                    s.do(op)
                except Exception as e:
                    st.log(op['op'], type(e).__name__)
            return s, w, [digest(s.lib, w, x) for x in s.slots]

    s, w, want = session('loads', [])
    st.log([sorted(d.items(), key=repr) for d in want])
    for op in plan['ops']:
        st.mark(op['op'])
    for mode in plan['modes']:
        st.hit('opened ' + mode)
        st.mark(mode)
        s, w, got = session(mode, splits)
        st.world(w)
        st.mark(sorted(w.hits.items()))
        for i, d in enumerate(got):
            if i >= len(want) or d != want[i]:
                raise Violation('ways-to-open-differ', f'document {i}: from bytes / {mode} with split reads: '
                                + (difference(want[i], d) if i < len(want) else 'extra'))
        if w.get('/sim/in.pdf') != b.bytes:
            raise Violation('input-changed', f'reading changed the file ({mode})')
        s.close()
    if not errs:
        return
    for mode in plan['modes']:
        if mode in ('loads', 'bytesio', 'contbytes'):
            continue
        failing(plan, st, b, mode, start, want)


def failing(plan, st, b, mode, start, want):
    s, w = start(mode, plan['faults'] if plan['phase'] == 'open' else [])

    def hits():
        return sum(w.hits.values())
    with simio.use(w):
        h = hits()
        try:
            s.add_file('/sim/in.pdf', b, mode)
        except Exception as e:
            if hits() == h:
                raise
            st.hit('opening failed')
        if not s.slots:
            w.script([])
            s.add_file('/sim/in.pdf', b, mode)
        elif plan['phase'] == 'ask':
            w.script(plan['faults'])
        d0 = want[0]
        slot = s.slots[0]
        for q in plan['questions']:
            h = hits()
            key = {'obj': f'object {1 + q["k"] % (len(slot.doc.index[-1]) + 1)}', 'text': f'text {q["k"] % slot.npages}'}.get(q['q'], q['q'])
            try:
                a = ask(s.lib, slot, q)
            except Exception as e:
                if hits() > h:
                    st.hit('answer refused because a read failed')
                    continue
                a = ('EXC', type(e).__name__)
            if key in d0 and a != d0[key]:
                raise Violation('wrong-answer', f'{q} while reads fail ({mode}): {short(d0[key], 300)} / {short(a, 300)}')
        # operations under failing reads: an error, or the right document
        k = 1
        for op in plan['ops']:
            h = hits()
            try:
                n = s.do(op)
            except Exception:
                if hits() > h:
                    st.hit('operation refused because a read failed')
                break
            if n is None:
                continue
            if k < len(want):
                faults, w.faults = w.faults, []
                d = digest(s.lib, w, n)
                w.faults = faults
                if d != want[k]:
                    raise Violation('wrong-document', f'{op["op"]} while reads fail ({mode}): ' + difference(want[k], d))
            k += 1
        st.world(w)
        w.hits = {}
        w.script([])
        d = digest(s.lib, w, slot)
        if d != d0:
            raise Violation('no-recovery', f'document read after failed reads ({mode}): right / now: ' + difference(d0, d))
        t = Sess(s.lib, w)
        t.add_file('/sim/in.pdf', b, mode)
        d = digest(t.lib, w, t.slots[0])
        if d != d0:
            raise Violation('no-recovery', f'new attempt after failed reads ({mode}): right / now: ' + difference(d0, d))
        t.close()
    s.close()
