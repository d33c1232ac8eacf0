"""S07: reading order - the same operations with different reads around them give the same documents."""
import random
import sut
import simio
import pdfgen
from core import Violation
from session import Sess, rnd_ops, rnd_question, asked, ask, digest, difference, short, plain, ONCE, ALL

PROP = 'S07'
COUNT = {'quick': 1600, 'thorough': 60000}
RULE = 'a run counts when at least three reads were placed between or before operations and at least one document was compared'
REAL = ['pdfsyntax: all modules, from the working tree', 'Python buffered file layers']
STUB = ['file system and disk (in memory)', 'process image (package re-imported for every variant)']
LISTS = ['ops', 'files.*.revs', 'reads']


def gen(rng, tier):
    nf = rng.choice([1, 1, 1, 2])
    files = [pdfgen.rnd_file(rng) for _ in range(nf)]
    n = rng.randrange(0, 7 if tier == 'quick' else 12)
    ops = rnd_ops(rng, n, ALL, last=rng.choice([.5, .8, .95]))
    reads = []
    for _ in range(rng.randrange(3, 14)):
        q = rnd_question(rng)
        q['at'] = rng.randrange(0, n + 1)
        q['s'] = rng.randrange(64)
        reads.append(q)
    return {'files': files, 'modes': [rng.choice(['readfile', 'loads', 'cont']) for _ in files], 'ops': ops,
            'reads': reads, 'order': rng.randrange(1 << 30)}


def run(plan, builds, reads, st=None):
    lib = sut.fresh()
    w = simio.World()
    for i, b in enumerate(builds):
        w.put(f'/sim/in{i}.pdf', b.bytes)
    s = Sess(lib, w)
    answers = []
    outcomes = []

    def read(at):
        for q in reads:
            if q['at'] % (len(plan['ops']) + 1) == at and s.slots:
                i = q['s'] % len(s.slots)
                answers.append((i, q, asked(lib, s.slots[i], q)))
                if st:
                    st.hit('read ' + q['q'])
    with simio.use(w):
        for i, b in enumerate(builds):
            s.add_file(f'/sim/in{i}.pdf', b, plan['modes'][i])
        read(0)
        for k, op in enumerate(plan['ops']):
            try:
                n = s.do(op)
                outcomes.append(None if n is None else 'ok')
            except Exception as e:
                outcomes.append(type(e).__name__)
            read(k + 1)
    return s, answers, outcomes


def answers_of(s, i, order):
    """Everything document i answers, asked in a shuffled order, saved at a random moment."""
    lib, slot = s.lib, s.slots[i]
    r = random.Random(order * 100 + i)
    refs = lib.in_use(slot.doc)
    todo = [('obj', int(x.imag), x) for x in refs] + [('once', t, t) for t in ONCE] + [('save', 0, 0)]
    todo += [('text', p, p) for p in range(slot.npages)]
    r.shuffle(todo)
    res = {}
    for kind, k, x in todo:
        if kind == 'obj':
            res[f'object {k}'] = plain(slot.doc.get_object(x))
        elif kind == 'once':
            res[k] = asked(lib, slot, {'q': k, 'k': 0})
        elif kind == 'text':
            res[f'text {k}'] = asked(lib, slot, {'q': 'text', 'k': k})
        else:
            try:
                lib.writefile(slot.doc, '/sim/.digest')
                res['saved bytes'] = s.w.get('/sim/.digest')
            except Exception as e:
                res['saved bytes'] = ('EXC', type(e).__name__, str(e)[:80])
            s.w.files.pop('/sim/.digest', None)
    res['updates'] = lib.updates(slot.doc)
    return res


def execute(plan, st):
    builds = [pdfgen.build(f) for f in plan['files']]
    base, _, out0 = run(plan, builds, [])
    with simio.use(base.w):
        # documents never read before: the newest first, so that older ones are not read through newer ones
        want = {i: digest(base.lib, base.w, x) for i, x in reversed(list(enumerate(base.slots)))}
    s, answers, out1 = run(plan, builds, plan['reads'], st)
    for o, a, b in zip(plan['ops'], out0, out1):
        st.hit('op ' + o['op'] + ('' if a == 'ok' else ' not applied' if a is None else ' refused'))
        st.mark(o['op'], a)
        if a != b:
            raise Violation('outcome-depends-on-reads', f'{o["op"]}: {a} without reads, {b} with reads')
    st.nontrivial = len(answers) >= 3
    with simio.use(s.w):
        got = {i: answers_of(s, i, plan['order']) for i in range(len(s.slots))}
    for i in want:
        st.log(i, sorted(got[i].items(), key=repr))
        if want[i] != got[i]:
            raise Violation('document-depends-on-reads', f'document {i} made by {how(base.slots[i])}: without reads / with reads: '
                            + difference(want[i], got[i]))
    # the answers given on the way, against a process in which only that question was asked
    third, _, _ = run(plan, builds, [])
    with simio.use(third.w):
        for i, q, a in answers[:3]:
            b = asked(third.lib, third.slots[i], q)
            if a != b:
                raise Violation('answer-depends-on-reads', f'{q} of document {i} made by {how(base.slots[i])}: '
                                f'{short(a)} / asked first {short(b)}')
    for x in (base, s, third):
        x.close()


def how(slot):
    return slot.how[0]['op'] if slot.how[0] != 'file' else 'opening'
