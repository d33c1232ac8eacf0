"""S08: threads sharing documents - every interleaving of source lines gives what each thread gets alone."""
import sut
import simio
import sched
import pdfgen
from core import Violation
from session import Sess, rnd_ops, rnd_op, rnd_question, asked, digest, difference, short, ALL

PROP = 'S08'
COUNT = {'quick': 1800, 'thorough': 40000}
RULE = 'a run counts when at least two threads worked on a shared document and were switched inside library code at least four times'
REAL = ['pdfsyntax: all modules, from the working tree', 'operating system threads (one runs at a time)', 'Python buffered file layers']
STUB = ['thread scheduler (hand-over at executed source lines of the package and of the standard copy module)',
        'threading locks made by the package', 'file system and disk (in memory)']
LISTS = ['ops', 'threads', 'threads.*', 'files.*.revs', 'quanta']
MEASURE = 'hash of the sequence of thread hand-overs with the source lines where they happened'
LIMIT = 6_000_000


def gen(rng, tier):
    files = [pdfgen.rnd_file(rng, npages=rng.choice([1, 2, 3])) for _ in range(rng.choice([1, 1, 2]))]
    ops = rnd_ops(rng, rng.randrange(0, 4), ALL)
    threads = []
    for _ in range(rng.choice([2, 2, 3])):
        steps = []
        for _ in range(rng.randrange(1, 4)):
            if rng.random() < .5:
                steps.append({**rnd_question(rng), 'op': 'ask', 's': rng.choice([0, 0, -1, rng.randrange(64)])})
            else:
                o = rnd_op(rng, ALL, last=.5)
                if o['s'] >= 0 and rng.random() < .5:
                    o['s'] = 0
                steps.append(o)
        threads.append(steps)
    scale = rng.choice([1, 3, 10, 40, 200])
    return {'files': files, 'modes': [rng.choice(['readfile', 'cont', 'cont', 'cont0']) for _ in files], 'ops': ops, 'threads': threads,
            'quanta': [1 + int(rng.expovariate(1 / scale)) for _ in range(40)], 'picks': [rng.randrange(6) for _ in range(41)]}


def view(s):
    v = Sess(s.lib, s.w)
    v.slots = list(s.slots)
    v.files = {}
    return v


def job(v, steps, tid, out):
    for k, x in enumerate(steps):
        if x['op'] == 'ask':
            slot = v.slots[x['s'] % len(v.slots)]
            out.append((x['q'], asked(v.lib, slot, x)))
        else:
            op = dict(x, path=f't{tid}-{k}.pdf') if x['op'] == 'save' else x
            try:
                n = v.do(op)
                out.append((x['op'], n is not None))
                if n is not None and x['op'] == 'save':
                    out.append(('saved', v.w.get('/sim/' + op['path'])))
            except Exception as e:
                out.append((x['op'], type(e).__name__))


def execute(plan, st):
    builds = [pdfgen.build(f) for f in plan['files']]
    with sched.patched():
        run(plan, st, builds)


def run(plan, st, builds):
    ref = base_in(plan, builds)
    n0 = len(ref.slots)
    with simio.use(ref.w):
        docs = [digest(ref.lib, ref.w, x) for x in ref.slots]
    ref.close()
    alone = []
    for i, steps in enumerate(plan['threads']):
        s = base_in(plan, builds)
        v, out = view(s), []
        with simio.use(s.w):
            job(v, steps, i, out)
            alone.append((out, [digest(s.lib, s.w, x) for x in v.slots[n0:]]))
        s.close()
    s = base_in(plan, builds)
    views = [view(s) for _ in plan['threads']]
    outs = [[] for _ in plan['threads']]
    sc = sched.Sched(plan['quanta'], plan['picks'])
    before = sut.METER.limit
    with simio.use(s.w):
        sut.METER.reset(before, sc.line, 'line')
        sut.METER.set_extra(True)
        try:
            sc.run([lambda i=i: job(views[i], plan['threads'][i], i, outs[i]) for i in range(len(views))])
        except sched.Deadlock as e:
            raise Violation('deadlock', f'{e}; hand-overs {sc.trace[-8:]}')
        finally:
            sut.METER.set_extra(False)
            sut.METER.reset(before)
        st.hit('thread hand-overs', sc.switches)
        st.mark(sc.trace)
        st.nontrivial = sc.switches >= 4 and len(views) > 1
        for i, (out, made) in enumerate(alone):
            st.log(i, out)
            for k, (a, b) in enumerate(zip(out, outs[i])):
                st.hit('thread step ' + a[0])
                if a != b:
                    raise Violation('thread-result', f'thread {i} step {k} {a[0]}: alone {short(a[1], 300)} / threaded {short(b[1], 300)}; '
                                    f'hand-overs {sc.trace[-6:]}')
            got = [digest(s.lib, s.w, x) for x in views[i].slots[n0:]]
            for k, (a, b) in enumerate(zip(made, got)):
                if a != b:
                    raise Violation('thread-document', f'document {k} made by thread {i}: alone / threaded: ' + difference(a, b))
            if len(made) != len(got):
                raise Violation('thread-document', f'thread {i} made {len(got)} documents, alone {len(made)}')
        for i, x in enumerate(s.slots):
            d = digest(s.lib, s.w, x)
            if d != docs[i]:
                raise Violation('shared-document-changed', f'shared document {i}: before / after: ' + difference(docs[i], d))
    s.close()


def base_in(plan, builds):
    w = simio.World()
    with simio.use(w):
        s = Sess(sut.fresh(), w)
        for i, b in enumerate(builds):
            w.put(f'/sim/in{i}.pdf', b.bytes)
        for i, b in enumerate(builds):
            s.add_file(f'/sim/in{i}.pdf', b, plan['modes'][i])
        for op in plan['ops']:
            try:
                s.do(op)
            except Exception:
                pass
    return s
