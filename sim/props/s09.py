"""S09: unrelated documents - working with one gives the same outcome whatever the process handled before or in between."""
import copy
import re

import sut
import simio
import pdfgen
import damage
from core import Violation
from session import Sess, rnd_ops, rnd_question, asked, digest, difference, short, ALL
import cli

PROP = 'S09'
COUNT = {'quick': 1600, 'thorough': 60000}
RULE = 'a run counts when another document was handled in the same process and the first one was operated on or saved'
REAL = ['pdfsyntax: all modules, from the working tree', 'Python buffered file layers']
STUB = ['file system and disk (in memory)', 'process image (package re-imported for the lone run)', 'standard output']
LISTS = ['ops', 'others', 'others.*.ops', 'files.*.revs', 'sched']


TURN = {90: 0, 0: 90, 180: 270, 270: 180}


def alter(f, what):
    """The same structure, numbers and lengths, with other contents, in the ways asked for."""
    def letters(s):
        return ''.join(chr(ord(c) + 1) if c in 'aceikmoqsuwyACEIKMOQSUWY02468' else c for c in s)

    def go(v, key=None):
        t = v[0]
        if t == 'S' and what & 1:
            return ['S', letters(v[1])] + v[2:]
        if t == 'N' and key == 'BaseFont' and what & 2:
            return ['N', letters(v[1])]
        if t == 'I' and key == 'Rotate' and what & 4:
            return ['I', TURN.get(v[1], v[1])]
        if t == 'I' and key in ('Tag', 'Late') and v[1] % 10 < 9:
            return ['I', v[1] + 1]
        if t == 'A':
            return ['A', [['I', x[1] + 1] if what & 8 and key in ('MediaBox', 'CropBox', 'Widths') and x[0] == 'I' and x[1] % 10 < 9 else go(x) for x in v[1]]]
        if t == 'D':
            return ['D', {k: go(x, k) for k, x in v[1].items()}]
        if t == 'ST':
            data = v[2]
            if 'begincmap' in data or 'beginbf' in data:
                data = data if not what & 16 else re.sub(r'<00(6[1-9])>', lambda m: '<00%02X>' % (int(m[1], 16) ^ 1), data).replace('<0020>', '<0021>')
            elif what & 32:
                data = re.sub(r'\([^()\\\\<>]*\)', lambda m: letters(m[0]), data)
            return ['ST', {k: go(x, k) for k, x in v[1].items()}, data] + v[3:]
        return v
    f = copy.deepcopy(f)
    for r in f['revs']:
        r['set'] = {k: go(v) for k, v in r['set'].items()}
    return f


def gen(rng, tier):
    f = pdfgen.rnd_file(rng)
    others = []
    for _ in range(rng.randrange(1, 4)):
        o = {'ops': rnd_ops(rng, rng.randrange(0, 5), ALL), 'damage': [], 'cli': None}
        x = rng.random()
        if x < .25:
            o['file'] = None                      # another copy of the very same file
        elif x < .6:
            o['file'] = None
            o['alter'] = rng.randrange(1, 64)                     # one that looks like it
        else:
            o['file'] = pdfgen.rnd_file(rng)
        if rng.random() < .35:
            o['damage'] = damage.rnd(rng)
        if rng.random() < .4:
            o['cli'] = rng.choice(cli.COMMANDS)
        if o.get('alter'):
            o['damage'] = []
        others.append(o)
    ops = rnd_ops(rng, rng.randrange(1, 6), ALL)
    command = rng.choice(cli.COMMANDS)
    for o in others:
        if rng.random() < .6:                     # the neighbour meets the same operations, in part
            o['ops'] = [copy.deepcopy(x) for x in ops if rng.random() < .7] + o['ops'][:2]
            if o['cli'] and rng.random() < .5:
                o['cli'] = command
    return {'file': f, 'ops': ops, 'cli': command, 'others': others, 'mode': rng.choice(['readfile', 'cont']),
            'sched': [rng.randrange(8) for _ in range(30)]}


def life(lib, w, path, build, ops, cmd, mode, out):
    """The work on one document, as a generator that gives way between operations."""
    s = Sess(lib, w)
    try:
        yield
        try:
            s.add_file(path, build, mode)
        except Exception as e:
            out.append(('open', type(e).__name__))
            return
        for op in ops:
            yield
            try:
                n = s.do(dict(op, path=path[5:-4] + '-out.pdf') if op['op'] == 'save' else op)
                out.append((op['op'], n is not None))
            except Exception as e:
                out.append((op['op'], type(e).__name__))
        if cmd:
            yield
            out.append(('cli ' + cmd, cli.run(lib, w, [cmd, path])))
        for i, x in enumerate(s.slots):
            yield
            try:
                out.append((f'document {i}', digest(lib, w, x)))
            except Exception as e:
                out.append((f'document {i}', type(e).__name__))
    finally:
        s.close()


def execute(plan, st):
    b = pdfgen.build(plan['file'])

    def world():
        w = simio.World()
        w.put('/sim/x.pdf', b.bytes)
        return w

    alone = []
    w = world()
    with simio.use(w):
        for _ in life(sut.fresh(), w, '/sim/x.pdf', b, plan['ops'], plan['cli'], plan['mode'], alone):
            pass
    got = []
    w = world()
    lib = sut.fresh()
    acts = [life(lib, w, '/sim/x.pdf', b, plan['ops'], plan['cli'], plan['mode'], got)]
    for i, o in enumerate(plan['others']):
        ob = pdfgen.build(o['file']) if o['file'] else pdfgen.build(alter(plan['file'], o['alter'])) if o.get('alter') else b
        w.put(f'/sim/y{i}.pdf', damage.apply(ob.bytes, o['damage']) if o['damage'] else ob.bytes)
        if o['damage']:
            st.hit('fault damaged neighbour')
        acts.append(life(lib, w, f'/sim/y{i}.pdf', ob, o['ops'], o['cli'], 'readfile', []))
    live = list(range(len(acts)))
    k = 0
    with simio.use(w):
        while live:
            sched = plan['sched']
            i = live[(sched[k % len(sched)] if sched else 0) % len(live)]
            k += 1
            try:
                next(acts[i])
            except StopIteration:
                live.remove(i)
            except sut.Budget:
                if i == 0:
                    raise
                sut.METER.steps = 0
                live.remove(i)
    st.hit('process switches between documents', k)
    st.mark(tuple(o['op'] for o in plan['ops']), tuple(plan['sched'][:k]))
    st.nontrivial = len(plan['others']) > 0
    for (n, a), (_, c) in zip(alone, got):
        st.log(n, sorted(c.items(), key=repr) if isinstance(c, dict) else c)
        if a != c:
            d = difference(a, c) if isinstance(a, dict) and isinstance(c, dict) else f'{short(a, 400)} / {short(c, 400)}'
            raise Violation('neighbour-influence', f'{n}: alone / with other documents: {d}')
    if len(alone) != len(got):
        raise Violation('neighbour-influence', f'{len(alone)} results alone, {len(got)} with other documents')
