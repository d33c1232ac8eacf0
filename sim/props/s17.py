"""S17: the same steps give the same bytes and answers in every process."""
import sut
import simio
import pdfgen
import cli
import twin
from core import Violation
from session import Sess, rnd_ops, digest, ALL

PROP = 'S17'
COUNT = {'quick': 1400, 'thorough': 60000}
RULE = 'a run counts when a twin process in other circumstances carried out the same steps and at least one document was saved or listed'
REAL = ['pdfsyntax: all modules, from the working tree', 'Python interpreters with other hash seeds, options, locales and working directories']
STUB = ['file system, disk and standard output (in memory)', 'clock, time zone, random numbers, process number and environment of every twin']
LISTS = ['ops', 'commands', 'files', 'files.*.revs', 'twins']
MEASURE = 'hash of the layouts, operations, commands and twins'


def gen(rng, tier):
    return {'files': [pdfgen.rnd_file(rng) for _ in range(rng.choice([0, 1, 1, 1, 2]))], 'blank': rng.random() < .2,
            'ops': rnd_ops(rng, rng.randrange(1, 9 if tier == 'quick' else 20), ALL),
            'commands': rng.sample(cli.COMMANDS + ['compress'], rng.randrange(0, 3)),
            'mode': rng.choice(['readfile', 'cont', 'loads']), 'twins': rng.sample(range(len(twin.TWINS)), rng.choice([1, 1, 2]))}


def life(plan):
    """All observable results of the plan in this process: [(label, value)]."""
    res = []
    w = simio.World()
    with simio.use(w):
        s = Sess(sut.fresh(), w)
        if plan['blank'] or not plan['files']:
            s.do({'op': 'blank'})
        for i, f in enumerate(plan['files']):
            b = pdfgen.build(f)
            w.put(f'/sim/f{i}.pdf', b.bytes)
            s.add_file(f'/sim/f{i}.pdf', b, plan['mode'])
        for i, op in enumerate(plan['ops']):
            try:
                n = s.do(op)
                res.append((f'operation {i} {op["op"]}', n is not None))
            except Exception as e:
                res.append((f'operation {i} {op["op"]}', type(e).__name__))
        for i, x in enumerate(s.slots):
            try:
                for k, v in digest(s.lib, w, x).items():
                    res.append((f'document {i} {k}', v))
            except Exception as e:
                res.append((f'document {i}', type(e).__name__))
        for c in plan['commands']:
            for i in range(len(plan['files'])):
                res.append((f'command {c} of file {i}', cli.run(s.lib, w, [c, f'/sim/f{i}.pdf'])))
        for p in sorted(w.files):
            res.append((f'file {p}', w.get(p)))
        s.close()
    return res


def execute(plan, st):
    mine = twin.sealed(life(plan))
    again = twin.sealed(life(plan))
    st.log(mine)
    st.mark([f['layout'] for f in plan['files']], [o['op'] for o in plan['ops']], plan['commands'], plan['twins'])
    for name, other in [('the same process', again)] + [(f'twin {k}', None) for k in plan['twins']]:
        if other is None:
            k = int(name[5:])
            other = twin.ask(k, PROP, plan)
            st.hit('fault other circumstances: ' + ' '.join(['hash seed ' + twin.TWINS[k]['hash']] + twin.TWINS[k]['flags']))
        for a, b in zip(mine, other):
            if a != b:
                raise Violation('differs', f'{a[0]}: here {a[2]} / in {name} {b[0] if b[0] != a[0] else ""} {b[2]}')
        if len(mine) != len(other):
            raise Violation('differs', f'{len(mine)} results here, {len(other)} in {name}')
    st.nontrivial = any('saved bytes' in x[0] or x[0].startswith('command') for x in mine) and bool(plan['twins'])
