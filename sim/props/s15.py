"""S15: inspection commands - true, read-only, and loud when input or output fails."""
import errno
import sut
import simio
import pdfgen
import cli
import truth
from core import Violation, where

PROP = 'S15'
COUNT = {'quick': 3000, 'thorough': 150000}
RULE = 'a run counts when a command was disturbed by at least one read or write fault'
REAL = ['pdfsyntax: all modules, from the working tree, called through pdfsyntax.cli.main', 'Python buffered file layers and text output']
STUB = ['raw file calls, file system and disk (in memory)', 'standard output and its reader', 'process image (package re-imported)']
LISTS = ['faults', 'commands', 'file.revs']
MEASURE = 'hash of the layout, command and faults delivered'


def gen(rng, tier):
    f = pdfgen.rnd_file(rng, broken=False)
    if rng.random() < .25:
        pdfgen.grow(rng, f)
    f['encrypt'] = rng.random() < .06
    commands = rng.sample(cli.COMMANDS, rng.randrange(1, 4))
    if 'browse' not in commands and f['layout'] in ('table', 'stream') and not f.get('lowenv') and rng.random() < .5:
        nums = sorted(int(n) for n in f['revs'][0]['set'])
        # objects the index does not know, and entries that lead elsewhere (which nothing refers to)
        f['stray'] = {'direct': rng.sample(nums, rng.randrange(0, 3)), 'packed': rng.choice([None, 3000000, 3000001]),
                      'wrong': [rng.choice([None] + nums) for _ in range(rng.randrange(0, 3) if len(f['revs']) == 1 else 0)]}
    out = rng.choice(['buffered', 'buffered', 'buffered', 'unbuffered'])
    faults = []
    for _ in range(rng.randrange(1, 5)):
        k = rng.randrange(9)
        n = rng.choice([0, 0, 1, 1, 2, 3, 5, 9])
        if k < 2:
            faults.append({'at': 'read', 'n': n, 'do': 'short', 'arg': rng.choice([1, 7, 33, 500]), 'from': rng.random() < .5})
        elif k == 2:
            faults.append({'at': rng.choice(['read', 'write']), 'n': n, 'do': 'eintr'})
        elif k == 3:
            faults.append({'at': rng.choice(['read', 'read', 'seek', 'open']), 'n': rng.choice([0, 0, 1]), 'do': 'err', 'arg': rng.choice([errno.EIO, errno.ESTALE])})
        elif k < 6:
            if out == 'buffered':
                faults.append({'at': 'write', 'n': n, 'do': 'short', 'arg': rng.choice([1, 10, 100, 3000]), 'from': rng.random() < .5})
        elif k < 8:
            faults.append({'at': 'write', 'n': n, 'do': 'err', 'arg': rng.choice([errno.ENOSPC, errno.EPIPE, errno.EIO]), 'from': rng.random() < .6})
        elif out == 'buffered':
            faults.append({'at': 'write', 'n': n, 'do': 'none', 'from': rng.random() < .3})
    return {'file': f, 'commands': commands, 'faults': faults, 'stdout': out,
            'bufsize': rng.choice([8192, 8192, 64, 700])}


def execute(plan, st):
    b = pdfgen.build(plan['file'])
    t = truth.Truth(b)
    disturbed = 0
    for c in plan['commands']:
        w = simio.World()
        w.bufsize = plan['bufsize']
        w.put('/sim/in.pdf', b.bytes)

        def run(out):
            r = cli.run(sut.fresh(), w, [c, '/sim/in.pdf'], out)
            if sorted(w.files) != ['/sim/in.pdf'] or w.get('/sim/in.pdf') != b.bytes:
                raise Violation('file-changed', f'{c} left {sorted(w.files)}, {len(w.get("/sim/in.pdf") or b"")} bytes')
            return r
        with simio.use(w):
            cli.run.error = None
            status, clean = run('buffered')
            if status:
                raise Violation('refused', f'{c} of an intact file ended with status {status}: {cli.run.error!r} {where(cli.run.error) if cli.run.error else ""}')
            try:
                text = clean.decode('utf-8')
                truth.CHECK[c](t, text)
            except truth.Wrong as e:
                raise Violation('untrue', f'{c}: {e}')
            w.script(plan['faults'])
            status, out = run(plan['stdout'])
            st.world(w)
            st.mark(plan['file']['layout'], c, sorted(w.hits.items()))
            st.log(c, status, out)
            hard = {k: v for k, v in w.hits.items() if not k.endswith((':short', ':eintr'))}
            disturbed += bool(w.hits)
            if status == 0 and out != clean:
                raise Violation('incomplete-success', f'{c} ended as a success with {len(out)} of {len(clean)} bytes; faults {w.hits}')
            if status == 0 and any(not k.endswith(':none') for k in hard):
                raise Violation('silent-failure', f'{c} ended as a success although {hard}')
            if status and not hard:
                raise Violation('needless-failure', f'{c} ended with {status} although everything could be read and written: {cli.run.error!r} {where(cli.run.error) if cli.run.error else ""} {w.hits}')
            if not clean.startswith(out):
                raise Violation('untrue', f'{c} under faults {w.hits}: output is not the beginning of the true output')
            st.hit(f'{c} ended {"as a success" if status == 0 else "in failure"}')
            w.script([])
            status, out = run('buffered')
            if status or out != clean:
                raise Violation('not-repeatable', f'{c} run again: status {status}, {len(out)} bytes instead of {len(clean)}')
    st.nontrivial = disturbed > 0
