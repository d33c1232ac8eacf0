"""S01: a save that reports success has delivered every byte, however the writes behave."""
import errno
import sut
import simio
import cli
import pdfgen
from core import Violation
from session import Sess, rnd_ops, digest, difference, short, ALL, EDIT

PROP = 'S01'
COUNT = {'quick': 2600, 'thorough': 90000}
RULE = 'a run counts when at least one write, flush or close was split, interrupted or failed'
REAL = ['pdfsyntax: all modules, from the working tree, command line included', 'Python buffered writers and text layer']
STUB = ['raw file calls, file system, disk capacity and standard output (in memory)', 'process image (package re-imported)']
LISTS = ['ops', 'faults', 'file.revs']
MEASURE = 'hash of destination, operations and the write faults that were delivered'
ERR = [errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EFBIG, errno.EPIPE]


def gen(rng, tier):
    f = pdfgen.rnd_file(rng) if rng.random() < .9 else None
    if f and rng.random() < .5:
        pdfgen.grow(rng, f)
    dest = rng.choice(['new', 'old', 'long', 'same', 'stdout', 'stdout', 'unbuffered', 'unbuffered', 'cli', 'cli-stdout', 'cli-unbuffered'])
    if f is None and (dest.startswith('cli') or dest == 'same'):
        dest = 'new'
    faults = []
    for _ in range(rng.randrange(1, 4)):
        k = rng.randrange(8)
        n = rng.choice([0, 0, 0, 1, 1, 2, 3, 5])
        if k < 3:
            faults.append({'at': 'write', 'n': n, 'do': 'short', 'arg': rng.choice([1, 2, 10, 100, 1000, 5000]), 'from': rng.random() < .4})
        elif k == 3:
            faults.append({'at': 'write', 'n': n, 'do': 'eintr'})
        elif k == 4:
            faults.append({'at': 'write', 'n': n, 'do': 'err', 'arg': rng.choice(ERR), 'from': rng.random() < .5})
        elif k == 5:
            faults.append({'at': rng.choice(['close', 'close', 'open', 'fsync']), 'n': rng.randrange(2), 'do': 'err', 'arg': rng.choice(ERR)})
        elif k == 6:
            faults.append({'at': 'write', 'n': n, 'do': 'none', 'from': rng.random() < .3})
        else:
            faults.append({'at': 'disk', 'arg': rng.randrange(0, 20000)})
    for x in faults:
        if x['at'] in ('open', 'close'):
            x['path'] = 'out.pdf'
    return {'file': f, 'ops': rnd_ops(rng, rng.choice([0, 0, 1, 2, 4]), ALL), 'dest': dest, 'faults': faults,
            'bufsize': rng.choice([8192, 8192, 8192, 64, 700, 100000]), 'mode': rng.choice(['readfile', 'readfile', 'cont', 'loads'])}


def prepare(plan, b):
    s = Sess(sut.fresh(), simio.World())
    s.w.bufsize = plan['bufsize']
    with simio.use(s.w):
        if b is None:
            s.do({'op': 'blank'})
        else:
            s.w.put('/sim/in.pdf', b.bytes)
            s.add_file('/sim/in.pdf', b, plan['mode'])
        for op in plan['ops']:
            try:
                s.do(op)
            except Exception as e:
                pass
    return s


def deliver(s, plan, dest, path):
    """(True when a success is reported, bytes at the destination, error)"""
    lib, w = s.lib, s.w
    slot = s.slots[-1]
    if dest in ('stdout', 'unbuffered'):
        out = simio.stdio(w, 'buffered' if dest == 'stdout' else 'unbuffered')
        err = None
        try:
            with out:
                lib.writefile(slot.doc)
        except Exception as e:
            err = e
        data = out.data()
        out.discard()
        return err is None, data, err
    if dest.startswith('cli'):
        argv = ['compress', '/sim/in.pdf'] + (['-o', path] if dest == 'cli' else [])
        status, data = cli.run(lib, w, argv, 'unbuffered' if dest == 'cli-unbuffered' else 'buffered')
        if dest == 'cli':
            if data.strip():
                raise Violation('stray-output', f'compress -o also wrote to standard output: {data[:80]!r}')
            data = w.get(path)
        return status == 0, data, f'exit status {status} {cli.run.error}'
    try:
        lib.writefile(slot.doc, path)
        err = None
    except Exception as e:
        err = e
    return err is None, w.get(path), err


def execute(plan, st):
    b = pdfgen.build(plan['file']) if plan['file'] else None
    dest = plan['dest']
    path = '/sim/in.pdf' if dest == 'same' else '/sim/out.pdf'
    ref = prepare(plan, b)
    with simio.use(ref.w):
        want = digest(ref.lib, ref.w, ref.slots[-1])
        ok, expected, err = deliver(ref, plan, dest, path)
    if not ok:
        if dest.startswith('cli') or plan['file'] is None:
            raise Violation('save-refused', f'undisturbed save to {dest}: {err}')
        st.nontrivial = False      # documents that cannot be saved at all are judged elsewhere
        return
    if not dest.startswith('cli') and expected != want['saved bytes']:
        raise Violation('bytes-differ', f'undisturbed save to {dest}: {len(expected or b"")} bytes, to a file {len(want["saved bytes"])}')
    ref.close()
    s = prepare(plan, b)
    w = s.w
    if dest == 'old':
        w.put(path, b'%PDF-1.4 something shorter')
    elif dest == 'long':
        w.put(path, b'x' * (len(expected) + 3000))
    live0 = set(w.live)
    with simio.use(w):
        faults = [dict(f, path='in.pdf') if dest == 'same' and f.get('path') == 'out.pdf' else f for f in plan['faults']]
        w.script([dict(f, arg=f['arg'] + sum(len(n['data']) for n in w.files.values())) if f['at'] == 'disk' and dest != 'same' else f
                  for f in faults])
        ok, data, err = deliver(s, plan, dest, path)
        st.world(w)
        st.mark(dest, plan['mode'], [o['op'] for o in plan['ops']], sorted(w.hits.items()))
        st.log(dest, ok, data, sorted(w.hits.items()))
        hard = [k for k in w.hits if not k.endswith(':short') and not k.endswith(':eintr')]
        st.nontrivial = bool(w.hits)
        if ok:
            st.hit('success reported')
            if data != expected:
                raise Violation('success-without-bytes', f'save to {dest} reported success with {describe(data, expected)}; faults {w.hits}')
        else:
            st.hit('failure reported')
            if not hard:
                raise Violation('needless-failure', f'save to {dest} failed although every write could be completed: {err}; faults {w.hits}')
        left = [x.path for k, x in w.live.items() if k not in live0]
        if left:
            raise Violation('left-open', f'{left} still open after the save to {dest} {"succeeded" if ok else "failed"}')
        err = None
        w.script([])
        if dest == 'same' and not ok:
            return                # the source itself is incomplete now: nothing to repeat from
        if dest.startswith('cli') is False and plan['mode'] == 'cont' and dest == 'same':
            return
        ok, data, err = deliver(s, plan, dest, path)
        if not ok or data != expected:
            raise Violation('repeat-differs', f'save to {dest} repeated without faults: {err}; {describe(data, expected)}')
        d = digest(s.lib, w, s.slots[-1])
        if d != want:
            raise Violation('document-changed', 'after a disturbed save: before / after: ' + difference(want, d))
    s.close()


def describe(data, expected):
    if data is None:
        return 'no file'
    k = next((i for i, (x, y) in enumerate(zip(data, expected)) if x != y), min(len(data), len(expected)))
    return f'{len(data)} bytes instead of {len(expected)}, equal up to {k}'
