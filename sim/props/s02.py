"""S02: a save that fails while its contents are being prepared leaves the existing file as it was."""
import errno
import io
import sys
import types
import sut
import simio
import cli
import pdfgen
from core import Violation
from session import Sess, rnd_ops, digest, difference, short, ALL

PROP = 'S02'
COUNT = {'quick': 2000, 'thorough': 70000}
RULE = 'a run counts when a read, allocation or line was made to fail during a save over an existing file, or the file was saved over itself'
REAL = ['pdfsyntax: all modules, from the working tree, command line included', 'Python buffered file layers']
STUB = ['raw file calls, file system and disk (in memory)', 'signal delivery and memory allocator (exceptions at chosen lines)',
        'process image (package re-imported)']
LISTS = ['ops', 'file.revs']
MEASURE = 'hash of destination, operations, fault and place of the fault'


def gen(rng, tier):
    f = pdfgen.rnd_file(rng)
    if rng.random() < .3:
        pdfgen.grow(rng, f)
    kind = rng.choice(['read', 'read', 'read', 'line', 'line', 'line', 'refused', 'none', 'open'])
    via = rng.choice(['api', 'api', 'api', 'cli'])
    mode = rng.choice(['cont', 'cont0']) if kind == 'read' and via == 'api' else rng.choice(['readfile', 'readfile', 'cont', 'loads'])
    return {'file': f, 'ops': rnd_ops(rng, rng.choice([0, 1, 2, 2, 4]), ALL), 'same': rng.random() < .5, 'kind': kind, 'via': via,
            'mode': mode, 'at': rng.random(), 'exc': rng.choice(['int', 'mem']), 'errno': rng.choice([errno.EIO, errno.ENOMEM, errno.ESTALE]),
            'bufsize': rng.choice([8192, 8192, 256]), 'commit': rng.random() < .3}


def pieces(frame, limit=4000):
    """Every byte string the interrupted code holds, directly or in containers, closures and documents."""
    out, todo, seen = [], [], set()
    while frame is not None:
        todo += [(v, 0) for v in frame.f_locals.values()]
        frame = frame.f_back
        if frame is not None and not frame.f_code.co_filename.startswith(sut.REPO):
            break
    while todo and len(seen) < limit:
        v, d = todo.pop()
        if id(v) in seen or d > 5:
            continue
        seen.add(id(v))
        if isinstance(v, (bytes, bytearray)):
            out.append(bytes(v))
        elif isinstance(v, memoryview):
            out.append(bytes(v))
        elif isinstance(v, io.BytesIO):
            out.append(v.getvalue())
        elif isinstance(v, (list, tuple)):
            if v and all(isinstance(x, (bytes, bytearray, memoryview)) for x in v):
                out.append(b''.join(v))
            todo += [(x, d + 1) for x in list(v)[:200]]
        elif isinstance(v, dict):
            todo += [(x, d + 1) for x in list(v.values())[:200]]
        elif isinstance(v, types.FunctionType):
            todo += [(c.cell_contents, d + 1) for c in v.__closure__ or () if has(c)]
        elif isinstance(v, types.GeneratorType) and v.gi_frame:
            todo += [(x, d + 1) for x in v.gi_frame.f_locals.values()]
    return out


def has(cell):
    try:
        cell.cell_contents
        return True
    except ValueError:
        return False


def at_hand(frame, parts):
    ps = pieces(frame)
    return all(any(x in p for p in ps) for x in parts)


class Cut:
    def __init__(self, n, exc, w, path, parts):
        self.n, self.exc, self.w, self.path, self.parts = n, exc, w, path, parts
        self.seen = 0
        self.fired = None
        self.begun = False
        self.ready = True

    def __call__(self, code, line):
        self.seen += 1
        if self.seen == self.n and self.fired is None:
            self.fired = (code.co_filename.rsplit('/', 1)[-1], code.co_name, line)
            self.begun = self.w.mutations.get(self.path, 0) > 0
            if self.begun and self.parts:
                self.ready = at_hand(sys._getframe(2), self.parts)
            raise self.exc


class Unwritable:
    """Something no PDF can hold."""

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        raise TypeError('unwritable')

    __str__ = __repr__


def prepare(plan, b):
    s = Sess(sut.fresh(), simio.World())
    s.w.bufsize = plan['bufsize']
    s.w.put('/sim/in.pdf', b.bytes)
    with simio.use(s.w):
        s.add_file('/sim/in.pdf', b, plan['mode'])
        for op in plan['ops'] + ([{'op': 'commit', 's': -1}] if plan['commit'] else []):
            try:
                s.do(op)
            except Exception:
                pass
        if plan['kind'] == 'refused' and plan['via'] == 'api':
            d, _ = s.lib.add_object(s.slots[-1].doc, {'/Bad': Unwritable()})
            s.slots.append(s.slots[-1].derive(d))
    return s


def save(s, plan, path):
    if plan['via'] == 'cli':
        status, data = cli.run(s.lib, s.w, ['compress', '/sim/in.pdf', '-o', path])
        return status == 0
    s.lib.writefile(s.slots[-1].doc, path)
    return True


def execute(plan, st):
    b = pdfgen.build(plan['file'])
    path = '/sim/in.pdf' if plan['same'] else '/sim/out.pdf'
    old = b.bytes if plan['same'] else b'%PDF-1.4 the previous contents ' + b'y' * 500
    # undisturbed: what the save would write, how many reads and lines it takes
    ref = prepare(plan, b)
    w = ref.w
    want = None
    w.put(path, old)
    w.script([])
    w.mutations = {}
    with simio.use(w):
        count = Cut(-1, None, w, path, None)
        sut.METER.reset(None, count, 'line')
        try:
            if save(ref, plan, path):
                want = w.get(path)
        except Exception as e:
            st.hit('refused ' + type(e).__name__)
            if w.get(path) != old:
                raise Violation('old-file-damaged', f'a refused save ({e!r}) changed the existing file: '
                                f'{len(w.get(path))} bytes instead of {len(old)}')
        finally:
            sut.METER.reset(30_000_000)
        reads, lines = w.counts.get('read', 0), count.seen
        if want is None and w.get(path) != old:
            raise Violation('old-file-damaged', 'a refused command changed the existing file')
        if want is not None and plan['same'] and plan['via'] == 'api':
            slot = ref.slots[-1]
            if slot.filerevs and not want.startswith(b.bytes[:b.cuts[slot.filerevs - 1]]):
                raise Violation('original-lost', 'saved over itself, the file no longer starts with its original bytes')
            if plan['mode'] == 'cont':
                st.nontrivial = True
    ref.close()
    if plan['kind'] in ('none', 'refused') or want is None:
        # saving over the source must give what saving elsewhere gives
        if want is not None:
            t = prepare(plan, b)
            with simio.use(t.w):
                save(t, plan, '/sim/elsewhere.pdf')
                if t.w.get('/sim/elsewhere.pdf') != want:
                    raise Violation('destination-matters', f'saved over an existing file: {len(want)} bytes, to a new one: '
                                    f'{len(t.w.get("/sim/elsewhere.pdf") or b"")}')
            t.close()
        st.hit('target ' + plan['kind'])
        st.mark(plan['kind'], plan['via'], plan['same'], [o['op'] for o in plan['ops']])
        st.log(want)
        return
    s = prepare(plan, b)
    w = s.w
    w.put(path, old)
    w.mutations = {}
    # 'cont' files stay open: the fault hits the reads of the save, not those of the opening
    w.script([])
    with simio.use(w):
        if plan['kind'] == 'read':
            w.script([{'at': 'read', 'n': int(plan['at'] * max(1, reads)), 'do': 'err', 'arg': plan['errno']}])
            cut = None
        elif plan['kind'] == 'open':
            w.script([{'at': 'open', 'n': 0, 'do': 'err', 'arg': errno.EACCES, 'path': path}])
            cut = None
        else:
            exc = KeyboardInterrupt('simulated') if plan['exc'] == 'int' else MemoryError('simulated')
            cut = Cut(1 + int(plan['at'] * lines), exc, w, path, parts_of(want, b))
            sut.METER.reset(None, cut, 'line')
        try:
            ok = save(s, plan, path)
            err = None
        except (Exception, KeyboardInterrupt) as e:
            ok, err = False, e
        finally:
            sut.METER.reset(30_000_000)
        err = repr(err)
        st.world(w)
        now = w.get(path)
        st.log(ok, now, err)
        if cut is not None and cut.fired:
            st.hit('fault ' + ('interrupt' if plan['exc'] == 'int' else 'failed allocation'))
        st.mark(plan['kind'], plan['via'], plan['same'], plan['mode'], cut and cut.fired, sorted(w.hits.items()))
        st.nontrivial = bool(w.hits) or bool(cut and cut.fired)
        if ok:
            if now != want:
                raise Violation('success-without-bytes', f'the save reported success with {len(now)} bytes instead of {len(want)}')
        elif plan['kind'] in ('read', 'open') and (w.hits or plan['via'] == 'api'):
            if now != old:
                raise Violation('old-file-damaged', f'{err} while preparing the save changed the existing file: {len(now)} bytes '
                                f'instead of {len(old)}; faults {w.hits}')
        elif cut is not None and cut.fired:
            if not cut.begun and now != old:
                raise Violation('old-file-damaged', f'cut short at {cut.fired} before writing, yet the existing file changed: {len(now)} bytes')
            if cut.begun and not cut.ready and now != want:
                raise Violation('written-before-ready', f'cut short at {cut.fired}: the existing file was already given up ({len(now)} of '
                                f'{len(want)} bytes) while the new contents were not complete')
    s.close()


def parts_of(want, b):
    """The new contents as prefix taken over from the source and rest: each has to be at hand in one piece or another."""
    k = 0
    for c in b.cuts:
        if want[:c] == b.bytes[:c]:
            k = c
    rest = want[k:]
    cuts, i = [], 0
    while True:
        j = rest.find(b'%%EOF\n', i)
        if j < 0:
            break
        cuts.append(rest[i:j + 6])
        i = j + 6
    if i < len(rest):
        cuts.append(rest[i:])
    return ([want[:k]] if k else []) + cuts
