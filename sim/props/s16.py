"""S16: operations cut short by an interruption or a failing allocation at any executed line."""
import dis
import functools
import sys
import sut
import simio
import pdfgen
import cli
from core import Violation
from session import Sess, rnd_ops, asked, digest, difference, short, ONCE, ALL, rnd_op, EDIT, PAGE, WHOLE

PROP = 'S16'
COUNT = {'quick': 1300, 'thorough': 50000}
RULE = 'a run counts when at least one interruption or allocation failure was delivered inside an operation'
REAL = ['pdfsyntax: all modules, from the working tree', 'Python buffered file layers']
STUB = ['file system and disk (in memory)', 'process image (package re-imported for the undisturbed twin)',
        'signal delivery and memory allocator (exceptions raised at chosen source lines of the package)']
LISTS = ['ops', 'files.*.revs']
MEASURE = 'hash of the operations and of the lines at which they were cut short'
TARGETS = EDIT + PAGE + WHOLE + WHOLE + ['rewind', 'save', 'open', 'read', 'read', 'compress', 'cat', 'commit', 'command', 'command', 'command', 'command', 'command', 'command']


def gen(rng, tier):
    nf = rng.choice([1, 1, 2])
    files = [pdfgen.rnd_file(rng) for _ in range(nf)]
    ops = rnd_ops(rng, rng.randrange(0, 5 if tier == 'quick' else 9), ALL)
    k = rng.choice(TARGETS)
    if k == 'open':
        target = {'op': 'open', 'mode': rng.choice(['readfile', 'loads', 'cont'])}
    elif k == 'command':
        target = {'op': 'command', 'c': rng.choice(cli.COMMANDS + ['compress'])}
    elif k == 'read':
        target = {'op': 'read', 'q': rng.choice(ONCE + ['text', 'contents', 'obj', 'catalog', 'info']), 'k': rng.randrange(64), 's': -1}
    else:
        target = rnd_op(rng, [k])
    return {'files': files, 'modes': [rng.choice(['readfile', 'cont']) for _ in files], 'ops': ops, 'target': target,
            'cuts': [[rng.random(), rng.choice(['int', 'mem']), rng.random() if k == 'command' else rng.choice([None, rng.random(), rng.random()])] for _ in range(30 if k == 'command' else rng.choice([1, 2, 4, 6]))]}


@functools.lru_cache(None)
def leaving(code):
    """Where a with block is left: the interpreter looks for interrupts neither there nor before the exit is called."""
    ops = [x for x in dis.get_instructions(code) if x.opname != 'CACHE']
    res = set()
    for k in range(1, len(ops) - 3):
        if all(x.opname == 'LOAD_CONST' and x.argval is None for x in ops[k:k+3]) and ops[k+3].opname == 'CALL' and ops[k+3].arg == 2:
            res |= {ops[k].offset} | ({ops[k-1].offset} if ops[k-1].opname == 'SWAP' else set())
    return res


class Cut:
    """Raises at the n-th executed line, once."""

    def __init__(self, n, exc):
        self.n = n
        self.exc = exc
        self.seen = 0
        self.fired = None
        self.lines = {} if n < 0 else None      # what was executed, line by line

    def __call__(self, code, line):
        self.seen += 1
        if self.lines is not None:
            self.lines.setdefault((code, line), []).append(self.seen)
            return
        if self.seen == self.n and self.fired is None:
            f = sys._getframe(2)
            if f.f_lasti in leaving(f.f_code):
                self.n += 1
                return
            self.fired = (code.co_filename.rsplit('/', 1)[-1], code.co_name, line)
            raise self.exc


def build_session(plan, builds):
    s = Sess(sut.fresh(), simio.World())
    for i, b in enumerate(builds):
        s.w.put(f'/sim/in{i}.pdf', b.bytes)
    with simio.use(s.w):
        for i, b in enumerate(builds):
            s.add_file(f'/sim/in{i}.pdf', b, plan['modes'][i])
        for op in plan['ops']:
            try:
                s.do(op)
            except Exception:
                pass
    return s


def target(s, plan, builds):
    """Run the target operation; returns a comparable result (or raises)."""
    t = plan['target']
    if t['op'] == 'open':
        n = s.add_file('/sim/in0.pdf', builds[0], t['mode'])
        s.slots.pop()
        return n
    if t['op'] == 'command':
        cli.run.error = None
        if t['c'] == 'compress':
            s.w.files.pop('/sim/c.pdf', None)
        status, data = cli.run(s.lib, s.w, [t['c'], '/sim/in0.pdf'] + (['-o', '/sim/c.pdf'] if t['c'] == 'compress' else []))
        if status == 130:
            raise KeyboardInterrupt
        if isinstance(cli.run.error, MemoryError):
            raise cli.run.error
        return ('answer', (status, data, s.w.get('/sim/c.pdf') if t['c'] == 'compress' else None))
    if t['op'] == 'read':
        from session import ask
        slot = s.slots[t['s'] % len(s.slots)]
        return ('answer', ask(s.lib, slot, t))
    n = s.do(t)
    if n is None:
        return ('nothing',)
    s.slots.pop()
    return n


def outcome(s, plan, builds):
    try:
        r = target(s, plan, builds)
    except Exception as e:
        return ('EXC', type(e).__name__)
    return r


def form(s, r):
    return digest(s.lib, s.w, r) if not isinstance(r, tuple) else r


def execute(plan, st):
    builds = [pdfgen.build(f) for f in plan['files']]
    st.hit('target ' + plan['target']['op'])
    # undisturbed twin: its results, and the number of lines the operation takes
    t = build_session(plan, builds)
    with simio.use(t.w):
        count = Cut(-1, None)
        sut.METER.reset(None, count, 'line')
        try:
            r = outcome(t, plan, builds)
        finally:
            sut.METER.reset(30_000_000)
        lines = count.seen
        # every source line is as likely a place as any other, however often it was executed
        places = list(count.lines.values())
        want = form(t, r)
        saved = t.w.get('/sim/' + plan['target'].get('path', '-'))
    ref = build_session(plan, builds)
    with simio.use(ref.w):
        docs = [digest(ref.lib, ref.w, x) for x in ref.slots]
    s = build_session(plan, builds)
    cuts = 0
    with simio.use(s.w):
        for frac, kind, place in plan['cuts']:
            if not lines:
                break
            n = 1 + int(frac * lines)
            if place is not None:
                n = places[int(place * len(places))]
                n = n[int(frac * len(n))]
            exc = KeyboardInterrupt('simulated') if kind == 'int' else MemoryError('simulated')
            cut = Cut(n, exc)
            sut.METER.reset(None, cut, 'line')
            try:
                r = ('RET', target(s, plan, builds))
            except (KeyboardInterrupt, MemoryError) as e:
                r = ('CUT', e)
            except Exception as e:
                r = ('EXC', type(e).__name__)
            finally:
                sut.METER.reset(30_000_000)
            st.mark(cut.fired, kind)
            if cut.fired is None:
                continue
            cuts += 1
            st.hit('fault ' + ('interrupt' if kind == 'int' else 'failed allocation'))
            at = f'{kind} at {cut.fired}'
            if r[0] == 'RET':
                # absorbed: the result must still be the right one
                got = form(s, r[1])
                if got != want:
                    raise Violation('interruption-absorbed', f'{at} in {plan["target"]["op"]}: returned '
                                    + (difference(want, got) if isinstance(got, dict) and isinstance(want, dict) else short((want, got), 400)))
                st.hit('absorbed but right')
            elif r[0] == 'EXC':
                if r != want:
                    raise Violation('interruption-disguised', f'{at} in {plan["target"]["op"]} came out as {r[1]}')
        r = outcome(s, plan, builds)
        got = form(s, r)
        if got != want:
            raise Violation('retry-differs', f'{plan["target"]["op"]} after being cut short at {st.sig}: undisturbed / repeated: '
                            + (difference(want, got) if isinstance(got, dict) and isinstance(want, dict) else short((want, got), 400)))
        if plan['target']['op'] == 'save' and s.w.get('/sim/' + plan['target']['path']) != saved:
            raise Violation('retry-differs', 'saved file differs after repeating the save')
        for i, x in enumerate(s.slots):
            d = digest(s.lib, s.w, x)
            if d != docs[i]:
                raise Violation('document-damaged', f'document {i} after {plan["target"]["op"]} was cut short at {st.sig}: before / after: '
                                + difference(docs[i], d))
    if any(x.name.startswith('/sim/') for x in s.w.live.values() if x not in [getattr(h, 'raw', h) for h in s.handles]):
        st.hit('file left open until collected')
    st.log(sorted(want.items(), key=repr) if isinstance(want, dict) else want, st.sig)
    st.nontrivial = cuts > 0
    st.mark(plan['target']['op'])
    for x in (t, ref, s):
        x.close()
