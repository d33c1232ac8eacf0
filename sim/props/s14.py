"""S14: damaged files - opening, inspecting and listing them ends within bounded work and harms nothing."""
import errno
import resource
import sut
import simio
import pdfgen
import damage
import cli
from core import Violation, where
from session import Sess, ask, objects, short, ONCE
from checked import clean, diff
from values import canon

PROP = 'S14'
COUNT = {'quick': 5000, 'thorough': 250000}
RULE = 'a run counts when the damaged bytes differ from the intact ones and the file was opened or listed at least once'
REAL = ['pdfsyntax: all modules, from the working tree', 'Python buffered and unbuffered file objects']
STUB = ['file system and disk (in memory), whose blocks are truncated, zeroed, flipped, repeated, dropped or exchanged',
        'process image (package re-imported)', 'standard output']
LISTS = ['damage', 'questions', 'commands', 'file.revs', 'after.revs', 'faults']
MEASURE = 'hash of the layout, kinds of damage and outcomes (result or kind of error) of every question and command'
LIMIT = None
QUESTIONS = ONCE + ['text', 'contents', 'catalog', 'info', 'pages1', 'objects', 'rot', 'squash', 'compress', 'cat', 'save', 'rewind', 'drop', 'keep', 'split', 'annot', 'version', 'group']
MODES = ['readfile', 'readfile', 'loads', 'cont', 'cont0', 'single0']
MEMORY = 1 << 31


def allowance(data):
    """Steps granted to one activity on a file: quadratic in its size, linear in its largest object number."""
    n = len(data)
    big = max([0] + [int(data[i:j][:12]) for i, j in damage.numbers(data)])
    return 100_000 + 60 * n + n * n // 16 + 8 * min(big, 8_400_000)


def gen(rng, tier):
    f = pdfgen.rnd_file(rng)
    if rng.random() < .1:
        pdfgen.grow(rng, f)
    b = pdfgen.build(f)
    how = rng.random()
    d = damage.rnd(rng) if how < .6 else []
    if how > .3:
        d += damage.aimed(rng, b.bytes)
        rng.shuffle(d)
    faults = []
    if rng.random() < .1:
        faults.append({'at': 'read', 'n': rng.choice([0, 1, 2, 5]), 'do': 'err', 'arg': errno.EIO, 'from': rng.random() < .5})
    return {'file': f, 'damage': d, 'mode': rng.choice(MODES), 'questions': rng.sample(QUESTIONS, rng.randrange(3, 10)),
            'commands': rng.sample(cli.COMMANDS + ['compress'], rng.randrange(1, 5)), 'after': pdfgen.rnd_file(rng), 'faults': faults,
            'k': rng.randrange(8)}


def act(lib, w, slot, q, k):
    d = slot.doc
    if q == 'objects':
        return len(objects(lib, d))
    if q == 'rot':
        return len(lib.rotate(d, 90))
    if q == 'drop':
        return lib.number_pages(lib.remove_pages(d, k % max(1, len(lib.flat_page_tree(d)))))
    if q == 'keep':
        return lib.number_pages(lib.keep_pages(d, k % max(1, len(lib.flat_page_tree(d)))))
    if q == 'split':
        n = 0
        for page in d:
            n += lib.number_pages(page)
            if n > 20:
                break
        return n
    if q == 'annot':
        return len(lib.add_text_annotation(d, 0, 'note', [1, 2, 3, 4]))
    if q == 'version':
        return lib.version(lib.update_version(d, '2.0'))
    if q == 'group':
        return len(lib.commit(lib.group_obj_into_stream(lib.force_xref_stream(lib.rotate(d, 90)))))
    if q == 'squash':
        return len(lib.squash(d))
    if q == 'compress':
        return len(lib.compress(d))
    if q == 'cat':
        return len(lib.concatenate(d, d))
    if q == 'save':
        lib.writefile(lib.commit(lib.add_object(d, ['/A'])[0]), '/sim/new.pdf')
        return len(w.get('/sim/new.pdf'))
    if q == 'rewind':
        return len(lib.rewind(d))
    return ask(lib, slot, {'q': q, 'k': k})


def execute(plan, st):
    b = pdfgen.build(plan['file'])
    bad = damage.apply(b.bytes, plan['damage'], st)
    after = pdfgen.build(plan['after'])
    w = simio.World()
    w.put('/sim/bad.pdf', bad)
    w.put('/sim/ok.pdf', after.bytes)
    lib = sut.fresh()
    meter = sut.METER
    limit = allowance(bad)
    worst = 0
    opened = 0
    st.mark(plan['file']['layout'], [d[0] for d in plan['damage']])
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    used = int(open('/proc/self/statm').read().split()[0]) * 4096
    resource.setrlimit(resource.RLIMIT_AS, (used + MEMORY, hard))

    def bounded(what, f):
        nonlocal worst
        meter.reset(limit, mode='jump')
        try:
            r = ('ok', f())
        except sut.Budget as e:
            raise Violation('endless', f'{what} of {len(bad)} damaged bytes: {e} at {where(e, 6)}')
        except RecursionError as e:
            raise Violation('recursion', f'{what} of {len(bad)} damaged bytes: recursion without bound at {where(e, 6)}')
        except MemoryError as e:
            raise Violation('memory', f'{what} of {len(bad)} damaged bytes: more than {MEMORY} bytes of memory at {where(e, 6)}')
        except Exception as e:
            r = ('error', type(e).__name__)
        worst = max(worst, meter.steps)
        meter.reset(None, mode='jump')
        st.hit(f'{what.split()[0]} ended with {"a result" if r[0] == "ok" else "an error"}')
        st.log(what, r if r[0] == 'error' or isinstance(r[1], (int, str, tuple)) else 'ok')
        st.mark(what, r[0], r[1] if r[0] == 'error' else '')
        if w.get('/sim/bad.pdf') != bad:
            raise Violation('damaged-file-changed', f'{what} changed the damaged file')
        return r

    try:
        with simio.use(w):
            s = Sess(lib, w)
            w.script(plan['faults'])
            r = bounded('opening ' + plan['mode'], lambda: s.add_file('/sim/bad.pdf', b, plan['mode']))
            if r[0] == 'ok':
                opened += 1
                for q in plan['questions']:
                    bounded(q, lambda: act(lib, w, s.slots[0], q, plan['k']))
            for c in plan['commands']:
                opened += 1
                argv = [c, '/sim/bad.pdf'] + (['-o', '/sim/out.pdf'] if c == 'compress' else [])
                cli.run.error = None

                def command():
                    status, out = cli.run(lib, w, argv)
                    if isinstance(cli.run.error, (RecursionError, MemoryError)):
                        raise cli.run.error
                    return status, out
                bounded('command ' + c, command)
            st.world(w)
            w.script([])
            s.close()
            # the process carries on with intact files
            s2 = Sess(lib, w)
            meter.reset(200_000_000, mode='jump')
            slot = s2.add_file('/sim/ok.pdf', after)
            L = clean(objects(lib, slot.doc))
            want = clean(after.truth[-1])
            if L != want:
                raise Violation('intact-file-wrong', f'after the damaged file: {diff(L, want)}')
            if len(slot.doc) != slot.npages:
                raise Violation('intact-file-wrong', f'{len(slot.doc)} pages, expected {slot.npages}')
            lib.pages(slot.doc), lib.metadata(slot.doc), lib.structure(slot.doc), lib.fonts(slot.doc)
            s2.close()
    finally:
        resource.setrlimit(resource.RLIMIT_AS, (soft, hard))
    st.hit('steps of the longest activity', worst)
    st.nontrivial = bad != b.bytes and opened > 0
