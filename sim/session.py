"""A user session: documents in slots, operations on them, and every question a document answers.

Operations are plan data; selectors are taken modulo what there is, so any subset of a plan is a plan.
Sess keeps just enough about each document (page count, editable numbers, history depth) to resolve the
selectors without asking the library anything.
"""
import io
from itertools import islice
from values import to_lib, from_lib
import pdfgen

PATHS = '/sim/'


class Slot:
    def __init__(self, doc, npages, cands, style, hist, filerevs=0):
        self.doc = doc
        self.npages = npages
        self.cands = list(cands)
        self.style = style
        self.hist = list(hist)       # per closed revision: (npages, cands)
        self.filerevs = filerevs
        self.gens = {}

    def derive(self, doc, **kw):
        s = Slot(doc, self.npages, self.cands, self.style, self.hist, self.filerevs)
        s.gens = self.gens
        for k, v in kw.items():
            setattr(s, k, v)
        return s


class Sess:
    def __init__(self, lib, world):
        self.lib = lib
        self.w = world
        self.slots = []
        self.files = {}          # path -> Slot meta of what was saved there
        self.handles = []

    # -------------------------------------------------------------- opening
    def open_doc(self, path, mode):
        lib = self.lib
        if mode == 'readfile':
            return lib.readfile(path)
        if mode == 'loads':
            return lib.loads(self.w.get(path))
        if mode == 'bytesio':
            return lib.load(io.BytesIO(self.w.get(path)))
        if mode == 'single':
            with open(path, 'rb') as f:
                return lib.load(f)
        if mode == 'single0':
            with open(path, 'rb', buffering=0) as f:
                return lib.load(f)
        if mode == 'cont0':
            f = open(path, 'rb', buffering=0)
            self.handles.append(f)
            return lib.load(f, 'CONTINUOUS')
        if mode == 'contbytes':
            return lib.load(io.BytesIO(self.w.get(path)), 'CONTINUOUS')
        f = open(path, 'rb')
        self.handles.append(f)
        return lib.load(f, 'CONTINUOUS')

    def add_file(self, path, build, mode='readfile'):
        doc = self.open_doc(path, mode)
        t = build.truth
        ex = build.f.get('extras', [])
        npg = [count_pages(x) for x in t]
        hist = [(n, [e for e in ex if e in x]) for n, x in zip(npg, t)]
        style = 'stream' if build.f['layout'] in ('stream', 'linstream') else 'table'
        s = Slot(doc, npg[-1], hist[-1][1], style, hist, len(hist))
        s.gens = {int(k): g for k, g in build.f.get('gens', {}).items()}
        s.how = ('file', path, build, mode)
        self.slots.append(s)
        return s

    def close(self):
        for f in self.handles:
            try:
                f.close()
            except Exception:
                pass

    # -------------------------------------------------------------- values
    def value(self, v, cands, gens={}):
        def f(v):
            if v[0] == 'R':
                if not cands:
                    return ['I', v[1]]
                n = cands[v[1] % len(cands)]
                return ['R', n, gens[n]] if gens.get(n) else ['R', n]
            if v[0] == 'A':
                return ['A', [f(x) for x in v[1]]]
            if v[0] in ('D', 'ST'):
                return [v[0], {k: f(x) for k, x in v[1].items()}] + v[2:]
            return v
        return f(v)

    def to_lib(self, v):
        return to_lib(v, self.lib.Stream, self.lib.forge_stream)

    # -------------------------------------------------------------- operations
    def ready(self, op):
        """(source slot, resolved arguments) or None if the operation does not apply."""
        if op['op'] == 'blank':
            return None, ()
        if not self.slots:
            return None
        s = self.slots[op['s'] % len(self.slots)]
        o = op['op']
        if o in ('add',):
            return s, (self.value(op['v'], s.cands, s.gens),)
        if o in ('upd', 'del'):
            if not s.cands:
                return None
            n = s.cands[op['k'] % len(s.cands)]
            return s, (n, self.value(op['v'], s.cands, s.gens)) if o == 'upd' else (n,)
        if o == 'rot':
            return s, (op['deg'], sorted({p % s.npages for p in op['ps']}))
        if o == 'ann':
            return s, (op['p'] % s.npages, op['text'])
        if o == 'keep':
            return s, ({p % s.npages for p in op['ps']},)
        if o == 'rem':
            ps = {p % s.npages for p in op['ps']}
            if len(ps) == s.npages:
                ps.discard(max(ps))
            return (s, (ps,)) if ps else None
        if o == 'getp':
            k = op['p'] % (2 * s.npages) - s.npages
            return s, (k,)
        if o == 'slice':
            # bounds before, within and beyond the list of pages
            a, b = (None if x is None else x % (2 * s.npages + 5) - s.npages - 2 for x in (op['a'], op['b']))
            sl = slice(a, b, op['c'])
            n = len(range(*sl.indices(s.npages)))
            return (s, (sl, n)) if n else None
        if o == 'iter':
            return s, (op['p'] % s.npages,)
        if o == 'cat':
            t = self.slots[op['t'] % len(self.slots)]
            if s.npages + t.npages > 16:
                return None
            return s, (t, op['left'])
        if o == 'filt':
            return s, (op['f'],)
        if o == 'force':
            # a classical file of several revisions keeps its tables
            return (s, (op['ph'], op['f'])) if s.style == 'stream' or len(s.hist) < 2 else None
        if o == 'group':
            if s.style != 'stream':
                return None
            return s, ()
        return s, ()

    def perform(self, o, s, a, op):
        """Call the library; returns (document, facts the caller may use)."""
        lib = self.lib
        d = s.doc if s else None
        if o == 'blank':
            return lib.blank(), None
        if o == 'add':
            return lib.add_object(d, self.to_lib(a[0]))
        if o == 'upd':
            return lib.update_object(d, a[0], self.to_lib(a[1])), None
        if o == 'del':
            return lib.update_object(d, a[0], None), None
        if o == 'rot':
            return (lib.rotate(d, a[0], a[1]) if a[1] else lib.rotate(d, a[0])), None
        if o == 'ann':
            return lib.add_text_annotation(d, a[0], a[1], [10, 20, 30, 40]), None
        if o == 'ver':
            return lib.update_version(d, op['v']), None
        if o == 'commit':
            return lib.commit(d), None
        if o == 'rewind':
            return lib.rewind(d), None
        if o == 'keep':
            ps = named(op, a[0], s.npages)
            return lib.keep_pages(d, ps if len(ps) > 1 or op.get('set') else min(ps)), None
        if o == 'rem':
            ps = named(op, a[0], s.npages)
            return lib.remove_pages(d, ps if len(ps) > 1 or op.get('set') else min(ps)), None
        if o == 'getp':
            return d[a[0]], None
        if o == 'slice':
            return d[a[0]], None
        if o == 'iter' and op.get('all'):
            got = list(islice(d, s.npages + 3))
            if len(got) != s.npages:
                raise AssertionError(f'iterating over {s.npages} pages gives {len(got)}')
            return got[a[0]], None
        if o == 'iter':
            for i, x in enumerate(d):
                if i == a[0]:
                    return x, None
        if o == 'cat':
            if op.get('plus'):
                return d + a[0].doc, None
            return lib.concat(d, a[0].doc, a[1]), None
        if o == 'filt':
            return lib.apply_filter(d, masked(op, lib.list_streams(d)), a[0]), None
        if o == 'group':
            if op.get('mask'):
                return lib.group_obj_into_stream(d, o_nums=set(masked(op, [int(r.imag) for r, _ in lib.changes(d)]))), None
            return lib.group_obj_into_stream(d), None
        if o == 'force':
            return (lib.force_xref_stream(d, a[0], a[1]) if a[1] else lib.force_xref_stream(d, a[0])), None
        if o == 'squash':
            return lib.squash(d), None
        if o == 'compress':
            return lib.compress(d), None
        if o == 'save':
            return lib.writefile(d, PATHS + op['path']), None
        raise ValueError(o)

    def meta(self, o, s, a, op, doc, facts):
        if o == 'blank':
            return Slot(doc, 1, [], 'table', [(1, [])])
        if o == 'add':
            n = int(facts.imag)
            return s.derive(doc, cands=s.cands + [n])
        if o == 'del':
            return s.derive(doc, cands=[c for c in s.cands if c != a[0]])
        if o in ('upd', 'rot', 'ann', 'group', 'filt', 'ver'):
            return s.derive(doc)
        if o == 'force':
            return s.derive(doc, style='stream')
        if o in ('commit', 'save'):
            if self.lib.updates(doc) == self.lib.updates(s.doc):
                return s.derive(doc)
            return s.derive(doc, hist=s.hist + [(s.npages, s.cands)])
        if o == 'rewind':
            if not s.hist:
                return s.derive(doc)
            n, c = s.hist[-1]
            return s.derive(doc, hist=s.hist[:-1], npages=n, cands=list(c),
                            filerevs=min(s.filerevs, len(s.hist) - 1))
        if o == 'keep':
            return s.derive(doc, npages=len(a[0]))
        if o == 'rem':
            return s.derive(doc, npages=s.npages - len(a[0]))
        if o in ('getp', 'iter'):
            return s.derive(doc, npages=1)
        if o == 'slice':
            return s.derive(doc, npages=a[1])
        if o == 'cat':
            left = op.get('plus') or a[1]
            t = s if left else a[0]
            return t.derive(doc, npages=s.npages + a[0].npages)
        if o == 'squash':
            return s.derive(doc, cands=[], hist=[], filerevs=0, gens={})
        if o == 'compress':
            return s.derive(doc, cands=[], hist=[(s.npages, [])], filerevs=0, style='stream', gens={})
        raise ValueError(o)

    def do(self, op):
        """Apply one operation; the new document gets a new slot.  Returns it, or None when it does not apply."""
        r = self.ready(op)
        if op.get('beyond') and r:
            self.beyond(op, r[0])
            return None
        return None if r is None else self.run(op, *r)

    def beyond(self, op, s):
        """Ask for a page that is not there; True if that was refused as a list does."""
        k = s.npages + op['beyond'] - 1 if op['beyond'] > 0 else op['beyond'] - s.npages
        try:
            if op['op'] == 'getp':
                s.doc[k]
            elif op['op'] == 'keep':
                self.lib.keep_pages(s.doc, {k, 0})
            else:
                self.lib.remove_pages(s.doc, {k})
        except IndexError:
            return True
        return False

    def run(self, op, s, a):
        doc, facts = self.perform(op['op'], s, a, op)
        n = self.meta(op['op'], s, a, op, doc, facts)
        n.how = (op, s, a)
        if op['op'] == 'save':
            self.files[PATHS + op['path']] = n
        self.slots.append(n)
        return n

    def again(self, slot, memo):
        """Make the document of `slot` (of another session on the same files) here, with just the operations it needs."""
        if id(slot) in memo:
            return memo[id(slot)]
        if slot.how[0] == 'file':
            n = self.add_file(*slot.how[1:])
        else:
            op, s, a = slot.how
            s2 = self.again(s, memo) if s else None
            if op['op'] == 'cat':
                a = (self.again(a[0], memo),) + a[1:]
            n = self.run(op, s2, a)
        memo[id(slot)] = n
        return n


def masked(op, nums):
    """Some of the objects an operation may be applied to."""
    return [n for n in nums if not op.get('mask') or op['mask'] >> n % 16 & 1]


def named(op, ps, n):
    """Page numbers, some of them counted from the last page."""
    return {p - n if p % 2 else p for p in ps} if op.get('neg') else ps


def count_pages(objs):
    return sum(1 for v in objs.values() if v[0] == 'D' and ('Type', ('N', 'Page')) in v[1])


# ------------------------------------------------------------------ plans

EDIT = ['add', 'add', 'upd', 'upd', 'upd', 'del', 'del', 'rot', 'ann', 'ver', 'commit', 'commit']
PAGE = ['keep', 'rem', 'getp', 'slice', 'iter', 'cat', 'rot', 'ann']
WHOLE = ['squash', 'compress', 'filt', 'group', 'force']
ALL = EDIT + PAGE + WHOLE + ['rewind', 'rewind', 'save']


def rnd_op(rng, kinds, last=.7):
    o = rng.choice(kinds)
    # mostly work on the newest document, sometimes on any earlier one
    op = {'op': o, 's': -1 if rng.random() < last else rng.randrange(64)}
    if o in ('add', 'upd'):
        op['v'] = pdfgen.rnd_stream(rng, [0, 1, 2, 3]) if rng.random() < .35 else pdfgen.rnd_value(rng, [0, 1, 2, 3])
        if op['v'][0] in 'RZ':
            op['v'] = ['D', {'To': op['v']}]
    if o in ('upd', 'del'):
        op['k'] = rng.randrange(64)
    if o == 'rot':
        op['deg'] = rng.choice([90, 180, 270, 0, -90])
        op['ps'] = [rng.randrange(16) for _ in range(rng.randrange(0, 3))]
    if o == 'ann':
        op['p'] = rng.randrange(16)
        op['text'] = rng.choice(['hello', 'a (b) \\ c', 'line\nline', '', 'caf\xe9'])
    if o == 'ver':
        op['v'] = rng.choice(['1.6', '1.7', '1.7', '1.4', '2.0'])
    if o in ('keep', 'rem'):
        op['ps'] = [rng.randrange(16) for _ in range(rng.randrange(1, 4))]
        op['set'] = rng.random() < .5
        op['neg'] = rng.random() < .3
    if o in ('keep', 'rem', 'getp') and rng.random() < .08:
        op['beyond'] = rng.choice([1, 1, 2, 7, -1, -1, -2, -7])
    if o in ('getp', 'iter'):
        op['p'] = rng.randrange(32)
    if o == 'iter':
        op['all'] = rng.random() < .4
    if o == 'slice':
        op['a'] = rng.choice([None, rng.randrange(64)])
        op['b'] = rng.choice([None, rng.randrange(64)])
        op['c'] = rng.choice([None, None, 1, 2, 3, 5, 20])
    if o == 'cat':
        op['t'] = rng.randrange(64)
        op['left'] = rng.random() < .6
        op['plus'] = rng.random() < .3
        if op['plus']:
            op['left'] = True
    if o == 'filt':
        op['f'] = rng.choice(['/FlateDecode', '/FlateDecode', '/ASCIIHexDecode', '/ASCII85Decode', ''])
    if o == 'force':
        op['f'] = rng.choice(['', '/FlateDecode', '/ASCIIHexDecode'])
        op['ph'] = rng.random() < .5
    if o in ('filt', 'group') and rng.random() < .4:
        op['mask'] = rng.randrange(1, 1 << 16)
    if o == 'save':
        op['path'] = f'out{rng.randrange(3)}.pdf'
    return op


def rnd_ops(rng, n, kinds, last=.7):
    return [rnd_op(rng, kinds, last) for _ in range(n)]


# ------------------------------------------------------------------ questions

QUESTIONS = ['obj', 'obj', 'obj', 'pages', 'layouts', 'metadata', 'structure', 'in_use', 'changes', 'trailer', 'flat',
             'len', 'repr', 'text', 'fonts', 'contents', 'streams', 'catalog', 'info', 'pages1']


def rnd_question(rng):
    return {'q': rng.choice(QUESTIONS), 'k': rng.randrange(64)}


def plain(x):
    """Comparable form of any answer."""
    if isinstance(x, dict):
        return ('D', tuple(sorted((str(k), plain(v)) for k, v in x.items())))
    if isinstance(x, tuple):
        return ('T', tuple(plain(v) for v in x))
    if isinstance(x, list):
        return ('A', tuple(plain(v) for v in x))
    if isinstance(x, (set, frozenset)):
        return ('SET', tuple(sorted((plain(v) for v in x), key=repr)))
    if hasattr(x, 'entries') and hasattr(x, 'stream'):
        return ('ST', plain(x.entries), x.stream, x.encoded)
    if isinstance(x, (bytearray, memoryview)):
        return bytes(x)
    if isinstance(x, float):
        return ('F', repr(x))
    if isinstance(x, bool) or x is None:
        return ('B', x)
    if callable(x):
        return ('FUN',)
    return x


def ask(lib, slot, q):
    """The answer to one question in comparable form."""
    d = slot.doc
    k = q['k']
    t = q['q']
    if t == 'obj':
        n = len(d.index[-1])
        r = d.get_object(complex(0, 1 + k % (n + 1)))
        return plain(r)
    if t == 'pages':
        return plain(lib.pages(d))
    if t == 'pages1':
        return plain(lib.pages(d, 1 + k % 3))
    if t == 'layouts':
        return plain(lib.page_layouts(d))
    if t == 'metadata':
        return plain(lib.metadata(d))
    if t == 'structure':
        return plain(lib.structure(d))
    if t == 'in_use':
        return plain(lib.in_use(d))
    if t == 'changes':
        return plain(lib.changes(d))
    if t == 'trailer':
        return plain(lib.trailer(d))
    if t == 'flat':
        return plain(lib.flat_page_tree(d))
    if t == 'len':
        return len(d)
    if t == 'repr':
        return repr(d)
    if t == 'text':
        return lib.extract_page_text(d, k % slot.npages)
    if t == 'fonts':
        return plain(lib.fonts(d))
    if t == 'contents':
        return plain(lib.get_page_contents(d, k % slot.npages))
    if t == 'streams':
        return plain(lib.list_streams(d))
    if t == 'catalog':
        return plain(lib.catalog(d))
    if t == 'info':
        return plain(lib.info(d))
    raise ValueError(t)


def asked(lib, slot, q):
    try:
        return ask(lib, slot, q)
    except Exception as e:
        return ('EXC', type(e).__name__)


ONCE = ['trailer', 'in_use', 'pages', 'layouts', 'metadata', 'structure', 'changes', 'flat', 'len', 'repr', 'streams', 'fonts']


def digest(lib, w, slot, save=True, text=True):
    """Every answer a document gives: {question: answer}.  Raises nothing an intact document would not raise."""
    res = {}
    d = slot.doc
    refs = lib.in_use(d)
    for r in refs:
        res[f'object {int(r.imag)}'] = plain(d.get_object(r))
    for t in ONCE:
        res[t] = asked(lib, slot, {'q': t, 'k': 0})
    res['updates'] = lib.updates(d)
    if text:
        for p in range(slot.npages):
            res[f'text {p}'] = asked(lib, slot, {'q': 'text', 'k': p})
    if save:
        try:
            lib.writefile(d, '/sim/.digest')
            res['saved bytes'] = w.get('/sim/.digest')
        except Exception as e:
            res['saved bytes'] = ('EXC', type(e).__name__, str(e)[:80])
        w.files.pop('/sim/.digest', None)
    return res


def difference(a, b):
    """Names of differing answers with both values, or ''."""
    out = []
    for k in list(a) + [k for k in b if k not in a]:
        x, y = a.get(k, 'no answer'), b.get(k, 'no answer')
        if x != y:
            out.append(f'{k}: {short(x)} / {short(y)}')
    return '; '.join(out[:4])


def short(x, n=150):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def objects(lib, doc):
    """Canonical objects of a library document."""
    res = {}
    for r in lib.in_use(doc):
        v = from_lib(doc.get_object(r))
        res[int(r.imag)] = v
    return res
