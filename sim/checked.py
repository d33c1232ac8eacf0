"""A session whose every document is accompanied by its reference model.

step() applies one operation to the library and to the model and compares the two; save() checks the bytes with
the independent reader, restart() continues in a new process image from what was saved.
"""
import os
import errno
import sut
import refpdf
import pdfgen
from core import Violation, where
from session import Sess, Slot, PATHS, short, objects, rnd_op, masked
from model import (Model, Snap, Tree, Graph, from_build, content, get, put, deref, bag_diff)
from values import canon, from_lib


def clean(objs):
    return {n: v for n, v in content(objs).items() if v[0] != 'Z'}


def diff(a, b):
    """First differing object of two mappings."""
    for n in sorted(set(a) | set(b)):
        if a.get(n) != b.get(n):
            return f'object {n}: {short(a.get(n))}, expected {short(b.get(n))}'
    return ''


class Checked:
    def __init__(self, w, st):
        self.w = w
        self.st = st
        self.files = {}
        self.noise = []
        self.boot()

    def boot(self):
        self.lib = sut.fresh()
        self.s = Sess(self.lib, self.w)

    # ---------------------------------------------------------------- opening
    def open_build(self, path, build, mode='readfile'):
        slot = self.s.add_file(path, build, mode)
        slot.m = from_build(build)
        slot.m.objs = clean(slot.m.objs)
        slot.m.nbase = len(slot.m.cuts)
        slot.m.header = build.f['ver']
        slot.m.touched = {}
        self.files[path] = (slot.m, slot.gens, slot.style)
        return slot

    def blank(self):
        slot = self.s.do({'op': 'blank'})
        objs = {1: canon(['D', {'Type': ['N', 'Catalog'], 'Pages': ['R', 2]}]),
                2: canon(['D', {'Type': ['N', 'Pages'], 'Kids': ['A', [['R', 3]]], 'Count': ['I', 1]}]),
                3: canon(['D', {'Type': ['N', 'Page'], 'Parent': ['R', 2], 'Resources': ['D', {}],
                                'MediaBox': from_lib_plan(self.lib, slot.doc)}])}
        m = Model(objs, 1, None)
        m.closed = [Snap(dict(objs), 1, None, None, [])]
        m.nbase, m.header = 0, '1.4'
        slot.m = m
        return slot

    # ---------------------------------------------------------------- looking
    def look(self, doc):
        return clean(objects(self.lib, doc))

    def verify(self, slot, why, objs=None):
        """Everything the library says about the document against its model."""
        lib, m, d = self.lib, slot.m, slot.doc
        L = self.look(d) if objs is None else objs
        if L != m.objs:
            raise Violation('wrong-object', f'{why}: {diff(L, m.objs)}')
        t = lib.trailer(d)
        for k, want in (('/Root', m.root), ('/Info', m.info)):
            have = t.get(k)
            have = int(have.imag) if isinstance(have, complex) else have
            if have != want:
                raise Violation('wrong-trailer', f'{why}: {k} is {have}, expected {want}')
        tree = Tree(m.objs, m.root)
        want = []
        for n, inh in tree.pages:
            e = dict(m.objs[n][1])
            for k, x in inh.items():
                if e.get(k, ('Z',)) == ('Z',):
                    e[k] = x
            want.append(('D', tuple(sorted(e.items()))))
        have = [from_lib(p) for p in lib.pages(d)]
        if have != want:
            i = next((i for i, (a, b) in enumerate(zip(have, want)) if a != b), min(len(have), len(want)))
            raise Violation('wrong-pages', f'{why}: {len(have)} pages, expected {len(want)}; page {i}: '
                            f'{short(have[i:i+1], 300)} expected {short(want[i:i+1], 300)}')
        if len(d) != len(want) or lib.number_pages(d) != len(want):
            raise Violation('wrong-count', f'{why}: len {len(d)} for {len(want)} pages')
        self.accounts(slot, why)

    def accounts(self, slot, why):
        lib, m, d = self.lib, slot.m, slot.doc
        if lib.updates(d) != len(m.closed):
            raise Violation('wrong-revisions', f'{why}: {lib.updates(d)} revisions reported, {len(m.closed)} were closed')
        if m.touched is not None:
            have = {int(r.imag): a for r, a in lib.changes(d) if int(r.imag) in m.objs or a == 'd'}
            if have != m.touched:
                raise Violation('wrong-changes', f'{why}: changes {short(have)}, expected {short(m.touched)}')

    # ---------------------------------------------------------------- operations
    def step(self, op, why=''):
        s = self.s
        r = s.ready(op)
        if r is None:
            return None
        o = op['op']
        if o == 'blank':
            return self.blank()
        src, a = r
        if o == 'force':
            a = (False, a[1])
        before = src.m
        if op.get('beyond'):
            if not s.beyond(op, src):
                raise Violation('accepted', f'{o} of a page beyond the {src.npages} there are was not refused')
            self.verify(src, f'{why} after a refused {o}')
            return None
        if o == 'save':
            return self.save(op, src, a)
        if o == 'cat' and hasattr(a[0], 'm') is False:
            return None
        if o == 'rewind' and len(before.closed) < 1:
            return None
        try:
            slot = s.run(op, src, a)
        except Exception as e:
            raise Violation('refused', f'{why} {describe(op, a)} failed: {e!r} at {where(e)}')
        self.st.hit('op ' + o)
        self.st.mark(o)
        objs = self.look(slot.doc)
        slot.m = getattr(self, 'do_' + GROUP.get(o, o))(op, src, a, slot, objs)
        slot.npages = slot.m.npages()
        slot.cands = list(slot.m.cands)
        self.verify(slot, f'{why} after {describe(op, a)}', objs)
        return slot

    def adopt(self, m, objs, touched=None):
        """Model of the same document with the given objects."""
        n = m.copy()
        n.nbase, n.header = m.nbase, m.header
        n.objs = dict(objs)
        n.cands = [c for c in m.cands if c in objs]
        n.touched = touched
        return n

    def keepattrs(self, m, n):
        n.nbase, n.header = m.nbase, m.header
        return n

    def do_add(self, op, src, a, slot, objs):
        m = src.m
        new = slot.cands[-1]
        if new in m.objs or new <= 0:
            raise Violation('number-in-use', f'add_object returned {new}, which is an object of the document')
        n = self.keepattrs(m, m.set(new, canon(a[0])))
        n.cands = m.cands + [new]
        return n

    def do_upd(self, op, src, a, slot, objs):
        return self.keepattrs(src.m, src.m.set(a[0], canon(a[1])))

    def do_del(self, op, src, a, slot, objs):
        return self.keepattrs(src.m, src.m.delete(a[0]))

    def do_rot(self, op, src, a, slot, objs):
        m = src.m
        n = m
        tree = Tree(m.objs, m.root)
        for i, (num, inh) in enumerate(tree.pages):
            if a[1] and i not in a[1]:
                continue
            v = m.objs[num]
            own = get(v, 'Rotate')
            old = deref(m.objs, own if own not in (None, ('Z',)) else inh.get('Rotate', ('I', 0)))[1]
            n = n.set(num, put(v, 'Rotate', ('I', (old + a[0]) % 360)))
        return self.keepattrs(m, n)

    def do_ann(self, op, src, a, slot, objs):
        m = src.m
        page = Tree(m.objs, m.root).pages[a[0]][0]
        old = deref(m.objs, get(m.objs[page], 'Annots'))
        old = old[1] if old and old[0] == 'A' else ()
        after = objs.get(page)
        if after is None:
            raise Violation('wrong-annotation', 'the annotated page is gone')
        av = get(after, 'Annots')
        new = deref(objs, av)
        if not new or new[0] != 'A' or new[1][:-1] != old or not new[1]:
            raise Violation('wrong-annotation', f'/Annots was {short(old)} and became {short(new)}')
        d = deref(objs, new[1][-1])
        want = {'Type': ('N', 'Annot'), 'Subtype': ('N', 'Text'), 'Open': ('B', False),
                'Rect': ('A', tuple(('I', x) for x in (10, 20, 30, 40)))}
        if d is None or d[0] != 'D' or any(get(d, k) != x for k, x in want.items()) or plaintext(get(d, 'Contents')) != a[1]:
            raise Violation('wrong-annotation', f'annotation is {short(d)}')
        n = m
        allowed = {page}
        if get(m.objs[page], 'Annots', ('Z',))[0] == 'R':
            allowed.add(get(m.objs[page], 'Annots')[1])
        return self.absorb(m, objs, allowed, 'annotation')

    def absorb(self, m, objs, allowed, what, gone=()):
        """Accept new objects and changes of the allowed ones; anything else must be as it was."""
        n = m
        for k in sorted(set(m.objs) | set(objs)):
            if m.objs.get(k) == objs.get(k):
                continue
            if k not in m.objs:
                n = n.set(k, objs[k])
            elif k in allowed and k in objs:
                n = n.set(k, objs[k])
            elif k in gone and k not in objs:
                n = n.delete(k)
            else:
                raise Violation('collateral', f'{what} changed object {k}: {short(m.objs.get(k))} became {short(objs.get(k))}')
        n = n.copy() if n is m else n
        n.touched = m.touched and dict(m.touched) if what == 'nothing' else n.touched
        return self.keepattrs(m, n)

    def do_ver(self, op, src, a, slot, objs):
        m = src.m
        n = self.absorb(m, objs, {m.root}, 'version update')
        cat = objs[m.root]
        old = get(m.objs[m.root], 'Version')
        oldv = max(m.header, old[1] if old else '')
        v = get(cat, 'Version')
        if put(cat, 'Version', None) != put(m.objs[m.root], 'Version', None):
            raise Violation('wrong-version', f'catalog became {short(cat)}')
        newv = max(m.header, v[1] if v else '')
        if newv != max(oldv, op['v']) or self.lib.version(slot.doc) != newv:
            raise Violation('wrong-version', f'{oldv} updated to {op["v"]} is {newv}, reported {self.lib.version(slot.doc)}')
        return n

    def do_commit(self, op, src, a, slot, objs):
        m = src.m
        if m.touched is None:
            if not self.lib.changes(src.doc) and self.lib.updates(slot.doc) == len(m.closed):
                return self.keepattrs(m, m.copy())
        elif m.touched and self.lib.updates(slot.doc) == len(m.closed):
            raise Violation('not-committed', f'commit with changes {short(m.touched)} opened no revision')
        return self.keepattrs(m, m.commit())

    def do_rewind(self, op, src, a, slot, objs):
        m = src.m
        n = self.keepattrs(m, m.rewind())
        if len(n.closed) < n.nbase and n.touched is None:
            pass
        return n

    def do_filt(self, op, src, a, slot, objs):
        asked = set(masked(op, [k for k, v in objs.items() if v[0] == 'ST'])) - {k for k, v in objs.items() if v[0] == 'ST' and (v[2] or '')[:4] == 'RAW:'}
        self.filtered(src.doc, slot.doc, asked, op['f'])
        return self.do_same(op, src, a, slot, objs)

    def filtered(self, before, after, asked, flt):
        """The streams asked for are encoded as asked where the library can decode them, the others as before."""
        def enc(doc, k):
            f = doc.obj(k)['entries'].get('/Filter', '')
            return [] if f == '' else [f] if isinstance(f, str) else f
        for k in asked:
            have, old = enc(after, k), enc(before, k)
            if all(x in ('/FlateDecode', '/ASCIIHexDecode', '/ASCII85Decode') for x in old) and have != ([flt] if flt else []):
                raise Violation('wrong-filter', f'object {k} is encoded {have}, asked for {flt!r}')

    def do_same(self, op, src, a, slot, objs):
        """Operations that change how objects are stored, not what they are."""
        n = self.keepattrs(src.m, src.m.copy())
        n.touched = None
        if op['op'] == 'force':
            f = self.lib.trailer(slot.doc).get('/Filter', '')
            if f != (a[1] or '/FlateDecode'):
                raise Violation('wrong-filter', f'cross-reference stream forced with filter {a[1]!r} has {f!r}')
        return n

    def do_select(self, op, src, a, slot, objs):
        m = src.m
        n = len(Tree(m.objs, m.root).pages)
        o = op['op']
        if o == 'keep':
            want = sorted(a[0])
        elif o == 'rem':
            want = [i for i in range(n) if i not in a[0]]
        elif o == 'getp':
            want = [range(n)[a[0]]]
        elif o == 'iter':
            want = [a[0]]
        else:
            want = list(range(n))[a[0]]
        g0, g1 = Graph(m.objs, m.root), Graph(objs, m.root)
        if g1.tree.problems:
            raise Violation('broken-page-tree', '; '.join(g1.tree.problems[:3]))
        for i in range(n):
            if i not in want:
                del g0.pages[g0.tree.pages[i][0]]       # references to a page that was left out lead nowhere
        self.same_pages(g1.page_list(), [g0.page(i) for i in want], f'{o} of {n} pages')
        if g0.catalog() != g1.catalog():
            raise Violation('collateral', f'{o}: the catalog had {short(g0.catalog(), 400)} and has {short(g1.catalog(), 400)}')
        if m.info and g0.form(('R', m.info)) != g1.form(('R', m.info)):
            raise Violation('collateral', f'{o}: the information dictionary changed')
        nodes = set(g0.nodes)
        left = {g0.tree.pages[i][0] for i in range(n) if i not in want}
        kept = {g0.tree.pages[i][0] for i in want}
        for k in sorted(set(m.objs) | set(objs)):
            x, y = m.objs.get(k), objs.get(k)
            if x == y or k in nodes:
                continue
            if y is None and k not in kept:
                continue
            raise Violation('collateral', f'{o} changed object {k}: {short(x)} became {short(y)}')
        for i in range(n):
            if i in want and g0.tree.pages[i][0] not in objs:
                raise Violation('lost-page', f'page {i}')
        return self.adopt(m, objs)

    def same_pages(self, have, want, what):
        if have == want:
            return
        if len(have) != len(want):
            raise Violation('wrong-pages', f'{what}: {len(have)} pages instead of {len(want)}')
        i = next(i for i in range(len(have)) if have[i] != want[i])
        raise Violation('wrong-pages', f'{what}: page {i} is {differ(have[i], want[i])}')

    def do_cat(self, op, src, a, slot, objs):
        left = op.get('plus') or a[1]
        tm, om = (src.m, a[0].m) if left else (a[0].m, src.m)
        g0, g1, g2 = Graph(src.m.objs, src.m.root), Graph(a[0].m.objs, a[0].m.root), Graph(objs, tm.root)
        if g2.tree.problems:
            raise Violation('broken-page-tree', '; '.join(g2.tree.problems[:3]))
        self.same_pages(g2.page_list(), g0.page_list() + g1.page_list(), 'concatenation')
        gt = g0 if left else g1
        if g2.catalog() != gt.catalog():
            raise Violation('collateral', f'concatenation changed the catalog: {differ(g2.catalog(), gt.catalog())}')
        for k in tm.objs:
            if objs.get(k) == tm.objs[k] or k == tm.root or k in gt.nodes:
                continue
            raise Violation('collateral', f'concatenation changed object {k}: {short(tm.objs[k])} became {short(objs.get(k))}')
        return self.adopt(tm, objs)

    def do_whole(self, op, src, a, slot, objs):
        """Squash and compress: the same content under new numbers."""
        m = src.m
        lib = self.lib
        t = lib.trailer(slot.doc)
        root, info = (int(t[k].imag) if isinstance(t.get(k), complex) else None for k in ('/Root', '/Info'))
        if root not in objs:
            raise Violation('content-lost', f'{op["op"]}: no catalog')
        self.same_content(m, Graph(m.objs, m.root), objs, root, info, op['op'])
        if op['op'] == 'squash':
            stale = [k for k, v in objects(lib, slot.doc).items() if v[0] == 'ST' and get(v, 'Type') in (('N', 'XRef'), ('N', 'ObjStm'))]
            if stale:
                raise Violation('old-layout-kept', f'squash: objects {stale[:5]} are cross-reference or object streams of the old layout')
        old = {k: v for k, v in lib.trailer(src.doc).items() if k == '/ID'}
        if {k: v for k, v in t.items() if k == '/ID'} != old:
            raise Violation('content-lost', f'{op["op"]}: the trailer lost or changed /ID')
        n = Model(dict(objs), root, info)
        n.nbase = 0
        v = get(m.objs[m.root], 'Version')
        n.header = max(m.header, v[1] if v else '')
        n.touched = None
        n.style = m.style if op['op'] == 'squash' else 'stream'
        g0, g1 = Graph(m.objs, m.root), Graph(objs, root)
        forms = {}
        for k in objs:
            forms.setdefault(g1.form(('R', k)), []).append(k)
        n.cands = [f[0] for f in (forms.get(g0.form(('R', c)), []) for c in m.cands) if len(f) == 1]
        if op['op'] == 'compress':
            dead = [k for k, v in objs.items() if v[0] == 'ST' and lib.get_object(slot.doc, complex(0, k))['entries'].get('/Filter') is None]
            if dead:
                raise Violation('not-compressed', f'streams {dead[:5]} are stored as they are')
            n.closed = [Snap(dict(objs), root, info, None, list(n.cands))]
            n.touched = {}
            if lib.version(slot.doc) < '1.5':
                raise Violation('wrong-version', f'compressed document of version {lib.version(slot.doc)}')
            cat = get(objs[root], 'Version')
            if cat is not None:
                pass
        return n

    def same_content(self, m, g0, objs, root, info, what):
        g1 = Graph(objs, root)
        if g1.tree.problems != g0.tree.problems:
            raise Violation('broken-page-tree', f'{what}: ' + '; '.join(g1.tree.problems[:3]))
        self.same_pages(g1.page_list(), g0.page_list(), what)
        if g0.catalog() != g1.catalog():
            raise Violation('content-lost', f'{what}: catalog {differ(g1.catalog(), g0.catalog())}')
        if (m.info is None or m.info not in m.objs) != (info is None or info not in objs) \
                or info is not None and info in objs and g0.form(('R', m.info)) != g1.form(('R', info)):
            raise Violation('content-lost', f'{what}: the information dictionary')
        lost, new = bag_diff(g0.bag(), g1.bag())
        if lost or new:
            raise Violation('content-lost' if lost else 'content-invented',
                            f'{what}: lost {short(lost[:1], 300)} new {short(new[:1], 300)}')

    # ---------------------------------------------------------------- saving
    def save(self, op, src, a):
        path = PATHS + op['path']
        if op.get('faults'):
            # a save that may fail half way; the document survives it and is saved again
            self.w.hits = {}
            self.w.script(op['faults'])
            try:
                self.lib.writefile(src.doc, path)
                failed = False
            except OSError:
                failed = True
            self.st.world(self.w)
            self.w.hits = {}
            self.w.script(self.noise)
            self.files.pop(path, None)
            if failed:
                self.st.hit('save failed and was repeated')
                self.verify(src, 'after a failed save')
        try:
            slot = self.s.run(op, src, a)
        except Exception as e:
            raise Violation('refused', f'save failed: {e!r} at {where(e)}')
        self.st.hit('op save')
        self.st.mark('save')
        objs = self.look(slot.doc)
        slot.m = self.do_commit(op, src, a, slot, objs)
        self.verify(slot, 'after save', objs)
        data = self.w.get(path)
        n = self.keepattrs(slot.m, slot.m.copy())
        n.cuts = self.check_file(slot.m, data)
        n.base = data
        n.nbase = len(n.cuts)
        n.touched = {}
        n.closed = [Snap(x.objs, x.root, x.info, None, x.cands) for x in n.closed]
        self.files[path] = (n, slot.gens, slot.style)
        return slot

    def check_file(self, m, data):
        """The bytes a save produced; returns the ends of the revisions in them."""
        k = len(m.cuts)
        P = m.base if k == m.nbase else m.base[:m.cuts[-1]] if k else b''
        if not data.startswith(P):
            i = next((i for i, (x, y) in enumerate(zip(data, P)) if x != y), min(len(data), len(P)))
            raise Violation('earlier-bytes-changed', f'the saved file of {len(data)} bytes differs at {i} from the {len(P)} bytes it extends')
        # a revision reached by rewind may keep the blank line that followed it
        if k == len(m.closed) and data != P and (k == m.nbase or data[len(P):].strip()):
            raise Violation('not-identical', f'nothing was changed, yet the saved file has {len(data)} bytes instead of {len(P)}')
        try:
            ends = refpdf.revisions(data, len(P)) if len(m.closed) - k else []
        except refpdf.Bad as e:
            raise Violation('not-conforming', f'saved file: {e}')
        tail = data[len(P):]
        if len(ends) != len(m.closed) - k:
            raise Violation('revision-count', f'{len(m.closed) - k} revisions were appended, the file shows {len(ends)}')
        cuts = m.cuts + ends
        if ends and data[ends[-1]:].strip():
            raise Violation('trailing-bytes', repr(data[ends[-1]:][:60]))
        self.read_back(data, m.closed[-1], 'the saved file')
        return cuts

    def read_back(self, data, snap, what):
        """Independent reader."""
        try:
            ref = refpdf.RefDoc(data)
            R = clean(ref.objects())
        except (refpdf.Bad, ValueError, IndexError, KeyError, TypeError) as e:
            raise Violation('not-conforming', f'{what}: {e!r}')
        want = clean(snap.objs)
        if R != want:
            raise Violation('reader-disagrees', f'{what}: {diff(R, want)}')
        for k, n in (('Root', snap.root), ('Info', snap.info)):
            t = refpdf.dget(ref.trailer, k)
            if (t[1] if t and t[0] == 'R' else None) != n:
                raise Violation('reader-disagrees', f'{what}: trailer /{k} is {t}, expected {n}')
        return ref

    def cuts(self, m, data, cuts, mode='readfile'):
        """Every earlier revision is there when the file is cut at its end."""
        for k, c in enumerate(cuts):
            s = m.closed[k]
            part = data[:c]
            self.read_back(part, s, f'revision {k} of {len(cuts)}')
            self.w.put('/sim/.cut', part)
            doc = self.s.open_doc('/sim/.cut', mode)
            L = self.look(doc)
            if L != clean(s.objs):
                raise Violation('revision-lost', f'cut at the end of revision {k} of {len(cuts)}: {diff(L, clean(s.objs))}')
            t = self.lib.trailer(doc)
            for key, n in (('/Root', s.root), ('/Info', s.info)):
                v = t.get(key)
                if (int(v.imag) if isinstance(v, complex) else None) != n:
                    raise Violation('revision-lost', f'cut at the end of revision {k}: trailer {key} {v}, expected {n}')
            tree = Tree(clean(s.objs), s.root)
            have = [int(r.imag) for r, _ in self.lib.flat_page_tree(doc)]
            if have != [p for p, _ in tree.pages]:
                raise Violation('revision-lost', f'cut at the end of revision {k}: pages {have}, expected {[p for p, _ in tree.pages]}')
            if self.lib.updates(doc) != k + 1:
                raise Violation('revision-count', f'cut at the end of revision {k} shows {self.lib.updates(doc)} revisions')
            self.st.hit('revision cut')
        self.w.files.pop('/sim/.cut', None)

    def restart(self, path, mode):
        """A new process opens the saved file."""
        self.s.close()
        self.boot()
        self.st.hit('fault restart')
        self.st.mark('restart', mode)
        return self.reopen(path, mode)

    def reopen(self, path, mode):
        m, gens, style = self.files[path]
        try:
            doc = self.s.open_doc(path, mode)
        except Exception as e:
            raise Violation('refused', f'opening the saved file failed: {e!r} at {where(e)}')
        slot = Slot(doc, m.npages(), m.cands, style, [(0, []) for _ in m.closed], len(m.closed))
        slot.hist = [(Tree(x.objs, x.root).pages.__len__(), list(x.cands)) for x in m.closed]
        slot.gens = gens
        slot.m = self.keepattrs(m, m.copy())
        slot.how = ('saved', path, mode)
        self.s.slots.append(slot)
        self.verify(slot, f'after reopening ({mode})')
        return slot


# ------------------------------------------------------------------ plans

MODES = ['readfile', 'readfile', 'loads', 'cont', 'single0', 'cont0', 'bytesio', 'contbytes']
SOFT = [{'at': 'read', 'n': 0, 'do': 'short', 'arg': 7, 'from': True}, {'at': 'read', 'n': 0, 'do': 'short', 'arg': 1000, 'from': True},
        {'at': 'read', 'n': 1, 'do': 'eintr'}, {'at': 'write', 'n': 0, 'do': 'short', 'arg': 100, 'from': True},
        {'at': 'write', 'n': 1, 'do': 'short', 'arg': 1}, {'at': 'write', 'n': 0, 'do': 'eintr'}]


def rnd_save(rng, k):
    op = {'op': 'save', 's': -1, 'path': f'r{k}.pdf'}
    if rng.random() < .3:
        op['faults'] = [rng.choice([
            {'at': 'write', 'n': rng.randrange(3), 'do': 'err', 'arg': errno.EIO},
            {'at': 'write', 'n': rng.randrange(2), 'do': 'short', 'arg': rng.choice([1, 50, 400]), 'from': True},
            {'at': 'open', 'n': 0, 'do': 'err', 'arg': errno.ENOSPC, 'path': f'r{k}.pdf'},
            {'at': 'close', 'n': 0, 'do': 'err', 'arg': errno.EIO, 'path': f'r{k}.pdf'}])]
    return op


HUGE = float(os.environ.get('VERIF_HUGE', .01))


def rnd_plan(rng, kinds, n, nfiles=1, blank=.1, restart=.2, last=.95, grow=.12, **kw):
    files = [pdfgen.rnd_file(rng, **kw) for _ in range(nfiles)]
    large = HUGE > rng.random()
    if large:
        # object numbers beyond 65535 in a small file
        files[0] = pdfgen.rnd_file(rng, huge=True, **{k: v for k, v in kw.items() if k != 'layouts'})
        n = 2
    if rng.random() < grow:
        pdfgen.grow(rng, files[0])
    if rng.random() < blank:
        files[0] = None
    ops = []
    for k in range(n):
        x = rng.random()
        if x < restart:
            kind = rng.choice(['restart', 'restart', 'restart', 'save', 'crash', 'open'])
            if kind == 'restart':
                ops.append({'op': 'restart', 'mode': rng.choice(MODES), 'save': rnd_save(rng, k)})
            elif kind == 'save':
                ops.append(rnd_save(rng, k))
            else:
                ops.append({'op': kind, 'mode': rng.choice(MODES), 'k': rng.randrange(8)})
        else:
            ops.append(rnd_op(rng, kinds, last))
    ops.append({'op': 'restart', 'mode': rng.choice(MODES), 'save': rnd_save(rng, n)})
    return {'files': files, 'modes': [rng.choice(MODES) for _ in files], 'ops': ops, 'large': large,
            'noise': rng.sample(SOFT, rng.choice([0, 0, 1, 2])), 'bufsize': rng.choice([8192, 8192, 512, 64])}


def drive(plan, st, w, each=None):
    """Run a plan; `each(c, path)` is called for every saved file.  Returns (session, edits, restarts)."""
    c = Checked(w, st)
    w.bufsize = plan['bufsize']
    c.noise = plan['noise']
    w.script(c.noise)
    edits = restarts = 0
    first = None
    for i, f in enumerate(plan['files']):
        if f is None:
            c.blank()
            st.mark('blank')
            continue
        b = pdfgen.build(f)
        w.put(f'/sim/in{i}.pdf', b.bytes)
        slot = c.open_build(f'/sim/in{i}.pdf', b, plan['modes'][i])
        first = first or f'/sim/in{i}.pdf'
        st.mark(f['layout'], len(f['revs']))
        c.verify(slot, f'after opening file {i} ({plan["modes"][i]})')
    last = first

    def saved(op, why):
        nonlocal last
        if c.step(op, why) is not None:
            last = PATHS + op['path']
            if each:
                each(c, last)
    for k, op in enumerate(plan['ops']):
        if op['op'] == 'restart':
            if not c.s.slots:
                continue
            saved(op['save'], f'step {k}:')
            c.restart(last, op['mode'])
            restarts += 1
        elif op['op'] == 'save':
            if c.s.slots:
                saved(op, f'step {k}:')
        elif op['op'] == 'crash':
            if last:
                st.hit('fault crash, unsaved work lost')
                c.restart(last, op['mode'])
                restarts += 1
        elif op['op'] == 'open':
            paths = sorted(c.files)
            if paths:
                c.reopen(paths[op['k'] % len(paths)], op['mode'])
        elif c.step(op, f'step {k}:') is not None:
            edits += 1
    st.log([sorted(s.m.objs.items()) for s in c.s.slots])
    st.world(w)
    c.s.close()
    return c, edits, restarts


GROUP = {'group': 'same', 'force': 'same', 'keep': 'select', 'rem': 'select', 'getp': 'select', 'iter': 'select', 'slice': 'select',
         'squash': 'whole', 'compress': 'whole'}


def describe(op, a):
    def f(x):
        return 'document' if isinstance(x, Slot) else short(x, 80)
    return op['op'] + ' ' + ' '.join(f(x) for x in a)


def plaintext(v):
    """Text of a text string object."""
    if v is None or v[0] != 'S':
        return None
    b = v[1].encode('latin-1')
    if b[:2] == b'\xfe\xff':
        return b[2:].decode('utf-16-be')
    return b.decode('latin-1')


def differ(a, b, path=''):
    """Where two forms differ."""
    if type(a) is type(b) is tuple and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return differ(x, y, path + (f'/{a[0]}' if i and isinstance(a[0], str) else ''))
    return f'{path}: {short(a)} instead of {short(b)}'


def from_lib_plan(lib, doc):
    mb = lib.pages(doc)[0]['/MediaBox']
    return ['A', [['I', x] for x in mb]]
