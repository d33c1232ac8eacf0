"""Reference model: what a document is, independent of the library.

A document is a mapping of object numbers to canonical values (values.canon) with a root and an info
reference.  Everything here works on that mapping only; the library, the strict reader and the
generator all have to agree with it.
"""
INHERIT = ('Resources', 'MediaBox', 'CropBox', 'Rotate')


def get(d, k, default=None):
    for a, b in d[1]:
        if a == k:
            return b
    return default


def put(d, k, v):
    """Copy of a dictionary value with entry k set (or dropped when v is None)."""
    e = dict(d[1])
    if v is None:
        e.pop(k, None)
    else:
        e[k] = v
    return (d[0], tuple(sorted(e.items()))) + d[2:]


def structural(v):
    return v[0] == 'ST' and get(v, 'Type') in (('N', 'XRef'), ('N', 'ObjStm'))


def linear(v):
    return v[0] == 'D' and get(v, 'Linearized') is not None


def content(objs):
    """The objects a user put there: without cross-reference and object streams and the linearization dictionary."""
    return {n: v for n, v in objs.items() if not structural(v) and not linear(v)}


def deref(objs, v):
    seen = 0
    while v is not None and v[0] == 'R':
        v = objs.get(v[1], ('Z',))
        seen += 1
        if seen > 50:
            return ('Z',)
    return v


class Tree:
    """Independent walk over the page tree."""

    def __init__(self, objs, root):
        self.objs = objs
        self.root = root
        self.pages = []          # (num, {inherited attributes})
        self.nodes = []
        self.problems = []
        cat = objs.get(root)
        if cat is None or cat[0] != 'D':
            self.problems.append(f'no catalog at {root}')
            return
        p = get(cat, 'Pages')
        if p is None or p[0] != 'R':
            self.problems.append('catalog without /Pages')
            return
        self.count = self.walk(p[1], None, {}, 0)

    def walk(self, num, parent, inh, depth):
        v = self.objs.get(num)
        if depth > 60 or v is None or v[0] != 'D':
            self.problems.append(f'page tree node {num} is {v and v[0]} at depth {depth}')
            return 0
        if num in self.nodes or num in [p for p, _ in self.pages]:
            self.problems.append(f'page tree node {num} twice')
            return 0
        pr = get(v, 'Parent')
        if parent is not None and (pr is None or pr[0] != 'R' or pr[1] != parent):
            self.problems.append(f'node {num} has /Parent {pr}, not {parent}')
        inh = dict(inh)
        for k in INHERIT:
            a = get(v, k)
            if a is not None and a != ('Z',):
                inh[k] = a
        ty = get(v, 'Type')
        if ty == ('N', 'Page'):
            self.pages.append((num, inh))
            return 1
        if ty != ('N', 'Pages'):
            self.problems.append(f'page tree node {num} of type {ty}')
            return 0
        self.nodes.append(num)
        kids = deref(self.objs, get(v, 'Kids'))
        n = 0
        for k in kids[1] if kids and kids[0] == 'A' else ():
            if k[0] != 'R':
                self.problems.append(f'kid {k} of {num}')
                continue
            n += self.walk(k[1], num, inh, depth + 1)
        c = deref(self.objs, get(v, 'Count'))
        if c != ('I', n):
            self.problems.append(f'node {num} has /Count {c} for {n} pages')
        return n


class Graph:
    """Renumbering-independent form of everything reachable from a value."""

    def __init__(self, objs, root):
        self.objs = objs
        self.tree = Tree(objs, root)
        self.pages = {}
        for n, _ in self.tree.pages:
            t = get(objs[n], 'Tag')
            self.pages[n] = t if t is not None else ('page',)
        self.nodes = set(self.tree.nodes)
        self.root = root

    def form(self, v, skip=()):
        labels = {}

        def go(v, depth):
            t = v[0]
            if t == 'R':
                n = v[1]
                if n in self.pages:
                    return ('PAGE', self.pages[n])
                if n in self.nodes:
                    return ('PAGES',)
                if n == self.root:
                    return ('ROOT',)
                o = self.objs.get(n)
                if o is None or o[0] == 'Z':
                    return ('Z',)
                if o[0] == 'D' and get(o, 'Type') == ('N', 'Page'):
                    return ('Z',)      # a page that was left out
                if n in labels:
                    return ('SEEN', labels[n])
                labels[n] = len(labels)
                return ('OBJ', labels[n], go(o, depth + 1))
            if t == 'A':
                return ('A', tuple(go(x, depth + 1) for x in v[1]))
            if t in ('D', 'ST'):
                es = []
                for k, x in v[1]:
                    if depth == 0 and k in skip:
                        continue
                    y = go(x, depth + 1)
                    if y != ('Z',):
                        es.append((k, y))
                return (t, tuple(es)) + v[2:]
            return v
        return go(v, 0)

    def page(self, i):
        """Effective page i: own entries over inherited ones, without the way up."""
        n, inh = self.tree.pages[i]
        v = self.objs[n]
        e = dict(v[1])
        e.pop('Parent', None)
        for k, x in inh.items():
            if e.get(k) in (None, ('Z',)):
                e[k] = x
        return self.form(('D', tuple(sorted(e.items()))))

    def page_list(self):
        return [self.page(i) for i in range(len(self.tree.pages))]

    def catalog(self):
        return self.form(self.objs[self.root], skip=('Pages', 'Version'))

    def bag(self):
        """Multiset of all objects, each with everything it reaches."""
        bag = {}
        for n, v in self.objs.items():
            if n in self.nodes:
                f = ('NODE', self.form(v, skip=('Parent',)))
            elif n in self.pages:
                f = ('PG', self.form(v, skip=('Parent',)))
            elif n == self.root:
                f = ('CAT', self.form(v, skip=('Version',)))
            elif v[0] == 'Z':
                continue
            else:
                f = self.form(v)
            bag[f] = bag.get(f, 0) + 1
        return bag


def bag_diff(a, b):
    lost = [k for k, n in a.items() if b.get(k, 0) < n]
    new = [k for k, n in b.items() if a.get(k, 0) < n]
    return lost, new


class Model:
    """A document with its history.  Treated as immutable: every change makes a copy."""

    def __init__(self, objs, root, info):
        self.objs = objs
        self.root = root
        self.info = info
        self.closed = []         # Snap of every closed revision
        self.touched = {}        # changes of the open revision; None: not known
        self.cands = []          # numbers a session may edit or delete
        self.style = 'table'
        self.base = b''          # bytes of the file this came from
        self.cuts = []           # ends of the file revisions still in the history
        self.internal = set()
        self.renumbered = False

    def copy(self):
        m = Model(dict(self.objs), self.root, self.info)
        m.closed = list(self.closed)
        m.touched = None if self.touched is None else dict(self.touched)
        m.cands = list(self.cands)
        m.style, m.base, m.cuts, m.internal = self.style, self.base, list(self.cuts), set(self.internal)
        m.renumbered = self.renumbered
        return m

    def npages(self):
        return len(Tree(self.objs, self.root).pages)

    def touch(self, n, a):
        if self.touched is None:
            return
        old = self.touched.get(n)
        if a == 'd' and old == 'a':
            del self.touched[n]
        elif old == 'a' and a == 'u':
            pass
        else:
            self.touched[n] = a

    def set(self, n, v):
        m = self.copy()
        m.touch(n, 'u' if n in m.objs else 'a')
        m.objs[n] = v
        return m

    def delete(self, n):
        m = self.copy()
        m.touch(n, 'd')
        m.objs.pop(n)
        if n in m.cands:
            m.cands.remove(n)
        return m

    def commit(self):
        if self.touched == {}:
            return self
        m = self.copy()
        m.closed.append(Snap(dict(m.objs), m.root, m.info, m.touched, list(m.cands)))
        m.touched = {}
        return m

    def rewind(self):
        if not self.closed:
            return self
        m = self.copy()
        s = m.closed.pop()
        m.objs, m.root, m.info, m.cands = dict(s.objs), s.root, s.info, list(s.cands)
        m.touched = None if s.touched is None else dict(s.touched)
        m.cuts = m.cuts[:len(m.closed)]
        return m


class Snap:
    def __init__(self, objs, root, info, touched, cands):
        self.objs, self.root, self.info, self.touched, self.cands = objs, root, info, touched, cands


def from_build(b):
    """Model of a generated file just opened."""
    m = Model(dict(b.truth[-1]), b.trailers[-1]['Root'], b.trailers[-1]['Info'])
    ex = b.f.get('extras', [])
    for t, tr in zip(b.truth, b.trailers):
        m.closed.append(Snap(dict(t), tr['Root'], tr['Info'], None, [e for e in ex if e in t]))
    m.cands = list(m.closed[-1].cands)
    m.style = 'stream' if b.f['layout'] in ('stream', 'linstream') else 'table'
    m.base = b.bytes
    m.cuts = list(b.cuts)
    m.internal = set(b.internal)
    return m
