"""What the inspection commands have to report about a file, from the writer's own records."""
import collections
import re
import html
import html.parser
from model import Tree, get, deref
from values import canon, OPAQUE

PAPER = {'US Letter': (612, 792), 'A4': (595, 842)}
ATTRS = ['Title', 'Author', 'Subject', 'Keywords', 'Creator', 'Producer', 'CreationDate', 'ModDate']


class Wrong(Exception):
    pass


class Truth:
    def __init__(self, b):
        self.b = b
        self.objs = b.truth[-1]
        self.root, self.info = b.trailers[-1]['Root'], b.trailers[-1]['Info']
        self.tree = Tree(self.objs, self.root)

    def effective(self, i, k):
        n, inh = self.tree.pages[i]
        v = get(self.objs[n], k)
        if v in (None, ('Z',)):
            v = inh.get(k)
        return deref(self.objs, v) if v is not None else None

    def version(self):
        v = get(self.objs[self.root], 'Version')
        return max(self.b.f['ver'], v[1]) if v else self.b.f['ver']

    def metadata(self):
        d = deref(self.objs, ('R', self.info)) if self.info else None
        res = {}
        for a in ATTRS:
            v = get(d, a) if d else None
            v = deref(self.objs, v) if v is not None else None
            res[a] = textual(v[1]) if v and v[0] == 'S' and v[1] else None
            if res[a] and self.b.f.get('encrypt'):
                res[a] = '#Encrypted#'
        return res

    def fonts(self):
        res = {}
        for i in range(len(self.tree.pages)):
            r = self.effective(i, 'Resources')
            fd = get(r, 'Font') if r and r[0] == 'D' else None
            fd = deref(self.objs, fd) if fd is not None else None
            for name, ref in fd[1] if fd and fd[0] == 'D' else ():
                res.setdefault(ref[1], set()).add(i)
        return res

    def tags(self):
        return [get(self.objs[n], 'Tag')[1] for n, _ in self.tree.pages]


PDFDOC = {**dict(enumerate('\u02d8\u02c7\u02c6\u02d9\u02dd\u02db\u02da\u02dc', 0x18)),
          **dict(enumerate('\u2022\u2020\u2021\u2026\u2014\u2013\u0192\u2044\u2039\u203a\u2212\u2030\u201e\u201c\u201d\u2018\u2019\u201a'
                           '\u2122\ufb01\ufb02\u0141\u0152\u0160\u0178\u017d\u0131\u0142\u0153\u0161\u017e', 0x80)), 0xa0: '\u20ac'}


def textual(s):
    """The text a string stands for (ISO 32000-1, 7.9.2.2): UTF-16BE behind a byte order mark, otherwise PDFDocEncoding."""
    if s.startswith('\xfe\xff'):
        return s[2:].encode('latin-1').decode('utf-16-be') or None
    return ''.join(PDFDOC.get(ord(c), c) for c in s)


def need(cond, msg):
    if not cond:
        raise Wrong(msg)


def overview(t, text):
    have = {}
    part = None
    for line in text.split('\n'):
        if line.startswith('# '):
            part = line
        elif ': ' in line:
            k, v = line.split(': ', 1)
            need((part, k) not in have, f'{k} is reported twice')
            have[part, k] = v
    lay = t.b.f['layout']
    mb = [x[1] for x in t.effective(0, 'MediaBox')[1]]
    x, y = mb[2] - mb[0], mb[3] - mb[1]
    name = next((k for k, v in PAPER.items() if v == (x, y)), 'unknown')
    want = {'Version': t.version(), 'Pages': len(t.tree.pages), 'Revisions': len(t.b.truth), 'Encrypted': bool(t.b.f.get('encrypt')),
            'Hybrid': lay in ('hybrid', 'hybridiso'), 'Linearized': lay in ('linear', 'linstream')}
    for k, v in want.items():
        need(have.get(('# Structure', k)) == str(v), f'{k} is reported as {have.get(("# Structure", k))!r}, it is {v!r}')
    p = have.get(('# Structure', 'Paper of 1st page'), '')
    need(f'{int(x * 25.4 / 72)}x{int(y * 25.4 / 72)}mm' in p and name.lower() in p.lower(), f'paper is reported as {p!r}, it is {x}x{y} points')
    for k, v in t.metadata().items():
        need(have.get(('# Metadata', k)) == str(v), f'{k} is reported as {have.get(("# Metadata", k))!r}, it is {v!r}')


def fonts(t, text):
    lines = [x.split() for x in text.split('\n') if x.strip()]
    need(lines and lines[0] == ['Name', 'Type', 'Encoding', 'Obj', 'Pages'], f'heading {lines[:1]}')
    want = []
    for n, pages in t.fonts().items():
        d = t.objs[n]
        e = get(d, 'Encoding')
        enc = 'built-in' if e is None else e[1] if e[0] == 'N' else 'other'
        want.append([get(d, 'BaseFont')[1], get(d, 'Subtype')[1], enc, f'{n},{t.b.gen(n)}', str(len(pages))])
    need(sorted(lines[1:]) == sorted(want), f'fonts {lines[1:]}, expected {want}')


def text(t, text):
    have = [''.join(x.split()) for x in text.split('\n') if x.strip()]
    lines = t.b.f.get('lines', {})
    want = [''.join(row) for tag in t.tags() for row in lines.get(str(tag), [[f'Page{tag}']])]
    need(have == want, f'rows of text {[x for x in have if x not in want][:4]} {have[:6]}, expected {want[:6]}')


LINE = re.compile(r'^(?P<pos>\d+)? *(?:\[(?P<size>\d+) *\])? *(?P<ratio>\d+%|!!)? *(?P<filt>_\w*)? *(?:(?P<seq>\d+) +(?P<env>\d+),)? *(?P<st>[-@?]{2})? *'
                  r'(?P<type>comment|void|ind_obj|xref|xreftable|xrefstream|startxref)\b(?P<rest>.*)$')


SHORT = {'ASCIIHexDecode': 'AHex', 'ASCII85Decode': 'A85', 'LZWDecode': 'LZW', 'FlateDecode': 'Flate', 'RunLengthDecode': 'RunL',
         'CCITTFaxDecode': 'Fax', 'JBIG2Decode': 'JBIG2', 'DCTDecode': 'DCT', 'JPXDecode': 'JPX', 'Crypt': 'Crypt'}


def detail(b, d, keys):
    """The notable entries of a dictionary."""
    res = ['/' + d['Type'][1]] if 'Type' in d and d['Type'][0] == 'N' else []
    if 'JS' in d:
        res.append('!/JS!')
    for k in keys:
        if k in d:
            v = d[k]
            res.append(f'/{k}={v[1]},{b.gen(v[1])}' if v[0] == 'R' else f'/{k}={v[1]}')
    return res


def row(b, placed, v, info):
    """What the line about an object has to say besides its place: size ratio, filters, kind, notable entries."""
    if isinstance(info, tuple):
        enc, dec, filt, d = info
        size = '' if set(filt) & set(OPAQUE) else f'{int(enc / dec * 100)}%' if dec else '!!'
        return (size, ''.join('_' + SHORT[x] for x in filt) or '_', 'stream',
                detail(b, d, ['Root', 'Prev', 'N', 'First']))
    kind = {'D': 'dict', 'A': 'array', 'I': 'int'}.get(v[0], 'other')
    return '', '', kind, detail(b, v[1], ['Linearized']) if v[0] == 'D' else []


def disasm(t, text):
    b = t.b
    rows, tables, inside = {}, [], 0
    at = 0
    objs, packed, entries, starts = [], [], [], []
    for line in text.split('\n'):
        if not line.strip():
            continue
        m = LINE.match(line[2:])
        need(m and line[0] in '+-', f'line {line!r}')
        pos, size = m['pos'] and int(m['pos']), m['size'] and int(m['size'])
        rest = m['rest'].split()
        bad = False
        if m['type'] == 'ind_obj':
            bad = (pos if line[0] == '+' else (int(m['env']), int(m['seq']))) in b.stray
        elif m['type'] == 'xref':
            bad = int(rest[0].split(',')[0]) in b.wrong
        need(('?' in (m['st'] or '')) == bad, f'{"lost object or wrong entry is not" if bad else "intact entry is"} marked as wrong: {line!r}')
        if line[0] == '+':
            need(pos == at and size is not None and size > 0, f'region at {pos} of {size} bytes, expected at {at}')
            at += size
        if m['type'] == 'ind_obj':
            num, gen = rest[0].split(',')
            said = ('' if any('_' + SHORT[x] in (m['filt'] or '') for x in OPAQUE) else m['ratio'] or '', m['filt'] or '', rest[1], rest[2:])
            if m['env']:
                need(gen == '', f'packed object {num} is listed with generation {gen}: {line!r}')
                packed.append((int(num), int(m['env']), int(m['seq'])))
                rows[packed[-1]] = (pos, said)
                need(int(m['env']) == inside, f'packed object {num} is listed under {inside}: {line!r}')
            else:
                rows[pos] = (None, said)
                inside = int(num)
                objs.append((pos, int(num), int(gen), rest[1]))
                need(b.bytes[pos:].startswith(f'{num} {gen} obj'.encode()), f'no object {num},{gen} at {pos}')
                need(b.bytes[:pos + size].endswith(b'endobj'), f'object {num},{gen} does not end at {pos + size}')
        elif m['type'] == 'xref':
            num, gen = rest[0].split(',')
            mode = rest[1] if len(rest) == 4 else ''
            entries.append((int(num), int(gen), mode, int(rest[-2]), rest[-1]))
        elif m['type'] == 'xreftable':
            tables.append((pos, rest))
            need(b.bytes[pos:pos + 4] == b'xref', f'no table at {pos}')
        elif m['type'] == 'comment':
            need(b.bytes[pos:pos + 1] == b'%' and b.bytes[pos + size:pos + size + 1] in (b'\r', b'\n', b''), f'no comment at {pos}')
        elif m['type'] == 'void':
            need(not b.bytes[pos:pos + size].strip(b'\0\t\n\f\r '), f'{pos} to {pos + size} is not empty')
        elif m['type'] == 'startxref':
            need(b.bytes[pos:pos + 9] == b'startxref', f'no startxref at {pos}')
            starts.append((pos, int(rest[0])))
    need(at == len(b.bytes), f'the listing ends at {at} of {len(b.bytes)} bytes')
    want = [(o[0], o[1], b.gen(o[1]), o[2]) for o in b.placed if o[0] is not None]
    need(sorted(objs) == sorted(want), f'objects listed {sorted(set(objs) ^ set(want))[:4]} differ')
    want = [o[1:] for o in b.placed if o[0] is None]
    need(sorted(packed) == sorted(want), f'packed objects listed {sorted(packed)[:6]}, expected {sorted(want)[:6]}')
    need(sorted(entries) == sorted(b.entries), f'entries {sorted(set(entries) ^ set(b.entries))[:4]} differ')
    need(starts == b.starts, f'startxref {starts}, expected {b.starts}')
    for o, v, info in zip(b.placed, b.values, b.infos):
        have = rows[o[0] if o[0] is not None else o[1:]]
        want = (info if o[0] is None else None, row(b, o, v, info))
        need(have == want, f'object {o[1]} is listed as {have}, expected {want}')
    want = [(pos, detail(b, d, ['XRefStm' if 'XRefStm' in d else 'Root', 'Prev'])) for pos, d in b.tables]
    need(tables == want, f'tables {tables}, expected {want}')


class Html(html.parser.HTMLParser):
    VOID = {'meta', 'br', 'hr', 'link', 'img'}

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.stack, self.ids, self.bad = [], [], []
        self.at = {}             # block holding an element with that identifier
        self.nav = []
        self.blocks = []
        self.block = None
        self.links = []          # [block, href, text]
        self.link = None

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        if 'id' in a:
            self.ids.append(a['id'])
            if a['id'].startswith('idx'):
                self.block = [a['id'][3:], '']
                self.blocks.append(self.block)
            self.at.setdefault(a['id'], self.block[0] if self.block else None)
        if tag == 'nav':
            self.block = None
        if tag == 'a' and 'nav-idx' in (a.get('class') or ''):
            self.nav.append([a.get('href'), ''])
            self.innav = True
        if tag == 'a':
            self.link = [self.block[0] if self.block else None, a.get('href') or '', '']
            self.links.append(self.link)
        if tag not in self.VOID:
            self.stack.append(tag)

    innav = False

    def handle_endtag(self, tag):
        self.innav = False
        if tag == 'a':
            self.link = None
        if self.stack and self.stack[-1] == tag:
            self.stack.pop()
        else:
            self.bad.append(tag)

    def handle_data(self, d):
        if self.innav:
            self.nav[-1][1] += d
        if self.block:
            self.block[1] += d
        if self.link:
            self.link[2] += d
        self.all = getattr(self, 'all', '') + d


PLAIN = re.compile(r'^[^\s<>\[\]()/{}%#]+$')


def tokens(v, b, out):
    """What the representation of a value has to show: keys, names, integers and references."""
    if v[0] == 'N' and PLAIN.match(v[1]):
        out.append('/' + v[1])
    elif v[0] == 'I':
        out.append(str(v[1]))
    elif v[0] == 'R':
        out.append(f'{v[1]} {v[2] if len(v) > 2 else 0} R')
    elif v[0] == 'A' and (all(x[0] == 'R' for x in v[1]) and any(all(x[1] in s for s in b.truth) for x in v[1])
                          or all(x[0] in 'IN' for x in v[1]) and sum(len(html.escape(str(x[1]))) + 2 for x in v[1]) < 28):
        for x in v[1]:                        # long ones are cut
            tokens(x, b, out)
    elif v[0] in ('D', 'ST'):
        for k, x in v[1].items():
            if PLAIN.match(k):
                out.append('/' + k)
            tokens(x, b, out)
    elif v[0] == 'B':
        out.append('True' if v[1] else 'False')
    return out


def refs(v):
    """Objects a canonical value refers to."""
    if v[0] == 'R':
        return {v[1]}
    if v[0] == 'A':
        return set().union(*(refs(x) for x in v[1]))
    if v[0] in ('D', 'ST'):
        return set().union(*(refs(x) for _, x in v[1]))
    return set()


SHOWN = re.compile(r'\d+ \d+ R\b|/[^\s<>\[\]()/{}%#]+|-?[0-9.]+|True|False')


def representation(t, h, blocks):
    """Every object shows its parts, links lead to what they name, and the users of an object are listed."""
    b = t.b
    where, last = {}, {}
    for o, v in zip(b.placed, b.values):
        where[str(o[0]) if o[0] is not None else (o[2], o[3], o[1])] = (o[1], v)
    ids = {}
    for pos, body in blocks.items():
        m = re.match(r'(\d+) #(\d+) (\d+) 0 obj', body)
        k = (int(m[1]), int(m[2]), int(m[3])) if m else pos
        if k in where:
            ids[pos] = where[k]
            last[where[k][0]] = pos           # the last one in the file, which is the current one
    linear = b.f['layout'] in ('linear', 'linstream')
    contents(t, blocks, ids)
    indexes(t, blocks, ids, h)
    for pos, (n, v) in ids.items():
        if v is None:
            continue
        body = re.sub(r'^.*? obj', '', blocks[pos])
        have = collections.Counter(SHOWN.findall(body))
        miss = collections.Counter(tokens(v, b, [])) - have
        need(not miss, f'object {n} at {pos} does not show {list(miss)[:5]}: {body[:150]!r}')
    users = {}
    live = {n: t.objs[n] for n in t.objs if n in last}
    for n, v in live.items():
        opts = (ids[last[n]][1] or [])[4:]
        for r in refs(v) | {o['lenref'] for o in opts if 'lenref' in o}:
            users.setdefault(r, set()).add(n)
    used = {}
    for pos, href, text in h.links:
        m = re.match(r'^#?(\d+) (\d+)( R)?$', text.strip())
        if m and href.startswith('#'):
            at = href[4:] if href.startswith('#idx') else None
            if text.strip().startswith('#') and at == '0':
                continue
            if at is not None:
                need(at in blocks, f'link {text!r} at {pos} leads nowhere: {href}')
            if at in ids:
                need(ids[at][0] == int(m[1]), f'link {text!r} at {pos} leads to object {ids[at][0]}')
        elif pos in ids and re.match(r'^(\d+)$', text) and href.startswith('#idx'):
            need(href[4:] in blocks, f'link to the user {text} of {pos} leads nowhere: {href}')
            if ids.get(href[4:], (0, None))[1] is not None:
                used.setdefault(pos, set()).add(int(text))
    if not linear:
        for n in live:
            pos = last[n]
            have, want = used.get(pos, set()), users.get(n, set())
            need(have == want, f'object {n} at {pos} is used in {sorted(want)}, shown {sorted(have)}')


def shown(v, out):
    """Plain strings a value shows in full."""
    if v[0] == 'S' and v[2] == 'lit' and re.match(r'^[ -&*-Z^-~]{1,20}\Z', v[1]):
        out.append(' '.join(f'({v[1]})'.split()))
    elif v[0] in ('D', 'ST'):
        for x in v[1].values():
            shown(x, out)
    return out


def contents(t, blocks, ids):
    """Strings and stream contents are shown as they are."""
    for pos, (n, v) in ids.items():
        if v is None:
            continue
        body = blocks[pos]
        for s in shown(v, []):
            need(s in body, f'object {n} at {pos} does not show the string {s[:60]!r}: {body[:150]!r}')
        if v[0] != 'ST' or not v[2] or set([v[3]] if isinstance(v[3], str) else v[3] or []) & set(OPAQUE):
            continue
        if all(c >= '\x14' or c in '\n\r' for c in v[2]):
            want = ' '.join(f'stream see content {v[2]} endstream'.split())
        else:
            want = 'stream <' + v[2].encode('latin-1').hex()[:20]
        need(want in body, f'object {n} at {pos} does not show its data {want[:60]!r}: {body[:200]!r}')


def indexes(t, blocks, ids, h):
    """Cross-reference sections are shown entry by entry, and their links lead to the objects indexed."""
    b = t.b
    env = {}
    for pos, body in blocks.items():
        m = re.match(r'(\d+) #(\d+) (\d+) 0 obj', body)
        if m:
            env[pos] = (int(m[1]), int(m[2]), int(m[3]))
    for pos, kind, entries in b.sections:
        want, links = [], []
        for e in entries:
            if len(e) == 2:
                want.append(f'{e[0]} {e[1]}')
                continue
            n, g, mode, addr, use = e
            if kind == 'table':
                want.append(f'{addr:010} {g:05} ' + ('f' if use == 'free' else f'n #{n} {g}'))
            elif n:
                want.append(f'#{n} {g} ' + (f'At absolute position {addr:010} {"f" if use == "free" else "n"}' if mode == 'abs' else
                                            f'In object stream {mode[:-1]} at {addr:010} n'))
            if use == 'inuse':
                links.append((f'#{n} {g}', str(addr) if mode in ('', 'abs') else (int(mode[:-1]), addr, n)))
        body = blocks.get(str(pos), '')
        want = ' '.join(want)
        need(want in body, f'the entries of the section at {pos} are not shown: {body[:200]!r}, expected {want[:200]!r}')
        have = [(x, h.at.get(href[1:])) for p, href, x in h.links if p == str(pos) and x.startswith('#') and href != '#idx0']
        have = [(x, env.get(y, y)) for x, y in have]
        need(have == links, f'links of the section at {pos}: {[x for x in have if x not in links][:4]}, expected {[x for x in links if x not in have][:4]}')


def minimap(t, text):
    b = t.b
    have = sorted((x, y.strip()) for x, y in re.findall(r'<li><a class="nav-idx" href="#idx[0-9.]+">(\d+)</a>(.*?)</li>', text))
    want = []
    for o, v, info in zip(b.placed, b.values, b.infos):
        d = info[3] if isinstance(info, tuple) else v[1] if v[0] == 'D' else {}
        x = d.get('Type')
        if x and x[0] != 'N':
            return
        want.append((str(o[1]), '/' + x[1] if x else ''))
    need(have == sorted(want), f'map of the file {[x for x in have if x not in want][:4]}, missing {[x for x in want if x not in have][:4]}')


def browse(t, text):
    b = t.b
    h = Html()
    h.feed(text)
    need(not h.bad and h.stack in ([], ['html']), f'unbalanced elements {h.bad[:3]} {h.stack[:3]}')
    blocks = {}
    for pos, body in h.blocks:
        need(pos not in blocks, f'two blocks at {pos}')
        blocks[pos] = ' '.join(body.split())
    for o in b.placed:
        if o[0] is not None:
            body = blocks.get(str(o[0]), '')
            need(re.search(rf'^{o[0]:010d} ?{o[1]} {b.gen(o[1])} obj', body), f'object {o[1]} is not shown at {o[0]}: {body[:60]!r}')
    want = sorted((o[2], o[3], o[1]) for o in b.placed if o[0] is None)
    have = []
    for pos, body in blocks.items():
        m = re.match(r'(\d+) #(\d+) (\d+) 0 obj', body)
        if m:
            have.append((int(m[1]), int(m[2]), int(m[3])))
    representation(t, h, blocks)
    minimap(t, text)
    need(sorted(have) == want, f'packed objects shown {sorted(have)[:5]}, expected {want[:5]}')
    for pos, s in b.notes:
        need(f'{pos:010d}{s}' == blocks.get(str(pos)), f'the comment {s!r} is not shown at {pos}: {blocks.get(str(pos))!r}')
    for pos, val in b.starts:
        need(f'{pos:010d}startxref {val}' in blocks.get(str(pos), ''), f'startxref {val} is not shown at {pos}')
    pages = [(int(x[1]), x[0]) for x in h.nav if x[0] and x[0].startswith('#obj')]
    have = [(i, int(re.match(r'#obj(\d+)\.', r)[1])) for i, r in pages]
    want = [(i + 1, n) for i, (n, _) in enumerate(t.tree.pages)]
    need(have == want, f'pages {have}, expected {want}')
    for _, r in pages:
        need(r[1:] in h.ids, f'page link {r} leads nowhere')
    flat = ' '.join(h.all.split())
    lay = b.f['layout']
    for s in (f'Version: {t.version()}', f'Page(s): {len(want)}', f'Revision(s): {len(b.truth)}', f'File size: {len(b.bytes)} bytes',
              f'Hybrid: {"yes" if lay in ("hybrid", "hybridiso") else "no"}', f'Linearized: {"yes" if lay in ("linear", "linstream") else "no"}'):
        need(s in flat, f'{s!r} is not shown')


def hexdump(t, text):
    out = b''
    for i, line in enumerate(x for x in text.split('\n') if x):
        m = re.match(r'^(\d{10})  ((?:[0-9a-f]{2} ?)+) +\|(.*)\|$', line)
        need(m, f'line {line!r}')
        need(int(m[1]) == len(out), f'offset {m[1]} for byte {len(out)}')
        part = bytes.fromhex(m[2])
        want = ''.join(chr(c) if 32 <= c < 127 else '.' for c in part)
        need(m[3] == want, f'text column {m[3]!r} for {want!r}')
        out += part
    need(out == t.b.bytes, f'{len(out)} bytes dumped of {len(t.b.bytes)}')


CHECK = {'overview': overview, 'fonts': fonts, 'text': text, 'disasm': disasm, 'browse': browse, 'hexdump': hexdump}
