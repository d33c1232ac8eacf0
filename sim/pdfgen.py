"""Independent PDF writer: file plan (JSON) -> bytes.  Shares no code with the library.

A file plan:
 {"ver": "1.5", "eol": "\n", "binmark": true, "spacing": "compact|spaced|lines",
  "layout": "table|stream|hybrid|linear|linstream",
  "revs": [{"set": {"num": value, ...}, "free": [num, ...], "root": n, "info": n|None, "id": true|false,
            "pack": [num, ...], "xfilter": null|"Flate"|"Pred"|"AHx"|"A85",
            "stmfilter": null|"Flate", "comment": null|"text", "split": bool}]}
"""
import re
import zlib
from values import lit, canon, encode, png_up


def ser_string(b, style):
    if style == 'hex':
        return b'<' + b.hex().upper().encode() + b'>'
    if style == 'hexl':
        return b'<' + b.hex().encode() + b'>'
    if style == 'hexs':
        return b'< ' + b''.join(b'%02X' % c + (b'\n' if i % 5 == 4 else b' ') for i, c in enumerate(b)) + b'>'
    if style == 'hexo':
        h = b.hex().upper().encode()
        return b'<' + (h[:-1] if h[-1:] == b'0' else h) + b'>'
    if style == 'oct':
        return b'(' + b''.join(bytes([c]) if chr(c).isalnum() and c < 128 else b'\\%03o' % c for c in b) + b')'
    if style == 'short':
        out = b''
        for i, c in enumerate(b):
            digit = b[i+1:i+2].isdigit()
            out += bytes([c]) if chr(c).isalnum() and c < 128 else b'\\%03o' % c if digit else b'\\%o' % c
        return b'(' + out + b')'
    if style in ('cont', 'contr', 'contrn'):
        k = len(b) // 2
        eol = b'\n' if style == 'cont' else b'\r' if style == 'contr' and b[k:k+1] != b'\n' else b'\r\n'
        return lit(b[:k])[:-1] + b'\\' + eol + lit(b[k:])[1:]
    if style == 'raw':
        # ends of lines of any kind within the string
        out, i = b'', 0
        for c in b:
            i += 1
            out += ([b'\r\n', b'\n'][i % 2] if c == 10 else lit(bytes([c]))[1:-1])
        return b'(' + out + b')'
    if style == 'bal':
        depth = low = 0
        for c in b:
            depth += (c == 40) - (c == 41)
            low = min(low, depth)
        if depth == low == 0:
            return b'(' + b''.join(bytes([c]) if c in b'()' else lit(bytes([c]))[1:-1] for c in b) + b')'
    return lit(b)


# white space of every kind, and comments with delimiters in them
MESSY = {'white': [b' ', b'\t', b'\r\n', b'\n\n', b'\x0c', b'\x00', b'  ', b'\r'],
         'comments': [b' ', b'\n', b' % note\n', b' ', b'%)]>> (\r\n', b' ', b'%<<[(\n ']}
STYLES = ['lit', 'lit', 'hex', 'hex', 'hexl', 'hexs', 'hexo', 'oct', 'short', 'cont', 'contr', 'contrn', 'raw', 'bal']


def ser(v, spacing, eol):
    t = v[0]
    if t == 'Z':
        return b'null'
    if t == 'B':
        return b'true' if v[1] else b'false'
    if t == 'I':
        return str(v[1]).encode()
    if t == 'F':
        return v[1].encode()
    if t == 'N':
        return b'/' + v[1].encode('ascii')
    if t == 'R':
        return b'%d %d R' % (v[1], v[2] if len(v) > 2 else 0)
    if t == 'S':
        return ser_string(v[1].encode('latin-1'), v[2])
    if spacing in MESSY and t in 'AD':
        seps = MESSY[spacing]
        out = b'[' if t == 'A' else b'<<'
        for i, x in enumerate(v[1]):
            w = seps[(len(v[1]) + 3 * i) % len(seps)]
            out += w if t == 'A' else w + b'/' + x.encode() + seps[(len(x) + i) % len(seps)]
            out += ser(x if t == 'A' else v[1][x], spacing, eol)
        w = seps[len(out) % len(seps)]
        return out + w + (b']' if t == 'A' else b'>>')
    if t == 'A':
        parts = [ser(x, spacing, eol) for x in v[1]]
        if spacing == 'compact':
            return b'[' + b' '.join(parts) + b']'
        return b'[ ' + b' '.join(parts) + b' ]'
    if t == 'D':
        parts = []
        for k, x in v[1].items():
            s = ser(x, spacing, eol)
            if spacing == 'compact' and s[:1] in b'/[<(':
                parts.append(b'/' + k.encode() + s)
            else:
                parts.append(b'/' + k.encode() + b' ' + s)
        if spacing == 'compact':
            out = b''
            for p in parts:
                out += p
            return b'<<' + out + b'>>' if not parts or parts[-1][-1:] in b']>)' else b'<<' + out + b' >>'
        if spacing == 'lines':
            return b'<<' + eol + b''.join(b'  ' + p + eol for p in parts) + b'>>'
        return b'<< ' + b' '.join(parts) + b' >>'
    raise ValueError(t)


class Build:
    def __init__(self, f):
        self.f = f
        self.eol = f['eol'].encode()
        self.seol = b'\r\n' if self.eol == b'\r' else self.eol     # a lone CR may not follow the stream keyword
        self.sp = f['spacing']
        self.out = bytearray()
        self.cuts = []
        self.truth = []          # per revision {num: canon}
        self.trailers = []       # per revision {'Root':..,'Info':..}
        self.state = {}
        self.off = {}            # num -> ('n', off) | ('c', env, idx) | ('f',)
        self.xref_positions = []
        self.internal = set()    # numbers of xref streams and object streams
        self.maxnum = 0
        self.placed = []         # what the file holds, in file order: (offset, num, kind) or (None, num, env, index)
        self.values = []         # the value of each of them (None: structure of the file)
        self.infos = []          # for each of them: (encoded bytes, decoded bytes, filters, dictionary) of a stream, or None
        self.tables = []         # (offset, trailer) of every cross-reference table
        self.entries = []        # cross-reference entries: (num, generation, mode, address, use)
        self.sections = []       # cross-reference sections: (offset, 'table' or 'stream', entries and numbers of subsections)
        self.starts = []         # (offset, value) of every startxref
        self.notes = []          # (offset, text) of comments between objects
        self.stray = set()       # objects without an entry: offset, or (envelope, position)
        self.wrong = set()       # numbers whose entry does not lead to them
        self.run()

    def stream_obj(self, v):
        d, data, filt = v[1:4]
        opts = v[4] if len(v) > 4 else {}
        raw = encode(data.encode('latin-1'), filt, opts)
        d = dict(d)
        d['Length'] = gref(self.f, opts['lenref']) if opts.get('lenref') else ['I', len(raw)]
        if filt:
            d['Filter'] = ['N', filt] if isinstance(filt, str) else ['A', [['N', x] for x in filt]]
        if opts.get('pred'):
            tags = opts.get('tags', [2])
            pd = ['D', {'Predictor': ['I', 2 if opts.get('tiff') else 15 if len(tags) > 1 else 10 + tags[0]], 'Columns': ['I', opts['pred']]}]
            if opts.get('colors'):
                pd[1]['Colors'], pd[1]['BitsPerComponent'] = ['I', opts['colors']], ['I', 8]
            d['DecodeParms'] = pd if isinstance(filt, str) else ['A', [['Z']] * (len(filt) - 1) + [pd]]
        self.infos.append((len(raw), len(data), [filt] if isinstance(filt, str) else filt or [], d))
        return ser(['D', d], self.sp, self.eol) + self.eol + b'stream' + self.seol + raw + (b'' if self.f.get('glued') else self.eol) + b'endstream'

    def put(self, num, v):
        self.off[num] = ('n', len(self.out))
        self.values.append(v)
        self.placed.append((len(self.out), num, {'ST': 'stream', 'D': 'dict', 'A': 'array', 'I': 'int'}.get(v[0], 'other')))
        if v[0] == 'ST':
            body = self.stream_obj(v)
        else:
            body = ser(v, self.sp, self.eol)
            self.infos.append(None)
        a, b = {'tight': (b'' if body[:1] in b'<[(/' else b' ', b'' if body[-1:] in b'>])' else b' '), 'line': (b' ', b' '),
                'loose': (self.eol * 2 + b' ', self.eol * 2)}.get(self.f.get('frame'), (self.eol, self.eol))
        self.out += b'%d %d obj' % (num, self.gen(num)) + a + body + b + b'endobj' + (self.eol * 2 if self.f.get('frame') == 'loose' else self.eol)

    def put_stray(self, num):
        # an object that no cross-reference section knows
        keep = dict(self.off)
        self.stray.add(len(self.out))
        self.put(num, ['D', {'Stray': ['I', num]}])
        self.off = keep

    def gen(self, num):
        return self.f.get('gens', {}).get(str(num), 0)

    def put_raw_stream(self, num, d, raw, filt, parms=None):
        self.off[num] = ('n', len(self.out))
        self.placed.append((len(self.out), num, 'stream'))
        self.values.append(None)
        d = dict(d)
        if filt == 'Pred':
            cols = parms
            enc = zlib.compress(png_up(raw, cols))
            d['Filter'] = ['N', 'FlateDecode']
            d['DecodeParms'] = ['D', {'Columns': ['I', cols], 'Predictor': ['I', 12]}]
        elif filt:
            name = {'Flate': 'FlateDecode', 'AHx': 'ASCIIHexDecode', 'A85': 'ASCII85Decode'}[filt]
            enc = encode(raw, name)
            d['Filter'] = ['N', name]
        else:
            enc = raw
        d['Length'] = ['I', len(enc)]
        self.infos.append((len(enc), len(raw), [d['Filter'][1]] if filt else [], d))
        self.out += (b'%d 0 obj' % num + self.eol + ser(['D', d], self.sp, self.eol) + self.eol + b'stream' + self.seol
                     + enc + self.eol + b'endstream' + self.eol + b'endobj' + self.eol)

    def objstm(self, num, members, values, filt):
        head, body = b'', b''
        x = self.f.get('stray', {}).get('packed')
        if x:
            members = members + [x]
            values = {**values, x: ['D', {'Stray': ['I', x]}]}
        for i, m in enumerate(members):
            at = len(body)
            head += b'%d %d ' % (m, at)
            body += ser(values[m], 'spaced', b'\n')
            if m != members[-1] or not self.f.get('tight'):
                body += b'\n'
            if m == x:
                self.stray.add((num, i))
            else:
                self.off[m] = ('c', num, i)
            self.placed.append((None, m, num, i))
            self.values.append(values[m])
            self.infos.append(at)
        head += b'\n'
        for i in range(len(members)):
            self.infos[-1 - i] += len(head)
        raw = head + body
        self.put_raw_stream(num, {'Type': ['N', 'ObjStm'], 'N': ['I', len(members)], 'First': ['I', len(head)]}, raw, filt)

    def trailer_dict(self, r, prev):
        d = {'Size': ['I', self.maxnum + 1], 'Root': gref(self.f, r['root'])}
        if r.get('info'):
            d['Info'] = gref(self.f, r['info'])
        if r.get('id'):
            d['ID'] = ['A', [['S', 'idAAAA', 'hex'], ['S', 'idBBBB', 'hex']]]
        if self.f.get('encrypt'):
            d['Encrypt'] = ['D', {'Filter': ['N', 'Standard'], 'V': ['I', 1], 'R': ['I', 2], 'O': ['S', 'owner', 'hex'], 'U': ['S', 'user', 'hex'], 'P': ['I', -4]}]
        if prev is not None:
            d['Prev'] = ['I', prev]
        return d

    def subsections(self, nums):
        res = []
        for n in sorted(nums):
            if res and res[-1][-1] + 1 == n and not (self.split and len(res[-1]) >= self.split):
                res[-1].append(n)
            else:
                res.append([n])
        return res

    def write_table(self, nums, trailer):
        pos = len(self.out)
        self.tables.append((pos, trailer))
        o = b'xref' + self.eol
        self.sections.append((pos, 'table', []))
        for sub in self.subsections(nums):
            o += b'%d %d' % (sub[0], len(sub)) + self.eol
            self.sections[-1][2].append((sub[0], len(sub)))
            for n in sub:
                e = self.off.get(n, ('f',))
                if n == 0:
                    o += b'0000000000 65535 f'
                    self.entries.append((0, 65535, '', 0, 'free'))
                elif e[0] == 'n':
                    o += b'%010d %05d n' % (e[1], self.gen(n))
                    self.entries.append((n, self.gen(n), '', e[1], 'inuse'))
                else:
                    g = 0 if e[0] == 'c' else self.gen(n) + 1
                    o += b'0000000000 %05d f' % g
                    self.entries.append((n, g, '', 0, 'free'))
                self.sections[-1][2].append(self.entries[-1])
                o += b'\r\n' if self.eol == b'\r\n' else b' ' + self.eol
        o += b'trailer' + self.eol + ser(['D', trailer], self.sp, self.eol) + self.eol
        self.out += o
        return pos

    def write_xref_stream(self, num, nums, trailer, filt):
        pos = len(self.out)
        self.off[num] = ('n', pos)
        w2 = 1
        while max([e[1] for e in self.off.values() if e[0] in 'nc'] + [pos]) >= 256 ** w2:
            w2 += 1
        w2 += self.f.get('wide', 0)
        rows, index = [], []
        first = len(self.entries)
        for sub in self.subsections(nums):
            index += [['I', sub[0]], ['I', len(sub)]]
            for n in sub:
                e = self.off.get(n, ('f',))
                if n == 0:
                    rows.append((0, 0, None))
                elif e[0] == 'n':
                    rows.append((1, e[1], self.gen(n)))
                    self.entries.append((n, self.gen(n), 'abs', e[1], 'inuse'))
                elif e[0] == 'c':
                    rows.append((2, e[1], e[2]))
                    self.entries.append((n, 0, f'{e[1]},', e[2], 'inuse'))
                else:
                    rows.append((0, 0, self.gen(n) + 1))
                    self.entries.append((n, self.gen(n) + 1, 'abs', 0, 'free'))
        # Width of the third field: as small as the values allow when the plan asks for it (nothing at all for zeros)
        top, w3, w1 = max([c for _, _, c in rows if c] + [0]), 2, 1
        if 'w3' in self.f:
            w3 = max(self.f['w3'], 0 if top == 0 else 1 if top < 256 else 2)
        if self.f.get('w1') == 0 and all(t == 1 for t, _, _ in rows):
            w1 = 0  # the type of every entry is then 1
        f0 = {0: 0, 1: self.f.get('f0', 0)}.get(w3, 65535)
        if any(c is None for _, _, c in rows):
            self.entries.insert(first, (0, f0, 'abs', 0, 'free'))
        raw = b''.join((t.to_bytes(1, 'big') if w1 else b'') + v.to_bytes(w2, 'big') + (f0 if c is None else c).to_bytes(w3, 'big') for t, v, c in rows)
        self.sections.append((pos, 'stream', self.entries[first:]))
        d = {'Type': ['N', 'XRef'], 'W': ['A', [['I', w1], ['I', w2], ['I', w3]]]}
        if not (len(index) == 2 and index[0] == ['I', 0] and index[1] == trailer['Size']) or self.f.get('index'):
            d['Index'] = ['A', index]
        d.update(trailer)
        self.put_raw_stream(num, d, raw, filt, w1 + w2 + w3)
        return pos

    def finish(self, startxref):
        self.starts.append((len(self.out), startxref))
        self.out += b'startxref' + self.eol + b'%d' % startxref + self.eol + b'%%EOF' + self.eol
        self.cuts.append(len(self.out))

    def apply(self, r):
        new = {int(k): v for k, v in r['set'].items()}
        for v in list(new.values()):
            if v[0] == 'ST' and len(v) > 4 and v[4].get('lenref'):
                new[v[4]['lenref']] = ['I', len(encode(v[2].encode('latin-1'), v[3], v[4]))]
        self.state.update(new)
        for n in r.get('free', []):
            self.state.pop(n, None)
            self.off[n] = ('f',)
        self.maxnum = max([self.maxnum] + list(new) + list(r.get('free', [])))
        return new

    def record(self, r, hidden=()):
        self.truth.append({n: canon(v) for n, v in self.state.items() if n not in hidden})
        self.trailers.append({'Root': r['root'], 'Info': r.get('info'), 'ID': bool(r.get('id'))})

    def run(self):
        f = self.f
        self.out += b'%PDF-' + f['ver'].encode() + self.eol
        if f.get('binmark'):
            self.out += b'%\xe2\xe3\xcf\xd3' + self.eol
        if f.get('note'):
            self.notes.append((len(self.out), '%' + f['note']))
            self.out += b'%' + f['note'].encode() + self.eol
        layout = f['layout']
        prev = None
        revs = f['revs']
        start = 0
        if layout in ('linear', 'linstream'):
            prev = self.linearized(revs[0], layout == 'linstream')
            start = 1
        for k, r in enumerate(revs[start:], start):
            self.split = r.get('split', 0)
            if r.get('comment'):
                self.out += b'%' + r['comment'].encode() + self.eol
            new = self.apply(r)
            style = 'stream' if layout in ('stream', 'linstream') else 'table'
            first = k == 0
            hyb = layout in ('hybrid', 'hybridiso') and k == len(revs) - 1
            pack = [n for n in r.get('pack', []) if n in new and new[n][0] != 'ST' and not self.gen(n)] if style == 'stream' or hyb else []
            if hyb:
                pack = [n for n in pack if n not in r['keepout']]
            order = [n for n in r.get('order', []) if n in new]
            order += [n for n in new if n not in order]
            for n in order:
                if n not in pack:
                    self.put(n, new[n])
            if k == 0 and 'stray' in f:
                for n in f['stray']['direct']:
                    self.put_stray(n)
                for where in f['stray']['wrong']:
                    self.maxnum += 1
                    self.wrong.add(self.maxnum)
                    self.off[self.maxnum] = ('n', 2 if where is None or ('n',) != self.off.get(where, ())[:1] else self.off[where][1])
            nums = set(new) | set(r.get('free', [])) | ({0} if k == 0 or not r.get('no0') else set())
            cut = r.get('packs', 0)
            for part in (pack[:cut], pack[cut:]):
                if not part:
                    continue
                self.maxnum += 1
                env = self.maxnum
                low = [n for n in range(1, env) if n not in self.off and n not in new]
                if f.get('lowenv') and low:
                    self.maxnum -= 1
                    # perhaps one that was referred to when it was nowhere
                    env = ([x for x in f.get('ghosts', []) if x in low] or low)[0]
                self.internal.add(env)
                self.objstm(env, part, self.state, r.get('stmfilter'))
                nums.add(env)
            if first and not (layout == 'stream' and f.get('sparse')):
                nums |= set(range(self.maxnum + 1))
            if style == 'table' and not hyb:
                prev = self.write_table(nums, self.trailer_dict(r, prev))
                self.finish(prev)
            elif style == 'stream':
                self.maxnum += 1
                x = self.maxnum
                self.internal.add(x)
                nums.add(x)
                self.off[x] = ('n', len(self.out))
                prev = self.write_xref_stream(x, nums, self.trailer_dict(r, prev), r.get('xfilter'))
                self.finish(prev)
            elif layout == 'hybridiso':
                # one section: the stream indexes what the table hides
                self.maxnum += 1
                x = self.maxnum
                self.internal.add(x)
                xs = self.write_xref_stream(x, set(pack) | {x}, self.trailer_dict(r, None), r.get('xfilter'))
                nums.add(x)
                d = self.trailer_dict(r, prev)
                d['XRefStm'] = ['I', xs]
                prev = self.write_table(nums, d)
                self.finish(prev)
            else:
                # Word style: table that hides the packed objects, closed by its own %%EOF, then an empty
                # section whose trailer names the cross-reference stream that indexes everything
                self.maxnum += 1
                x = self.maxnum
                self.internal.add(x)
                t = self.write_table(nums, self.trailer_dict(r, prev))
                self.finish(t)
                self.record(r, pack)
                nums = set(range(self.maxnum + 1))
                xs = self.write_xref_stream(x, nums, self.trailer_dict(r, None), r.get('xfilter'))
                d = self.trailer_dict(r, t)
                d['XRefStm'] = ['I', xs]
                prev = self.write_table_empty(d)
                self.finish(prev)
            self.xref_positions.append(prev)
            self.record(r)
        if f.get('noeol'):
            del self.out[-len(self.eol):]
            self.cuts[-1] = len(self.out)
        self.bytes = bytes(self.out)

    def write_table_empty(self, d):
        pos = len(self.out)
        self.tables.append((pos, d))
        self.out += b'xref' + self.eol + b'0 0' + self.eol + b'trailer' + self.eol + ser(['D', d], self.sp, self.eol) + self.eol
        return pos

    def linearized(self, r, stream):
        """Linearized layout: first-page objects and their cross-reference section come first in the file."""
        new = self.apply(r)
        self.split = 0
        nums = sorted(new)
        first = set(r.get('first', [])) & set(new)
        if not first or first == set(new):
            first = {nums[-1]}
        self.maxnum += 1
        lin = self.maxnum
        self.internal.add(lin)
        base = len(self.out)
        maxnum = self.maxnum
        last, pb = None, 10 ** 6
        for turn in range(16):
            # until the layout settles: offsets written early come from the previous pass
            if turn == 8:
                self.sp = 'compact'     # the spacing in use varies with the length of the offsets
            del self.out[base:]
            self.maxnum = maxnum
            self.placed, self.entries, self.starts, self.values, self.infos, self.tables, self.sections = [], [], [], [], [], [], []
            ln = len(last) if last else 0
            self.put(lin, ['D', {'Linearized': ['I', 1], 'L': ['I', ln], 'H': ['A', [['I', 0], ['I', 0]]],
                                 'O': ['I', min(first)], 'E': ['I', 0], 'N': ['I', 1], 'T': ['I', pb]}])
            a_nums, b_nums = first | {lin}, (set(new) - first) | {0}
            if stream:
                x1, x2 = maxnum + 1, maxnum + 2
                self.maxnum += 2
                self.internal |= {x1, x2}
                a_nums, b_nums = a_nums | {x1}, b_nums | {x2}
            tr = self.trailer_dict(r, pb)
            tr2 = self.trailer_dict(r, None)
            w = {'Type': ['N', 'XRef'], 'W': ['A', [['I', 1], ['I', 4], ['I', 2]]]}
            pa = len(self.out)
            if stream:
                self.fixed_xref(x1, a_nums, dict(w), tr)
            else:
                self.write_table(a_nums, tr)
            self.starts.append((len(self.out), 0))
            self.out += b'startxref' + self.eol + b'0' + self.eol + b'%%EOF' + self.eol
            for n in sorted(first) + [n for n in nums if n not in first]:
                self.put(n, new[n])
            pb = len(self.out)
            if stream:
                self.fixed_xref(x2, b_nums, dict(w), tr2)
            else:
                self.write_table(b_nums, tr2)
            self.starts.append((len(self.out), pa))
            self.out += b'startxref' + self.eol + b'%d' % pa + self.eol + b'%%EOF' + self.eol
            if last == bytes(self.out):
                break
            last = bytes(self.out)
        else:
            raise ValueError('linearized layout did not settle')
        self.cuts.append(len(self.out))
        self.xref_positions.append(pa)
        self.record(r)
        return pa

    def fixed_xref(self, num, nums, d, trailer):
        self.off[num] = ('n', len(self.out))
        raw, index, start = b'', [], len(self.entries)
        for sub in self.subsections(nums):
            index += [['I', sub[0]], ['I', len(sub)]]
            for n in sub:
                e = self.off.get(n, ('f',))
                if n == 0 or e[0] == 'f':
                    raw += b'\x00\x00\x00\x00\x00\xff\xff'
                    self.entries.append((n, 65535, 'abs', 0, 'free'))
                else:
                    raw += b'\x01' + e[1].to_bytes(4, 'big') + self.gen(n).to_bytes(2, 'big')
                    self.entries.append((n, self.gen(n), 'abs', e[1], 'inuse'))
        self.sections.append((len(self.out), 'stream', self.entries[start:]))
        d['Index'] = ['A', index]
        d.update(trailer)
        self.put_raw_stream(num, d, raw, None)


def build(f):
    return Build(f)


# ------------------------------------------------------------------------- random documents

# what would be markup in a page that failed to escape it
MARKUP = ['<i>&lt;', '&amp;x', '</pre><b>', '"&#65;"', '<a href="#idx0">', '&', '<!-- ', '</details>']

FILLER = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789'


def rnd_scalar(rng, nums):
    k = rng.randrange(9)
    if k == 0:
        return ['I', rng.choice([0, 1, -1, 7, 255, 256, 65535, -32768, rng.randrange(-10**6, 10**9)])]
    if k == 1:
        return ['F', rng.choice(['0.5', '-1.25', '612.0', '+3.75', '.5', '100.001', '-0.25', '0.00001', '4.', '12345678.5'])]
    if k == 2:
        return ['B', rng.random() < .5]
    if k == 3:
        return ['N', rng.choice(['Name', 'A', 'DeviceRGB', 'X1', 'a.b', 'A+B', 'K-1', 'N&lt;', "A'&amp", 'F#20g', 'Longer_Name-with.marks*and!more'])]
    if k == 4:
        return ['S', rnd_text(rng), rng.choice(['lit', 'lit', 'oct', 'short', 'cont', 'bal', 'bal'])]
    if k == 5:
        return ['S', rnd_text(rng), rng.choice(['hex', 'hex', 'hexl', 'hexs', 'hexo'])]
    if k == 6:
        return ['Z']
    if nums:
        n = rng.choice(nums)
        return n if isinstance(n, list) else ['R', n]
    return ['I', 3]


def rnd_text(rng):
    n = rng.randrange(0, 12)
    hard = rng.random() < .3
    if rng.random() < .06:
        return rng.choice(MARKUP)
    s = ''.join(rng.choice(FILLER + ' -_:,;.' + ('()\\<>[]/%\n\t' if hard else '')) for _ in range(n))
    r = rng.random()
    if r < .1:
        s += chr(rng.randrange(128, 256)) * 2
    return s


def rnd_value(rng, nums, depth=0):
    if depth == 0 and rng.random() < .04:
        v = rnd_scalar(rng, nums)
        for _ in range(rng.randrange(16, 40)):
            v = ['A', [v]] if rng.random() < .5 else ['D', {'K': v}]
        return v
    if depth >= 3 or rng.random() < .5:
        return rnd_scalar(rng, nums)
    if rng.random() < .5:
        return ['A', [rnd_value(rng, nums, depth + 1) for _ in range(rng.randrange(0, 5))]]
    d = {k: rnd_value(rng, nums, depth + 1) for k in rng.sample(['A', 'B', 'Kx', 'Name1', 'Zeta', 'Q2', 'Flag', 'K&lt;', 'JS', 'Prev', 'Next', 'Dest', 'Root', 'N', 'W', 'First'], rng.randrange(0, 5))}
    if rng.random() < .15:
        d[rng.choice(['Type', 'Subtype'])] = ['N', rng.choice(['Thing', 'Widget', 'JavaScript'])]
    return ['D', d]


KEYWORDS = ['1 0 obj', '<< /Type /Catalog /Pages 2 0 R >>', '[ 3 0 R (a) ]', 'endobj', 'xref', '0 1', '0000000000 65535 f ', 'trailer',
            '<< /Size 1 /Root 1 0 R >>', 'startxref', '12', '%%EOF', 'stream', '2 0 obj << /Length 3 >> stream']


def rnd_data(rng):
    k = rng.randrange(8)
    if k == 7:
        # a file in the file
        return '%PDF-1.4\n' + ''.join(rng.choice(KEYWORDS) + rng.choice('\n\n ') for _ in range(rng.randrange(1, 12)))
    if k == 6:
        return rng.choice(MARKUP) * rng.randrange(1, 4)
    n = rng.choice([0, 1, 2, 5, 17, 60, 200])
    if rng.random() < .004:
        return 'a long text that repeats itself ' * rng.choice([300, 2100, 4200])
    if k == 0:
        return ''.join(chr(rng.randrange(256)) for _ in range(n)).replace('endstream', 'x')
    if k == 1:
        return 'q 1 0 0 1 0 0 cm ' * rng.randrange(1, 6) + rng.choice(['', '\n', '\r', '\r\n', ' '])
    if k == 2:
        return '\x00\x01\xff' * rng.randrange(1, 20)
    return ''.join(rng.choice(FILLER + ' \n') for _ in range(n)) + rng.choice(['', '\n', '\r'])


FILTERS = [None, 'FlateDecode', 'ASCIIHexDecode', 'ASCII85Decode', None, 'FlateDecode', ['FlateDecode'],
           ['ASCIIHexDecode', 'FlateDecode'], ['ASCII85Decode', 'ASCIIHexDecode']]
# what the library does not decode is kept as it is
OTHERFILTERS = ['DCTDecode', ['ASCIIHexDecode', 'DCTDecode'], 'LZWDecode', 'RunLengthDecode', ['CCITTFaxDecode'], 'JBIG2Decode', 'JPXDecode',
                ['ASCII85Decode', 'LZWDecode']]


def rnd_stream(rng, nums, data=None):
    d = {k: rnd_scalar(rng, nums) for k in rng.sample(['Sub', 'Meta', 'Rz'], rng.randrange(0, 3))}
    if data is None:
        data = rnd_data(rng)
    filt = rng.choice(FILTERS)
    st = ['ST', d, data, filt]
    if filt and (filt if isinstance(filt, str) else filt[-1]) == 'FlateDecode' and rng.random() < .3 and data:
        o = {'pred': max(k for k in range(1, 9) if len(data) % k == 0)}
        x = rng.random()
        if x < .5:
            o['tags'] = [rng.randrange(5) for _ in range(rng.randrange(1, 6))]
        elif x < .6:
            o['tiff'] = True
        c = rng.choice([1, 3, 4])
        if c > 1 and len(data) % c == 0 and x < .9:
            o['colors'] = c
            o['pred'] = max(k for k in range(1, 9) if len(data) // c % k == 0)
        st.append(o)
    return st


class DocGen:
    """Random document with a page tree; objects numbered by a random permutation."""

    def __init__(self, rng, npages=None, extras=None, gaps=True, cyclic=True, simple=False, broken=True, huge=False):
        self.rng = rng
        self.objs = {}
        self.ids = iter(range(1, 100000))
        self.npages = npages or rng.choice([1, 1, 2, 2, 3, 3, 4, 4, 6, 11])
        r = rng
        cat, root = self.new(), self.new()
        self.cat = cat
        self.pagenums = []
        self.serial = r.randrange(1, 10 ** 6)
        self.swarm = {k: r.random() < .3 for k in ('inhres', 'direct_annots', 'xobj', 'indirect_contents', 'indirect_res',
                                                   'indirect_attr', 'outline', 'shared', 'fonts', 'texts', 'rows', 'broken')}
        self.lines = {}
        self.fonts = [self.mkfont(r, i) for i in range(r.choice([1, 2, 3, 4]) if self.swarm['fonts'] else 1)]
        self.xobj = None
        if self.swarm['xobj']:
            self.xobj = self.new()
            self.objs[self.xobj] = ['ST', {'Type': ['N', 'XObject'], 'Subtype': ['N', 'Form'],
                                           'BBox': ['A', [['I', 0], ['I', 0], ['I', 9], ['I', 9]]],
                                           'Resources': ['D', {'Font': ['D', {'F1': ['R', self.fonts[0][0]]}]}]},
                                    'q Q', r.choice([None, 'FlateDecode'])]
        self.ress = [self.mkres(r) for _ in range(r.choice([1, 2, 3]) if self.swarm['fonts'] else 1)]
        self.objs[root] = self.tree(root, None, self.npages, 0, None)
        catd = {'Type': ['N', 'Catalog'], 'Pages': ['R', root]}
        self.objs[cat] = ['D', catd]
        self.info = None
        if r.random() < .7:
            self.info = self.new()
            d = {k: ['S', k + ' of ' + str(self.serial), r.choice(STYLES)]
                 for k in r.sample(['Title', 'Author', 'Subject', 'Keywords', 'Creator', 'Producer'], r.randrange(1, 5))}
            if r.random() < .3:
                for k in d:
                    d[k][1] = r.choice([d[k][1], d[k][1] + ' ' + ''.join(chr(r.choice([*range(0x18, 0x20), *range(0x80, 0x9f), *range(0xa0, 0x100)]))
                                                                         for _ in range(6)),
                                        ('\ufeff' + k + r.choice([' \xe9\u20ac(\u6f22)', ' \U0001f600', ' \u0d0a \\', ''])).encode('utf-16-be').decode('latin-1')])
            if r.random() < .5:
                d['CreationDate'] = ['S', 'D:20240102030405Z', 'lit']
            self.objs[self.info] = ['D', d]
        if cyclic and self.npages > 1 and r.random() < .5:
            for p in r.sample(self.pagenums, min(2, len(self.pagenums))):
                a = self.new()
                self.objs[a] = ['D', {'Type': ['N', 'Annot'], 'Subtype': ['N', 'Link'], 'P': ['R', p],
                                      'Rect': ['A', [['I', 0], ['I', 0], ['I', 10], ['I', 10]]],
                                      'Dest': ['A', [['R', r.choice(self.pagenums)], ['N', 'Fit']]]}]
                self.objs[p][1]['Annots'] = ['A', [['R', a]]]
                if r.random() < .2:
                    self.objs[p][1]['Annots'] = ['A', [['D', {'Type': ['N', 'Annot'], 'Subtype': ['N', 'Text'], 'Rect': self.objs[a][1]['Rect'],
                                                              'Contents': ['S', 'note', 'lit']}], ['R', a]]]
                if not self.swarm['direct_annots']:
                    b = self.new()
                    self.objs[b] = self.objs[p][1]['Annots']
                    self.objs[p][1]['Annots'] = ['R', b]
        self.extras = []
        self.lens = []
        n = r.randrange(0, 6) if extras is None else extras
        many = extras is None and r.random() < .02
        if many:
            n = r.choice([60, 130, 270])
        for _ in range(n):
            e = self.new()
            self.extras.append(e)
        # references to objects that are nowhere stand for null
        self.dangling = [self.new() for _ in range(r.choice([1, 2]))] if r.random() < .15 else []
        for d in self.dangling:
            if r.random() < .5:
                for p in r.sample(self.pagenums, min(2, len(self.pagenums))):
                    self.objs[p][1]['Ghost'] = ['R', d]
        links = self.extras + self.dangling * 2
        for e in self.extras:
            if many and r.random() < .95:
                self.objs[e] = ['D', {'To': rnd_scalar(r, links)}]
            elif r.random() < .3:
                self.objs[e] = rnd_stream(r, links)
                if r.random() < .15:
                    self.objs[e][3:] = [r.choice(OTHERFILTERS)]
                elif broken and self.swarm['broken'] and self.objs[e][3]:
                    # encoded data that cannot be decoded
                    self.objs[e][4:] = [{'broken': 1}]
                elif r.random() < .2:
                    ln = self.new()
                    self.objs[ln] = ['I', 0]
                    self.lens.append(ln)
                    self.objs[e][2] = self.objs[e][2].rstrip('\r\n').replace('endstream', '')
                    self.objs[e][4:] = [{**(self.objs[e] + [{}])[4], 'lenref': ln}]
                    self.objs[e][4].pop('pred', None)
                    while encode(self.objs[e][2].encode('latin-1'), self.objs[e][3], self.objs[e][4])[-1:] in (b'\r', b'\n'):
                        self.objs[e][2] += 'x'
            else:
                self.objs[e] = rnd_value(r, links, 0 if r.random() < .7 else 3)
                if self.objs[e][0] in 'RZ':
                    self.objs[e] = ['D', {'To': self.objs[e]}]
        if self.extras and r.random() < .8:
            catd['Extra'] = ['A', [['R', e] for e in self.extras]]
        if r.random() < .3:
            catd['Version'] = ['N', r.choice(['1.7', '1.7', '1.3', '1.5', '1.6'])]
        if self.swarm['shared'] and self.extras:
            for p in self.pagenums:
                if r.random() < .5:
                    self.objs[p][1]['Priv'] = ['R', r.choice(links)]
        if self.swarm['outline']:
            o, items = self.new(), [self.new() for _ in range(r.randrange(1, 4))]
            for i, n in enumerate(items):
                d = {'Title': ['S', f'Chapter {i}', 'lit'], 'Parent': ['R', o], 'Dest': ['A', [['R', r.choice(self.pagenums)], ['N', 'Fit']]]}
                if i:
                    d['Prev'] = ['R', items[i - 1]]
                if i < len(items) - 1:
                    d['Next'] = ['R', items[i + 1]]
                self.objs[n] = ['D', d]
            self.objs[o] = ['D', {'Type': ['N', 'Outlines'], 'First': ['R', items[0]], 'Last': ['R', items[-1]], 'Count': ['I', len(items)]}]
            catd['Outlines'] = ['R', o]
            if r.random() < .5:
                catd['OpenAction'] = ['A', [['R', r.choice(self.pagenums)], ['N', 'Fit']]]
        # numbering
        order = list(self.objs)
        nums = list(range(1, len(order) + 1))
        if gaps and r.random() < (.9 if self.dangling else .4):
            nums = sorted(r.sample(range(1, len(order) + 6), len(order)))
        if huge or r.random() < .06:
            # a large gap
            k, by = r.randrange(len(nums)), 66000 if huge else r.choice([200, 240, 260, 700, 3000])
            nums[k:] = [x + by for x in nums[k:]]
        if r.random() < .5:
            r.shuffle(nums)
        self.map = dict(zip(order, nums))
        gap = [n for n in range(1, max(nums)) if n not in nums]
        for d in self.dangling:
            self.map[d] = gap.pop(r.choice([0, r.randrange(len(gap))])) if gap and r.random() < .6 else 4000 + d

    def new(self):
        return next(self.ids)

    def mkfont(self, r, i):
        """(object, kind) of a font; kind says how text is written with it."""
        n = self.new()
        kind = r.choice(['simple', 'simple', 'simple', 'truetype', 'builtin', 'dict', 'type0', 'cmap']) if self.swarm['fonts'] else 'simple'
        d = {'Type': ['N', 'Font'], 'Subtype': ['N', 'Type1'], 'BaseFont': ['N', r.choice(['Helvetica', 'Helvetica', 'Times-Roman', 'ABCDEF+Some-Font'])]}
        self.objs[n] = ['D', d]
        if kind in ('simple', 'truetype', 'cmap'):
            d['Encoding'] = ['N', r.choice(['MacRomanEncoding', 'WinAnsiEncoding'])]
        if kind == 'truetype':
            d['Subtype'] = ['N', 'TrueType']
            d['FirstChar'], d['LastChar'] = ['I', 32], ['I', 126]
            d['Widths'] = ['A', [['I', 500 + c % 7] for c in range(32, 127)]]
            if r.random() < .5:
                w = self.new()
                self.objs[w] = d['Widths']
                d['Widths'] = ['R', w]
        if kind == 'dict':
            d['Encoding'] = ['D', {'Type': ['N', 'Encoding'], 'Differences': ['A', [['I', 1], ['N', 'bullet']]]}]
            if r.random() < .5:
                e = self.new()
                self.objs[e] = d['Encoding']
                d['Encoding'] = ['R', e]
        if kind in ('type0', 'cmap'):
            u = self.new()
            w = 4 if kind == 'type0' else 2
            shift = 3 if kind == 'type0' else 0
            x = r.random()
            if x < .4:
                # sections of all forms, in any order
                hx = lambda c: '<%0*X>' % (w, c + shift)
                marks = [32, *sorted(r.sample(range(33, 127), r.randrange(1, 5))), 127]
                sections = []
                for a, z in zip(marks, marks[1:]):
                    how = r.choice(['array', 'range', 'chars'])
                    if how == 'chars':
                        sections.append((z - a, 'bfchar', ''.join(f'{hx(c)} <{c:04X}>\n' for c in range(a, z))))
                    elif how == 'array':
                        sections.append((1, 'bfrange', f'{hx(a)} {hx(z - 1)} [' + ' '.join('<%04X>' % c for c in range(a, z)) + ']\n'))
                    else:
                        sections.append((1, 'bfrange', f'{hx(a)} {hx(z - 1)} <{a:04X}>\n'))
                r.shuffle(sections)
                body = ''.join(f'{n} begin{k}\n{lines}end{k}\n' for n, k, lines in sections)
            elif x < .6:
                body = '1 beginbfrange\n<%0*X> <%0*X> <0020>\nendbfrange\n' % (w, 32 + shift, w, 126 + shift)
            else:
                body = '95 beginbfchar\n' + ''.join('<%0*X> <%04X>\n' % (w, c + shift, c) for c in range(32, 127)) + 'endbfchar\n'
            cm = ('/CIDInit /ProcSet findresource begin\n12 dict begin\nbegincmap\n/CMapType 2 def\n1 begincodespacerange\n<%s> <%s>\nendcodespacerange\n'
                  % ('0' * w, 'F' * w) + body + 'endcmap\nend\nend')
            self.objs[u] = ['ST', {}, cm, r.choice([None, 'FlateDecode'])]
            d['ToUnicode'] = ['R', u]
        if kind == 'type0':
            c = self.new()
            self.objs[c] = ['D', {'Type': ['N', 'Font'], 'Subtype': ['N', 'CIDFontType2'], 'BaseFont': d['BaseFont'],
                                  'CIDSystemInfo': ['D', {'Registry': ['S', 'Adobe', 'lit'], 'Ordering': ['S', 'Identity', 'lit'], 'Supplement': ['I', 0]}],
                                  'DW': ['I', 1000]}]
            if r.random() < .5:
                self.objs[c][1]['W'] = ['A', [['I', 35], ['A', [['I', 300], ['I', 400]]], ['I', 40], ['I', 90], ['I', 550]]]
            d['Subtype'], d['Encoding'] = ['N', 'Type0'], ['N', 'Identity-H']
            d['DescendantFonts'] = ['A', [['R', c]]]
        return n, kind

    def mkres(self, r):
        """(value, kind of its /F1)"""
        n, kind = r.choice(self.fonts)
        fd = {'F1': ['R', n]}
        if self.swarm['fonts']:
            for k in ('F2', 'G'):
                if r.random() < .4:
                    fd[k] = ['R', r.choice(self.fonts)[0]]
        fv = ['D', fd]
        if self.swarm['fonts'] and r.random() < .3:
            x = self.new()
            self.objs[x] = fv
            fv = ['R', x]
        res = ['D', {'Font': fv}]
        if self.xobj:
            res[1]['XObject'] = ['D', {'X1': ['R', self.xobj]}]
        if self.swarm['indirect_res']:
            x = self.new()
            self.objs[x] = res
            res = ['R', x]
        return res, kind

    def shown(self, r, text, kind):
        """Operands and operator showing a text with a font of that kind."""
        if self.swarm['texts'] and len(text) > 3 and r.random() < .5:
            k = r.randrange(2, len(text) - 1)
            return f'[{self.one(text[:k], kind)} {r.choice(["-10", "20", "0", "-3.5", "-700"])} {self.one(text[k:], kind)}] TJ'
        return self.one(text, kind) + ' Tj'

    def one(self, t, kind):
        if kind == 'type0':
            return '<' + ''.join('%04X' % (ord(c) + 3) for c in t) + '>'
        if kind == 'cmap' and self.swarm['texts']:
            return '<' + ''.join('%02X' % ord(c) for c in t) + '>'
        if self.swarm['texts'] and self.rng.random() < .5:
            return ser_string(t.encode('latin-1'), self.rng.choice(STYLES)).decode('latin-1')
        return '(' + t + ')'

    def written(self, r, tag, kind):
        """Content of a page, whose rows are kept in self.lines: a list of the strings of every row from the top."""
        name = f'Page{tag}'
        self.lines[tag] = [[name]]
        if not self.swarm['rows']:
            return f'BT /F1 12 Tf 50 700 Td {self.shown(r, name, kind)} ET'
        rows = self.lines[tag]
        mode = r.choice(['abs', 'abs', 'td', 'TD', 'leading', 'quote', 'quotes', 'cm', 'scale', 'unit', 'glyphs', 'rise', 'turned', 'empty'])
        step = r.choice([14, 16, 20, 12.5])
        for i in range(r.randrange(0, 6)):
            rows.append([f'r{i}'])
        for i, row in enumerate(rows):
            # too few in the last column to say something about the distance of rows
            for k in range(r.choice([0, 0, 1, 2 if i < 2 else 1]) if mode in ('abs', 'td', 'cm', 'scale', 'unit', 'rise') else 0):
                row.append(r.choice(['abc', 'x1', 'end.', 'Q-9', 'it']))
        xs = [50, 210, 370]
        at = [(50 if not k else xs[k], 700 - i * step, t) for i, row in enumerate(rows) for k, t in enumerate(row)]
        show = lambda t: self.shown(r, t, kind)
        idle = lambda: r.choice(['', '', '0 Tc ', '0 Tw ', '100 Tz ', '0 Tr ', '0 Ts ', '0 g '])
        num = lambda x: f'{x:g}'
        if mode in ('abs', 'unit', 'glyphs', 'rise', 'cm', 'scale', 'turned', 'empty'):
            if mode != 'rise':
                r.shuffle(at)
            out = []
            for x, y, t in at:
                if mode == 'abs':
                    out.append(f'BT /F1 12 Tf {idle()}1 0 0 1 {num(x)} {num(y)} Tm {show(t)} ET')
                elif mode == 'turned':
                    out.append(f'BT /F1 12 Tf 0 1 -1 0 {num(x)} {num(y)} Tm {show(t)} ET')
                elif mode == 'empty':
                    out.append(f'BT /F1 12 Tf 1 0 0 1 {num(x)} {num(y)} Tm {show(t)} {self.one("", kind)} Tj ET')
                elif mode == 'unit':
                    out.append(f'BT /F1 1 Tf 12 0 0 12 {num(x)} {num(y)} Tm {show(t)} ET')
                elif mode == 'glyphs':
                    out += [f'BT /F1 12 Tf 1 0 0 1 {num(x + 6 * j)} {num(y)} Tm {show(c)} ET' for j, c in enumerate(t)]
                elif mode == 'rise':
                    k = r.choice([0, 1, -1]) if x > 50 else 0
                    out.append(f'BT /F1 12 Tf {k} Ts {num(x)} {num(y)} Td {show(t)} ET')
                elif mode == 'cm':
                    out.append(f'q 1 0 0 1 {num(x)} {num(y)} cm BT /F1 12 Tf {idle()}0 0 Td {show(t)} ET Q')
                else:
                    out.append(f'q 2 0 0 2 0 0 cm BT /F1 6 Tf {num(x / 2)} {num(y / 2)} Td {show(t)} ET Q')
            return r.choice(['\n', ' ']).join(out)
        out = ['BT /F1 12 Tf']
        if mode == 'td':
            px, py = 0, 0
            for x, y, t in at:
                out.append(f'{num(x - px)} {num(y - py)} Td {show(t)}')
                px, py = x, y
        elif mode == 'TD':
            for i, (x, y, t) in enumerate(at):
                out.append((f'{num(x)} {num(y)} Td ' if i == 0 else f'0 {num(-step)} TD ' if i == 1 else 'T* ') + show(t))
        else:
            out.append(f'{num(step)} TL 50 {num(700 + (step if mode != "leading" else 0))} Td')
            for i, (x, y, t) in enumerate(at):
                one = self.one(t, kind)
                if mode == 'leading':
                    out.append(('T* ' if i else '') + show(t))
                elif mode == 'quote':
                    out.append(f"{one} '")
                else:
                    out.append(f'0 0 {one} "')
        return r.choice(['\n', ' ']).join(out + ['ET'])

    def attr(self, v):
        """The value, or a reference to it."""
        if self.swarm['indirect_attr'] and self.rng.random() < .5:
            n = self.new()
            self.objs[n] = v
            return ['R', n]
        return v

    def tree(self, me, parent, n, depth, kind):
        r = self.rng
        d = {'Type': ['N', 'Pages']}
        if self.swarm['inhres'] and (depth == 0 or r.random() < .3):
            d['Resources'], kind = r.choice(self.ress)
        if parent:
            d['Parent'] = ['R', parent]
        kids = []
        left = n
        while left:
            if depth < 3 and left > 1 and r.random() < .4:
                k = r.randrange(1, left)
                node = self.new()
                self.objs[node] = ['Z']
                self.objs[node] = self.tree(node, me, k, depth + 1, kind)
                kids.append(node)
                left -= k
            else:
                kids.append(self.page(me, kind))
                left -= 1
        d['Kids'] = ['A', [['R', k] for k in kids]]
        d['Count'] = ['I', n]
        if depth == 0 or r.random() < .3:
            x, y = r.choice([(0, 0), (0, 0), (0, 0), (10, 20), (-30, 0), (0, 7)])
            d['MediaBox'] = self.attr(['A', [['I', x], ['I', y], ['I', x + r.choice([612, 595, 300])], ['I', y + r.choice([792, 842, 400])]]])
        if r.random() < .25:
            d['Rotate'] = self.attr(['I', r.choice([0, 90, 180, 270])])
        if r.random() < .2:
            d['CropBox'] = ['A', [['I', 5], ['I', 5], ['I', 200], ['I', 200]]]
        return ['D', d]

    def page(self, parent, kind):
        r = self.rng
        me = self.new()
        self.pagenums.append(me)
        tag = self.serial * 100 + len(self.pagenums)
        c = self.new()
        res, k = r.choice(self.ress)
        if kind and r.random() < .6:
            res, k = None, kind
        self.objs[c] = rnd_stream(r, [], self.written(r, tag, k) + r.choice(['', '\n', ' ']))
        self.objs[c][1] = {}
        cv = ['R', c]
        cut = [m.start() for m in re.finditer(r' (?=(Td|Tf|Tm|BT|ET)\b)', self.objs[c][2])]
        if cut and len(self.objs[c]) == 4 and r.random() < .1:
            # between two tokens
            k = r.choice(cut)
            c2 = self.new()
            self.objs[c2] = ['ST', {}, self.objs[c][2][k+1:], r.choice([None, 'FlateDecode'])]
            self.objs[c][2] = self.objs[c][2][:k]
            cv = ['A', [['R', c], ['R', c2]]]
        elif r.random() < .3:
            c2 = self.new()
            self.objs[c2] = ['ST', {}, 'q Q' + r.choice(['', '\n']), r.choice([None, 'FlateDecode'])]
            cv = ['A', [['R', c], ['R', c2]]]
            if self.swarm['indirect_contents']:
                c3 = self.new()
                self.objs[c3] = cv
                cv = ['R', c3]
        d = {'Type': ['N', 'Page'], 'Parent': ['R', parent], 'Contents': cv, 'Tag': ['I', tag]}
        if res:
            d['Resources'] = res
        if r.random() < .3:
            d['MediaBox'] = self.attr(['A', [['I', 0], ['I', 0], ['I', 500], ['I', r.choice([500, 700])]]])
        if r.random() < .3:
            d['Rotate'] = self.attr(['I', r.choice([0, 90, 180, 270])])
        self.objs[me] = ['D', d]
        return me

    def numbered(self, gens=None):
        def f(v):
            if v[0] == 'R':
                n = self.map[v[1]]
                return ['R', n, gens[n]] if gens and n in gens else ['R', n]
            if v[0] == 'A':
                return ['A', [f(x) for x in v[1]]]
            if v[0] in ('D', 'ST'):
                w = [v[0], {k: f(x) for k, x in v[1].items()}] + v[2:]
                if len(w) > 4 and 'lenref' in w[4]:
                    w[4] = {**w[4], 'lenref': self.map[w[4]['lenref']]}
                return w
            return v
        return {self.map[k]: f(v) for k, v in self.objs.items()}


def grow(rng, f, size=None):
    """Make the file larger than the usual buffers: a long unused stream in the first revision."""
    r = f['revs'][0]
    size = size or rng.choice([3000, 9000, 20000] * 4 + [70000, 140000])
    text = ''.join(chr(32 + (i * i + 7 * i) % 90) for i in range(size)).replace('endstream', '')
    n = build(f).maxnum + 1 if len(f['revs']) == 1 else None
    if n is None:
        c = [int(k) for k, v in r['set'].items() if v[0] == 'ST' and 'Tj' not in v[2] and not (len(v) > 4)]
        n = next((k for k in c if k in f['extras']), None)
        if n is None and c and r['set'][str(c[0])][2][:3] == 'q Q':
            n, text = c[0], 'q 1 0 0 1 0 0 cm Q\n' * (size // 19)
        if n is None:
            return
    r['set'][str(n)] = ['ST', {}, text, rng.choice([None, None, 'ASCIIHexDecode'])]


LAYOUTS = ['table', 'table', 'table', 'stream', 'stream', 'stream', 'hybrid', 'hybridiso', 'linear', 'linstream']


def climb(live, setd, n, by):
    """Change /Count from a page tree node up to the root."""
    while True:
        if n not in setd:
            setd[n] = ['D', dict(live[n][1])]
        d = setd[n][1]
        d['Count'] = ['I', d['Count'][1] + by]
        if 'Parent' not in d:
            return
        n = d['Parent'][1]


def gref(f, n):
    g = f.get('gens', {}).get(str(n), 0)
    return ['R', n, g] if g else ['R', n]


def rnd_file(rng, layouts=None, nrevs=None, **kw):
    """Random file plan."""
    g = DocGen(rng, **kw)
    m = g.map
    gens = {}
    if rng.random() < .15:
        some = list(g.objs) if rng.random() < .5 else g.extras
        gens = {m[e]: rng.choice([1, 1, 2, 7, 99, 300, 65534]) for e in some if rng.random() < .4}
    objs = g.numbered(gens)
    layout = 'stream' if kw.get('huge') else rng.choice(layouts or LAYOUTS)
    f = {'ver': rng.choice(['1.4', '1.5', '1.7']), 'eol': rng.choice(['\n', '\n', '\n', '\r\n', '\r\n', '\r']),
         'binmark': rng.random() < .5, 'spacing': rng.choice(['compact', 'compact', 'spaced', 'spaced', 'lines', 'lines', 'white', 'comments']),
         'layout': layout, 'tight': rng.random() < .3, 'lowenv': rng.random() < .3, 'wide': rng.choice([0, 0, 1, 2]), 'index': rng.random() < .5,
         'frame': rng.choice([None, None, None, 'tight', 'line', 'loose']), 'noeol': rng.random() < .1, 'glued': rng.random() < .12,
         'sparse': bool(kw.get('huge')) or rng.random() < .3,
         'note': rng.choice([None, None, None, '<i>&lt;', ' a note', '<!--'])}
    if rng.random() < .4:
        f.update(w3=rng.choice([0, 0, 1, 3]), f0=rng.choice([0, 255]), w1=rng.choice([0, 1]))
    revs = []
    n = nrevs or rng.choice([1, 1, 1, 1, 2, 2, 2, 3, 3, 6])
    if gens:
        f['gens'] = {str(k): v for k, v in gens.items()}
    extras = [m[e] for e in g.extras]
    links = [gref(f, e) for e in extras]
    lens = {m[e] for e in g.lens}
    # a reader that does not know hybrid files has to do without what is packed there
    keepout = sorted({m[e] for e in g.objs} - (set(extras) - lens))
    pages = [m[p] for p in g.pagenums]
    root, info = m[g.cat], m[g.info] if g.info else None
    live = dict(objs)
    ident = rng.random() < .5
    filters = [None, 'Flate', 'Pred', 'AHx', 'A85']
    reserve = max(objs) + 1

    def rev(setd, free):
        order = list(setd)
        if rng.random() < .5:
            rng.shuffle(order)
        return {'set': {str(k): v for k, v in setd.items()}, 'free': free, 'root': root, 'info': info, 'id': ident,
                'order': order, 'pack': [k for k in setd if rng.random() < .6] if rng.random() < .7 else [],
                'xfilter': rng.choice(filters), 'stmfilter': rng.choice([None, 'Flate', 'Flate']),
                'split': rng.choice([0, 0, 0, 1, 2]), 'no0': rng.random() < .3, 'packs': rng.choice([0, 0, 1, 2, 5]),
                'comment': rng.choice([None, None, 'a comment line']), 'keepout': keepout}
    if g.dangling:
        f['ghosts'] = [m[d] for d in g.dangling]
        f['lowenv'] = rng.random() < .6
    r0 = rev(objs, [])
    r0['first'] = [pages[0], root]
    r0['comment'] = None
    revs.append(r0)
    f['revs'] = revs
    for _ in range(1, n):
        # numbers for new objects must avoid the streams the layout allocates
        reserve = build(f).maxnum + 1
        setd = {}
        for p in pages:
            if rng.random() < .3:
                v = ['D', dict(live[p][1])]
                v[1]['Rotate'] = ['I', rng.choice([0, 90, 180, 270])]
                setd[p] = v
        for e in extras:
            if e in live and rng.random() < .4:
                v = rnd_stream(rng, links) if rng.random() < .3 else rnd_value(rng, links)
                setd[e] = ['D', {'To': v}] if v[0] in 'RZ' else v
        free = [e for e in extras if e in live and e not in setd and rng.random() < .2]
        if rng.random() < .25 and len(pages) > 1:
            p = rng.choice(pages)
            up = live[p][1]['Parent'][1]
            if len(live[up][1]['Kids'][1]) > 1 and p not in setd:
                node = ['D', dict(live[up][1])]
                node[1]['Kids'] = ['A', [k for k in node[1]['Kids'][1] if k[1] != p]]
                setd[up] = node
                climb(live, setd, up, -1)
                pages.remove(p)
                free.append(p)
        elif rng.random() < .25:
            up = live[rng.choice(pages)][1]['Parent'][1]
            node = ['D', dict(live[up][1])]
            kids = list(node[1]['Kids'][1])
            kids.insert(rng.randrange(len(kids) + 1), ['R', reserve])
            node[1]['Kids'] = ['A', kids]
            setd[up] = node
            climb(live, setd, up, 1)
            g.pagenums.append(None)
            tag = g.serial * 100 + len(g.pagenums)
            setd[reserve] = ['D', {'Type': ['N', 'Page'], 'Parent': gref(f, up), 'Contents': ['R', reserve + 1], 'Tag': ['I', tag],
                                   'Resources': ['D', {'Font': ['D', {'F1': gref(f, m[g.fonts[0][0]])}]}]}]
            setd[reserve + 1] = rnd_stream(rng, [], g.written(rng, tag, g.fonts[0][1]))
            setd[reserve + 1][1] = {}
            pages.append(reserve)
            keepout += [reserve, reserve + 1]
            reserve += 2
        if rng.random() < .5 or not setd:
            setd[reserve] = ['D', {'Late': ['I', rng.randrange(100)]}]
            extras.append(reserve)
            links.append(['R', reserve])
        free = [k for k in free if k not in setd]
        for k in free:
            live.pop(k)
        live.update(setd)
        revs.append(rev(setd, free))
    f['extras'] = [e for e in extras if e in live]
    f['lines'] = {str(k): v for k, v in g.lines.items()}
    return f
