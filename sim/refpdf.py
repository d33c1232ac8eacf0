"""Independent strict reader for the PDF file structure (ISO 32000-1 chapter 7).

It shares no code with the library under test.  It is the oracle for the bytes
the library writes, and validates the files the generator makes.
"""
import re
import zlib
import binascii
import base64
from values import unlit

WS = b'\x00\t\n\x0c\r '
DELIM = b'()<>[]{}/%'


class Bad(Exception):
    """The bytes are not a well-formed PDF."""


class Lexer:
    def __init__(self, b, i=0):
        self.b = b
        self.i = i

    def skip(self):
        b = self.b
        while self.i < len(b):
            c = b[self.i]
            if c in WS:
                self.i += 1
            elif c == 0x25:
                while self.i < len(b) and b[self.i] not in b'\r\n':
                    self.i += 1
            else:
                return

    def tok(self):
        """(kind, value): num real name str kw [ ] << >> or None at the end."""
        self.skip()
        b, i = self.b, self.i
        if i >= len(b):
            return None, None
        c = b[i]
        if c == 0x2f:
            j = i + 1
            while j < len(b) and b[j] not in WS and b[j] not in DELIM:
                j += 1
            self.i = j
            return 'name', b[i+1:j].decode('latin-1')
        if c == 0x28:
            depth, j = 0, i
            while True:
                if j >= len(b):
                    raise Bad('unterminated string')
                if b[j] == 0x5c:
                    j += 2
                    continue
                if b[j] == 0x28:
                    depth += 1
                elif b[j] == 0x29:
                    depth -= 1
                    if not depth:
                        break
                j += 1
            self.i = j + 1
            return 'str', b[i:j+1]
        if c == 0x3c:
            if b[i+1:i+2] == b'<':
                self.i = i + 2
                return '<<', None
            j = b.find(b'>', i)
            if j < 0:
                raise Bad('unterminated hex string')
            self.i = j + 1
            return 'str', b[i:j+1]
        if c == 0x3e:
            if b[i+1:i+2] != b'>':
                raise Bad('stray >')
            self.i = i + 2
            return '>>', None
        if c in b'[]{}':
            self.i = i + 1
            return chr(c), None
        if c == 0x29:
            raise Bad('stray )')
        j = i
        while j < len(b) and b[j] not in WS and b[j] not in DELIM:
            j += 1
        self.i = j
        w = b[i:j]
        try:
            if w.lstrip(b'+-').isdigit():
                return 'num', int(w)
            if set(w) <= set(b'+-.0123456789') and w.count(b'.') == 1:
                return 'real', float(w)
        except ValueError:
            pass
        return 'kw', w.decode('latin-1')

    def value(self, t=None):
        k, v = t or self.tok()
        if k == 'num':
            save = self.i
            k2, g = self.tok()
            if k2 == 'num' and g >= 0 and v >= 0:
                k3, r = self.tok()
                if k3 == 'kw' and r == 'R':
                    return ('R', v) if g == 0 else ('R', v, g)
            self.i = save
            return ('I', v)
        if k == 'real':
            return ('F', v)
        if k == 'name':
            return ('N', v)
        if k == 'str':
            return ('S', unlit(v).decode('latin-1'))
        if k == '[':
            res = []
            while True:
                t = self.tok()
                if t[0] == ']':
                    return ('A', tuple(res))
                if t[0] is None:
                    raise Bad('unterminated array')
                res.append(self.value(t))
        if k == '<<':
            res = {}
            while True:
                t = self.tok()
                if t[0] == '>>':
                    return ('D', tuple(sorted(res.items())))
                if t[0] != 'name':
                    raise Bad(f'dictionary key expected, got {t}')
                if t[1] in res:
                    raise Bad(f'duplicate key {t[1]}')
                res[t[1]] = self.value()
        if k == 'kw' and v in ('true', 'false'):
            return ('B', v == 'true')
        if k == 'kw' and v == 'null':
            return ('Z',)
        raise Bad(f'unexpected token {k} {v}')


def dget(d, k, default=None):
    for a, b in d[1]:
        if a == k:
            return b
    return default


def unpredict(data, cols, bpp=1, tiff=False):
    out = bytearray()
    cols *= bpp
    prev = bytes(cols)
    if tiff:
        for i in range(0, len(data), cols):
            row = bytearray(data[i:i+cols])
            for j in range(bpp, len(row)):
                row[j] = (row[j] + row[j-bpp]) % 256
            out += row
        return bytes(out)
    for i in range(0, len(data), cols + 1):
        ft, row = data[i], bytearray(data[i+1:i+1+cols])
        if ft > 4:
            raise Bad('predictor')
        for j in range(len(row)):
            a, b, c = (row[j-bpp], prev[j], prev[j-bpp]) if j >= bpp else (0, prev[j], 0)
            if ft == 4:
                t = a + b - c
                d = min(abs(t - a), abs(t - b), abs(t - c))
                p = a if abs(t - a) == d else b if abs(t - b) == d else c
            else:
                p = (0, a, b, (a + b) // 2)[ft]
            row[j] = (row[j] + p) % 256
        out += row
        prev = bytes(row)
    return bytes(out)


def decode(data, d):
    f = dget(d, 'Filter')
    if f is None:
        return data
    fs = [f] if f[0] == 'N' else list(f[1])
    p = dget(d, 'DecodeParms')
    ps = [None] * len(fs) if p is None or p == ('Z',) else ([p] if p[0] == 'D' else list(p[1]))
    for (_, name), parm in zip(fs, ps):
        try:
            if name == 'FlateDecode':
                o = zlib.decompressobj()
                data = o.decompress(data) + o.flush()
                if not o.eof:
                    raise Bad('truncated Flate data')
                pred = (dget(parm, 'Predictor') or ('I', 1))[1] if parm and parm[0] == 'D' else 1
                if pred > 1:
                    data = unpredict(data, dget(parm, 'Columns', ('I', 1))[1], dget(parm, 'Colors', ('I', 1))[1], pred == 2)
            elif name == 'ASCIIHexDecode':
                s = bytes(c for c in data if c not in WS)
                if not s.endswith(b'>'):
                    raise Bad('ASCIIHex data without end marker')
                s = s[:-1]
                data = binascii.unhexlify(s + b'0' * (len(s) % 2))
            elif name == 'ASCII85Decode':
                data = base64.a85decode(b'<~' + data.strip(), adobe=True)
            else:
                return None
        except (zlib.error, ValueError) as e:
            raise Bad(f'cannot decode {name}: {e}')
    return data


class RefDoc:
    """One file: .sections (newest first), .trailer, .get(num)."""

    def __init__(self, data: bytes, strict_len=True):
        self.b = data
        self.strict_len = strict_len
        self.cache = {}
        self.objstm = {}
        self.size = 1 << 60
        k = data.rfind(b'startxref')
        if k < 0:
            raise Bad('no startxref')
        if b'%%EOF' not in data[k:]:
            raise Bad('no %%EOF after startxref')
        lx = Lexer(data, k + 9)
        t, pos = lx.tok()
        if t != 'num':
            raise Bad('startxref without number')
        self.startxref = pos
        self.sections = []
        self.entries = {}
        seen = set()
        todo = [pos]
        self.trailer = None
        self.hybrid = False
        while todo:
            pos = todo.pop(0)
            if pos in seen:
                raise Bad('xref cycle')
            seen.add(pos)
            ents, tr, kind = self._xref(pos)
            self.sections.append((pos, kind, ents, tr))
            if self.trailer is None:
                self.trailer = tr
            nxt = []
            x = dget(tr, 'XRefStm')
            if x and kind == 'table':
                # hybrid: what the table hides as free is looked up in the stream
                stm, _, k2 = self._xref(x[1])
                if k2 != 'stream':
                    raise Bad('/XRefStm does not lead to a cross-reference stream')
                self.hybrid = True
                used = {n: e for n, e in ents.items() if e[0] != 'f'}
                ents = {**ents, **stm, **used}
            for n, e in ents.items():
                self.entries.setdefault(n, e)
            p = dget(tr, 'Prev')
            if p:
                if p[0] != 'I':
                    raise Bad('/Prev is not an integer')
                nxt.append(p[1])
            todo = nxt + todo
        size = dget(self.trailer, 'Size')
        if not size or size[0] != 'I':
            raise Bad('no /Size')
        self.size = size[1]

    def _xref(self, pos):
        b = self.b
        if b[pos:pos+4] == b'xref':
            lx = Lexer(b, pos + 4)
            ents = {}
            while True:
                k, v = lx.tok()
                if k == 'kw' and v == 'trailer':
                    break
                if k != 'num':
                    raise Bad(f'xref subsection header expected, got {k} {v}')
                k, n = lx.tok()
                if k != 'num':
                    raise Bad('xref subsection count')
                start = v
                if b[lx.i:lx.i+2] == b' \n' or b[lx.i:lx.i+2] == b'\r\n' or b[lx.i:lx.i+2] == b' \r':
                    lx.i += 2
                elif b[lx.i:lx.i+1] in (b'\n', b'\r'):
                    lx.i += 1
                else:
                    raise Bad('xref subsection header not followed by an end of line')
                if b[lx.i:lx.i+1] == b'\n' and b[lx.i-2:lx.i] == b' \r':
                    lx.i += 1
                for x in range(n):
                    row = b[lx.i:lx.i+20]
                    if not (len(row) == 20 and row[:10].isdigit() and row[10:11] == b' ' and row[11:16].isdigit()
                            and row[16:17] == b' ' and row[17:18] in (b'n', b'f')
                            and row[18:20] in (b' \n', b' \r', b'\r\n')):
                        raise Bad(f'xref entry is not 20 bytes of the required form: {row!r}')
                    num = start + x
                    if num in ents:
                        raise Bad(f'object {num} twice in one xref section')
                    if row[17:18] == b'n':
                        ents[num] = ('n', int(row[:10]), int(row[11:16]))
                    else:
                        ents[num] = ('f', int(row[:10]), int(row[11:16]))
                    lx.i += 20
            tr = lx.value()
            if tr[0] != 'D':
                raise Bad('trailer is not a dictionary')
            return ents, tr, 'table'
        st = self._ind(pos, None)
        if st[0] != 'ST' or dget(('D', st[1]), 'Type') != ('N', 'XRef'):
            raise Bad(f'no xref at {pos}')
        d = ('D', st[1])
        w = [x[1] for x in dget(d, 'W')[1]]
        data = st[2]
        ix = dget(d, 'Index')
        size = dget(d, 'Size')
        if size is None:
            raise Bad('xref stream without /Size')
        ix = [x[1] for x in ix[1]] if ix else [0, size[1]]
        ents = {}
        p = 0
        for a, n in zip(ix[::2], ix[1::2]):
            for num in range(a, a + n):
                f = []
                for k in w:
                    if p + k > len(data):
                        raise Bad('xref stream too short')
                    f.append(int.from_bytes(data[p:p+k], 'big') if k else None)
                    p += k
                ty = 1 if f[0] is None else f[0]
                if num in ents:
                    raise Bad(f'object {num} twice in one xref stream')
                if ty == 0:
                    ents[num] = ('f', f[1], f[2] or 0)
                elif ty == 1:
                    ents[num] = ('n', f[1], f[2] or 0)
                elif ty == 2:
                    ents[num] = ('c', f[1], f[2] or 0)
                else:
                    raise Bad(f'xref stream entry type {ty}')
        if p != len(data):
            raise Bad('xref stream longer than its index')
        return ents, d, 'stream'

    def _ind(self, pos, want, wantgen=None):
        b = self.b
        lx = Lexer(b, pos)
        lx.skip()
        if lx.i != pos:
            raise Bad(f'offset {pos} does not point at an object')
        k, num = lx.tok()
        k2, gen = lx.tok()
        k3, kw = lx.tok()
        if (k, k2, k3, kw) != ('num', 'num', 'kw', 'obj'):
            raise Bad(f'no indirect object at {pos}')
        if want is not None and num != want:
            raise Bad(f'object {num} found where {want} was expected')
        if wantgen is not None and gen != wantgen:
            raise Bad(f'object {num} has generation {gen}, the cross-reference section says {wantgen}')
        v = lx.value()
        save = lx.i
        k, kw = lx.tok()
        if (k, kw) == ('kw', 'stream'):
            i = lx.i
            if b[i:i+2] == b'\r\n':
                i += 2
            elif b[i:i+1] == b'\n':
                i += 1
            else:
                raise Bad('stream keyword not followed by an end of line')
            ln = dget(v, 'Length')
            if ln and ln[0] == 'R':
                ln = self.get(ln[1])
            if not ln or ln[0] != 'I' or ln[1] < 0:
                raise Bad(f'bad stream /Length {ln}')
            raw = b[i:i+ln[1]]
            j = i + ln[1]
            rest = b[j:j+11]
            if not (rest.startswith(b'endstream') or rest.startswith(b'\nendstream')
                    or rest.startswith(b'\r\nendstream') or rest.startswith(b'\rendstream')):
                raise Bad(f'/Length {ln[1]} does not lead to endstream')
            if self.strict_len and rest.startswith(b'endstream') and raw[-1:] in (b'\n', b'\r') and False:
                raise Bad('end of line counted in /Length')
            e = b.find(b'endstream', j)
            lx.i = e + 9
            k, kw = lx.tok()
            if (k, kw) != ('kw', 'endobj'):
                raise Bad('endobj expected after stream')
            try:
                dec = decode(raw, v)
            except Bad:
                if dget(v, 'Type') in (('N', 'XRef'), ('N', 'ObjStm')):
                    raise
                dec = None
            d = tuple((k, x) for k, x in v[1] if k not in ('Length', 'Filter', 'DecodeParms'))
            if dec is None:
                return ('ST', tuple(sorted(d + (('Filter', dget(v, 'Filter')),))), 'RAW:' + raw.decode('latin-1'))
            return ('ST', d, dec if dget(v, 'Type') == ('N', 'XRef') else dec.decode('latin-1') if dec is not None else None)
        if (k, kw) != ('kw', 'endobj'):
            raise Bad(f'endobj expected at {save}, got {k} {kw}')
        return v

    def get(self, num):
        if num in self.cache:
            return self.cache[num]
        e = self.entries.get(num)
        if e is None or e[0] == 'f' or num >= self.size:
            return ('Z',)
        if e[0] == 'n':
            v = self._ind(e[1], num, e[2])
        else:
            v = self._embedded(e[1], e[2], num)
        self.cache[num] = v
        return v

    def _embedded(self, env, idx, num):
        if env not in self.objstm:
            ee = self.entries.get(env)
            if not ee or ee[0] != 'n':
                raise Bad(f'object stream {env} is not an indirect object')
            st = self._ind(ee[1], env)
            d = ('D', st[1])
            if st[0] != 'ST' or dget(d, 'Type') != ('N', 'ObjStm'):
                raise Bad(f'{env} is not an object stream')
            n, first = dget(d, 'N')[1], dget(d, 'First')[1]
            data = st[2].encode('latin-1')
            lx = Lexer(data[:first])
            pairs = []
            for _ in range(n):
                a, b = lx.tok(), lx.tok()
                if a[0] != 'num' or b[0] != 'num':
                    raise Bad('object stream header')
                pairs.append((a[1], b[1]))
            vals = []
            for x, off in pairs:
                vals.append((x, Lexer(data, first + off).value()))
            self.objstm[env] = vals
        vals = self.objstm[env]
        if idx >= len(vals):
            raise Bad(f'object stream {env} has no entry {idx}')
        if vals[idx][0] != num:
            raise Bad(f'object stream {env} entry {idx} is {vals[idx][0]}, not {num}')
        return vals[idx][1]

    def nums(self):
        """Numbers in use, without the cross-reference streams themselves."""
        return sorted(n for n, e in self.entries.items() if n and e[0] != 'f' and n < self.size)

    def objects(self):
        res = {}
        for n in self.nums():
            v = self.get(n)
            if v[0] == 'ST' and dget(('D', v[1]), 'Type') in (('N', 'XRef'), ('N', 'ObjStm')):
                continue
            res[n] = v
        return res


def revisions(data: bytes, start=0):
    """Ends (with one end of line) of the revisions of the file whose cross-reference section is at start or later.

    Every such section in the chain must be followed by its own offset and an end-of-file marker."""
    cuts = []
    for pos in sorted(s[0] for s in RefDoc(data).sections if s[0] >= start):
        m = re.compile(rb'startxref[ \r\n]+%d[ \r\n]+%%%%EOF(\r\n|\r|\n)?' % pos).search(data, pos)
        if not m:
            raise Bad(f'no startxref for the section at {pos}')
        cuts.append(m.end())
    return cuts
