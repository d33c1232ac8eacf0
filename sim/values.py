"""Plan values: JSON-able PDF values shared by the generator, the reference reader and the model.

["Z"] null  ["B",bool]  ["I",int]  ["F",text]  ["N",name]  ["R",num]
["S",latin1,style]  (style "lit" or "hex", dropped by canon)
["A",[...]]  ["D",{key: value}]
["R",num,gen] for a generation other than 0
["ST",{key: value},latin1 data,filter,opts]   (filter dropped by canon unless it is opaque)
   filter: None, a name, or a list of names (decoding order)
   opts (optional): {"pred": columns, "lenref": num}

canon(v) is the form the oracles compare.
"""

import zlib
import base64

STREAM_KEYS = ('Length', 'Filter', 'DecodeParms')
OPAQUE = ('DCTDecode', 'JPXDecode', 'CCITTFaxDecode', 'LZWDecode', 'RunLengthDecode', 'JBIG2Decode')


# what no decoder takes
BROKEN = {'FlateDecode': b'\x00\x01not deflated ', 'ASCIIHexDecode': b'4G not hexadecimal ', 'ASCII85Decode': b'v{|} not base 85 '}


def filters_of(filt):
    return [] if not filt else [filt] if isinstance(filt, str) else list(filt)


def encode(data, filt, opts=None):
    """Encoded bytes of a stream whose /Filter is filt (applied in reverse of the decoding order)."""
    fs = filters_of(filt)
    if opts and opts.get('broken'):
        return BROKEN[fs[0]] + data
    for i in range(len(fs) - 1, -1, -1):
        f = fs[i]
        if f == 'FlateDecode':
            if i == len(fs) - 1 and opts and opts.get('pred'):
                data = predict(data, opts)
            data = zlib.compress(data)
        elif f == 'ASCIIHexDecode':
            data = data.hex().upper().encode() + b'>'
        elif f == 'ASCII85Decode':
            data = base64.a85encode(data, adobe=True)[2:]
    return data


def predict(raw, opts):
    """What prediction makes of the data: opts pred (columns), colors, tiff, tags (PNG algorithm of each row, in turn)."""
    bpp = opts.get('colors', 1)
    cols = opts['pred'] * bpp
    tags = opts.get('tags', [2])
    prev = bytes(cols)
    out = bytearray()
    for k, i in enumerate(range(0, len(raw), cols)):
        row = raw[i:i+cols]
        tag = 1 if opts.get('tiff') else tags[k % len(tags)]
        if not opts.get('tiff'):
            out.append(tag)
        for j, x in enumerate(row):
            a = row[j-bpp] if j >= bpp else 0
            b = prev[j]
            c = prev[j-bpp] if j >= bpp else 0
            if tag == 4:
                p = sorted([(abs(b - c), 0, a), (abs(a - c), 1, b), (abs(a + b - 2 * c), 2, c)])[0][2]
            else:
                p = [0, a, b, (a + b) // 2][tag]
            out.append((x - p) & 255)
        prev = row
    return bytes(out)


def png_up(raw, cols):
    prev = bytes(cols)
    p = bytearray()
    for i in range(0, len(raw), cols):
        row = raw[i:i+cols]
        p.append(2)
        p += bytes((a - b) & 255 for a, b in zip(row, prev))
        prev = row
    return bytes(p)


def canon(v):
    t = v[0]
    if t == 'Z':
        return ('Z',)
    if t == 'F':
        return ('F', float(v[1]))
    if t == 'S':
        return ('S', v[1])
    if t == 'A':
        return ('A', tuple(canon(x) for x in v[1]))
    if t == 'D':
        return ('D', tuple(sorted((k, canon(x)) for k, x in v[1].items())))
    if t == 'ST':
        d = tuple(sorted((k, canon(x)) for k, x in v[1].items() if k not in STREAM_KEYS))
        fs = filters_of(v[3])
        if any(f in OPAQUE for f in fs) or len(v) > 4 and v[4].get('broken'):
            fv = ('N', v[3]) if isinstance(v[3], str) else ('A', tuple(('N', f) for f in fs))
            raw = encode(v[2].encode('latin-1'), v[3], v[4] if len(v) > 4 else None)
            return ('ST', tuple(sorted(d + (('Filter', fv),))), 'RAW:' + raw.decode('latin-1'))
        return ('ST', d, v[2])
    if t == 'R':
        return ('R',) + tuple(x for i, x in enumerate(v[1:]) if i == 0 or x)
    return (t, v[1])


def refs(v, acc=None):
    if acc is None:
        acc = set()
    if v[0] == 'R':
        acc.add(v[1])
    elif v[0] == 'A':
        for x in v[1]:
            refs(x, acc)
    elif v[0] in ('D', 'ST'):
        for x in v[1].values():
            refs(x, acc)
    return acc


def remap(v, f):
    """Copy of plan value v with every reference number n replaced by f(n)."""
    if v[0] == 'R':
        return ['R', f(v[1])] + v[2:]
    if v[0] == 'A':
        return ['A', [remap(x, f) for x in v[1]]]
    if v[0] == 'D':
        return ['D', {k: remap(x, f) for k, x in v[1].items()}]
    if v[0] == 'ST':
        return ['ST', {k: remap(x, f) for k, x in v[1].items()}] + v[2:]
    return v


# ---------------------------------------------------------------- literal strings

ESC = {0x28: b'\\(', 0x29: b'\\)', 0x5c: b'\\\\', 0x0d: b'\\r', 0x0a: b'\\n'}


def lit(data: bytes) -> bytes:
    return b'(' + b''.join(ESC.get(c, bytes([c])) for c in data) + b')'


def unlit(tok: bytes) -> bytes:
    """Decode a PDF literal or hexadecimal string token (ISO 32000 7.3.4)."""
    if tok[:1] == b'<':
        h = bytes(c for c in tok[1:-1] if chr(c) in '0123456789abcdefABCDEF')
        if len(h) % 2:
            h += b'0'
        return bytes.fromhex(h.decode('ascii'))
    s = tok[1:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        c = s[i]
        if c != 0x5c:
            if c == 0x0d:
                out.append(0x0a)
                if s[i+1:i+2] == b'\n':
                    i += 1
            else:
                out.append(c)
            i += 1
            continue
        i += 1
        e = s[i:i+1]
        if e in (b'n', b'r', b't', b'b', b'f'):
            out += {b'n': b'\n', b'r': b'\r', b't': b'\t', b'b': b'\b', b'f': b'\f'}[e]
            i += 1
        elif e and e in b'01234567':
            j = i
            while j < i + 3 and j < len(s) and s[j:j+1] in (b'0', b'1', b'2', b'3', b'4', b'5', b'6', b'7'):
                j += 1
            out.append(int(s[i:j], 8) & 0xff)
            i = j
        elif e == b'\r':
            i += 1
            if s[i:i+1] == b'\n':
                i += 1
        elif e == b'\n':
            i += 1
        else:
            out += e
            i += 1
    return bytes(out)


# ---------------------------------------------------------------- library representation

def to_lib(v, Stream=None, forge=None):
    """Plan value -> the library's Python representation."""
    t = v[0]
    if t == 'Z':
        return 'null'
    if t in 'BI':
        return v[1]
    if t == 'F':
        return float(v[1])
    if t == 'N':
        return '/' + v[1]
    if t == 'R':
        return complex(v[2] if len(v) > 2 else 0, v[1])
    if t == 'S':
        b = v[1].encode('latin-1')
        return b'<' + b.hex().upper().encode() + b'>' if v[2] == 'hex' else lit(b)
    if t == 'A':
        return [to_lib(x, Stream, forge) for x in v[1]]
    if t == 'D':
        return {'/' + k: to_lib(x, Stream, forge) for k, x in v[1].items()}
    if t == 'ST':
        d = {'/' + k: to_lib(x) for k, x in v[1].items()}
        d['/Length'] = -1
        if v[3]:
            d['/Filter'] = '/' + v[3] if isinstance(v[3], str) else ['/' + f for f in v[3]]
        return forge(d, v[2].encode('latin-1'))[0]
    raise ValueError(t)


def from_lib(o):
    """Library object -> canonical value."""
    if o is None:
        return ('Z',)
    if isinstance(o, bool):
        return ('B', o)
    if isinstance(o, int):
        return ('I', o)
    if isinstance(o, float):
        return ('F', o)
    if isinstance(o, complex):
        return ('R', int(o.imag)) if not o.real else ('R', int(o.imag), int(o.real))
    if isinstance(o, str):
        if o == 'null':
            return ('Z',)
        if o[:1] == '/':
            return ('N', o[1:])
        if o[:1] and o[0] in '(<':
            return ('S', unlit(o.encode('latin-1')).decode('latin-1'))
        return ('K', o)
    if isinstance(o, (bytes, bytearray)):
        if o[:1] in (b'(', b'<'):
            return ('S', unlit(bytes(o)).decode('latin-1'))
        return ('RAW', bytes(o).decode('latin-1'))
    if isinstance(o, (list, tuple)):
        return ('A', tuple(from_lib(x) for x in o))
    if isinstance(o, dict):
        return ('D', tuple(sorted((k[1:], from_lib(x)) for k, x in o.items())))
    if hasattr(o, 'entries') and hasattr(o, 'stream'):
        d = tuple(sorted((k[1:], from_lib(x)) for k, x in o.entries.items() if k[1:] not in STREAM_KEYS))
        s = o.stream
        f = o.entries.get('/Filter')
        if any(n[1:] in OPAQUE for n in ([f] if isinstance(f, str) else f or []) if isinstance(n, str)) or f and s[:20] == b'#PDFSyntaxException:':
            return ('ST', tuple(sorted(d + (('Filter', from_lib(f)),))), 'RAW:' + bytes(o.encoded).decode('latin-1'))
        return ('ST', d, s.decode('latin-1') if s is not None else None)
    return ('?', repr(type(o)))


def show(c, n=160):
    s = repr(c)
    return s if len(s) <= n else s[:n] + '...'
