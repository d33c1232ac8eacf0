"""Storage and transfer damage: byte blocks truncated, zeroed, flipped, repeated, exchanged, dropped."""
import re

KINDS = ['trunc', 'zero', 'flip', 'repeat', 'swap', 'drop', 'digit', 'garbage']


def rnd(rng, n=None):
    res = []
    for _ in range(n or rng.choice([1, 1, 1, 2, 3])):
        res.append([rng.choice(KINDS), rng.random(), rng.random(), rng.choice([1, 1, 2, 4, 16, 64, 512]), rng.randrange(256)])
    return res


def aimed(rng, data):
    """Damage to what steers the reader: numbers and names of the file structure."""
    words = rng.choice([[b'/Prev', b'/Size', b'/Index', b'/W ', b'/W['], [b'xref', b'trailer', b'startxref', b'%%EOF'], [b'/Kids', b'/Count', b'/Parent'], [b'/Parent'],
                        [b'/Length', b'/N ', b'/First', b'/Filter', b'/Columns', b'/Predictor'], [b' 0 R', b' obj'],
                        [b'endstream', b'endobj', b'stream', b'>>', b'<<'], [b'/Pages', b'/Root', b'/Contents', b'/Type']])
    at = []
    for x in words:
        i = data.find(x)
        while i != -1:
            at.append(i + rng.choice([0, len(x), len(x) + 1]))
            i = data.find(x, i + 1)
    if not at:
        return []
    i = rng.choice(at)
    kind = rng.choice(['digit', 'digit', 'repeat', 'drop', 'zero', 'flip', 'swapnum', 'swapnum', 'longnum', 'selfnum', 'selfnum'])
    return [[kind, (i + .5) / len(data), rng.random(), rng.choice([1, 1, 2, 4, 8]), rng.randrange(256)]]


def numbers(b):
    res, i = [], 0
    while i < len(b):
        if 48 <= b[i] <= 57:
            j = i
            while j < len(b) and 48 <= b[j] <= 57:
                j += 1
            res.append((i, j))
            i = j
        else:
            i += 1
    return res


def apply(data, steps, st=None):
    b = bytearray(data)
    for kind, x, y, size, val in steps:
        n = len(b)
        if not n:
            break
        i = int(x * n)
        if st:
            st.hit('fault damage:' + kind)
        if kind == 'trunc':
            del b[max(1, i):]
        elif kind == 'zero':
            b[i:i + size] = bytes(len(b[i:i + size]))
        elif kind == 'flip':
            for j in range(i, min(n, i + min(size, 4))):
                b[j] ^= (val or 1)
        elif kind == 'repeat':
            b[i:i] = b[i:i + size]
        elif kind == 'swap':
            j = int(y * n)
            i, j = min(i, j), max(i, j)
            s = min(size, j - i, n - j)
            b[i:i + s], b[j:j + s] = b[j:j + s], b[i:i + s]
        elif kind == 'drop':
            del b[i:i + size]
        elif kind == 'digit':
            # damage that keeps the syntax: another digit in a number
            for j in list(range(i, n)) + list(range(i)):
                if 48 <= b[j] <= 57:
                    b[j] = 48 + val % 10
                    break
        elif kind in ('swapnum', 'longnum'):
            # a number replaced by another one of the file, or digits repeated
            ns = numbers(b)
            if not ns:
                continue
            a = next((x for x in ns if x[1] > i), ns[0])
            c = ns[int(y * len(ns))]
            b[a[0]:a[1]] = b[c[0]:c[1]] if kind == 'swapnum' else b[a[0]:a[1]] * size
        elif kind == 'selfnum':
            # a number replaced by that of the object it belongs to
            ns = numbers(b)
            a = next((x for x in ns if x[1] > i), ns[0] if ns else None)
            own = re.findall(rb'(\d+) \d+ obj', b[:a[0]]) if a else []
            if own:
                b[a[0]:a[1]] = own[-1]
        elif kind == 'garbage':
            b[i:i + size] = bytes((val * 7 + k * 31) & 255 for k in range(len(b[i:i + size])))
    return bytes(b)
