"""An encoder which takes every liberty RFC 1951 gives the producer of a deflate stream."""
import zlib

LEN_BASE = [3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258]
LEN_EXTRA = [0] * 8 + [1] * 4 + [2] * 4 + [3] * 4 + [4] * 4 + [5] * 4 + [0]
DIST_BASE = [1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577]
DIST_EXTRA = [0, 0, 0, 0] + [k for k in range(1, 14) for _ in (0, 1)]
CL_ORDER = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15]


class Bits:
    def __init__(self):
        self.out, self.acc, self.n = bytearray(), 0, 0

    def put(self, v, n):
        self.acc |= v << self.n
        self.n += n
        while self.n >= 8:
            self.out.append(self.acc & 255)
            self.acc >>= 8
            self.n -= 8

    def align(self):
        if self.n:
            self.put(0, 8 - self.n)


def code_of(lens):
    """symbol -> (bits to put, number of them)"""
    count, nxt, c = [0] * 17, [0] * 17, 0
    for x in lens:
        count[x] += 1
    count[0] = 0
    for b in range(1, 17):
        c = (c + count[b - 1]) << 1
        nxt[b] = c
    r = {}
    for s, x in enumerate(lens):
        if x:
            r[s] = (int(format(nxt[x], "0%db" % x)[::-1], 2), x)
            nxt[x] += 1
    return r


def depths(rng, n, most, style):
    """lengths of a complete code of n symbols"""
    if n == 1:
        return [1]
    d = [1, 1]
    while len(d) < n:
        if style == "deep":   # as unequal as possible
            k = max((x for x in range(len(d)) if d[x] < most), key=lambda x: d[x])
        elif style == "even":
            k = min(range(len(d)), key=lambda x: d[x])
        else:
            k = rng.choice([x for x in range(len(d)) if d[x] < most])
        d[k] += 1
        d.append(d[k])
    rng.shuffle(d)
    return d


def random_code(rng, used, size, most, style):
    lens = [0] * size
    room = [s for s in range(size) if s not in used]
    syms = sorted(used) + rng.sample(room, min(len(room), rng.choice([0, 0, 1, 3, 20])))
    for s, x in zip(syms, depths(rng, len(syms), most, style) if syms else []):
        lens[s] = x
    return lens


def parse(rng, data, start, stop, index, lazy):
    """tokens for data[start:stop]: bytes and (length, distance)"""
    i, out = start, []
    while i < stop:
        m = None
        if i + 3 <= stop and rng.random() < lazy:
            at = index.get(data[i:i + 3], [])
            at = [p for p in (rng.sample(at, min(3, len(at))) if len(at) > 3 else at) if 0 < i - p <= 32768]
            if rng.random() < 0.3 and i > 0 and data[i - 1] == data[i]:
                at.append(i - 1)
            for p in at:
                n = 0
                while n < 258 and i + n < stop and data[p + n] == data[i + n]:
                    n += 1
                if n >= 3 and (m is None or n > m[0] or rng.random() < 0.3):
                    m = (n, i - p)
        if m:
            n = m[0] if rng.random() < 0.7 else rng.randrange(3, m[0] + 1)
            out.append((n, m[1]))
        else:
            n = 1
            out.append(data[i])
        for k in range(i, i + n):
            if k + 3 <= len(data) and (n < 20 or k % 7 == 0):
                at = index.setdefault(data[k:k + 3], [])
                at.append(k)
                if len(at) > 40:
                    del at[rng.randrange(40)]
        i += n
    return out


def len_sym(n):
    k = max(j for j in range(29) if LEN_BASE[j] <= n)
    return 257 + k, n - LEN_BASE[k], LEN_EXTRA[k]


def dist_sym(d):
    k = max(j for j in range(30) if DIST_BASE[j] <= d)
    return k, d - DIST_BASE[k], DIST_EXTRA[k]


def encode(rng, data, piece=None, kinds=("stored", "fixed", "dyn", "dyn"), styles=("any", "deep", "even"), lazy=0.9):
    """a deflate stream of data"""
    data = bytes(data)
    b, k, index = Bits(), 0, {}
    while True:
        n = min(rng.choice(piece or [0, 1, 3, 100, 700, 5000]), len(data) - k, 65535)
        kind = rng.choice(kinds)
        last = k + n == len(data) and rng.random() < 0.8
        b.put(1 if last else 0, 1)
        toks = [] if kind == "stored" else parse(rng, data, k, k + n, index, lazy)
        if kind == "stored":
            b.put(0, 2)
            b.align()
            b.put(n, 16)
            b.put(65535 - n, 16)
            for x in data[k:k + n]:
                b.put(x, 8)
        else:
            lit = {256} | {t if isinstance(t, int) else len_sym(t[0])[0] for t in toks}
            if 285 in lit:   # a length of 258 has two codes
                lit.add(284)
            dis = {dist_sym(t[1])[0] for t in toks if not isinstance(t, int)}
            if kind == "fixed":
                b.put(1, 2)
                ll, dl = [8] * 144 + [9] * 112 + [7] * 24 + [8] * 8, [5] * 30
            else:
                b.put(2, 2)
                ll = random_code(rng, lit, 286, 15, rng.choice(styles))
                dl = random_code(rng, dis, 30, 15, rng.choice(styles))
                if sum(1 for x in ll if x) == 1 and rng.random() < 0.5:
                    ll[0] = 1
                hl, hd = 286, 30
                while hl > 257 and ll[hl - 1] == 0 and rng.random() < 0.99:
                    hl -= 1
                while hd > 1 and dl[hd - 1] == 0 and rng.random() < 0.99:
                    hd -= 1
                lengths(rng, b, ll[:hl] + dl[:hd], hl, hd)
            lc, dc = code_of(ll), code_of(dl)
            for t in toks:
                if isinstance(t, int):
                    b.put(*lc[t])
                else:
                    s, x, e = len_sym(t[0])
                    if s == 285 and rng.random() < 0.4:
                        s, x, e = 284, 31, 5
                    b.put(*lc[s])
                    b.put(x, e)
                    s, x, e = dist_sym(t[1])
                    b.put(*dc[s])
                    b.put(x, e)
            b.put(*lc[256])
        k += n
        if last:
            break
    if b.n:
        b.put(rng.randrange(1 << (8 - b.n)), 8 - b.n)   # the rest of the last byte means nothing
    d = zlib.decompressobj(-15)
    if d.decompress(bytes(b.out)) != data or not d.eof or d.unused_data:
        raise RuntimeError("encoder")
    return bytes(b.out)


def lengths(rng, b, seq, hl, hd):
    """the code lengths seq, in runs or not"""
    items, i = [], 0
    greedy = rng.random() < 0.7
    while i < len(seq):
        n = 1
        while i + n < len(seq) and seq[i + n] == seq[i]:
            n += 1
        if seq[i] == 0 and n >= 3 and (greedy or rng.random() < 0.7):
            n = min(n, 138)
            if not greedy:
                n = rng.randrange(3, n + 1)
            items.append((18, n - 11, 7) if n >= 11 else (17, n - 3, 3))
        elif i and seq[i - 1] == seq[i] and n >= 3 and (greedy or rng.random() < 0.7):
            n = min(n, 6)
            if not greedy:
                n = rng.randrange(3, n + 1)
            items.append((16, n - 3, 2))
        else:
            n = 1
            items.append((seq[i], 0, 0))
        i += n
    cl = random_code(rng, {x[0] for x in items}, 19, 7, rng.choice(["any", "any", "even"]))
    if sum(1 for x in cl if x) == 1:   # one code length code: needs a second one to be complete
        cl[next(s for s in range(19) if cl[s] == 0)] = 1
    hc = 19
    while hc > 4 and cl[CL_ORDER[hc - 1]] == 0 and rng.random() < 0.95:
        hc -= 1
    b.put(hl - 257, 5)
    b.put(hd - 1, 5)
    b.put(hc - 4, 4)
    for s in CL_ORDER[:hc]:
        b.put(cl[s], 3)
    c = code_of(cl)
    for s, x, e in items:
        b.put(*c[s])
        b.put(x, e)
