"""Checks over spec/Zip.tla: C11, C15, C16, C24."""
import os, struct, subprocess, tempfile, zlib
from . import defl
from .core import Infra, run_driver
from .npygen import *
from .zipgen import BC, nb

NAMEPOOL = ["a", "b.npy", "v1", "dir/x", "name with space", "\u00e9", "\u4e2d\u6587.npy", ".npy", "", "x.npz", "n.npy.npy"]


def writer_case(ctx, rng, cid, m=None, en=None, kind=None, arrs=None, names=None):
    c = BC(cid)
    kind = kind or rng.choice("sf")
    m = rng.choice([0, 8]) if m is None else m
    en = en or rng.choice(ENS)
    arrs = arrs if arrs is not None else [rand_arr(rng) for _ in range(rng.choice([0, 1, 1, 2, 3, 4]))]
    names = names or rng.sample(NAMEPOOL, len(arrs))
    for i, a in enumerate(arrs):
        c.make("a%d" % i, a)
    c.wopen("w", kind, "o.npz", m, en, rng.choice(["str", "cstr", "path"]))
    for i, n in enumerate(names):
        c.wwrite("w", n, "a%d" % i, rng.randrange(2))
    if kind == "s":
        c.wclose("w").wbytes("w", "z")
    elif rng.random() < 0.5:
        c.wclose("w").fbytes("w", "o.npz", "z")
    else:
        c.wdel("w").fbytes("w", "o.npz", "z")
    return c, arrs, names


# ------------------------------------------------------------------------ C11

def C11(ctx):
    rng = ctx.rng
    bg = ctx.background(ctx.model, "ZipMC", "ZipMC.cfg", what="strict archives are exactly those without liberties")
    cases = []
    for i in range(ctx.n(160, 2500)):
        c, arrs, names = writer_case(ctx, rng, "rnd-%d" % i)
        c.ropen("r", "z").rkeys("r")
        cases.append(c)
    i = 0
    for t in TYPES:
        for m in (0, 8):
            for en in "LB":
                arrs = [rand_arr(rng, t, SHAPES[i % len(SHAPES)]), rand_arr(rng, t, [3])]
                c, _, names = writer_case(ctx, rng, "all-%s-%d-%s" % (t, m, en), m, en, "sf"[i % 2], arrs)
                cases.append(c)
                i += 1
    # default options: no compression
    for kind in "sf":
        c = BC("default-" + kind)
        c.make("a", rand_arr(rng, "i4", [3])).wopen("w", kind, "d.npz", None).wwrite("w", "x", "a").wclose("w")
        (c.wbytes("w", "z") if kind == "s" else c.fbytes("w", "d.npz", "z")).ropen("r", "z").rread("r", "x", "i4")
        cases.append(c)
    # contents of different compressibility and sizes (up to a few thousand bytes)
    for n in ctx.n([0, 1, 500, 2500], [0, 1, 2, 3, 100, 500, 1000, 2500, 4000, 8000]):
        for how in ("zero", "rand", "few", "rep"):
            for m in (8, 0):
                el = {"zero": lambda j: "00", "rand": lambda j: "%02x" % rng.randrange(256),
                      "few": lambda j: "%02x" % rng.choice([1, 1, 2, 3, 200]), "rep": lambda j: "%02x" % (j % 97)}[how]
                a = {"t": "u1", "f": 0, "sh": [n], "el": [el(j) for j in range(n)]}
                c, _, _ = writer_case(ctx, rng, "size-%d-%s-%d" % (n, how, m), m, "L", "s", [a, rand_arr(rng, "u1", [2])])
                cases.append(c)
    # rejected writes and closings leave the archive strict
    for kind in "sf":
        for m in (0, 8):
            c = BC("rejected-%s-%d" % (kind, m))
            c.make("a", rand_arr(rng, "i2", [2])).cthrow("bad", 3).cthrow("bad0", 0)
            c.wopen("w", kind, "j.npz", m, "B").wwrite("w", "p", "a").wthrow("w", "q", "bad").wwrite("w", "r", "a")
            c.wthrow("w", "s", "bad0").wclose("w").wclose("w").wwrite("w", "t", "a").wclose("w")
            (c.wbytes("w", "z") if kind == "s" else c.fbytes("w", "j.npz", "z")).ropen("r", "z").rkeys("r").rread("r", "r", "i2")
            cases.append(c)
    # a name written twice is two entries
    c = BC("twice")
    c.make("a", rand_arr(rng, "i2", [2])).make("b", rand_arr(rng, "u1", [2])).wopen("w", "s", "", 8)
    c.wwrite("w", "n", "a").wwrite("w", "n", "b").wclose("w").wbytes("w", "z").ropen("r", "z").rkeys("r").rread("r", "n", "u1")
    cases.append(c)
    # lengths of names around one byte, and many entries
    for k in ctx.n([251, 252, 255, 256, 300], [250, 251, 252, 253, 255, 256, 257, 300, 511, 512, 1000]):
        c, _, _ = writer_case(ctx, rng, "name-%d" % k, None, None, None, [rand_arr(rng, "u1", [1]), rand_arr(rng, "u1", [2])], ["n" * k, "m"])
        cases.append(c)
    for k in ctx.n([40], [40, 255, 256, 257, 300]):
        c = BC("many-%d" % k)
        c.make("a", {"t": "u1", "f": 0, "sh": [], "el": ["05"]}).wopen("w", "s", "", 0)
        for j in range(k):
            c.wwrite("w", "%d" % j, "a")
        c.wclose("w").wbytes("w", "z")
        cases.append(c)
    ctx.validate("ZipTrace", cases, sample=1)
    oracle_python(ctx, cases)
    # many entries, and entries of many bytes: their records, as far as they go
    from .p_misc import LC, both, giant
    behind = ctx.background(ctx.validate, "BigTrace", [giant(ctx, "behind-2.4G", "f", 0, [[2417, 1000000]])], as_mb=20000, cpu=200, sample=0)
    big = []
    for i, (k, kind, m) in enumerate(ctx.n([(255, "f", 8), (300, "s", 0), (1025, "s", 8), (2100, "f", 0), (9000, "s", 0), (33000, "s", 0)],
                                           [(k, "sf"[j % 2], 8 * (j // 2 % 2)) for j, k in enumerate([255, 256, 257, 511, 512, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 5000, 8191, 8192, 16384, 20000, 32767, 32768, 33000, 50000])])):
        c = LC("records-%d" % k)
        c.fill("a", "i2", 0, [3], "ramp:1").fill("b", "u1", 0, [2], "ramp:7").wopen("w", kind, m)
        c.wwrite("w", "z", "b").wbulk("w", "e", 0, k - 2, "a").wwrite("w", "zz", "b").wclose("w").zbig("w", 6).ropen("r", "w").rsum("r")
        big.append(c)
    for i, n in enumerate(ctx.n([16384, 65535, 65536, 70000, 131072, 1 << 20], [4096, 8192, 16384, 32768, 65535, 65536, 65537, 70000, 131071, 131072, 262144, 1 << 20, 3 << 20, 5000001])):
        for m in (0, 8):
            c = LC("long-%d-%d" % (n, m))
            c.fill("a", "u1", 0, [n - 128], ["mix:%d", "rand:%d", "runs:%d"][i % 3] % i).fill("b", "i4", 1, [n // 4, 1], ["rand:%d", "low:%d"][i % 2] % i)
            c.wopen("w", "sf"[(i + m // 8) % 2], m, "LB"[i % 2]).wwrite("w", "a", "a").wwrite("w", "b", "b").wwrite("w", "c", "a").wclose("w").zbig("w").ropen("r", "w").rsum("r")
            c.rread("r", "b", "i4")
            big.append(c)
    ctx.validate("BigTrace", big, jvms=4, as_mb=6000, cpu=120, sample=0)
    packed = [both("packed-%d" % n, "u1", n - 128, ["mix:1", "rand:2", "zero:3", "low:4"][i % 4], kind="sf"[i % 2])
              for i, n in enumerate(ctx.n([16384, 65536, 70000, 1 << 20], [4096, 16384, 32768, 65535, 65536, 70000, 131072, 262144, 1 << 20, 4 << 20]))]
    ctx.validate("NpzTrace", packed, as_mb=6000, cpu=60, sample=0)
    behind()
    bg()


def oracle_python(ctx, cases):
    """The archives are also opened with Python's zipfile (a cross-check of the specification: it may
    only confirm what the specification accepted)."""
    import io, zipfile
    exe = ctx.exe()
    sub = cases[::7]
    from .core import Case
    extra = []
    for c in sub:
        q = Case(c.id)
        q.cmds = list(c.cmds) + [("bhex b=z", None)]
        extra.append(q)
    n = 0
    for c, r in zip(extra, run_driver(exe, extra)):
        if r[-1]["r"] != "end":
            continue
        data = bytes.fromhex(r[-2]["hex"])
        z = zipfile.ZipFile(io.BytesIO(data))
        bad = z.testzip()
        if bad is not None:
            raise Infra("specification and zipfile disagree on " + c.id)
        n += len(z.namelist())
    ctx.cov["entries confirmed by Python's zipfile"] = n


# ------------------------------------------------------------------------ C16

def deflate(rng, data, how=None):
    lvl, st, mem, flush = how or (rng.choice([0, 1, 3, 6, 9]), rng.choice([0, 1, 2, 3, 4]), rng.choice([1, 8, 9]),
                                  rng.choice([None, None, zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH, zlib.Z_PARTIAL_FLUSH]))
    co = zlib.compressobj(lvl, zlib.DEFLATED, -15, mem, st)
    out = b""
    if flush is not None:
        k = rng.randrange(len(data) + 1)
        out = co.compress(data[:k]) + co.flush(flush)
        data = data[k:]
    return out + co.compress(data) + co.flush()


def deflate_blocks(rng, data):
    """stored and fixed-Huffman blocks made by hand"""
    bits = []

    def put(v, n):
        for i in range(n):
            bits.append(v >> i & 1)

    def huff(v, n):
        for i in range(n - 1, -1, -1):
            bits.append(v >> i & 1)
    k = 0
    while True:
        n = rng.choice([0, 1, 5, 50, 200, 300])
        piece = data[k:k + n]
        k += len(piece)
        last = k >= len(data)
        put(1 if last else 0, 1)
        if rng.random() < 0.5:
            put(0, 2)
            while len(bits) % 8:
                bits.append(0)
            put(len(piece), 16)
            put(0xffff - len(piece), 16)
            for b in piece:
                put(b, 8)
        else:
            put(1, 2)
            for b in piece:
                if b < 144:
                    huff(0x30 + b, 8)
                else:
                    huff(0x190 + b - 144, 9)
            huff(0, 7)
        if last:
            break
    while len(bits) % 8:
        bits.append(0)
    return bytes(sum(bits[i + j] << j for j in range(8)) for i in range(0, len(bits), 8))


def foreign_streams(ctx, src, each):
    """cases of archives whose entries are large arrays compressed by the encoder of defl.py
    src: [(fill, elements)]; each: streams of each"""
    from .npzgen import ZC
    from .p_misc import zip_of, raw_entries, run_driver
    rng = ctx.rng
    plain, cases = [], []
    for i, (how, n) in enumerate(src):
        c = ZC("src%d" % i)
        c.fill("a", "u1", 0, [n], how).wopen("w", "s", "", 0).wwrite("w", "a", "a").wclose("w").wstr("w", "b").add("bhex b=b")
        plain.append(c)
    for i, ((how, n), r) in enumerate(zip(src, run_driver(ctx.exe(), plain, as_mb=6000, cpu=60))):
        if r[-1]["r"] != "end" or r[-2]["r"] != "ok":
            raise Infra("no stored image")
        img = raw_entries(bytes.fromhex(r[-2]["hex"]))[0][2]
        for j in range(each):
            ents, c = [], ZC("stream-%d-%d" % (i, j))
            c.note = "%s %d" % (how, n)
            c.fill("a", "u1", 0, [n], how)
            for k in range(2):
                d = defl.encode(rng, img, rng.choice([[len(img)], [65535], [1000, 30000], [40, 3000, 20000], [0, 65535]]),
                                rng.choice([("dyn",), ("fixed",), ("stored", "dyn"), ("stored", "fixed", "dyn")]),
                                rng.choice([("any",), ("deep",), ("even",), ("any", "deep", "even")]), rng.choice([0.05, 0.5, 1.0]))
                ents.append((b"e%d.npy" % k, 8, img, d))
            z = zip_of(ents)
            c.add("bset b=z hex=%s" % z.hex(), {"op": "bforeign", "b": "z", "ents": [{"n": list(e[0]), "d": "a"} for e in ents]})
            c.ropenb("r", "z").rpeek("r", "e1").rread("r", "e0", "u1").rread("r", "e1", "u1", "two")
            cases.append(c)
    return cases


def py_zip(rng, entries, feat):
    """entries: [(stored name, contents)]; feat: names of liberties to take"""
    def f(x, p=0.5):
        return x in feat and rng.random() < p
    body, dirs = b"", []
    if "pre" in feat:
        body += bytes(rng.randrange(256) for _ in range(rng.choice([1, 7, 100])))
    for n, img in entries:
        m = rng.choice([0, 8])
        data = img if m == 0 else (deflate_blocks(rng, img) if rng.random() < 0.2 else defl.encode(rng, img) if rng.random() < 0.5 else deflate(rng, img))
        crc = zlib.crc32(img)
        flags = 0
        if f("flags"):
            flags = sum(1 << b for b in (1, 2, 7, 8, 9, 10, 11) if rng.random() < 0.4)
        softf = f("softflags", 0.3)
        if softf:
            flags |= 1 << rng.choice([0, 3, 4, 5, 6, 12, 13, 15])
        ver = rng.choice([10, 11, 20, 21, 45]) if "vers" in feat else 20
        lver = dver = ver
        if f("newer", 0.5):
            if rng.random() < 0.5:
                lver = rng.choice([46, 51, 63, 255, 300])
            else:
                dver = rng.choice([46, 51, 63, 255, 300])
        tm = rng.randrange(1 << 32) if "times" in feat else 0x210000
        lx, us, cs = b"", len(img), len(data)
        if f("lz64"):
            k = rng.choice(["np", "np", "surplus", "u", "c"])
            vals = struct.pack("<QQ", len(img), len(data))
            if k == "np":
                us = cs = 0xffffffff
            elif k == "u":
                us = 0xffffffff
                vals = rng.choice([vals[:8], vals])
            elif k == "c":
                cs = 0xffffffff
                vals = rng.choice([vals[8:], vals[8:] + b"\x01\x02\x03\x04\x05\x06\x07\x08"])
            if f("lack", 0.6):
                vals = rng.choice([vals[:8] if k == "np" else b"", b""]) if k != "surplus" else vals
            lx = struct.pack("<HH", 1, len(vals)) + vals
        if f("softextra", 0.4):
            x = rng.choice([struct.pack("<HHBL", 0x5455, 5, 1, 12345), struct.pack("<HH", 0xcafe, 0)])
            lx = rng.choice([x + lx, lx + x])
        off = len(body)
        nm = nb(n)
        body += struct.pack("<4sHHHLLLLHH", b"PK\3\4", lver, flags, m, tm, crc, cs, us, len(nm), len(lx)) + nm + lx + data
        if f("gap"):
            body += bytes(rng.randrange(256) for _ in range(rng.choice([1, 3, 12, 16, 50])))
        dx, us, cs, of = b"", len(img), len(data), off
        if f("dz64"):
            vals = b""
            if rng.random() < 0.5:
                us = 0xffffffff
                vals += struct.pack("<Q", len(img))
            if rng.random() < 0.5:
                cs = 0xffffffff
                vals += struct.pack("<Q", len(data))
            if rng.random() < 0.5:
                of = 0xffffffff
                vals += struct.pack("<Q", off)
            if rng.random() < 0.3:
                vals += struct.pack("<Q", rng.randrange(1 << 40))
            if f("lack", 0.6):
                vals = vals[:-8]
            dx = struct.pack("<HH", 1, len(vals)) + vals
        if f("softextra", 0.4):
            x = rng.choice([struct.pack("<HHBL", 0x5455, 5, 1, 12345), struct.pack("<HH", 0xcafe, 0)])
            dx = rng.choice([x + dx, dx + x])
        com = bytes(rng.randrange(32, 127) for _ in range(rng.randrange(1, 20))) if f("comment", 0.4) else b""
        iattr, eattr = (rng.randrange(1 << 16), rng.randrange(1 << 32)) if "attrs" in feat else (0, 0)
        made = rng.randrange(1 << 16) if "attrs" in feat else 20
        dirs.append(struct.pack("<4sHHHHLLLLHHHHHLL", b"PK\1\2", made, dver, flags, m, tm, crc, cs, us, len(nm), len(dx),
                                len(com), 0, iattr, eattr, of) + nm + dx + com)
    if "order" in feat:
        rng.shuffle(dirs)
    d = b"".join(dirs)
    acom = b"archive comment" if "acomment" in feat else b""
    if f("end64", 1) and not acom:
        return body + d + end64(len(dirs), len(d), len(body), rng.randrange(8))
    end = struct.pack("<4sHHHHLLH", b"PK\5\6", 0, 0, len(dirs), len(dirs), len(d), len(body), len(acom)) + acom
    return body + d + end


def ask(rng, c, x, entries, ts):
    c.rkeys(x)
    order = list(range(len(entries)))
    rng.shuffle(order)
    for i in order:
        n, t = entries[i][0], ts[i]
        short = n[:-4] if n.endswith(".npy") else n
        c.rhas(x, n).rpeek(x, short).rread(x, n, t, rng.choice(["one", "two"])).rread(x, short, t)
        if rng.random() < 0.2:
            c.rread(x, n, rng.choice([q for q in TYPES if q != t]))
    c.rhas(x, "nothing").rread(x, "nothing", "u1")


NP_SCRIPT = r'''
import sys, io, json, numpy as np, random
rng = random.Random(int(sys.argv[1])); n = int(sys.argv[2])
ty = {"i1":"i1","u1":"u1","i2":"i2","u2":"u2","i4":"i4","u4":"u4","i8":"i8","u8":"u8","f4":"f4","f8":"f8","c8":"c8","c16":"c16","b1":"?"}
for _ in range(n):
    d = {}; ts = {}
    for k in range(rng.choice([1,1,2,3,4])):
        t = rng.choice(sorted(ty) + ["U"]); sh = rng.choice([(),(0,),(1,),(3,),(2,2),(2,0),(2,1,3),(40,)])
        m = 1
        for s in sh: m *= s
        if t == "U":
            a = np.array([rng.choice(["","a","bc","\u00e9","\U0001f600x"]) for _ in range(m)] or [], dtype="U4").reshape(sh)
            if rng.random() < .5: a = a.astype(">U4")
        elif t == "b1": a = np.array([rng.random() < .5 for _ in range(m)], dtype="?").reshape(sh)
        else:
            dt = np.dtype(rng.choice("<>") + ty[t])
            a = np.frombuffer(bytes(rng.choice([0,0,1,255,rng.randrange(256)]) for _ in range(m * dt.itemsize)), dtype=dt).reshape(sh)
        if rng.random() < .4: a = np.asfortranarray(a)
        name = "k%d" % k; d[name] = a; ts[name + ".npy"] = t
    f = io.BytesIO(); (np.savez if rng.random() < .5 else np.savez_compressed)(f, **d)
    print(json.dumps({"hex": f.getvalue().hex(), "ts": ts}))
'''


def numpy_archives(seed, n):
    exe = "/opt/veriftools/pyvenv/bin/python3"
    if not os.path.exists(exe):
        return []
    import json
    r = subprocess.run([exe, "-c", NP_SCRIPT, str(seed), str(n)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
    return [json.loads(l) for l in r.stdout.splitlines()] if r.returncode == 0 else []


def end64(n, size, off, ph=0, plain=None):
    """the ZIP64 end record and locator (unless plain says no) and the end record, with placeholders for the bits of ph
    (1 count, 2 size, 4 offset) and for what does not fit"""
    if n > 65535:
        ph |= 1
    ph |= (2 if size >= 2 ** 32 else 0) | (4 if off >= 2 ** 32 else 0)
    z = struct.pack("<IQHHIIQQQQ", 0x06064b50, 44, 45, 45, 0, 0, n, n, size, off) + struct.pack("<IIQI", 0x07064b50, 0, off + size, 1)
    m = 65535 if ph & 1 else n
    return z + struct.pack("<IHHHHIIH", 0x06054b50, 0, 0, m, m, 0xffffffff if ph & 2 else size, 0xffffffff if ph & 4 else off, 0)


# more than 4 GiB of zeros, compressed by a producer which flushes now and then; entries behind it
def huge_entry(name, n, ask):
    from .p_misc import LC
    im = py_image({"t": "u1", "f": 0, "sh": [3], "el": ["00"] * 3}, "L")
    hd = ("{'descr': '|u1', 'fortran_order': False, 'shape': (%d,), }" % n).encode()
    hd = b"\x93NUMPY\1\0" + struct.pack("<H", 118) + hd + b" " * (117 - len(hd)) + b"\n"
    co = zlib.compressobj(9, zlib.DEFLATED, -15)
    head = co.compress(hd) + co.flush(zlib.Z_FULL_FLUSH)
    unit = 1 << 22
    blk = co.compress(bytes(unit)) + co.flush(zlib.Z_FULL_FLUSH)
    rest = co.compress(bytes(n % unit)) + co.flush(zlib.Z_FINISH)
    crc, zz = zlib.crc32(hd), bytes(1 << 26)
    left = n
    while left:
        crc = zlib.crc32(zz[:min(left, len(zz))], crc)
        left -= min(left, len(zz))
    us, cs = n + len(hd), len(head) + len(blk) * (n // unit) + len(rest)
    x = struct.pack("<HHQQ", 1, 16, us, cs)
    loc = b"PK\3\4" + struct.pack("<HHHHHIIIHH", 45, 0, 8, 0, 0x21, crc, 2 ** 32 - 1, 2 ** 32 - 1, 7, len(x)) + b"big.npy" + x
    x = struct.pack("<HHQ", 1, 8, us)
    cd = b"PK\1\2" + struct.pack("<HHHHHHIIIHHHHHII", 45, 45, 0, 8, 0, 0x21, crc, cs, 2 ** 32 - 1, 7, len(x), 0, 0, 0, 0, 0) + b"big.npy" + x
    at = len(loc) + cs
    f = struct.pack("<HHIIIIH", 0, 0, 0x210000, zlib.crc32(im), len(im), len(im), 9) + struct.pack("<H", 0)
    small = b"PK\3\4" + struct.pack("<H", 20) + f + b"small.npy" + im
    cd += b"PK\1\2" + struct.pack("<HH", 20, 20) + f + struct.pack("<HHHII", 0, 0, 0, 0, at) + b"small.npy"
    end = at + len(small)
    c = LC(name)
    c.fill("a", "u1", 0, [3], "zero:1")
    if "read" in ask:
        c.fill("g", "u1", 0, [n], "zero:1")
    else:
        c.declare("g", "u1", 0, [n])
    p1 = len(loc) + len(head)
    parts = "0:%s;%d:%s*%d;%d:%s" % ((loc + head).hex(), p1, blk.hex(), n // unit, p1 + len(blk) * (n // unit),
                                    (rest + small + cd + struct.pack("<IHHHHIIH", 0x06054b50, 0, 0, 2, 2, len(cd), end, 0)).hex())
    c.foreign("w", "fsparse p=w.npz parts=" + parts, [("big", -1, 1, "g"), ("small", -1, 1, "a")])
    if "read" in ask:
        c.add("tdel d=g")
    c.ropen("r", "w").rsum("r")
    if "peek" in ask:
        c.rpeek("r", "big")
    if "read" in ask:
        c.rread("r", "big", "u1")
    return c.rread("r", "small", "u1")


def zip64_archives(ctx):
    """archives beyond what the plain end record holds, and entries beyond 32 bits"""
    from .p_misc import LC
    rng, cases = ctx.rng, []
    img = lambda n: py_image({"t": "u1", "f": 0, "sh": [n], "el": ["00"] * n}, "L")
    for i, (n, z) in enumerate([(65535, 0), (65535, 1), (65536, 1), (rng.randrange(65537, 66000), 1), (300, 1)] + ([] if ctx.quick else [(65537, 1), (131072, 1), (131071, 1), (200000, 1)])):
        c = LC("foreign-count-%d-%d" % (n, z))
        c.fill("a", "u1", 0, [3], "zero:1").fmany("w", "e", n, img(3), "a", z).ropen("r", "w").rsum("r")
        for k in (0, 1, n - 1, n, n - 65536, 65535, 65534, 255, 256, rng.randrange(n)):
            if k >= 0:
                c.rhas("r", "e%d" % k).rread("r", "e%d" % k, "u1")
        c.rpeek("r", "e%d" % (n - 1))
        cases.append(c)
    jobs = [ctx.background(ctx.validate, "BigTrace", cases, jvms=2, as_mb=6000, cpu=120, sample=0)]

    big = [huge_entry("over-4G-deflated", 2 ** 32 + 300, ["peek"])]
    jobs.append(ctx.background(ctx.validate, "BigTrace", big, as_mb=24000, cpu=200, sample=0))
    return jobs


def far_entries(ctx):
    """archives of gigabytes (of nothing): entries and the directory at offsets of all sizes which 32 bits hold"""
    from .npzgen import ZC
    rng = ctx.rng
    lim = 0x90000000
    offs = [2 ** 31 - 220, 2 ** 31 - 100, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 2 ** 31 + 12345, lim - 150, lim - 1, lim, lim + 1, lim + 7, 3 * 10 ** 9, 2 ** 32 - 4000, 2 ** 24 - 1, 2 ** 24]
    offs += [rng.randrange(2 ** 30, 2 ** 32 - 4000) for _ in range(ctx.n(5, 60))]
    offs += [2 ** 32 - 500, 2 ** 32 - 200, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 7, 2 ** 33 + 12345, 2 ** 40 + 3] + [rng.randrange(2 ** 32, 2 ** 42) for _ in range(ctx.n(3, 30))]
    cases = []
    for i, off in enumerate(offs):
        c = ZC("far-%d" % i)
        arrs = [rand_arr(rng, rng.choice(TYPES[:-1]), rng.choice(SHAPES)) for _ in range(4)]
        parts, cd, at, ents = [], b"", 0, []
        for j, a in enumerate(arrs):
            c.make("a%d" % j, a)
            img, n = py_image(a, "L"), b"e%d.npy" % j
            ents.append((n, "a%d" % j))
            m = rng.choice([0, 8])
            d = deflate(rng, img) if m else img
            if j == 1 or (j == 2 and i % 3 == 0):
                at = max(at, off + 1000 * (j - 1))
            lz, crc = i % 2 == 0 and rng.random() < .6, zlib.crc32(img)
            us, cs, of = [rng.random() < .5 if i % 4 else False for _ in range(3)]
            of = of or at >= 2 ** 32 - 1
            w = lambda flag, v: 0xffffffff if flag else v
            q = lambda *p: b"".join(struct.pack("<Q", v) for flag, v in p if flag)
            x = q((lz, len(img)), (lz, len(d)))
            x = struct.pack("<HH", 1, len(x)) + x if x else b""
            loc = b"PK\3\4" + struct.pack("<HHHHHIIIHH", 45 if x else 20, 0, m, 0, 0x21, crc, w(lz, len(d)), w(lz, len(img)), len(n), len(x)) + n + x + d
            x = q((us, len(img)), (cs, len(d)), (of, at))
            x = struct.pack("<HH", 1, len(x)) + x if x else b""
            cd += b"PK\1\2" + struct.pack("<HHHHHHIIIHHHHHII", 45, 45 if x else 20, 0, m, 0, 0x21, crc, w(cs, len(d)), w(us, len(img)), len(n), len(x), 0, 0, 0, 0, w(of, at)) + n + x
            parts.append((at, loc))
            at += len(loc)
        # Python writes a ZIP64 end record from 2 GiB on
        parts.append((at, cd + (end64(4, len(cd), at, rng.choice([0, 0, 0, 1, 2, 4, 7])) if at >= 2 ** 32 - 1 or at >= 2 ** 31 and rng.random() < .6
                                else b"PK\5\6" + struct.pack("<HHHHIIH", 0, 0, 4, 4, len(cd), at, 0))))
        c.fforeign("far.npz", parts, ents).ropenf("r", "far.npz", ["str", "cstr", "path"][i % 3]).rkeys("r")
        for j in rng.sample(range(4), 4):
            c.rread("r", "e%d" % j, arrs[j]["t"], rng.choice(["one", "two"])).rpeek("r", "e%d.npy" % j)
        cases.append(c)
    ctx.validate("NpzTrace", cases, as_mb=6000, cpu=60, sample=0)


def C16(ctx):
    import io, zipfile
    rng = ctx.rng
    jobs = zip64_archives(ctx)
    far_entries(ctx)
    prod = ctx.model("ZipMC", ctx.n("ZipMC.cfg", "ZipMCBig.cfg"), what="all producers of two entries with the choices of the configuration")
    if not prod:
        raise Infra("no archives from the model")
    prod.sort(key=str)
    cases = []
    for i, g in enumerate(prod):
        if ctx.quick and (i + ctx.seed) % 2 and g["h"]["lz"] + g["h"]["dz"] > 0 and g["h"]["ver"] != [20, 20]:
            continue
        c = BC("prod-%d" % i)
        c.note = str(g["h"])
        c.mset("b", bytes(g["b"])).ropen("r", "b", "sf"[i % 2], rng.choice(["copy", "move"] if i % 2 == 0 else ["str", "cstr", "path"]))
        for n, t in (("dir/b", "i2"), ("a", "u1"), ("a.npy", "u1")):
            c.rread("r", n, t)
        c.rkeys("r").rpeek("r", "a").rhas("r", "a").rhas("r", "b")
        cases.append(c)
    feats = ["end64", "lz64", "dz64", "flags", "vers", "times", "attrs", "order", "pre", "gap"]
    soft = ["softflags", "softextra", "comment", "acomment", "newer", "lack"]
    for i in range(ctx.n(400, 8000)):
        arrs = [rand_arr(rng) for _ in range(rng.choice([0, 1, 2, 2, 3, 5]))]
        ents = [("e%d.npy" % j if rng.random() < 0.9 else "raw%d" % j, py_image(a, rng.choice("LB"), rng.choice([1, 1, 2]))) for j, a in enumerate(arrs)]
        ft = set(x for x in feats if rng.random() < 0.5) | set(x for x in soft if rng.random() < 0.08)
        if i < len(soft):
            ft.add(soft[i])
        data = py_zip(rng, ents, ft)
        c = BC("py-%d" % i)
        c.note = " ".join(sorted(ft))
        c.mset("b", data).ropen("r", "b", rng.choice("sf"), "str")
        ask(rng, c, "r", ents, [a["t"] for a in arrs])
        cases.append(c)
    # Python's zipfile, in the ways NumPy uses it and others
    for i in range(ctx.n(80, 1000)):
        arrs = [rand_arr(rng) for _ in range(rng.choice([1, 2, 3]))]
        ents = [("e%d.npy" % j, py_image(a, rng.choice("LB"))) for j, a in enumerate(arrs)]
        f = io.BytesIO()
        with zipfile.ZipFile(f, "w", rng.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED]), allowZip64=True) as z:
            for n, img in ents:
                k = rng.randrange(3)
                if k == 0:
                    with z.open(n, "w", force_zip64=True) as o:
                        o.write(img)
                elif k == 1:
                    z.writestr(n, img, compress_type=rng.choice([0, 8]))
                else:
                    zi = zipfile.ZipInfo(n, (1980 + rng.randrange(100), 1, 1, 0, 0, 0))
                    zi.external_attr = rng.randrange(1 << 32)
                    z.writestr(zi, img)
        c = BC("zipfile-%d" % i)
        c.mset("b", f.getvalue()).ropen("r", "b", rng.choice("sf"), "str")
        ask(rng, c, "r", ents, [a["t"] for a in arrs])
        cases.append(c)
    np_ = numpy_archives(ctx.seed, ctx.n(100, 1500))
    for i, g in enumerate(np_):
        c = BC("numpy-%d" % i)
        names = sorted(g["ts"])
        c.mset("b", bytes.fromhex(g["hex"])).ropen("r", "b", rng.choice("sf"), "str")
        ask(rng, c, "r", [(n, None) for n in names], [g["ts"][n] for n in names])
        cases.append(c)
    ctx.cov["archives by NumPy"] = len(np_)
    # longer contents with all kinds of blocks
    for i in range(ctx.n(60, 600)):
        n = rng.choice([300, 1000, 2500])
        k = rng.randrange(4)
        el = ["%02x" % (rng.randrange(256) if k == 0 else rng.choice([0, 0, 0, 9]) if k == 1 else (j * 7) % 31 if k == 2 else int(rng.gauss(90, 15)) % 256)
              for j in range(n)]
        ents = [("e0.npy", py_image({"t": "u1", "f": 0, "sh": [n], "el": el}, "L"))]
        c = BC("blocks-%d" % i)
        c.mset("b", py_zip(rng, ents, set(["lz64"]))).ropen("r", "b").rread("r", "e0", "u1")
        cases.append(c)
    ctx.validate("ZipTrace", cases, sample=2)
    # long ones: distances up to the window, long codes, many blocks
    src = [("cyc:32768", 66000), ("cyc:32767", 70000), ("cyc:32640", 100000), ("low:1", 40000), ("skew:2", 60000), ("runs:3", 60000),
           ("rand:4", 70000), ("cyc:7", 5000), ("zero:1", 90000), ("mix:5", 30000)]
    if not ctx.quick:
        src += [("%s:%d" % (rng.choice(["cyc", "low", "skew", "runs", "rand", "mix"]), rng.randrange(1, 33000)), rng.randrange(1000, 300000)) for _ in range(40)]
    ctx.validate("NpzTrace", foreign_streams(ctx, src, ctx.n(4, 12)), sample=0, as_mb=4000, cpu=60)
    for j in jobs:
        j()
    if not ctx.quick:
        for n in (2 ** 32 - 129, 2 ** 32 - 128, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 2 ** 27 + 77):
            ctx.validate("BigTrace", [huge_entry("over-4G-%d" % n, n, ["peek", "read"])], as_mb=29000, cpu=600, sample=0)


# ------------------------------------------------------------------------ C15

def make_archives(ctx, specs):
    """archives of the library's own making: [(bytes, names, types)]"""
    cases = []
    for i, (m, kind, arrs, names) in enumerate(specs):
        c, _, _ = writer_case(ctx, ctx.rng, "mk-%d" % i, m, ctx.rng.choice("LB"), "s", arrs, names)
        c.add("bhex b=z")
        cases.append(c)
    out = []
    for (m, kind, arrs, names), r in zip(specs, run_driver(ctx.exe(), cases)):
        h = [x["hex"] for x in r if "hex" in x]
        if not h:
            # the writer itself fails: nothing to damage
            continue
        out.append((bytes.fromhex(h[0]), [n if n.endswith(".npy") else n + ".npy" for n in names], [a["t"] for a in arrs]))
    return out


def records(data):
    """Where the fields and the data of an archive are: [(local fields, data (from, to), directory fields)], fields: name -> (offset, size)."""
    L = {"need": (4, 2), "flag": (6, 2), "method": (8, 2), "time": (10, 4), "crc": (14, 4), "cs": (18, 4), "us": (22, 4), "nl": (26, 2), "xl": (28, 2)}
    D = {"made": (4, 2), "need": (6, 2), "flag": (8, 2), "method": (10, 2), "time": (12, 4), "crc": (16, 4), "cs": (20, 4), "us": (24, 4), "nl": (28, 2), "xl": (30, 2),
         "cl": (32, 2), "disk": (34, 2), "ia": (36, 2), "ea": (38, 4), "of": (42, 4)}
    u = lambda o, n: int.from_bytes(data[o:o + n], "little")
    e = data.rindex(b"PK\x05\x06")
    o, out = u(e + 16, 4), []
    for _ in range(u(e + 10, 2)):
        if data[o:o + 4] != b"PK\x01\x02":
            return out
        nl, xl, cl = u(o + 28, 2), u(o + 30, 2), u(o + 32, 2)
        lo = u(o + 42, 4)
        if lo + 30 > len(data) or data[lo:lo + 4] != b"PK\x03\x04":
            return out
        at = lo + 30 + u(lo + 26, 2) + u(lo + 28, 2)
        out.append(({k: (lo + f, n) for k, (f, n) in L.items()}, (at, at + u(o + 20, 4)), {k: (o + f, n) for k, (f, n) in D.items()}))
        o += 46 + nl + xl + cl
    return out


def field_edits(rng, data, thorough):
    """Alterations of several places at once: [(off, bytes), ..]"""
    rs = records(data)
    u = lambda f: int.from_bytes(data[f[0]:f[0] + f[1]], "little")
    put = lambda f, v: (f[0], (v & ((1 << 8 * f[1]) - 1)).to_bytes(f[1], "little"))
    out = []
    for l, (d0, d1), d in rs:
        hit = [[]]
        if d1 > d0:
            for at in {d0, d1 - 1, rng.randrange(d0, d1)}:
                hit.append([(at, bytes([data[at] ^ (1 << rng.randrange(8))]))])
        for v in (0, 0xffffffff, u(d["crc"]) ^ 1, u(d["crc"]) ^ 0x80000000, rng.getrandbits(32), 1):
            for h in hit:
                out.append([put(l["crc"], v), put(d["crc"], v)] + h)
        for k in ("method", "cs", "us", "crc", "need", "flag", "nl", "xl"):
            for v in {u(d[k]) + 1, u(d[k]) - 1, 0, 8, 0xffffffff, rng.getrandbits(32)}:
                for h in rng.sample(hit, min(len(hit), 4 if thorough else 2)):
                    out.append([put(l[k], v), put(d[k], v)] + h)
                    out.append([put(l[k], v)] + h)
                    out.append([put(d[k], v)] + h)
        # shorter or longer by agreement of all sizes
        for k in (-1, 1, -4, 4):
            out.append([put(x["cs"], u(d["cs"]) + k) for x in (l, d)] + [put(x["us"], u(d["us"]) + k) for x in (l, d)])
            out.append([put(x["us"], u(d["us"]) + k) for x in (l, d)])
            out.append([put(x["cs"], u(d["cs"]) + k) for x in (l, d)])
        # everything there is to check set to nothing
        out.append([put(x[k], 0) for x in (l, d) for k in ("crc", "cs", "us")])
        out.append([put(x[k], 0) for x in (l, d) for k in ("crc", "us")])
        out.append([put(l[k], 0) for k in ("crc", "cs", "us")] + [put(l["flag"], 8)])
        out.append([put(x["flag"], v) for x in (l, d) for v in (1,)])
    # fields exchanged between entries
    for i in range(len(rs)):
        for j in range(len(rs)):
            if i == j:
                continue
            for ks in (("of",), ("crc",), ("crc", "cs", "us"), ("of", "crc"), ("of", "crc", "cs", "us"), ("of", "crc", "cs", "us", "method")):
                out.append([put(rs[i][2][k], u(rs[j][2][k])) for k in ks])
                out.append([put(rs[i][2][k], u(rs[j][2][k])) for k in ks] + [put(rs[j][2][k], u(rs[i][2][k])) for k in ks])
                out.append([put(rs[i][2][k], u(rs[j][2][k])) for k in ks] + [put(rs[i][0][k], u(rs[j][0][k])) for k in ks if k != "of"])
    return out


def C15(ctx):
    rng = ctx.rng
    bg = ctx.background(ctx.model, "ZipMC", "ZipMC.cfg", what="reader of the specification")
    u = lambda t, sh: rand_arr(rng, t, sh)
    specs = [(0, "s", [u("u1", [5])], ["a"]),
             (8, "s", [u("i4", [3])], ["a"]),
             (0, "s", [u("i2", [2]), u("f8", []), u("u1", [3])], ["x", "yy", "z.npy"]),
             (8, "s", [u("u1", [40]), u("c8", [2])], ["p", "q"]),
             (0, "s", [u("u1", [2])], ["a-name-of-some-length-%s" % ("n" * 19)]),
             (0, "s", [u("i2", [1]), u("u1", [1])], ["dir/" * 6 + "file-1", "dir/" * 6 + "file-2"]),
             (8, "s", [{"t": "u1", "f": 0, "sh": [300], "el": ["%02x" % rng.choice([0, 1, 2, 3, 77]) for _ in range(300)]}], ["d"])]
    if not ctx.quick:
        specs += [(rng.choice([0, 8]), "s", [rand_arr(rng) for _ in range(k)], ["n%d" % j for j in range(k)]) for k in (1, 2, 2, 3, 3, 4)]
    arch = make_archives(ctx, specs)
    # archives of other producers
    for k in range(ctx.n(3, 10)):
        arrs = [rand_arr(rng, rng.choice(["i4", "u1", "f8"]), rng.choice([[3], [2, 2]])) for _ in range(2)]
        ents = [("e%d.npy" % j, py_image(a, "L")) for j, a in enumerate(arrs)]
        arch.append((py_zip(rng, ents, set([["lz64"], ["lz64", "dz64"], ["gap", "pre", "order"]][k % 3])), [e[0] for e in ents], [a["t"] for a in arrs]))
    cases = []

    def start(cid, a):
        c = BC(cid)
        c.mset("o", a[0]).pref("o", a[1], a[2])
        return c
    for ai, a in enumerate(arch):
        data, names, tys = a
        edits = []
        for off in range(len(data)):
            vals = [data[off] ^ (1 << rng.randrange(8)), rng.randrange(256)] if ctx.quick else \
                   [data[off] ^ (1 << b) for b in range(8)] + [0, 255, rng.randrange(256)]
            for v in set(vals):
                if v != data[off]:
                    edits.append((off, 1, bytes([v])))
        # two bytes at a time, swaps of neighbours
        for off in range(len(data) - 1):
            if rng.random() < ctx.n(0.15, 1) and data[off] != data[off + 1]:
                edits.append((off, 2, data[off:off + 2][::-1]))
        for _ in range(ctx.n(80, 800)):
            off = rng.randrange(len(data))
            n = rng.choice([0, 1, 2, 4, 8, 20, 60])
            ins = rng.choice([b"", b"", bytes(rng.randrange(256) for _ in range(rng.choice([1, 2, 4, n]))), bytes(n), b"\xff" * n,
                              data[(off + n):(off + 2 * n)]])
            n = min(n, len(data) - off)
            if data[off:off + n] != ins:
                edits.append((off, n, ins))
        # 32-bit fields set to extreme values
        for off in range(0, len(data) - 3, ctx.n(3, 1)):
            for v in (0xffffffff, 0, 0x7fffffff, 0x80000000)[:ctx.n(1, 4)]:
                ins = struct.pack("<L", v)
                if data[off:off + 4] != ins:
                    edits.append((off, 4, ins))
        for es in field_edits(rng, data, not ctx.quick):
            new = bytearray(data)
            for off, b in es:
                new[off:off + len(b)] = b
            new = bytes(new)
            if new != data:
                a0 = next(k for k in range(len(data)) if data[k] != new[k])
                a1 = next(k for k in range(len(data) - 1, -1, -1) if data[k] != new[k]) + 1
                edits.append((a0, a1 - a0, new[a0:a1]))
        per = 250
        for k in range(0, len(edits), per):
            c = start("arch%d-%d" % (ai, k), a)
            for off, n, ins in edits[k:k + per]:
                c.pedit("x", data, off, n, ins, names, tys, "s" if rng.random() < 0.97 else "f")
                if rng.random() < 0.06:
                    c.plate("o", data[:off] + ins + data[off + n:] if rng.random() < 0.8 else data[:off], names, tys, rng.random() < 0.5)
            cases.append(c)
    ctx.validate("ZipTrace", cases, sample=0, cpu=120, jvms=1)
    ctx.cov["damaged archives probed"] = sum(1 for c in cases for _, e in c.cmds if e and e["op"] == "pedit")
    # exchanged pieces: the data of one entry under another name (sizes and CRC agree with neither)
    swaps = []
    for ai, a in enumerate(arch[:6]):
        data, names, tys = a
        if len(names) < 2:
            continue
        c = start("swap%d" % ai, a)
        for _ in range(ctx.n(40, 300)):
            i, j = sorted(rng.sample(range(len(data)), 2))
            n = min(rng.choice([1, 4, 16, 46, 80]), j - i, len(data) - j)
            new = data[:i] + data[j:j + n] + data[i + n:j] + data[i:i + n] + data[j + n:]
            if n and new != data:
                c.pedit("x", data, i, j + n - i, new[i:j + n], names, tys)
        swaps.append(c)
    ctx.validate("ZipTrace", swaps, sample=0, cpu=120)
    # long entries, stored: one byte of the data changed, anywhere
    from .npzgen import ZC
    long = []
    for i, n in enumerate(ctx.n([300, 4096, 16384, 65535, 65536, 70001, 131072, 262144, 1 << 20],
                                [127, 300, 512, 1000, 1024, 4095, 4096, 4097, 8192, 16384, 32768, 65535, 65536, 65537, 70001, 131071, 131072, 131073, 262144, 524288, 1 << 20, (1 << 20) + 1, 3 << 20])):
        size = max(0, n - 128)           # of the elements: the image has n bytes
        c = ZC("long-%d" % n)
        c.fill("a", "u1", 0, [size], ["rand:%d", "zero:%d", "mix:%d"][i % 3] % i).fill("b", "u1", 0, [size + 77], "rand:5").make("s", rand_arr(rng, "i2", [2]))
        c.wopen("w", "s", "", 0).wwrite("w", "s", "s").wwrite("w", "a", "a").wwrite("w", "b", "b").wclose("w").wstr("w", "o").ropenb("r", "o").rread("r", "a", "u1").rread("r", "b", "u1").rdel("r")
        backs = {0, 1, 2, 3, size - 1, size // 2, n - 1, n - 7} | {rng.randrange(n) for _ in range(ctx.n(6, 40))} | {x for x in (4095, 4096, 65535, 65536, n - 65536, n - 65537) if 0 <= x < n}
        for j, back in enumerate(sorted(x for x in backs if 0 <= x < n)):
            which, at = ("a", back) if j % 4 else ("b", back)
            c.bdamage("o", "d", which + ".npy", at)
            if j % 5:
                c.ropenb("r", "d", "copy")
            else:
                c.bsave("d", "z").ropenf("r", "z")
            c.rread("r", which, "u1", ["one", "two"][j % 2]).rpeek("r", which).rread("r", "s", "i2")
            if j % 3 == 0:
                c.rread("r", "ab"[which == "a"], "u1")
        long.append(c)
    ctx.validate("NpzTrace", long, sample=0, as_mb=4000, cpu=60)
    if not ctx.quick:
        # the same with the sanitizers: no invalid memory access on any damage
        ctx.validate("ZipTrace", cases[::3], exe=ctx.exe("asan"), as_mb=0, sample=0, cpu=300, env=ASAN)
    bg()


ASAN = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:max_allocation_size_mb=3000"}


# ------------------------------------------------------------------------ C24

def C24(ctx):
    rng = ctx.rng
    bg = ctx.background(ctx.model, "NpzMC", "NpzMC.cfg", what="writers: unfinished archives never open")
    u = lambda t, sh: rand_arr(rng, t, sh)
    specs = [(0, "s", [], []), (0, "s", [u("u1", [2])], ["a"]), (8, "s", [u("i2", [2])], ["a"]),
             (0, "s", [u("u1", [1]), u("f4", [3])], ["a", "b"]), (8, "s", [u("U", [2]), u("b1", [3])], ["aa", "b"])]
    if not ctx.quick:
        specs += [(m, "s", [rand_arr(rng) for _ in range(k)], ["n%d" % j for j in range(k)]) for k in (1, 2, 3, 4) for m in (0, 8)]
    cases = []
    for ai, (data, names, tys) in enumerate(make_archives(ctx, specs)):
        c = None
        for n in range(len(data) + 1):
            if n % 400 == 0:
                c = BC("cut%d-%d" % (ai, n))
                cases.append(c)
            c.add("bset b=x hex=%s" % data[:n].hex())
            c.probe("x", names[:1], tys[:1], {"op": "pfin" if n == len(data) else "punfin"}, "f" if n % 50 == 7 else "s")
    # writers which have not been closed, in memory and on disk
    for i in range(ctx.n(60, 600)):
        k = rng.choice([0, 1, 2, 3, 6])
        m = rng.choice([0, 8])
        c = BC("unclosed-%d" % i)
        kind = rng.choice("sf")
        for j in range(k):
            c.make("a%d" % j, rand_arr(rng, sh=rng.choice(SHAPES + [[600]])))
        c.cthrow("bad").wopen("w", kind, "u.npz", m, rng.choice(ENS))
        for j in range(k + 1):
            if kind == "s":
                c.wbytes("w", "x").ropen("r", "x", rng.choice("sf"), "str")
            else:
                c.fbytes("w", "u.npz", "x").ropen("r", "x", rng.choice("sf"), "str")
            if rng.random() < 0.2:
                c.wthrow("w", "bad", "bad")
            if j < k:
                c.wwrite("w", "n%d" % j, "a%d" % j)
        if kind == "s":
            c.wclose("w").wbytes("w", "x").ropen("r", "x")
        else:
            (c.wclose("w") if rng.random() < 0.5 else c.wdel("w")).fbytes("w", "u.npz", "x").ropen("r", "x")
        cases.append(c)
    # programs killed while they write; the file is what a later program finds
    for i in range(ctx.n(60, 500)):
        k = rng.choice([0, 1, 2, 5]) if i >= 16 else [3, 4, 8, 10, 12, 16, 20, 24, 32, 50, 64, 100, 128, 150, 256, 300][i]
        m = rng.choice([0, 8])
        big = rng.random() < (0.5 if k < 20 else 0.1)
        c = BC("killed-%d" % i)
        for j in range(k):
            if big:
                c.add("amake d=a%d t=u1 f=0 sh=%d fill=rand:%d" % (j, rng.choice([10, 5000, 9000, 20000]), j))
            else:
                c.add(amake_line("a%d" % j, rand_arr(rng)))
        cmds = ["wopen w=w kind=f p=k.npz form=str m=%d" % m]
        cmds += ["wwrite w=w name=%s d=a%d" % (("n%d" % j).encode().hex(), j) for j in range(k)]
        closed = rng.random() < 0.3 if i >= 16 else False
        if closed:
            cmds.append(rng.choice(["wclose w=w", "wdel w=w"]))
        c.add("killed cmds=%s" % "\n".join(cmds).encode().hex())
        c.add("bload b=x p=k.npz")
        c.probe("x", ["n0.npy"], ["u1"], {"op": "pfin" if closed else "punfin"}, "f" if i % 2 else "s")
        # a finished archive is overwritten by an unfinished one
        if not closed:
            c.add("wopen w=v kind=f p=k.npz form=str m=%d" % m).add("wclose w=v")
            c.add("bload b=x p=k.npz").probe("x", [], [], {"op": "pfin"})
            c.add("killed cmds=%s" % "\n".join(cmds).encode().hex())
            c.add("bload b=x p=k.npz").probe("x", [], [], {"op": "punfin"})
        cases.append(c)
    ctx.validate("ZipTrace", cases, sample=1, cpu=60)
    bg()


