"""Checks of sizes, limits, faults, user tensors, threads and equivalent forms: C17-C21, C23."""
import io, struct, zipfile, zlib
from .core import Infra, run_driver, to_trace
from .npygen import *
from .npzgen import ZC, nb
from .p_npz import ask_all

MIB = 1 << 20


# ------------------------------------------------------------------------ C20
# Sizes around the block sizes of the codec loop, in every class of behaviour
# which spec/CodecLoop.tla distinguishes.

def raw_entries(data):
    """(name, method, stored bytes, announced size) of an archive, by Python's reader of the directory"""
    z = zipfile.ZipFile(io.BytesIO(data))
    out = []
    for i in z.infolist():
        n, x = struct.unpack("<HH", data[i.header_offset + 26:i.header_offset + 30])
        p = i.header_offset + 30 + n + x
        out.append((i.filename.encode(), i.compress_type, data[p:p + i.compress_size], i.file_size, i.CRC))
    return out


def streams(packed, plain):
    ref = raw_entries(plain)
    out = []
    for i, (n, m, b, us, crc) in enumerate(raw_entries(packed)):
        if m == 8:
            d = zlib.decompressobj(-15)
            try:
                u = d.decompress(b) + d.flush()
            except zlib.error:
                u = b""
            eof, unused = int(d.eof), len(d.unused_data)
        else:
            u, eof, unused = b, 1, 0
        out.append({"n": list(n), "m": m, "eof": eof, "unused": unused, "size": int(len(u) == us),
                    "same": int(i < len(ref) and u == ref[i][2] and crc == ref[i][4] == zlib.crc32(u))})
    return out


def zcheck(c, packed, plain):
    """compare the compressed archive in one slot with the stored one in another"""
    box = {}

    def keep(r):
        box["plain"] = r.get("hex")
        return {"r": r["r"]}

    def cmp(r):
        try:
            return {"r": "ok", "streams": streams(bytes.fromhex(r["hex"]), bytes.fromhex(box["plain"]))}
        except Exception as x:
            return {"r": "ok", "streams": [], "why": str(x)}
    c.add("bhex b=%s" % plain, {"op": "nothing", "res": keep})
    c.add("bhex b=%s" % packed, {"op": "zcheck", "b": packed, "res": cmp})


def image_size(t, n):
    return 128 + n * SIZE[t]


def measure(ctx, specs):
    """compressed size of the image of (type, count, fill), for each"""
    cases = []
    for i, (t, n, how) in enumerate(specs):
        c = ZC("m%d" % i)
        c.fill("a", t, 0, [n], how).wopen("w", "s", "", 8).wwrite("w", "a", "a").wclose("w").wstr("w", "b")
        cases.append(c)
    out = []
    for r in run_driver(ctx.exe(), cases, as_mb=6000, cpu=60):
        out.append(int(r[-2]["n"]) - (30 + 5 + 46 + 5 + 22) if r[-1]["r"] == "end" and r[-2]["r"] == "ok" else None)
    return out


def both(name, t, n, how, stream=True, kind="s", en="D"):
    """one array, compressed and not, read back through both"""
    c = ZC(name)
    c.fill("a", t, 0, [n], how).fill("s", "u1", 0, [3], "ramp:1")
    for m, b in ((0, "plain"), (8, "packed")):
        c.wopen("w", kind, b, m, en).wwrite("w", "s", "s").wwrite("w", "a", "a").wwrite("w", "t", "s").wclose("w")
        if kind == "s":
            c.wstr("w", b).wdel("w").ropenb("r", b)
        else:
            c.wdel("w").bload(b, b).ropenf("r", b)
        c.rpeek("r", "a").rread("r", "a", t).rread("r", "t", "u1").rdel("r")
    if stream:
        zcheck(c, "packed", "plain")
    return c


def profile(csize, usize):
    return (min((csize + MIB - 1) // MIB, 4), csize % MIB == 0)


def C20(ctx):
    rng = ctx.rng
    loop = ctx.background(ctx.model, "CodecLoop", ctx.n("CodecLoop.cfg", "CodecLoopBig.cfg"), what="chunked decompression: all streams up to the bound")
    ctx.background(ctx.model, "CodecLoop", "CodecLoopOld.cfg", expect_violation=True,
                   what="the loop which stops at a buffer that is not full loses input")
    cases = []
    # contents that compress to any extent, at all sizes around the boundaries of buffers
    edges = []
    for base in (0, 4096, 16384, 32768, 65536, 131072, 262144, MIB, 2 * MIB) if ctx.quick else \
            (0, 64, 128, 4096, 16384, 32768, 65536, 98304, 131072, 262144, 524288, MIB, 2 * MIB, 3 * MIB, 4 * MIB, 7 * MIB):
        for d in (-1, 0, 1, rng.randrange(2, 300)):
            edges.append(base + d)
    fills = ["zero", "rep", "mix", "rand", "low", "runs", "ramp"]
    for i, size in enumerate(edges):
        for j, how in enumerate(fills):
            if ctx.quick and (i + j) % (2 if size < 200000 else 4) or (size > 4 * MIB and (i + j) % 3):
                continue
            n = max(0, size - 128)       # the image is as long as the boundary says ...
            if (i + j) % 5 == 0:
                n = max(0, size)         # ... or the data is
            cases.append(both("edge-%d-%s" % (size, how), "u1", n, "%s:%d" % (how, i), kind="sf"[(i + j) % 7 == 0]))
    # noise repeating with periods around the limits of the window and of match lengths; codes as unequal as can be
    for i, p in enumerate([1, 2, 3, 4, 257, 258, 259, 516, 4095, 4096, 8192, 16384, 24577, 32505, 32506, 32507, 32510, 32640, 32766, 32767, 32768, 32769, 32896, 40000, 65535, 65536]):
        cases.append(both("cyc-%d" % p, "u1", rng.choice([2 * p + 300, 3 * p + rng.randrange(5000), 100000 + p]), "cyc:%d" % p))
    for i in range(ctx.n(8, 60)):
        cases.append(both("skew-%d" % i, ["u1", "u1", "i2"][i % 3], [20000, 40000, 65536 - 128, 131072, 300000, MIB, 1000, 7000][i % 8] + i // 8, "skew:%d" % (i + ctx.seed)))
    for i in range(ctx.n(40, 400)):
        n = int(2 ** rng.uniform(0, 18))
        how = rng.choice(fills + ["skew", "cyc", "low"])
        cases.append(both("rnd-%d" % i, rng.choice(["u1", "u1", "i2", "f8"]), n, "%s:%d" % (how, rng.randrange(1, 40000))))
    for i, t in enumerate(["i2", "f4", "c16", "b1", "f8"]):
        cases.append(both("type-%s" % t, t, rng.randrange(100000, 200000), "%s:%d" % (fills[i + 2], i), en="LB"[i % 2]))

    # compressed sizes in every class of the loop: number of chunks of input, last chunk full or not
    want = set()
    for p in loop():
        if p["good"]:
            want.add((min(p["chunks"], 3), p["inrem"] == 0, p["orem"] == 0, p["left"]))
    found = {}

    def offer(t, n, how, cs):
        if cs is None:
            return
        us = image_size(t, n)
        # window left unread: output crosses a buffer boundary after the second chunk of input
        left = cs > MIB and us > cs * 1.2
        key = (min((cs + MIB - 1) // MIB, 3), cs % MIB == 0, us % MIB == 0, left)
        found.setdefault(key, []).append((t, n, how))
    probes = [("u1", MIB - 128, "low:1"), ("u1", 2 * MIB - 128, "mix:2"), ("u1", 6 * MIB - 128, "low:3"), ("u1", 5 * MIB - 128, "mix:4"),
              ("u1", 9 * MIB - 128, "low:5"), ("u1", 10 * MIB + 77, "low:5"), ("u1", 3 * MIB - 128, "rand:6"), ("u1", 2 * MIB - 128, "rand:7"), ("u1", MIB - 128, "rand:8"),
              ("u1", 2 * MIB + 1000, "rand:9"), ("u1", 5 * MIB, "mix:10"), ("u4", 2 * MIB, "low:11"), ("u1", 24 * MIB, "runs:12"), ("f8", MIB, "mix:13")]
    if not ctx.quick:
        probes += [("u1", rng.randrange(MIB, 30 * MIB), "%s:%d" % (rng.choice(["low", "mix", "runs", "rand"]), i)) for i in range(60)]
    for (t, n, how), cs in zip(probes, measure(ctx, probes)):
        offer(t, n, how, cs)
    # exact multiples of the chunk size: search for the count with the compressed size wanted
    cand = []
    for how, k, slope in [("rand:20", 1, 1.0), ("rand:21", 2, 1.0), ("rand:22", 3, 1.0), ("mix:23", 1, .5), ("mix:24", 2, .5), ("low:25", 1, .27), ("low:26", 2, .27)]:
        cand.append([how, k * MIB, slope, int(k * MIB / slope), 0])
    hits = []
    for step in range(ctx.n(4, 6)):
        todo = []
        for x in cand:
            if x[4]:
                continue
            w = 1 if step < 2 else 12
            todo += [(x, ("u1", max(1, x[3] + d), x[0])) for d in (range(-w, w) if step >= 2 else [0])]
        if not todo:
            break
        for (x, sp), cs in zip(todo, measure(ctx, [sp for _, sp in todo])):
            if cs is None:
                continue
            if cs == x[1]:
                x[4] = 1
                hits.append(sp)
                offer(*sp, cs)
            elif step < 2 or sp[1] == x[3]:
                x.append(int((x[1] - cs) / x[2]))
        for x in cand:
            if not x[4] and len(x) > 5:
                x[3] += x.pop()
                del x[5:]
    got = set(found)
    ctx.cov["loop classes of the model"] = sorted(map(str, want))
    ctx.cov["loop classes exercised"] = sorted(map(str, got))
    ctx.cov["compressed sizes which are exact multiples of the chunk"] = len(hits)
    for k, v in sorted(found.items()):
        for j, (t, n, how) in enumerate(v[:ctx.n(3, 12)]):
            cases.append(both("class-%s-%s-%s-%s-%d" % (k + (j,)), t, n, how))
            if k[1]:
                for d in (-1, 1):
                    cases.append(both("class-%s-%s-%s-%s-%d%+d" % (k + (j, d)), t, n + d, how))
    ctx.validate("NpzTrace", cases, as_mb=8000, cpu=60, sample=0)

    # streams of another compressor: other block types, levels and chunkings
    src = [("zero:1", 300000), ("low:2", 2 * MIB), ("mix:3", 3 * MIB), ("rand:4", 2 * MIB), ("runs:5", 3 * MIB), ("low:6", 6 * MIB)]
    if not ctx.quick:
        src += [("low:7", 12 * MIB), ("mix:8", 9 * MIB), ("rep:9", 40 * MIB), ("rand:10", 70000), ("low:11", 65536)]
    plain = []
    for i, (how, n) in enumerate(src):
        c = ZC("src%d" % i)
        c.fill("a", "u1", 0, [n], how).wopen("w", "s", "", 0).wwrite("w", "a", "a").wclose("w").wstr("w", "b").add("bhex b=b")
        plain.append(c)
    cases = []
    for i, ((how, n), r) in enumerate(zip(src, run_driver(ctx.exe(), plain, as_mb=6000, cpu=60))):
        if r[-1]["r"] != "end" or r[-2]["r"] != "ok":
            raise Infra("no stored image")
        img = raw_entries(bytes.fromhex(r[-2]["hex"]))[0][2]
        for level, strategy, pieces in [(1, 0, 0), (9, 0, 0), (6, zlib.Z_HUFFMAN_ONLY, 0), (6, zlib.Z_RLE, 0), (6, 4, 0), (0, 0, 0), (6, 0, 70000)]:
            co = zlib.compressobj(level, zlib.DEFLATED, -15, 9, strategy)
            if pieces:
                d = b"".join(co.compress(img[k:k + pieces]) + co.flush([zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH][k // pieces % 2]) for k in range(0, len(img), pieces)) + co.flush()
            else:
                d = co.compress(img) + co.flush()
            if len(d) > 7 * MIB:
                continue
            c = ZC("foreign-%d-%d-%d-%d" % (i, level, strategy, pieces))
            c.fill("a", "u1", 0, [n], how)
            z = zip_of([(b"a.npy", 8, img, d)])
            c.add("bset b=z hex=%s" % z.hex(), {"op": "bforeign", "b": "z", "ents": [{"n": list(b"a.npy"), "d": "a"}]})
            c.ropenb("r", "z").rpeek("r", "a").rread("r", "a", "u1").rread("r", "a", "u2").rread("r", "a", "u1", "two")
            cases.append(c)
    ctx.validate("NpzTrace", cases, as_mb=6000, cpu=60, sample=0)


def zip_of(ents):
    """a plain archive of (name, method, contents, data as stored)"""
    out, cd = b"", b""
    for n, m, img, d in ents:
        f = struct.pack("<HHHHHIIIHH", 20, 0, m, 0, 0x21, zlib.crc32(img), len(d), len(img), len(n), 0)
        cd += b"PK\1\2" + struct.pack("<H", 20) + f + struct.pack("<HHHII", 0, 0, 0, 0, len(out)) + n
        out += b"PK\3\4" + f + n + d
    return out + cd + b"PK\5\6" + struct.pack("<HHHHIIH", 0, 0, len(ents), len(ents), len(cd), len(out), 0)


# ------------------------------------------------------------------------ C17

class LC(ZC):
    """cases for spec/Big.tla; w writes to file w.npz ("f") or memory"""

    def wopen(self, w, kind, m=0, en="D"):
        self.kinds = getattr(self, "kinds", {})
        self.kinds[w] = kind
        l = "wopen w=%s kind=%s p=%s.npz m=%d" % (w, kind, w, m)
        return self.add(l + ("" if en == "D" else " en=" + en), {"op": "wopen", "w": w, "m": m, "en": en})

    def wbulk(self, w, name, frm, n, d):
        b = nb(name)
        return self.add("wbulk w=%s name=%s base=%d n=%d d=%s" % (w, b.hex(), frm, n, d),
                        {"op": "wbulk", "w": w, "name": list(b), "from": frm, "n": n, "d": d})

    def wclose(self, w):
        self.add("wclose w=%s" % w, {"op": "wclose", "w": w, "place": w})
        if self.kinds[w] == "s":
            self.add("wstr w=%s b=%s" % (w, w), {"op": "nothing"})
        return self

    def wdel(self, w):
        return self.add("wdel w=%s%s" % (w, an_end()), {"op": "wdel", "w": w, "place": w})

    def foreign(self, w, line, runs):
        """an archive made elsewhere; runs [(prefix, from or -1, count, array)]"""
        self.kinds = getattr(self, "kinds", {})
        self.kinds[w] = "f"
        return self.add(line, {"op": "bforeign", "place": w, "runs": [{"pre": list(nb(p)), "from": f, "cnt": n, "d": d} for p, f, n, d in runs]})

    def fmany(self, w, pre, n, img, d, z):
        import zlib
        return self.foreign(w, "fmany p=%s.npz pre=%s n=%d img=%s crc=%d z=%d" % (w, nb(pre).hex(), n, img.hex(), zlib.crc32(img), z), [(pre, 0, n, d)])

    def declare(self, d, t, f, sh):
        return self.add("nop", {"op": "declare", "d": d, "a": {"t": t, "f": f, "sh": [str(x) for x in sh], "dg": "?"}})

    def zbig(self, w, k=4):
        return self.add("zbig %s k=%d" % ("p=%s.npz" % w if self.kinds[w] == "f" else "b=" + w, k), {"op": "zbig", "place": w})

    def ropen(self, x, w):
        if self.kinds[w] == "f":
            return self.add("ropen x=%s kind=f p=%s.npz form=str" % (x, w), {"op": "ropen", "x": x, "place": w})
        return self.add("ropen x=%s kind=s b=%s form=copy" % (x, w), {"op": "ropen", "x": x, "place": w})

    def rsum(self, x):
        return self.add("rkeys x=%s sum=1" % x, {"op": "rkeys", "x": x})

    def rdel(self, x):
        return self.add("rdel x=%s" % x, {"op": "rdel", "x": x})


# -- entries of gigabytes, stored: a ZIP64 size, and a ZIP64 offset behind it
def giant(ctx, name, kind, m, sizes, tail=1, how="ramp:3"):
    c = LC(name)
    c.fill("s", "i2", 0, [3], "ramp:9")
    c.wopen("w", kind, m, "LB"[len(sizes) % 2])
    c.wwrite("w", "first", "s")
    for i, sh in enumerate(sizes):
        c.fill("g", "u1", 0, sh, how)
        c.wwrite("w", "big%d" % i, "g")
        if i + 1 < len(sizes):
            c.add("tdel d=g")
    for i in range(tail):
        c.wwrite("w", "tail%d" % i, "s")
    c.add("tdel d=g")
    c.wclose("w").zbig("w")
    if kind == "s":
        c.wdel("w")
    c.ropen("r", "w").rsum("r").rpeek("r", "big0")
    for i in range(len(sizes)):
        c.rhas("r", "big%d" % i)
        if i == 0 or not ctx.quick:
            c.rread("r", "big%d" % i, "u1")
    c.rread("r", "tail0", "i2").rread("r", "first", "i2")
    return c


def C17(ctx):
    rng = ctx.rng
    big = []

    big.append(giant(ctx, "over-2.4G", "f", 0, [[2417, 1000000]]))
    jobs = [ctx.background(ctx.validate, "BigTrace", big, as_mb=20000, cpu=200, sample=0)]

    cases = []
    # -- lengths of names
    for i, n in enumerate([1, 250, 251, 252, 254, 255, 256, 257, 511, 512, 4095, 65530, 65531, 65532, 65534, 65535, 65536, 65540, 70000, 131072 + 5]):
        for suffix in ((0, 1) if n > 65000 or not ctx.quick else (i % 2,)):
            name = "n" * (n - 4) + ".npy" if suffix and n > 4 else "n" * n
            c = LC("name-%d-%d" % (n, suffix))
            c.fill("a", "i2", 0, [3], "ramp:1").fill("b", "u1", 0, [2], "ramp:7").wopen("w", "sf"[i % 2], 8 * (i // 2 % 2))
            c.wwrite("w", "x", "b").wwrite("w", name, "a").wwrite("w", "y", "b").wclose("w").zbig("w").ropen("r", "w").rsum("r")
            c.rhas("r", name).rread("r", "y", "u1").rread("r", name, "i2").rread("r", name + ".npy", "i2").rpeek("r", name).rread("r", "x", "u1")
            cases.append(c)
    # -- numbers of entries
    for i, (k, kind, m) in enumerate([(127, "s", 0), (128, "f", 8), (255, "s", 8), (256, "f", 0), (257, "s", 0), (511, "f", 0), (4096, "s", 0)]):
        c = LC("count-%d" % k)
        c.fill("a", "i2", 0, [3], "ramp:1").fill("b", "u1", 0, [2], "ramp:7").wopen("w", kind, m)
        c.wwrite("w", "z", "b").wbulk("w", "e", 0, k - 2, "a").wwrite("w", "zz", "b").wclose("w").zbig("w").ropen("r", "w").rsum("r")
        for n in ("z", "zz", "e0", "e%d" % (k - 3), "e%d" % (k - 2), "e%d" % (k // 2), "e00", "e"):
            c.rhas("r", n).rread("r", n, "u1" if n[0] == "z" else "i2")
        cases.append(c)
    for i, (k, kind) in enumerate([(65533, "s"), (65534, "f"), (65540, "s")] if ctx.quick else
                                  [(65533, "s"), (65534, "f"), (65540, "s"), (65534, "s"), (65535, "f"), (70000, "f"), (65790, "s"), (131100, "s")]):
        c = LC("count-%d" % k)
        c.fill("a", "u1", 0, [1], "ramp:1").fill("b", "i2", 0, [2], "ramp:7").wopen("w", kind, 0)
        c.wwrite("w", "z", "b").wbulk("w", "", 0, k, "a").wwrite("w", "zz", "b").wwrite("w", "zzz", "b")
        c.wclose("w").zbig("w").ropen("r", "w").rsum("r")
        for n in ("z", "zz", "zzz", "0", str(k - 1), "65532", "65533", "65534", "255", "256"):
            c.rhas("r", n).rread("r", n, "i2" if n[0] == "z" else "u1")
        cases.append(c)
    ctx.validate("BigTrace", cases, jvms=4, as_mb=6000, cpu=120, sample=0)

    # -- lengths of headers
    cases = []
    dims = [20, 21, 22, 23, 40, 41, 42, 43, 60, 62, 64, 66, 68, 70, 80, 100, 300]
    for i, nd in enumerate(dims if ctx.quick else dims + list(range(55, 75)) + [1000, 2000]):
        c = NC("head-%d-%d" % (nd, i))
        a = {"t": ["i2", "u1", "f8"][i % 3], "f": i % 2, "sh": [1] * nd, "el": [rand_el(rng, ["i2", "u1", "f8"][i % 3])]}
        c.make("a", a).make("b", rand_arr(rng, "u1", [2])).snew("s", "mf"[i % 2]).ssave("s", "b").ssave("s", "a", "DLB"[i % 3]).ssave("s", "b")
        c.sload("s", "u1").sload("s", a["t"], "c").sload("s", "u1").fsave("p", "a").fpeek("p").fload("p", a["t"])
        cases.append(c)
    ctx.validate("NpyTrace", cases, sample=0)
    # the longest header of version 1.0 has 65526 bytes: dictionaries of 65525 are the last which fit
    lim = []
    for t, en in (("i2", "L"), ("c16", "B")) if ctx.quick else (("i2", "L"), ("c16", "B"), ("u1", "D"), ("f4", "N")):
        code = {"i2": "<i2", "c16": ">c16", "u1": "|u1", "f4": "<f4"}[t]
        for f in (0, 1):
            base = len("{'descr': '%s', 'fortran_order': %s, 'shape': (), }" % (code, bool(f)))
            nd = (65525 - base + 2) // 3                 # "1, 1, ... 1" has 3 nd - 2 characters
            for k in ((nd, nd + 1) if ctx.quick else (nd - 22, nd - 21, nd, nd + 1, nd + 22, nd + 6000)):
                c = ZC("limit-%s-%d-%d" % (t, f, k))
                c.fill("a", t, f, [1] * k, "rand:5").fill("b", "u1", 0, [3], "ramp:1")
                fits = base + 3 * k - 2 <= 65525
                # what is refused leaves no entry behind
                c.wopen("w", "s", "", 0, en)
                if fits:
                    c.fsave("p", "a", en).fload("p", t).fpeek("p").wwrite("w", "a", "a")
                else:
                    c.add("fsave p=p d=a en=%s form=free" % en, {"op": "refused"})
                    c.add("wwrite w=w name=61 d=a", {"op": "refused"})
                c.wwrite("w", "b", "b").wclose("w").wstr("w", "m").ropenb("r", "m").rkeys("r").rread("r", "b", "u1").rread("r", "a", t).rpeek("r", "a")
                lim.append(c)
    ctx.validate("NpzTrace", lim, sample=0)
    for j in jobs:
        j()
    if not ctx.quick:
        G = [[2295, 1000000]]
        for c in [giant(ctx, "deflated-2.5G", "f", 8, [[2500, 1000000]], how="zero:1"),
                  giant(ctx, "memory-2.4G", "s", 0, [[2417, 1000000]]),
                  giant(ctx, "under-2.4G", "f", 0, [[2415, 1000000]]),
                  giant(ctx, "at-2^31", "f", 0, [[2147483520]]),
                  giant(ctx, "two-of-2.3G", "f", 0, G + G, tail=2),
                  giant(ctx, "near-4G", "f", 0, [[4290, 1000000]], tail=2),
                  giant(ctx, "over-4G", "f", 0, [[4300, 1000000], [5]], tail=2),
                  giant(ctx, "deflated-4.3G", "f", 8, [[4300, 1000000], [5]], tail=2, how="zero:1")]:
            ctx.validate("BigTrace", [c], as_mb=29000, cpu=600, sample=0)
