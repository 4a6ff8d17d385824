"""Checks over spec/Npy.tla: C01-C07, C22, C25 and the NPY half of C23."""
import itertools, struct
from .core import Case, Infra
from .npygen import *
from .npzgen import ZC

MC_ARRAYS = [
    {"t": "i2", "f": 0, "sh": [2], "el": ["0102", "ff1a"]},
    {"t": "U", "f": 0, "sh": [2], "el": ["61.0.62.0", "-"]},
    {"t": "c8", "f": 1, "sh": [], "el": ["0102030405060708"]},
    {"t": "b1", "f": 1, "sh": [0, 3], "el": []},
]
MC_JUNK = [bytes([147]), bytes([0, 255])]


def model_cases(ctx, cfg, kind="m", every=1):
    """Programs explored by TLC on NpyMC, for replay."""
    progs = ctx.model("NpyMC", cfg, what="all programs of save/put/load/peek/seek on one stream", timeout=500)
    if not progs:
        raise Infra("the model printed no programs")
    out = []
    for i, prog in enumerate(progs):
        if i % every:
            continue
        c = NC("model-%s-%d" % (kind, i))
        c.snew("s", kind)
        for k in sorted({o["k"] for o in prog if o["op"] == "save"}):
            c.make("a%d" % k, MC_ARRAYS[k - 1])
        for o in prog:
            if o["op"] == "save":
                c.ssave("s", "a%d" % o["k"], o["en"])
            elif o["op"] == "put":
                c.sput("s", MC_JUNK[o["k"] - 1])
            elif o["op"] == "load":
                c.sload("s", o["t"])
            elif o["op"] == "peek":
                c.speek("s")
            else:
                c.sseek("s", o["pos"])
        out.append(c)
    return out


# ------------------------------------------------------------------------ C01

def C01(ctx):
    rng = ctx.rng
    mc = ctx.background(model_cases, ctx, "NpyMC.cfg")
    cases = []
    n = 0
    for t in TYPES:
        for sh in SHAPES:
            for f in (0, 1):
                en = ENS[n % 4]
                a = rand_arr(rng, t, sh, f)
                c = NC("rt-%s-%s-%d-%d" % (t, "x".join(map(str, sh)), f, n))
                c.make("a", a).snew("s", "mf"[(n // 7) % 2])
                # all byte orders one after another on one stream, then back
                ens = [en] + [e for e in ("L", "B") if e != en]
                for e in ens:
                    c.ssave("s", "a", e, SAVE_S[n % 3])
                c.sseek("s", 0)
                for i, e in enumerate(ens):
                    c.sload("s", t, "b%d" % i, LOAD_S[(n + i) % 2])
                c.ssave("s", "b0", ens[0])           # what was loaded can be saved again
                fe = ENS[(n // 3) % 4]
                c.fsave("x.npy", "a", fe, SAVE_F[n % 5]).fload("x.npy", t, "d", LOAD_F[n % 4]).fread("x.npy")
                cases.append(c)
                n += 1
    for i in range(ctx.n(250, 4000)):
        t = rng.choice(TYPES)
        nd = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 8])
        sh = [rng.choice([0, 1, 1, 2, 2, 3, 4, 5]) for _ in range(nd)]
        while count(sh) > 200:
            sh[rng.randrange(nd)] = 1
        if nd == 1 and rng.random() < 0.5:
            sh = [rng.randrange(1, 300 if SIZE.get(t, 4) < 8 else 60)]
        a = rand_arr(rng, t, sh)
        en = rng.choice(ENS)
        c = NC("rnd-%d" % i)
        c.make("a", a).snew("s", rng.choice("mf")).ssave("s", "a", en, rng.choice(SAVE_S))
        if rng.random() < 0.3:
            c.pload("s", t, 0, rng.choice([1, 2, 3, 7, 64]))
        c.sload("s", t, "b").fsave("x", "b", rng.choice(ENS), rng.choice(SAVE_F)).fload("x", t, "", rng.choice(LOAD_F))
        cases.append(c)
    # overwriting a longer file must leave nothing of it behind
    for i in range(6):
        big, small = rand_arr(rng, "i4", [60]), rand_arr(rng, rng.choice(TYPES), [2])
        c = NC("overwrite-%d" % i)
        c.make("a", big).make("b", small).fsave("x", "a").fsave("x", "b", "D", SAVE_F[i % 5]).fread("x").fload("x", small["t"])
        cases.append(c)
    # many dimensions, and arrays with data larger than any stream buffer
    for nd in ctx.n([13, 32, 40, 64, 70, 150], [13, 20, 32, 33, 40, 64, 65, 70, 100, 150, 300, 1000]):
        c = NC("dims-%d" % nd)
        c.make("a", rand_arr(rng, rng.choice(TYPES), [1] * nd)).snew("s").ssave("s", "a").sload("s", "u1")
        c.sseek("s", 0).sload("s", c.cmds[0][1]["a"]["t"], "b").fsave("x", "b").fread("x")
        cases.append(c)
    # strings of every length, zeros in the middle, at the start, at the end
    for i, w in enumerate(ctx.n([8, 15, 16, 17, 31, 33, 63, 65, 129, 255, 257], list(range(1, 70)) + [127, 128, 129, 255, 256, 257, 1025])):
        long = [0x41 + k % 26 for k in range(w)]
        el = []
        for z in ([], [0], [w // 2], [w - 2], [1, w // 2], list(range(0, w - 1, 3))):
            el.append(".".join("%x" % (0 if k in z else v) for k, v in enumerate(long)))
        c = NC("zeros-%d" % w)
        a = {"t": "U", "f": i % 2, "sh": [2, 3], "el": el}
        c.make("a", a).snew("s", "mf"[i % 2])
        for j, en in enumerate(ENS):
            c.ssave("s", "a", en, SAVE_S[j % 3])
        for j in range(4):
            c.sload("s", "U", "b%d" % j, LOAD_S[j % 2])
        c.fsave("x", "b1", ENS[i % 4], SAVE_F[i % 5]).fload("x", "U", "", LOAD_F[i % 4])
        cases.append(c)
    for i, t in enumerate(ctx.n(["i2", "f8", "U", "c16"], TYPES)):
        n = {"U": 700, "c16": 600}.get(t, 9000 // SIZE.get(t, 4))
        c = NC("long-%s" % t)
        c.make("a", rand_arr(rng, t, [n])).snew("s", "f").ssave("s", "a", "B").ssave("s", "a", "L")
        c.sload("s", t).sload("s", t)
        cases.append(c)
    ctx.validate("NpyTrace", cases)
    ctx.validate("NpyTrace", mc(), sample=0)
    # more bytes, and more elements, than 32 bits can count
    job = ctx.background(gigabytes, ctx)
    # bulk contents: digests of large arrays survive the round trip
    bulk(ctx)
    job()


def gigabytes(ctx):
    cases = []
    g = 1 << 32
    for t, n, en in ctx.n([("u8", g // 16 + 3, "B"), ("c16", g // 16 + 3, "L"), ("u1", g + 5, "L")],
                          [(t, g // SIZE[t] + 3, en) for t in TYPES if t != "U" for en in "LB"]):
        c = ZC("gigabytes-%s-%s" % (t, en))
        c.fill("a", t, 0, [n], "ramp:5").fill("b", "i2", 0, [3], "ramp:1").seq(["a", "b"], en, "g")
        cases.append(c)
    ctx.validate("NpzTrace", cases, sample=0, as_mb=12000, cpu=ctx.n(200, 800), jobs=2)


def bulk(ctx):
    """Large arrays through files: what is loaded is what was saved (digests)."""
    cases = []
    i = 0
    for t in TYPES:
        for n in ctx.n([1000, 1024, 4096, 65536, 70000], [512, 1000, 1023, 1024, 2048, 4095, 4096, 8192, 16384, 32768, 65536, 65537, 262144, 262145, 1000003]):
            for en in ("L", "B"):
                c = ZC("bulk-%s-%d-%s" % (t, n, en))
                c.fill("a", t, i % 2, [n, 1] if i % 3 else [n], "rand:%d" % i)
                c.fsave("x", "a", en, SAVE_F[i % 5]).fpeek("x").fload("x", t, LOAD_F[i % 4])
                if n in (1000, 70000):
                    c.fload("x", t, "free")
                    c.seq(["a", "a"], en, "mfp"[i % 3], [64, 7, 1][i % 3])
                i += 1
                cases.append(c)
    # beyond any plausible block size
    for i, (t, n) in enumerate(ctx.n([("u1", (1 << 20) + 3), ("i2", (1 << 20) + 1), ("u4", (1 << 19) + 1), ("f8", 300001), ("c16", 140001), ("c8", 270001), ("U", 150001), ("b1", 1100000), ("i8", (1 << 18) + 5)],
                                     [(t, n) for t in TYPES for n in ((1 << 20) + 1, (1 << 22) + 3)])):
        for en in ("L", "B"):
            c = ZC("huge-%s-%d-%s" % (t, n, en))
            c.fill("a", t, i % 2, [n], "rand:%d" % i)
            c.fsave("x", "a", en, SAVE_F[i % 5]).fload("x", t, LOAD_F[i % 4]).seq(["a"], en, "m")
            cases.append(c)
    ctx.validate("NpzTrace", cases, sample=1, as_mb=6000)


# ------------------------------------------------------------------------ C02

WIDTHS = [8, 9, 10, 11, 12, 16, 31, 63, 64, 99, 100, 101, 127, 128, 199, 255, 256, 512, 999, 1000, 1001, 1234]
LARGE = [2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 48, 2 ** 53, 2 ** 53 + 1, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, 1000, 65535, 65536, 1000000, 10 ** 9, 10 ** 18, 10 ** 19]


def C02(ctx):
    rng = ctx.rng
    mc = ctx.background(model_cases, ctx, "NpyMC.cfg", every=3)
    cases = []
    n = 0
    # every type, order, byte order, over shapes of all kinds: twice the same bytes
    for t in TYPES:
        for en in ENS:
            for f in (0, 1):
                c = NC("img-%s-%s-%d" % (t, en, f))
                c.snew("s", "mf"[n % 2])
                for j, sh in enumerate(([], [3], [0], [2, 3])):
                    c.make("a%d" % j, rand_arr(rng, t, sh, f))
                    c.ssave("s", "a%d" % j, en, SAVE_S[(n + j) % 3])
                    c.ssave("s", "a%d" % j, en, SAVE_S[(n + j + 1) % 3])
                c.fsave("x", "a1", en, SAVE_F[n % 5]).fread("x")
                n += 1
                cases.append(c)
    # headers of every length: around the 64-byte padding boundary and beyond
    for k in range(ctx.n(45, 140)):
        c = NC("hdr-%d" % k)
        c.snew("s")
        for j, d in enumerate((1, 10, 0, 100)):
            sh = [1] * (k % 23) + [d] + ([12] if k % 2 and d == 0 else [])
            if count(sh) > 100:
                sh = [0] + sh
            if k % 3 == 0:
                sh = sh + [0] + [10 ** (k % 11)]
            c.make("a%d" % j, rand_arr(rng, rng.choice(["u1", "i2", "c16", "U", "b1"]), sh)).ssave("s", "a%d" % j)
        cases.append(c)
    # many dimensions
    for i, nd in enumerate(ctx.n([16, 20, 31, 32, 33, 40, 63, 64, 65, 66, 70, 100, 150, 300], list(range(9, 140)) + [200, 255, 256, 257, 300, 500, 1000, 1030])):
        c = NC("dims-%d" % nd)
        c.snew("s", "mf"[i % 2])
        for j in range(2):
            sh = [1] * nd
            sh[(i * 7 + j) % nd] = 2 - j
            c.make("a%d" % j, rand_arr(rng, TYPES[(i + 3 * j) % 14], sh, (i + j) % 2)).ssave("s", "a%d" % j, ENS[(i + j) % 4], SAVE_S[(i + j) % 3])
        c.fsave("x", "a0", "D", SAVE_F[i % 5]).fread("x")
        cases.append(c)
    # zero-size arrays with large dimensions
    for i, d in enumerate([2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 53, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, 1000, 1000000]):
        c = NC("big-%d" % i)
        c.snew("s").make("a", rand_arr(rng, "u1", [d, 0], 0)).ssave("s", "a").make("b", rand_arr(rng, "f8", [0, d], 1)).ssave("s", "b", "B")
        cases.append(c)
    # strings: width and padding
    for i in range(ctx.n(40, 300)):
        k = rng.randrange(1, 8)
        el = [rand_el(rng, "U") for _ in range(k)]
        if i % 5 == 0:
            el = ["-"] * k
        if i % 7 == 0:
            el[rng.randrange(k)] = ".".join("%x" % rng.randrange(1, 0x3000) for _ in range(rng.choice([9, 10, 11, 30])))
        c = NC("str-%d" % i)
        c.snew("s").make("a", {"t": "U", "f": i % 2, "sh": [k], "el": el}).ssave("s", "a", rng.choice(ENS)).ssave("s", "a", rng.choice(ENS))
        cases.append(c)
    for i, w in enumerate(WIDTHS):
        c = NC("width-%d" % w)
        c.snew("s").make("a", {"t": "U", "f": i % 2, "sh": [2], "el": ["62", ".".join("%x" % (0x41 + k % 26) for k in range(w))]}).ssave("s", "a", "LB"[i % 2])
        cases.append(c)
    for i in range(ctx.n(200, 3000)):
        c = NC("rnd-%d" % i)
        c.snew("s", rng.choice("mf"))
        for j in range(3):
            c.make("a", rand_arr(rng))
            en = rng.choice(ENS)
            c.ssave("s", "a", en, rng.choice(SAVE_S))
            if j == 1:
                c.fsave("x", "a", en, rng.choice(SAVE_F)).fread("x")
        cases.append(c)
    # type codes
    c = NC("codes")
    for t in TYPES:
        for en in ENS:
            c.add("todtype t=%s %s" % (t, "def=1" if en == "D" else "en=" + en), {"op": "todtype", "t": t, "en": en})
    cases.append(c)
    ctx.validate("NpyTrace", cases)
    ctx.validate("NpyTrace", mc(), sample=0)


# ------------------------------------------------------------------------ C03

def header_text(rng, descr, f, sh, order, ws):
    """A valid header; ws() gives white space between tokens."""
    tup = "(" + ws()
    for i, d in enumerate(sh):
        tup += str(d) + ws()
        if i < len(sh) - 1 or len(sh) == 1 or rng.random() < 0.3:
            tup += "," + ws()
    tup += ")"
    parts = {"d": ("descr", "'%s'" % descr), "f": ("fortran_order", "True" if f else "False"), "s": ("shape", tup)}
    h = "{" + ws()
    for k in order:
        h += "'%s'" % parts[k][0] + ws() + ":" + ws() + parts[k][1] + ws() + "," + ws()
    return h + "}"


WS = ["", " ", "  ", "\t", "\n", "\r\n", " \t ", " " * 17]


def descr_of(a, en):
    t = a["t"]
    w = max([0 if x == "-" else len(x.split(".")) for x in a["el"]] or [0])
    return ("|" if t in ("i1", "u1", "b1") else (">" if en == "B" else "<")) + (t if t != "U" else "U%d" % w)


def C03(ctx):
    rng = ctx.rng
    gram = ctx.background(ctx.model, "HeaderMC", ctx.n("HeaderMC.cfg", "HeaderMCBig.cfg"),
                          what="all headers of a token grammar: the decoder accepts each with its meaning")
    cases = []
    perms = list(itertools.permutations("dfs"))
    n = 0
    for t in TYPES:
        for en in ("L", "B"):
            for k in range(6):
                a = rand_arr(rng, t, SHAPES[(n * 5 + k) % len(SHAPES)])
                style = n % len(WS)
                ws = (lambda: WS[style]) if k < 3 else (lambda: rng.choice(WS))
                h = header_text(rng, descr_of(a, en), a["f"], a["sh"], perms[(k + n) % 6], ws)
                ver = 1 + (n + k) % 2
                data = py_image(a, en)[-1:] and b"".join(
                    py_el(t, x, en, max([0 if y == "-" else len(y.split(".")) for y in a["el"]] or [0])) for x in a["el"])
                img = wrap(h.encode(), ver, rng.choice([0, 0, 1, 5, 64, 300, 1000]), rng.choice([1, 16, 64])) + data
                c = NC("hdr-%s-%s-%d" % (t, en, k))
                c.snew("s", "mf"[k % 2]).sset("s", img + b"tail").sload("s", t, "a", LOAD_S[k % 2]).sseek("s", 0).speek("s")
                c.fwrite("x", img).fload("x", t, "b", LOAD_F[(n + k) % 4]).fpeek("x").hinfo(h.encode() + b"\n").hinfo(h.encode())
                c.pload("s", t, 0, rng.choice([1, 3, 64]))
                cases.append(c)
                n += 1
    # padding of every length, including long white space inside and headers beyond 255, 256 and 65535 bytes
    for i, pad in enumerate(ctx.n([0, 1, 63, 64, 127, 128, 129, 180, 255, 256, 4000, 65000],
                                  list(range(0, 300, 7)) + [1000, 4095, 4096, 65000])):
        a = rand_arr(rng, rng.choice(TYPES), [2])
        c = NC("pad-%d" % pad)
        c.snew("s").sset("s", py_image(a, "B", 1 + i % 2, extra_pad=pad)).sload("s", a["t"])
        cases.append(c)
    # white space of every length, wherever there may be any
    for i, n in enumerate(ctx.n([2, 7, 8, 15, 16, 31, 32, 63, 64, 65, 127, 128, 255, 256, 257, 300],
                                list(range(0, 70)) + [127, 128, 129, 255, 256, 257, 511, 512, 513])):
        c = NC("blank-%d" % n)
        c.snew("s", "mf"[i % 2])
        for k in range(8):
            a = rand_arr(rng, None, SHAPES[(i + k) % len(SHAPES)])
            turn = [0]

            def ws():
                turn[0] += 1
                return rng.choice(" \t\n") * n if turn[0] % 8 == k else rng.choice(WS)
            h = header_text(rng, descr_of(a, "LB"[k % 2]), a["f"], a["sh"], perms[k % 6], ws)
            im = py_image(a, "LB"[k % 2])
            c.sset("s", wrap(h.encode(), 1 + k % 2) + im[10 + im[8] + 256 * im[9]:]).sload("s", a["t"]).sseek("s", 0).speek("s")
        cases.append(c)
    # strings of every width, dimensions of every size
    for i, w in enumerate(WIDTHS):
        a = {"t": "U", "f": i % 2, "sh": [2], "el": ["62", ".".join("%x" % (0x41 + k % 26) for k in range(w))]}
        c = NC("width-%d" % w)
        c.snew("s").sset("s", py_image(a, "LB"[i % 2], 1 + i % 2)).sload("s", "U", "b").sseek("s", 0).speek("s")
        cases.append(c)
    for i, d in enumerate(LARGE):
        c = NC("dim-%d" % i)
        c.snew("s")
        for sh in ([d, 0], [0, d], [0, d, d], [d, 3, 0]):
            a = rand_arr(rng, rng.choice(["u1", "c16", "U", "b1"]), sh, i % 2)
            c.sset("s", py_image(a, "LB"[i % 2], 1 + i % 2)).sload("s", a["t"], "b").sseek("s", 0).speek("s").ssave("s", "b")
        cases.append(c)
    a = rand_arr(rng, "i4", [2])
    c = NC("v2-long")
    c.snew("s").sset("s", py_image(a, "L", 2, extra_pad=66000)).sload("s", "i4").sseek("s", 0).speek("s")
    cases.append(c)
    # headers of any length which version 2.0 has room for
    huge = []
    for i, pad in enumerate([60000, 65536, (1 << 24) - 200, (1 << 24) - 60, 1 << 24, (1 << 24) + 0x20304, 3 << 24] + [rng.randrange(1 << 17, 1 << 26) for _ in range(ctx.n(3, 20))]
                            + ctx.n([(1 << 31) + 5], [(1 << 31) - 70, (1 << 31) - 66, (1 << 31) + 5, (1 << 32) - 300])):
        a = rand_arr(rng, None, [2, 1])
        im = py_image(a, "LB"[i % 2], 2)
        n = im[8] + 256 * im[9]
        head, data = im[12:12 + n].rstrip(b" \n"), im[12 + n:]
        big = pad > 1 << 28
        for k in range(1 if big else 3):
            c = NC("long-%d-%d" % (i, k))
            if k == 2:
                c.padded("lpad", head, pad, data, a["t"], rng.randrange(pad))
            else:
                c.padded(["lpad", "lpeek"][k], head, pad, data + b"tail", a["t"])
            huge.append(c)
    long = ctx.background(ctx.validate, "NpyTrace", huge, as_mb=14000, cpu=120, sample=0, jobs=2)
    for i in range(ctx.n(300, 6000)):
        a = rand_arr(rng)
        en = rng.choice("LB")
        mode = rng.random()
        h = header_text(rng, descr_of(a, en), a["f"], a["sh"], rng.choice(perms),
                        lambda: rng.choice(WS) if mode < 0.5 else ("" if mode < 0.7 else " "))
        base = py_image(a, en)
        data = base[10 + base[8] + 256 * base[9]:]
        img = wrap(h.encode(), rng.choice([1, 1, 2]), rng.choice([0, 0, 0, 3, 100]), rng.choice([1, 16, 64])) + data
        c = NC("rnd-%d" % i)
        c.snew("s").sset("s", img).sload("s", a["t"], "b")
        if rng.random() < 0.3:
            c.ssave("s", "b", "D")
        if rng.random() < 0.3:
            c.fwrite("x", img).fload("x", a["t"]).fpeek("x")
        cases.append(c)
    ctx.validate("NpyTrace", cases)
    # headers enumerated by TLC, with the meaning the grammar gives them
    seen, gc, c = set(), [], None
    for g in gram():
        img = bytes(g["img"])
        if img in seen:
            continue
        seen.add(img)
        if len(seen) % 8 == 1:
            c = NC("gram-%d" % len(seen))
            gc.append(c.snew("s", "m"))
        c.sset("s", img).speek("s").sseek("s", 0).sload("s", g["t"])
    if not gc:
        raise Infra("no headers were generated")
    ctx.validate("NpyTrace", gc, sample=0)
    long()


# ------------------------------------------------------------------------ C04

def groups(items, name, per=8):
    """One case per few inputs."""
    out, c = [], None
    for i, it in enumerate(items):
        if i % per == 0:
            c = NC("%s-%d" % (name, i))
            c.snew("s")
            out.append(c)
        yield_one(c, it)
    return out


def yield_one(c, it):
    img, t, how = it
    c.sset("s", img)
    if "l" in how:
        c.sload("s", t).sseek("s", 0)
    if "p" in how:
        c.speek("s")
    if "i" in how:
        c.pload("s", t, 0, 5)
    if "f" in how:
        c.fwrite("x", img).fload("x", t)
    if "k" in how:
        c.fwrite("x", img).fpeek("x")
    if "d" in how and img[6:7] in (b"\1", b"\2"):
        k = 10 + 2 * (img[6] - 1)
        c.hinfo(img[k:k + int.from_bytes(img[8:k], "little")])


def bad_headers(rng):
    """Header texts which are wrong, odd, or only just right."""
    D, F, S = "'descr': '<i2', ", "'fortran_order': False, ", "'shape': (2,), "
    out = []

    def h(x):
        out.append(x)
    for d in ("<i2", "|i2", "=i2", "i2", ">i2", "<i3", "<i", "i", "<", "", "<i22", "<I2", "<f2", "<f16", "<c4", "<c32", "|b1", "<b1",
              "?", "|u1", "|u2", "|V2", "|O", "<m8", "<M8", "|S2", "|S", "<U", "<U0", "<U1", "U1", "|U1", ">U1", "<U-1", "<U01", "<U1x", "<Ux",
              "<U 1", "<U1 ", " <i2", "<i2 ", "<U4294967296", "<U18446744073709551616", "<U99999999999999999999", "<U4611686018427387904",
              "<U9223372036854775807", "<U2147483648", "<u2", "<i1", ">i1", "<u1", "<x4", "\\x00i2", "<i2\n", "<U3.5", "<U1e3", "<U+1", "[('a', '<i2')]"):
        h("{'descr': '%s', %s%s}" % (d, F, S))
    for d in ("None", "i2", "'<i2", "<i2'", "\"<i2\"", "('<i2',)", "[('a', '<i2')]", "{}", "", "1", "u'<i2'", "b'<i2'", "'<i' '2'"):
        h("{'descr': %s, %s%s}" % (d, F, S))
    for f in ("True", "False", "true", "false", "1", "0", "None", "", "'True'", "Tru", "Truee", "FalseTrue", "T", "True False", "not True", "TRUE"):
        h("{%s'fortran_order': %s, %s}" % (D, f, S))
    for sh in ("()", "(,)", "(2)", "(2,)", "(2,,)", "(,2)", "(2,1)", "(2,1,)", "(2 1)", "(1,2", "1,2)", "[2,]", "2", "(-2,)", "(2,-1)", "(+2,)", "(0x2,)",
               "(2.0,)", "(2e0,)", "(two,)", "('2',)", "(None,)", "(2L,)", "(2l,1L)", "(02,)", "(002,1)", "(00,)", "((2,))", "((2,),)", "(2,(1,))",
               "(18446744073709551615,)", "(18446744073709551616,)", "(99999999999999999999999,)", "(4294967296,4294967296)", "(4294967296,4294967297)",
               "(9223372036854775808,2)", "(9223372036854775807,)", "(9223372036854775808,)", "(1,18446744073709551617)", "(18446744073709551617,)",
               "(2147483648,2,4294967296)", "(6148914691236517206,3)", "(65536,65536,65536,65536)", "(3037000500,3037000500)", "(1000000,)", "(3,)",
               "(1,)", "(4,)", "(0,)", "(0,18446744073709551615)", "(18446744073709551615,0)", "(0,18446744073709551616)", "(2;)", "(2,) (1,)", "(2,)1", "(2,\x00)",
               "(2\x00,)", "(_2,)", "(2_0,)", "(1 0,)", "(\t2\t,)", "(\v2,)", "(2,\f)", "", "None", "(True,)", "(2j,)"):
        h("{%s%s'shape': %s, }" % (D, F, sh))
    for x in ("{}", "", "{", "}", "{,}", "{%s%s%s" % (D, F, S), "%s%s%s}" % (D, F, S), "{%s%s}" % (D, F), "{%s%s}" % (D, S), "{%s%s}" % (F, S),
              "{%s%s%s%s}" % (D, D, F, S), "{%s%s%s%s}" % (D, F, F, S), "{%s%s%s%s}" % (D, F, S, S), "{%s%s%s%s}" % (D, F, S, "'extra': 1, "),
              "{%s%s%s%s}" % ("'extra': 'x', ", D, F, S), "{%s%s'shape': (2,)}" % (D, F), "{%s%s'shape': (2,) }" % (D, F), "{%s%s%s,}" % (D, F, S), "{,%s%s%s}" % (D, F, S),
              "{%s,%s%s}" % (D, F, S), "{%s%s%s}}" % (D, F, S), "{%s%s%s} x" % (D, F, S), "{{%s%s%s}}" % (D, F, S), "[%s%s%s]" % (D, F, S), "(%s%s%s)" % (D, F, S),
              " {%s%s%s}" % (D, F, S), "\t{%s%s%s}" % (D, F, S), "x{%s%s%s}" % (D, F, S), "dict(descr='<i2')", "{'descr' '<i2', %s%s}" % (F, S), "{'descr': , %s%s}" % (F, S),
              "{'descr'= '<i2', %s%s}" % (F, S), "{descr: '<i2', %s%s}" % (F, S), "{\"descr\": \"<i2\", %s%s}" % (F, S), "{'Descr': '<i2', %s%s}" % (F, S), "{'descr ': '<i2', %s%s}" % (F, S),
              "{'desc': '<i2', %s%s}" % (F, S), "{'descr:' '<i2', %s%s}" % (F, S), "{'': '<i2', %s%s}" % (F, S), "{%s %s %s" % (D, F, S) + "\x00}", "{%s\x00%s%s}" % (D, F, S),
              "{%s# comment\n%s%s}" % (D, F, S), "{%s%s%s}\x00" % (D, F, S), "{%s%s%s}\\" % (D, F, S), "{" + " " * 50, "{'" + "a" * 50, "{'descr': '<i2", "{'descr': '<i2', 'shape': (2, ", "\xef\xbb\xbf{%s%s%s}" % (D, F, S)):
        h(x)
    # keys which resemble the known ones, beside them and instead of them
    for k, v in (("descr", "'<i2'"), ("fortran_order", "False"), ("shape", "(2,)")):
        entries = {"descr": D, "fortran_order": F, "shape": S}
        for q in (k + "s", k + " ", k + "2", k + "_", k + "'", k + "\\", " " + k, "_" + k, "x" + k, k[:-1], k[1:], k.upper(), k.capitalize(), k * 2, k + "\x00", k[0],
                  k + ":", k + ",", k.replace("_", ""), k.replace("_", "-"), k[::-1], "", k + "_" + k):
            if q == k:
                continue
            bad = "'%s': %s, " % (q, v)
            h("{%s%s%s%s}" % (D, F, S, bad))
            h("{%s%s%s%s}" % (bad, D, F, S))
            h("{" + "".join(bad if x == k else e for x, e in entries.items()) + "}")
    return out


def C04(ctx):
    rng = ctx.rng
    mut = ctx.background(ctx.model, "MutMC", ctx.n("MutMC.cfg", "MutMCBig.cfg"),
                         what="all headers one edit (thorough: two edits) away from valid ones: decoder = token grammar")
    bases = []
    for i, t in enumerate(TYPES):
        a = rand_arr(rng, t, [[2], [], [1, 2], [0, 2]][i % 4] if i % 5 else [3], i % 2)
        if t == "U":
            a = {"t": "U", "f": 0, "sh": [2], "el": ["61.62", "3bb"]}
        bases.append((t, py_image(a, "LB"[i % 2], 1 + (i % 3 == 2))))
    items = []
    # every prefix
    for bi, (t, img) in enumerate(bases):
        for n in range(len(img) + 1):
            if ctx.quick and bi % 3 and 24 < n < len(img) - 40:
                continue
            items.append((img[:n], t, ["l", "lpd", "i", "f", "lk"][n % 5]))
    # one byte changed
    for bi, (t, img) in enumerate(bases[::ctx.n(3, 1)]):
        vals = [0, 1, 2, 3, 9, 10, 32, 39, 40, 41, 44, 45, 48, 49, 57, 58, 60, 62, 92, 123, 125, 128, 255]
        for n in range(0, min(len(img), 90)):
            for v in ([rng.choice(vals), rng.choice(vals), img[n] ^ (1 << rng.randrange(8))] if ctx.quick
                      else vals + [img[n] ^ (1 << k) for k in range(8)]):
                if v != img[n]:
                    items.append((img[:n] + bytes([v]) + img[n + 1:], t, "lpd" if (n + v) % 3 else "f"))
    # a span removed, repeated or moved
    for i in range(ctx.n(500, 6000)):
        t, img = rng.choice(bases)
        a, b = sorted(rng.randrange(len(img) + 1) for _ in range(2))
        b = min(b, a + rng.choice([1, 1, 2, 3, 10]))
        k = rng.randrange(4)
        if k == 0:
            x = img[:a] + img[b:]
        elif k == 1:
            x = img[:b] + img[a:]
        elif k == 2:
            x = img[:a] + bytes(rng.choice(b" ,:'(){}0129-<>TFU\x00\xff\n") for _ in range(rng.choice([1, 2, 5]))) + img[a:]
        else:
            c = rng.randrange(len(img) + 1)
            y = img[:a] + img[b:]
            x = y[:c] + img[a:b] + y[c:]
        items.append((x, t, rng.choice(["l", "d", "lp", "i", "f", "k"])))
    # versions, lengths, magic
    t, img = bases[2]
    for ma in ([0, 1, 2, 3, 4, 255] if ctx.quick else range(256)):
        for mi in ([0, 1, 2, 255] if ctx.quick else (0, 1, 2, 3, 128, 255)):
            items.append((img[:6] + bytes([ma, mi]) + img[8:], t, "lp"))
    for n in list(range(0, 256, ctx.n(5, 1))) + [256, 257, 65535, 65534, 32768]:
        items.append((img[:8] + struct.pack("<H", n) + img[10:], t, "l"))
        items.append((img[:6] + b"\x02\x00" + struct.pack("<I", n) + img[10:], t, "l"))
    for n in (1 << 16, 1 << 24, 1 << 31, (1 << 32) - 1, (1 << 31) - 1, 118 | 1 << 16, 118 | 1 << 24):
        items.append((img[:6] + b"\x02\x00" + struct.pack("<I", n) + img[10:], t, "lf"))
    for x in (b"", b"\x93", b"\x93NUMPY", b"\x93NUMPY\x01", b"\x93NUMPX" + img[6:], b"\x93numpy" + img[6:], b"NUMPY" + img[6:], b"PK\x03\x04" + img, b" " + img, img[1:], b"\n" + img):
        items.append((x, t, "lpfd"))
    # headers which are wrong
    for h in bad_headers(rng):
        hb = h.encode("latin1")
        for ver in (1, 2):
            tt = "U" if "U" in h.split("fortran")[0] else "i2"
            items.append((wrap(hb, ver) + b"\x61\x00\x00\x00\x62\x00\x00\x00", tt, "lpd" if ver == 1 else "lfd"))
    # data missing from the end, many elements, strings, and in big arrays
    for i in range(ctx.n(60, 600)):
        t = rng.choice(TYPES)
        a = rand_arr(rng, t, [rng.randrange(1, 9), rng.randrange(1, 9)])
        img = py_image(a, rng.choice("LB"))
        cut = rng.choice([1, 1, 2, 3, 4, 8, 15, 16, 30])
        items.append((img[:-cut], t, rng.choice(["l", "i", "f"])))
    for i, t in enumerate(TYPES):
        a = rand_arr(rng, t, [700])
        img = py_image(a, "LB"[i % 2])
        items.append((img[:-1], t, "lf"))
    ctx.validate("NpyTrace", groups(items, "bad"), as_mb=1000)
    seen, mc, c = set(), [], None
    for g in mut():
        img = bytes(g["img"])
        if img in seen:
            continue
        seen.add(img)
        if len(seen) % 8 == 1:
            c = NC("mut-%d" % len(seen))
            mc.append(c.snew("s"))
        t = "i2" if b"<i2" in img else "U" if b"U1" in img else "u1"
        c.sset("s", img).sload("s", t)
        if len(seen) % 4 == 0:
            c.sseek("s", 0).speek("s")
    if not mc:
        raise Infra("no headers were generated")
    ctx.validate("NpyTrace", mc, sample=0, as_mb=1000)
    if not ctx.quick:
        ctx.validate("NpyTrace", groups(items[::5], "san"), exe=ctx.exe("asan"), as_mb=0, cpu=60, sample=0,
                     env={"ASAN_OPTIONS": "allocator_may_return_null=1:max_allocation_size_mb=2000:detect_leaks=0"})


# ------------------------------------------------------------------------ C05

def all_codes(rng):
    out = []
    for m in ("", "<", ">", "|", "=", " ", "!", "<<", "|>"):
        for l in "biufcUSVOmMB?tdlqhe":
            for n in ("", "0", "1", "2", "3", "4", "5", "6", "7", "8", "10", "12", "16", "32", "08", "1 ", "4x", "-1"):
                out.append(m + l + n)
    out += ["", "<", ">", "|", "int32", "float", "i4<", "<i4\x00", "\x00", "<i4,<i4", "(2,)<i4", "i4i4", "<I4", "<F8", "|B1", "|U1", "u1|", "f", "xyz", "<i44", "<c88"]
    return [c.encode("latin1") for c in out]


def C05(ctx):
    rng = ctx.rng
    cases = []
    n = 0
    for t in TYPES:
        for en in ("L", "B"):
            for sh in ([2], [0]) if ctx.quick else ([2], [0], [], [2, 2]):
                a = rand_arr(rng, t, sh)
                c = NC("pair-%s-%s-%s" % (t, en, "x".join(map(str, sh))))
                c.make("a", a).snew("s", "mf"[n % 2]).ssave("s", "a", en).fsave("x", "a", en)
                for u in TYPES:
                    c.sseek("s", 0).sload("s", u, "", LOAD_S[n % 2])
                    c.fload("x", u, "", LOAD_F[n % 4])
                    n += 1
                    if n % 3 == 0:
                        c.pload("s", u, 0, 9)
                cases.append(c)
    # enough data for any type, so that only the type can be the reason to refuse
    for t in TYPES:
        d = "U1" if t == "U" else t
        for m in "<>|":
            h = "{'descr': '%s%s', 'fortran_order': False, 'shape': (2,), }" % (m, d)
            c = NC("room-%s-%d" % (t, ord(m)))
            c.snew("s").sset("s", wrap(h.encode()) + bytes([0, 0, 0, 1] * 16))
            for u in TYPES:
                c.sseek("s", 0).sload("s", u)
            cases.append(c)
    codes = all_codes(rng)
    for k in range(0, len(codes), 40):
        c = NC("codes-%d" % k)
        for code in codes[k:k + 40]:
            c.add("fromdtype code=%s" % code.hex(), {"op": "fromdtype", "code": list(code)})
        cases.append(c)
    # every code as the type of a file: the supported ones give their type, the
    # others are refused whatever is asked for
    sub = [x for x in codes if b"'" not in x and b"\\" not in x]
    sub += [m + b"U" + w for m in (b"", b"<", b">", b"|", b"=", b"<<", b"u") for w in (b"1", b"3", b"10", b"a", b"1a", b"-1", b"+1", b" 1", b"1 ", b"1.")]
    plaus = {"b": ["i1", "b1"], "i": ["i1", "i2", "i4", "i8"], "u": ["u1", "u2", "u4", "u8"], "f": ["f4", "f8"], "c": ["c8", "c16"], "U": ["U"],
             "?": ["b1", "u1"], "d": ["f8"], "l": ["i8", "i4"], "q": ["i8"], "B": ["u1"], "e": ["f4"], "O": ["u8"]}
    c = None
    for i, code in enumerate(sub):
        if i % 10 == 0:
            c = NC("file-%d" % i)
            cases.append(c.snew("s", "mf"[i // 10 % 2]))
        h = b"{'descr': '" + code + b"', 'fortran_order': False, 'shape': (1,), }"
        c.sset("s", wrap(h, align=1) + bytes([0, 0, 0, 1] * 4)).speek("s", ["peek", "hdr"][i % 2])
        txt = code.decode("latin1")
        us = [t for t in TYPES if t in txt]
        for ch in txt:
            us += [t for t in plaus.get(ch, []) if t not in us]
        if ctx.quick:
            us = us[:1] + rng.sample(us[1:], min(1, len(us) - 1)) if us else []
            us += rng.sample(TYPES, 1)
        else:
            us = TYPES
        for u in us:
            c.sseek("s", 0).sload("s", u)
    c = NC("to")
    for t in TYPES:
        for en in ENS:
            c.add("todtype t=%s %s" % (t, "def=1" if en == "D" else "en=" + en), {"op": "todtype", "t": t, "en": en})
    cases.append(c)
    ctx.validate("NpyTrace", cases)
    # archives
    zc = []
    for i, t in enumerate(TYPES):
        for en in ("L", "B"):
            c = ZC("zip-%s-%s" % (t, en))
            c.make("a", rand_arr(rng, t, [2])).make("e", rand_arr(rng, t, [0, 2]))
            c.wopen("w", "sf"[i % 2], "z.npz", 8 * (i % 3 == 0), en).wwrite("w", "a", "a").wwrite("w", "e", "e").wclose("w")
            if i % 2:
                c.ropenf("r", "z.npz")
            else:
                c.wstr("w", "b").ropenb("r", "b")
            for u in TYPES:
                c.rread("r", "a", u, ["one", "two"][i % 2]).rread("r", "e", u)
            zc.append(c)
    ctx.validate("NpzTrace", zc)


# ------------------------------------------------------------------------ C06

def C06(ctx):
    rng = ctx.rng
    mc = ctx.background(model_cases, ctx, "NpyMC.cfg", every=4)
    cases = []
    n = 0
    for t in TYPES:
        for sh in SHAPES:
            en = ENS[n % 4]
            f = (n // 4) % 2
            a = rand_arr(rng, t, sh, f)
            img = py_image(a, "B" if en == "B" else "L", 1 + n % 2)
            hl = img[8] + 256 * img[9] + (10 if img[6] == 1 else 12)
            c = NC("peek-%s-%d" % (t, n))
            c.make("a", a).snew("s", "mf"[n % 2]).ssave("s", "a", en)
            # again and again, then load what was announced
            c.speek("s", ["peek", "hdr"][n % 2]).sseek("s", 0).speek("s").sseek("s", 0).sload("s", t)
            c.fsave("x", "a", en).fpeek("x").fpeek("x").fload("x", t).fpeek("x").fread("x")
            # only the header is present; one byte less than the header
            c.sset("s", img[:hl]).speek("s").sset("s", img[:hl - 1]).speek("s")
            c.fwrite("y", img[:hl]).fpeek("y").fwrite("y", img[:hl - 1]).fpeek("y").fread("y")
            c.sset("s", img[:hl] + b"\x01").ppeek("s", 0, [1, 5, 64][n % 3])
            n += 1
            cases.append(c)
    # headers alone: strings of any width, arrays of any extents (there is no data to load)
    widths = [0, 1, 9, 10, 99, 255, 256, 32767, 32768, 65535, 65536, 65537, 70000, 10 ** 6, 2 ** 24, 2 ** 31 - 1]
    for i, w in enumerate(widths):
        for j, mk in enumerate("<>"):
            c = NC("width-%d-%d" % (w, j))
            h = "{'descr': '%sU%d', 'fortran_order': %s, 'shape': (%d, 3), }" % (mk, w, bool((i + j) % 2), [2, 65536, 10 ** 9][i % 3])
            img = wrap(h.encode(), 1 + (i + j) % 2)
            c.snew("s", "mf"[i % 2]).sset("s", img).speek("s", ["peek", "hdr"][j]).fwrite("x", img).fpeek("x").ppeek("s", 0, [1, 64][j])
            c.sset("s", img + img).speek("s").speek("s")
            cases.append(c)
    for i, d in enumerate(LARGE):
        for j, sh in enumerate(([d], [d, 1], [2, d], [1, d, 3], [0, d])):
            if d >= 2 ** 53 and j in (2, 3):
                continue
            t = TYPES[(i * 5 + j) % 13]
            c = NC("extent-%d-%d" % (i, j))
            img = py_image({"t": t, "f": (i + j) % 2, "sh": sh, "el": []}, "LB"[i % 2], 1 + j % 2, data=b"")
            c.snew("s", "mf"[j % 2]).sset("s", img).speek("s", ["peek", "hdr"][i % 2]).fwrite("x", img).fpeek("x").ppeek("s", 0, [1, 64][j % 2])
            cases.append(c)
    for i, nd in enumerate([10, 20, 32, 33, 64, 65, 100, 150, 300]):
        a = rand_arr(rng, TYPES[i % 14], [1] * nd, i % 2)
        c = NC("dims-%d" % nd)
        c.make("a", a).snew("s", "mf"[i % 2]).ssave("s", "a").speek("s").sseek("s", 0).sload("s", a["t"]).fsave("x", "a").fpeek("x").fload("x", a["t"])
        cases.append(c)
    # a peek and a load agree on odd headers too
    perms = list(itertools.permutations("dfs"))
    for i in range(ctx.n(250, 3000)):
        a = rand_arr(rng)
        en = rng.choice("LB")
        h = header_text(rng, descr_of(a, en), a["f"], a["sh"], rng.choice(perms), lambda: rng.choice(WS))
        base = py_image(a, en)
        img = wrap(h.encode(), rng.choice([1, 2])) + base[10 + base[8] + 256 * base[9]:]
        c = NC("odd-%d" % i)
        c.snew("s").sset("s", img).speek("s", rng.choice(["peek", "hdr"])).sseek("s", 0).sload("s", a["t"]).fwrite("x", img)
        for _ in range(rng.randrange(1, 4)):
            c.fpeek("x")
        c.fload("x", a["t"]).fpeek("x")
        cases.append(c)
    for i, h in enumerate(bad_headers(rng)):
        c = NC("badpeek-%d" % i)
        img = wrap(h.encode("latin1"))
        c.snew("s").sset("s", img).speek("s").fwrite("x", img).fpeek("x").fpeek("x")
        cases.append(c)
    c = NC("nofile")
    c.fpeek("missing").fload("missing", "i4")
    cases.append(c)
    ctx.validate("NpyTrace", cases, as_mb=1000)
    ctx.validate("NpyTrace", mc(), sample=0)
    # archive entries: peeks in any order between reads
    zc = []
    for i in range(ctx.n(120, 1500)):
        c = ZC("zip-%d" % i)
        names, ts = [], []
        for k in range(rng.randrange(1, 5)):
            a = rand_arr(rng, None, rng.choice(SHAPES + [[40, 3]]))
            c.make("a%d" % k, a)
            names.append("n%d" % k)
            ts.append(a["t"])
        kind = rng.choice("sf")
        c.wopen("w", kind, "z.npz", rng.choice([0, 8]), rng.choice(ENS))
        for k, nme in enumerate(names):
            c.wwrite("w", nme, "a%d" % k)
        c.wclose("w")
        if kind == "s":
            c.wstr("w", "b").ropenb("r", "b")
        else:
            c.ropenf("r", "z.npz")
        for _ in range(rng.randrange(3, 12)):
            k = rng.randrange(len(names))
            nme = names[k] + rng.choice(["", ".npy"])
            if rng.random() < 0.65:
                c.rpeek("r", nme)
            else:
                c.rread("r", nme, ts[k] if rng.random() < 0.8 else rng.choice(TYPES), rng.choice(["one", "two"]))
        zc.append(c)
    # entries of any length and content
    for i, n in enumerate(ctx.n([4000, 65408, 65536, 70000, 300000, 1 << 20], [1000, 4000, 30000, 60000, 65408, 65535, 65536, 65537, 70000, 131072, 300000, 1 << 20, 5000000])):
        for j, how in enumerate(("zero", "ramp", "rand", "low", "runs", "mix")):
            t = TYPES[(i + j * 2) % 13]
            c = ZC("long-%d-%s" % (n, how))
            c.fill("a", t, j % 2, [n // SIZE[t]] if i % 2 else [2, n // 2 // SIZE[t]], "%s:%d" % (how, i)).make("s", rand_arr(rng, "u1", [3]))
            kind, m = "sf"[(i + j) % 2], 8 * ((i + j) // 2 % 2)
            c.wopen("w", kind, "z.npz", m, "LB"[(i + j) // 4 % 2]).wwrite("w", "a", "a").wwrite("w", "s", "s").wclose("w")
            if kind == "s":
                c.wstr("w", "b").ropenb("r", "b")
            else:
                c.ropenf("r", "z.npz")
            c.rpeek("r", "a").rpeek("r", "s").rpeek("r", "a").rread("r", "a", t).rpeek("r", "a").rread("r", "s", "u1")
            c.fsave("x", "a").fpeek("x").fload("x", t)
            zc.append(c)
    # entries with long headers
    for i, sh in enumerate([[1] * 150, [1] * 400, [1] * 900, [0] + [10 ** 17 + 3] * 60, [7, 0] + [10 ** 18] * 250, [0] + [2 ** 62 + 1] * 900]):
        for j in range(4):
            t = TYPES[(i * 5 + j) % 14]
            c = ZC("header-%d-%d" % (i, j))
            c.make("a", rand_arr(rng, t, sh, i % 2)).make("s", rand_arr(rng, "u1", [3]))
            c.wopen("w", "sf"[j % 2], "z.npz", 8 * (j // 2), "LB"[(i + j) % 2]).wwrite("w", "a", "a").wwrite("w", "s", "s").wclose("w")
            if j % 2 == 0:
                c.wstr("w", "b").ropenb("r", "b")
            else:
                c.ropenf("r", "z.npz")
            c.rpeek("r", "a").rpeek("r", "s").rread("r", "a", t).rpeek("r", "a")
            c.fsave("x", "a").fpeek("x").fload("x", t)
            zc.append(c)
    ctx.validate("NpzTrace", zc)


# ------------------------------------------------------------------------ C07

def C07(ctx):
    rng = ctx.rng
    mc = [ctx.background(model_cases, ctx, ctx.n("NpyMC.cfg", "NpyMCBig.cfg"), "m")]
    cases = []
    for i in range(ctx.n(260, 4000)):
        c = NC("seq-%d" % i)
        kind = rng.choice("mmf")
        c.snew("s", kind)
        written = []
        ops = rng.randrange(3, 10)
        for k in range(ops):
            if rng.random() < 0.7:
                a = rand_arr(rng)
                c.make("a%d" % k, a).ssave("s", "a%d" % k, rng.choice(ENS), rng.choice(SAVE_S))
                written.append(a["t"])
            else:
                junk = rng.choice([b"\x93NUM", b"\n", b"\x93NUMPY\x01\x00", b"text", b"\x00" * 5, b"\r\n\x1a"])
                c.sput("s", junk)
                written.append(len(junk))
        pos = [0]
        # read everything back in order (positions are tracked by the specification)
        for w in written:
            if isinstance(w, int):
                c.add("sskip s=s n=%d" % w, {"op": "sskip", "s": "s", "n": w})
            elif rng.random() < 0.15:
                c.add("smark s=s").speek("s", rng.choice(["peek", "hdr"]))
                c.add("sback s=s", {"op": "sback", "s": "s"})
                c.sload("s", w, "", rng.choice(LOAD_S))
            else:
                c.sload("s", w, "", rng.choice(LOAD_S))
        if rng.random() < 0.4:   # interleave: append after reading
            a = rand_arr(rng)
            c.make("z", a).ssave("s", "z").sload("s", a["t"])
        cases.append(c)
    # streams that cannot seek
    for i in range(ctx.n(80, 800)):
        c = NC("pipe-%d" % i)
        c.snew("s")
        arrs = [rand_arr(rng) for _ in range(rng.randrange(2, 6))]
        for k, a in enumerate(arrs):
            c.make("a%d" % k, a).ssave("s", "a%d" % k, rng.choice(ENS))
        piece = rng.choice([1, 2, 3, 7, 16, 64])
        c.add("ptake s=s piece=%d ts=%s" % (piece, ",".join(a["t"] for a in arrs)),
              {"op": "ptake", "s": "s", "ts": [a["t"] for a in arrs], "res": ptake_res})
        cases.append(c)
    ctx.validate("NpyTrace", cases)
    # many arrays on one stream, and long ones
    seqs = []
    for i in range(ctx.n(24, 300)):
        c = ZC("many-%d" % i)
        ds = []
        for k in range(rng.randrange(2, 9)):
            d = "d%d" % k
            t = rng.choice(TYPES)
            if rng.random() < 0.5:
                c.make(d, rand_arr(rng, t))
            else:
                c.fill(d, t, rng.randrange(2), [int(2 ** rng.uniform(0, 16))] + rng.choice([[], [1], [2]]), "rand:%d" % i)
            ds.append(d)
        c.seq([rng.choice(ds) for _ in range(rng.choice([5, 20, 60, 300]))] if i % 2 else ds, rng.choice(["L", "B", "L,B", "B,B,L"]), "mfp"[i % 3], rng.choice([1, 3, 16, 64]))
        seqs.append(c)
    ctx.validate("NpzTrace", seqs, sample=1, as_mb=6000, cpu=60)
    for m in mc:
        ctx.validate("NpyTrace", m(), sample=0)
    if not ctx.quick:
        ctx.validate("NpyTrace", model_cases(ctx, "NpyMC.cfg", "f"), sample=0)


def ptake_res(r):
    if r["r"] != "ok":
        return r
    from .core import arr_json
    return {"r": "ok", "as": [arr_json(a) for a in r["as"]], "pos": r["pos"]}


# ------------------------------------------------------------------------ C22

def C22(ctx):
    rng = ctx.rng
    hows = ["ctor", "assign", "assign0", "init", "set", "elem", "vec", "copy", "copyassign", "data"]
    vals = {"bool": [0, 1], "char": list(range(-128, 128)), "schar": [-128, -2, -1, 0, 1, 2, 127], "uchar": list(range(256)),
            "short": [-32768, -256, -255, -2, -1, 0, 1, 2, 255, 256, 512, 32767, 16384, -16384], "ushort": [0, 1, 2, 255, 256, 512, 32768, 65280, 65535],
            "vref": [0, 1], "boolean": [0, 1], "bitref": [0, 1], "ptr": [0, 1], "cptr": [0, 1], "fptr": [0, 1], "enum": [-1, 0, 1, 2],
            "wchar": [-256, -1, 0, 1, 255, 256, 65536, 1 << 24], "c16": [0, 1, 255, 256, 32768, 65280], "ldouble": [0, 1, -1, 3], "odd": [0, 1]}
    w = [0, 1, -1, 2, -2, 3, 255, 256, -256, 257, 65536, 1 << 24, 1 << 30, -(1 << 31), (1 << 31) - 1]
    vals["int"] = w
    vals["uint"] = [x for x in w if x >= 0] + [1 << 31, (1 << 32) - 256, (1 << 32) - 1]
    big = w + [1 << 32, 1 << 40, -(1 << 32), 1 << 56, -(1 << 63), (1 << 63) - 1, 1 << 62]
    for k in ("long", "llong"):
        vals[k] = big
    for k in ("ulong", "size"):
        vals[k] = [x for x in big if x >= 0]
    cases = []
    for ty, vs in vals.items():
        for how in hows:
            c = NC("b-%s-%s" % (ty, how))
            for v in vs:
                c.add("boolconv ty=%s how=%s n=%d" % (ty, how, v), {"op": "boolconv", "truth": 1 if v else 0})
            cases.append(c)
    for ty in ("float", "double"):
        for how in hows:
            c = NC("b-%s-%s" % (ty, how))
            for x in ("0", "-0", "1", "-1", "0.5", "-0.25", "1e-30", "256", "1e30", "nan", "inf", "den", "0.999", "2"):
                c.add("boolconv ty=%s how=%s x=%s" % (ty, how, x), {"op": "boolconv", "truth": 0 if x in ("0", "-0") else 1})
            cases.append(c)
    # booleans of another producer: any byte but 0 is true
    c = NC("bytes")
    for n in (1, 2, 256):
        for k in range(3 if n < 256 else 1):
            bs = bytes(range(256)) if n == 256 else bytes([[2, 1, 128][k], [0, 255, 4][k]][:n])
            img = wrap(b"{'descr': '|b1', 'fortran_order': False, 'shape': (%d,), }" % n) + bs
            c.add("boolbytes hex=%s" % img.hex(), {"op": "boolbytes", "b": list(bs)})
    cases.append(c)
    # arrays of booleans: their bytes, in files, streams and from other producers
    for i in range(ctx.n(80, 800)):
        a = rand_arr(rng, "b1", rng.choice(SHAPES + [[17], [5, 5], [100]]))
        c = NC("arr-%d" % i)
        c.make("a", a).snew("s", rng.choice("mf"))
        for en in ENS:
            c.ssave("s", "a", en)
        for k in range(4):
            c.sload("s", "b1", "b", LOAD_S[k % 2])
        c.ssave("s", "b").fsave("x", "b", rng.choice(ENS), rng.choice(SAVE_F)).fread("x").fload("x", "b1", "d", rng.choice(LOAD_F))
        cases.append(c)
    ctx.validate("NpyTrace", cases)
    zc = []
    for i in range(ctx.n(30, 300)):
        c = ZC("zip-%d" % i)
        c.make("a", rand_arr(rng, "b1")).wopen("w", "s", "", 8 * (i % 2), ENS[i % 4]).wwrite("w", "b", "a").wclose("w").wstr("w", "m").ropenb("r", "m")
        c.rread("r", "b", "b1", "one", "c").rpeek("r", "b").fsave("x", "c").fload("x", "b1")
        zc.append(c)
    ctx.validate("NpzTrace", zc)


# ------------------------------------------------------------------------ C25

LOCALES = [(b"\x03", ",", "."), (b"\x01", ".", ","), (b"\x02\x03", "'", ","), (b"\x03", " ", "."), (b"\x01", "0", "."), (b"\x02", ")", "."), (b"\x01", "-", ":")]
CTYPES = [None, "comma", "nospace", "digit", "letters"]


def C25(ctx):
    rng = ctx.rng
    cases, zc = [], []
    n = 0
    for li, (g, sep, dp) in enumerate(LOCALES):
        for ct in CTYPES:
            for t in (TYPES if not ctx.quick else [TYPES[(n + k * 3) % 14] for k in range(5)] + ["U"]):
                c = NC("loc-%d-%s-%s-%d" % (li, ct, t, n))
                shs = [[1000, 0], [12, 1, 1], [], [0, 1234567, 98765], [123], [1] * 12]
                a, b = rand_arr(rng, t, shs[n % 6]), rand_arr(rng, t, shs[(n + 1 + n // 6) % 6])
                if t == "U":
                    b = {"t": "U", "f": 0, "sh": [1], "el": [".".join(["61"] * rng.choice([1, 12, 123, 1234]))]}
                first = n % 2    # locale before or after the stream was made
                if first:
                    c.locale(g, sep, dp, ct)
                c.make("a", a).make("b", b).snew("s", "mf"[(n // 2) % 2])
                if not first:
                    c.locale(g, sep, dp, ct)
                en = ENS[n % 4]
                c.ssave("s", "a", en, SAVE_S[n % 3]).ssave("s", "b", en).speek("s").sseek("s", 0).sload("s", t, "", LOAD_S[n % 2]).sload("s", t)
                c.fsave("x", "b", en, SAVE_F[n % 5]).fread("x").fpeek("x").fload("x", t, "", LOAD_F[n % 4])
                # made elsewhere, with other white space
                h = header_text(rng, descr_of(b, "L"), b["f"], b["sh"], "dfs", lambda: rng.choice(WS))
                base = py_image(b, "L")
                img = wrap(h.encode()) + base[10 + base[8] + 256 * base[9]:]
                c.sset("s", img).sload("s", t).fwrite("y", img).fload("y", t).fpeek("y")
                c.add("todtype t=i4 en=L", {"op": "todtype", "t": "i4", "en": "L"})
                n += 1
                cases.append(c)
            # malformed numbers stay malformed
            c = NC("bad-%d-%s" % (li, ct))
            c.locale(g, sep, dp, ct).snew("s")
            for sh in ("(1%s000,)" % sep, "(1%s0,)" % sep, "(2%s,)" % sep, "(2 2,)", "(1,2", "(-1,)", "(2%s5,)" % dp):
                h = "{'descr': '|u1', 'fortran_order': False, 'shape': %s, }" % sh
                c.sset("s", wrap(h.encode()) + bytes(1200)).sload("s", "u1").sseek("s", 0).speek("s")
            for d in ("<U1%s000" % sep, "<U1%s0" % sep, "<U1000"):
                h = "{'descr': '%s', 'fortran_order': False, 'shape': (1,), }" % d
                c.sset("s", wrap(h.encode()) + bytes(4000)).sload("s", "U").sseek("s", 0).speek("s")
            cases.append(c)
            for m in (0, 8):
                for kind in "sf":
                    z = ZC("zip-%d-%s-%d-%s" % (li, ct, m, kind))
                    a, b = rand_arr(rng, None, [1000, 1]), rand_arr(rng, None, [12])
                    z.make("a", a).make("b", b)

                    def wr(p):
                        z.wopen("w" + p, kind, p, m, "B").wwrite("w" + p, "1000", "a").wwrite("w" + p, "b", "b").wclose("w" + p)
                        if kind == "s":
                            z.wstr("w" + p, p)
                        else:
                            z.bload(p, p)
                        z.bdig(p).ropenb("r" + p, p).rkeys("r" + p).rread("r" + p, "1000", a["t"]).rpeek("r" + p, "1000").rread("r" + p, "b", b["t"])
                    wr("p")
                    z.locale(g, sep, dp, ct)
                    wr("q")
                    z.rread("rp", "1000", a["t"]).rhas("rp", "b")
                    z.locale()
                    z.rread("rq", "1000", a["t"]).rpeek("rq", "b")
                    zc.append(z)
    ctx.validate("NpyTrace", cases)
    ctx.validate("NpzTrace", zc)
