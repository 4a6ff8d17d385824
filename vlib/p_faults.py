"""C26 (reads refused) and C27 (memory refused): spec/Faults.tla."""
from .npygen import *
from .npzgen import ZC
from .p_tensor import TC, distinct

PATH_F = ("str", "cstr", "path")
HEAD_F = ("str", "cstr", "path")
NAMES = ["a", "dir/second", "z.npy"]


class FC2(ZC):
    def refuse(self, **k):
        return self.add("faults " + " ".join("%s=%d" % x for x in k.items()), {"op": "nothing"})

    def relent(self):
        return self.add("nofaults", {"op": "nothing"})

    def flaky(self, p, t, at, piece, form="free", throws=False, peek=False):
        """a load or peek through a stream which fails once, at byte at"""
        x = " flaky=%d piece=%d%s" % (at, piece, " throws=1" if throws else "")
        if peek:
            return self.add("fpeek p=%s%s form=%s" % (p, x, form), {"op": "fpeek", "p": p})
        return self.add("fload p=%s t=%s form=%s dg=1%s" % (p, t, form, x), {"op": "fload", "p": p, "t": t})

    def rall(self, x):
        """everything reader x has, if there is one"""
        return self.add("rall x=%s" % x, {"op": "rall", "x": x})

    def peek(self, p, form="str"):
        return self.add("fpeek p=%s form=%s" % (p, form), {"op": "fpeek", "p": p})


class MTC(TC):
    def refuse(self, **k):
        return self.add("faults " + " ".join("%s=%d" % x for x in k.items()), {"op": "plan"})

    def relent(self):
        return self.add("nofaults", {"op": "plan"})


def arrays(c, big=20000):
    """s, u, b, e: small ones; l, z: large ones (z can be compressed)"""
    c.make("s", {"t": "i2", "f": 0, "sh": [3], "el": ["0001", "0203", "fffe"]})
    c.make("u", {"t": "U", "f": 1, "sh": [2, 2], "el": ["61.62", "-", "3bb", "1f600.2e"]})
    c.make("b", {"t": "b1", "f": 0, "sh": [], "el": ["01"]})
    c.make("e", {"t": "c16", "f": 1, "sh": [2, 0], "el": []})
    c.fill("l", "u4", 0, [big // 4], "rand:3")
    c.fill("z", "f8", 1, [big // 8], "zero:0")
    return c


T = {"s": "i2", "u": "U", "b": "b1", "e": "c16", "l": "u4", "z": "f8"}


def put(c, path, m, en, ents, w="mk"):
    c.wopen(w, "f", path, m, en)
    for n, d in ents:
        c.wwrite(w, n, d)
    return c.wclose(w).wdel(w)


MODES = [dict(rn=1, e=5), dict(rn=-1, e=5), dict(rn=2, e=11), dict(rn=1, e=4)]


def C26(ctx):
    rng = ctx.rng
    programs = ctx.background(ctx.model, "ReadMC", ctx.n("ReadMC.cfg", "ReadMCBig.cfg"), what="all programs and all refusals of reads: what a reader says is true, and it recovers")
    ctx.background(ctx.model, "ReadMC", "ReadMCNoEnd.cfg", expect_violation=True, what="without a look at the stream after the directory")
    ctx.background(ctx.model, "ReadMC", "ReadMCNoClear.cfg", expect_violation=True, what="with the mark of failure left on the stream")
    ctx.background(ctx.model, "ReadMC", "ReadMCNoData.cfg", expect_violation=True, what="without the checksum")
    cases = []
    # ---- arrays in files: every read of every size refused
    for d in "subelz":
        for en in ("L", "B"):
            c = arrays(FC2("file-%s-%s" % (d, en)))
            c.fsave("p", d, en)
            n = 0
            for short, top in ((0, 4), (1, 150 if d in "sub" else 40), (7, 30), (64, 8), (8000, 6)) if d in "sube" else ((0, 6), (8000, 6), (511, 12)):
                for k in range(1, top):
                    mode = MODES[n % 4]
                    n += 1
                    if short in (1, 7) and ctx.quick and (k + ctx.seed) % 2:
                        continue
                    c.refuse(r=k, short=short, **mode)
                    if n % 3 == 0:
                        c.peek("p", HEAD_F[n % 2])
                    c.fload("p", T[d], LOAD_F[n % len(LOAD_F)])
                    c.relent()
            # short transfers are no failures
            for short in (1, 2, 3, 100, 8190):
                if short < 10 and d in "lz":
                    continue
                c.refuse(short=short).peek("p").fload("p", T[d]).relent()
            c.fload("p", T[d]).peek("p")
            cases.append(c)
    # ---- streams which fail once at a byte
    for i, d in enumerate("subelz"):
        c = arrays(FC2("flaky-%s" % d), 9000)
        c.fsave("p", d, "LB"[i % 2]).refuse()
        size = {"s": 134, "u": 160, "b": 129, "e": 128}.get(d, 9128)
        ats = set(range(size + 1)) if size < 200 else {0, 5, 9, 10, 127, 128, 129, 1000, 8191, 8192, 9120, 9127, 9128} | {rng.randrange(9128) for _ in range(30)}
        for at in sorted(ats):
            if ctx.quick and size < 200 and (at + ctx.seed) % 2 and at > 14:
                continue
            piece = (1, 3, 64, 4096)[at % 4] if size < 200 else 4096
            c.flaky("p", T[d], at, piece, LOAD_S[at % 2] if at % 3 else "full", at % 5 == 0)
            if at < 130:
                c.flaky("p", T[d], at, piece, "hdr" if at % 2 else "", at % 7 == 0, peek=True)
        cases.append(c)
    ctx.validate("NpzTrace", cases, jvms=3)

    # ---- archives
    cases = []
    ents = [("a", "s"), ("dir/second", "u"), ("z.npy", "l")]
    for m in (0, 8):
        for en in ("L", "B"):
            c0 = "arch-%d-%s" % (m, en)
            # opening: every read, of one byte and of more
            for part in range(4):
                c = arrays(FC2("%s-open-%d" % (c0, part)))
                put(c, "p", m, en, ents[:2] if part % 2 else ents)
                k0 = {0: 1, 1: 1, 2: 60, 3: 120}[part]
                for k in range(k0, k0 + ctx.n(60, 130)):
                    short = (1, 1, 1, 5)[k % 4] if part else (0, 1, 2, 50)[k % 4]
                    x = "r%d" % k
                    c.refuse(r=k, short=short, **MODES[(k // 4) % 4])
                    c.ropenf(x, "p", PATH_F[k % 3]).relent().rall(x)
                    # a reader there is answers truly
                    c.ropenf("again", "p").rkeys("again").rdel("again")
                cases.append(c)
            # asking
            c = arrays(FC2("%s-ask" % c0))
            put(c, "p", m, en, ents)
            c.ropenf("x", "p")
            n = 0
            for name, d in ents:
                for short, ks in ((0, range(1, 5)), (1, range(1, 40, 3)), (30, range(1, 20)), (5000, range(1, 8))):
                    for k in ks:
                        n += 1
                        c.refuse(r=k, short=short if d != "l" or short > 20 else 0, **MODES[n % 4])
                        if n % 4 == 1:
                            c.rpeek("x", name)
                        c.rread("x", name, T[d], ("one", "two")[n % 2]).relent()
                        if n % 3 == 0:
                            c.rread("x", name, T[d])
                        if n % 7 == 0:
                            c.rkeys("x").rhas("x", name).rpeek("x", name)
            for name, d in ents:
                c.rread("x", name, T[d])
            cases.append(c)
    # archives with a ZIP64 end record: the entries beyond the 65535th
    from .p_misc import LC
    big = []
    for i, (n, z) in enumerate([(65536, 1), (65535, 0)] + ([] if ctx.quick else [(70000, 1), (65535, 1), (131072, 1)])):
        c = LC("zip64-%d-%d" % (n, z))
        c.fill("a", "u1", 0, [3], "zero:1").fmany("w", "e", n, py_image({"t": "u1", "f": 0, "sh": [3], "el": ["00"] * 3}, "L"), "a", z)
        for short, ks in ((0, list(range(1, 8)) + [rng.randrange(8, 400)]), (1, [1, 20, 23, 24, 25, 43, 44, 60, 90, 120] + [rng.randrange(1, 130) for _ in range(ctx.n(2, 30))])):
            for k in ks:
                # (in small pieces only as far as the end records)
                x = "x%d-%d" % (short, k)
                c.add("faults r=%d rn=1 e=5 short=%d" % (k, short and 1000), {"op": "nothing"}).ropen(x, "w").add("nofaults", {"op": "nothing"})
                c.add("rkeys x=%s sum=1 if=1" % x, {"op": "rkeysif", "x": x}).add("rdel x=%s" % x, {"op": "nothing"})
        c.ropen("r", "w").rsum("r").rread("r", "e%d" % (n - 1), "u1")
        big.append(c)
    ctx.validate("BigTrace", big, as_mb=6000, cpu=200, sample=0)
    # names as long as the buffer of the file
    for i in range(ctx.n(4, 24)):
        c = FC2("long-%d" % i)
        c.make("s", A_S)
        cut = rng.randrange(30, 55)
        put(c, "p", (0, 8)[i % 2], "L", [("y" * (8191 - 46 - 4 - cut), "s"), ("z", "s")])
        for k in range(1, 6):
            c.refuse(r=k, rn=1, e=5).ropenf("x%d" % k, "p").relent().rall("x%d" % k)
        c.ropenf("x", "p").rkeys("x").rread("x", "z", "i2")
        cases.append(c)
    ctx.validate("NpzTrace", cases, jvms=4)

    # ---- programs of the model
    progs = sorted({tuple((o["op"], o["hit"]) for o in p["h"]) for p in programs()})
    ctx.cov["user programs"] = len(progs)
    cases = []
    for i, h in enumerate(progs):
        if not any(hit for _, hit in h) and i % 4:
            continue
        c = FC2("prog-%d" % i)
        c.make("s", A_S).make("u", A_U)
        put(c, "p", (0, 8)[i % 2], "LB"[i // 2 % 2], [("a", "s"), ("b", "u")])
        for v in range(ctx.n(3, 10)):
            x = "x%d" % v
            for j, (op, hit) in enumerate(h):
                if hit:
                    short = rng.choice((0, 1, 1, 4))
                    top = {0: 3, 1: 190 if op == "open" else 230, 4: 60}[short]
                    c.refuse(r=rng.randrange(1, top), short=short, **rng.choice(MODES[:3]))
                # (a reader the program has may be none here, and the other way round)
                if op == "open":
                    c.ropenf(x, "p", PATH_F[(i + v) % 3])
                elif op == "del":
                    if sure(h[:j]):
                        c.rdel(x)
                elif not sure(h[:j]):
                    pass
                elif op == "keys":
                    c.rkeys(x)
                elif op == "read":
                    c.rread(x, ("a", "b")[(j + v) % 2], ("i2", "U")[(j + v) % 2])
                else:
                    c.rpeek(x, ("a", "b.npy")[(j + v) % 2])
                if hit:
                    c.relent()
            c.rall(x)
            c.ropenf("y%d" % v, "p").rkeys("y%d" % v).rread("y%d" % v, "a", "i2")
        cases.append(c)
    ctx.validate("NpzTrace", cases, jvms=4)


A_S = {"t": "i2", "f": 0, "sh": [3], "el": ["0001", "0203", "fffe"]}
A_U = {"t": "U", "f": 1, "sh": [2, 2], "el": ["61.62", "-", "3bb", "1f600.2e"]}


def sure(h):
    """is there a reader after these calls, for certain?"""
    r = False
    for op, hit in h:
        if op == "open":
            r = not hit
        elif op == "del":
            r = False
    return r


MEM = [dict(mn=1), dict(mn=-1), dict(mn=2)]


def C27(ctx):
    rng = ctx.rng
    programs = ctx.background(ctx.model, "MemMC", ctx.n("MemMC.cfg", "MemMCBig.cfg"), what="all programs of a writer and all refusals of memory: silence means completeness")
    for v, what in (("NoImage", "without a look at the stream of the image"), ("NoWrite", "without a look at the stream of the archive"), ("NoClose", "without one when closing")):
        ctx.background(ctx.model, "MemMC", "MemMC%s.cfg" % v, expect_violation=True, what=what)
    cases = []
    # ---- arrays in files
    for d in "subelz":
        for en in ("L", "B", "D"):
            c = arrays(FC2("file-%s-%s" % (d, en)))
            c.fsave("ok", d, en)
            n = 0
            for f in SAVE_F:
                for k in range(1, 16):
                    n += 1
                    p = "p%d" % n
                    c.refuse(m=k, **MEM[n % 3]).fsave(p, d, en, f).relent()
                    c.fsave("q", d, en).fload("q", T[d]) if n % 10 == 0 else c
            for f in LOAD_F:
                for k in range(1, 26):
                    n += 1
                    c.refuse(m=k, **MEM[n % 3]).fload("ok", T[d], f)
                    if n % 3 == 0:
                        c.refuse(m=k, **MEM[n // 3 % 3]).peek("ok", HEAD_F[n % 3])
                    c.relent()
                    if n % 5 == 0:
                        c.fload("ok", T[d], f)
            cases.append(c)
    # what a refused save leaves where it did not throw is complete
    for d in "sulz":
        c = arrays(FC2("left-%s" % d))
        for k in range(1, 30):
            c.refuse(m=k, mn=1).fsave("t%d" % k, d, "LB"[k % 2], SAVE_F[k % len(SAVE_F)]).relent().add(*after("t%d" % k, T[d]))
        cases.append(c)
    # ---- writers: each request of each call refused
    for kind in "sf":
        for m in (0, 8):
            for d in "suelz":
                c = arrays(FC2("write-%s-%d-%s" % (kind, m, d)), 4000 if d in "lz" else 16)
                n = 0
                for k in range(1, ctx.n(34, 60)):
                    if ctx.quick and k > 26 and (k + ctx.seed) % 2:
                        continue
                    w = "w%d" % k
                    x = "x%d" % k
                    path = "p%d" % k
                    c.wopen(w, kind, path, m, "LB"[k % 2])
                    if k % 3:
                        c.wwrite(w, "first", "s")
                    c.refuse(m=k, **MEM[k % 3]).wwrite(w, "second" if k % 2 else "q" * 40, d).relent()
                    if k % 2:
                        c.wwrite(w, "third", "u")
                    if k % 5 == 0 and kind == "s":
                        c.wstr(w, "b").add("ropen x=%s kind=s b=b form=copy" % x, {"op": "ropenb", "x": x, "b": "b"})
                    c.wclose(w)
                    finish(c, kind, w, path, x)
                cases.append(c)
    # ---- closing, asking for the bytes
    for kind in "sf":
        for m in (0, 8):
            c = arrays(FC2("close-%s-%d" % (kind, m)), 16)
            for k in range(1, 13):
                for first in range(0, 8):
                    w = "w%d_%d" % (k, first)
                    path = "p%d_%d" % (k, first)
                    c.wopen(w, kind, path, m)
                    for j in range(first):     # the directory meets the end of the stream's memory here and there
                        c.wwrite(w, "n" * (7 * j + k) + str(j), "s")
                    c.refuse(m=k if k < 7 else 1, **MEM[(k + first) % 3]).wclose(w).relent()
                    c.wclose(w)
                    finish(c, kind, w, path, "x%d_%d" % (k, first))
            cases.append(c)
    c = arrays(FC2("str"), 16)
    c.wopen("w", "s", "", 8).wwrite("w", "a", "s")
    for k in range(1, 6):
        c.refuse(m=k, mn=-1).wstr("w", "b").relent().wstr("w", "b")
    c.wclose("w")
    for k in range(1, 6):
        c.refuse(m=k, mn=1).wstr("w", "b").relent().wstr("w", "b").ropenb("x", "b").rread("x", "a", "i2")
    cases.append(c)
    # the constructors
    c = arrays(FC2("ctor"), 16)
    for k in range(1, 12):
        for j, kind in enumerate("sf"):
            for f in PATH_F if kind == "f" else ("str",):
                w = "w%d%s%s" % (k, kind, f)
                c.refuse(m=k, **MEM[(k + j) % 3]).wopen(w, kind, "c%d%s" % (k, f), (0, 8, None)[k % 3], "D", f).relent()
    c.wopen("w", "f", "fin", 0).wwrite("w", "a", "s").wclose("w").ropenf("x", "fin").rread("x", "a", "i2")
    cases.append(c)
    ctx.validate("NpzTrace", cases, jvms=4)

    # ---- tensors: nothing has happened, or all of it
    cases = []
    shapes = [([2, 3], 0), ([3, 2], 1), ([], 0), ([40], 0), ([0, 7], 1), ([1, 2, 3, 2], 0), ([64, 2], 1)]
    for t in ("u1", "i4", "c16", "b1", "U"):
        for i, (sa, fa) in enumerate(shapes):
            c = MTC("tensor-%s-%d" % (t, i))
            c.new("a", t, sa, fa).bulk("a", distinct(t, count(sa), 7))
            for j, (sb, fb) in enumerate(shapes):
                if j == i or (j + i + ctx.seed) % ctx.n(2, 1):
                    continue
                c.new("b", t, sb, fb).bulk("b", distinct(t, count(sb), 40))
                for k in range(1, 8 if t != "U" else 14):
                    r = MEM[(k + j) % 3]
                    c.refuse(m=k, **r).assign("b", "a").relent()
                    if k % 3 == 0:
                        c.refuse(m=k, **r).copy("c", "b").relent()
                    if k % 4 == 0:
                        c.refuse(m=k, **r).new("n", t, sb, fb).relent()
                    if k % 2 and sb and 0 not in sb:
                        c.refuse(m=k // 2 + 1, **r).set("b", [0] * len(sb), distinct(t, 1, k)[0], ("set", "call", "callvec")[k // 2 % 3])
                        c.get("b", [-1] * len(sb), "get").relent()
                    if t != "U":
                        els = distinct(t, count(sb), k + 9)
                        c.refuse(m=k % 3 + 1, **r).bulk("b", els, ("vec", "ptr", "move")[k % 3]).relent()
                        if count(sa) == count(sb):
                            c.refuse(m=k % 3 + 1, **r).bulkfrom("b", "a", ("vec", "ptr")[k % 2]).relent()
                c.assign("b", "a")
            c.delete("a")
            cases.append(c)
    ctx.validate("TensorTrace", cases, jvms=3)

    # ---- readers
    cases = []
    for kind in "sf":
        for m in (0, 8):
            c = arrays(FC2("read-%s-%d" % (kind, m)), 5000)
            ents = [("a", "s"), ("a longer name than fits into a string itself", "u"), ("b.npy", "l"), ("c", "z"), ("d", "e")]
            put(c, "p", m, "LB"[m // 8], ents)
            c.bload("b", "p")

            def ropen(x, f):
                return c.ropenf(x, "p", PATH_F[f % 3]) if kind == "f" else c.ropenb(x, "b", ("copy", "move")[f % 2])
            for k in range(1, ctx.n(40, 70)):
                c.refuse(m=k, **MEM[k % 3])
                ropen("r%d" % k, k)
                c.relent().rall("r%d" % k)
            ropen("x", 0)
            n = 0
            for name, d in ents:
                for k in range(1, ctx.n(36, 60)):
                    n += 1
                    if ctx.quick and (n + ctx.seed) % 2:
                        continue
                    c.refuse(m=k, **MEM[n // 2 % 3])
                    c.rread("x", name, T[d], ("one", "two")[n // 2 % 2])
                    if n % 4 == 0:
                        c.rpeek("x", name)
                    if n % 6 == 0:
                        c.rhas("x", name)
                    c.relent()
                    if n % 5 == 0:
                        c.rread("x", name, T[d]).rkeys("x")
            cases.append(c)
    ctx.validate("NpzTrace", cases, jvms=4)

    # ---- programs of the model
    progs = sorted({tuple((o["op"], o["hit"]) for o in p["h"]) for p in programs()})
    ctx.cov["user programs"] = len(progs)
    cases = []
    for i, h in enumerate(progs):
        if (i + ctx.seed) % ctx.n(5, 4):
            continue
        c = FC2("prog-%d" % i)
        c.make("s", A_S).make("u", A_U)
        for kind in "sf":
            w = kind
            m = (0, 8)[i % 2]
            c.wopen(w, kind, "p", m, "LB"[i // 2 % 2])
            n = 0
            for op, hit in h:
                if hit:
                    c.refuse(m=rng.randrange(1, 25 if op == "write" else 3), **rng.choice(MEM))
                if op == "write":
                    n += 1
                    c.wwrite(w, "e%d" % n, "su"[n % 2])
                elif op == "close":
                    c.wclose(w)
                elif op == "str" and kind == "s":
                    c.wstr(w, "b")
                if hit:
                    c.relent()
                if op == "del":
                    break
            if h[-1][0] != "del":
                c.wclose(w)
                finish(c, kind, w, "p", "x" + kind)
            else:
                c.wdel(w)
        cases.append(c)
    ctx.validate("NpzTrace", cases, jvms=4)


def after(p, t):
    """what a save may have left: nothing is known if it threw"""
    return "fload p=%s t=%s form=free dg=1" % (p, t), {"op": "fload", "p": p, "t": t}


def finish(c, kind, w, path, x):
    """what the writer has left is an archive of what it took, or none"""
    if kind == "s":
        c.wstr(w, "b" + w).wdel(w).ropenb(x, "b" + w)
        return c.rall(x)
    c.wdel(w).ropenf(x, path)
    return c.rall(x)
