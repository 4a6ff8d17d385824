"""C18: writing to disks which refuse data (spec/Disk.tla)."""
from .npygen import *
from .npzgen import ZC, nb


class DC(ZC):
    """cases for spec/Disk.tla"""

    def make(self, d, a):
        super().make(d, a)
        return self

    def device(self, p, kind, how=""):
        if kind == "full":
            return self.add("link p=%s to=/dev/full" % p, {"op": "device", "p": p, "kind": "full"})
        if how == "dir":
            return self.add("mkdir p=%s" % p, {"op": "device", "p": p, "kind": "none"})
        if how == "dangling":
            return self.add("link p=%s to=nowhere/x" % p, {"op": "device", "p": p, "kind": "none"})
        return self.add("fdig p=%s" % p, {"op": "device", "p": p, "kind": "none", "res": lambda r: {"r": "ok"}})

    def room(self, n):
        return self.add("unlimit" if n < 0 else "limit n=%d" % n, {"op": "room", "n": n})

    def openfiles(self, yes):
        return self.add("maxfiles n=%s" % ("-" if yes else "0"), {"op": "openfiles", "yes": yes})

    def plan(self, **k):
        return self.add("faults " + " ".join("%s=%d" % x for x in k.items()), {"op": "plan"})

    def wopen(self, w, p, m=0, en="D", form="str"):
        l = "wopen w=%s kind=f p=%s form=%s m=%d" % (w, p, form, m)
        if en != "D":
            l += " en=%s" % en
        return self.add(l, {"op": "wopen", "w": w, "p": p, "m": m, "en": en, "res": opened})

    def _w(self, w, line, ev):
        ev["res"] = writer_res
        return self.add(line, ev)

    def wwrite(self, w, name, d, cst=0):
        n = nb(name)
        return self._w(w, "wwrite w=%s name=%s d=%s%s" % (w, n.hex(), d, " cst=1" if cst else ""),
                       {"op": "wwrite", "w": w, "name": list(n), "d": d})

    def fdig(self, p):
        return self.add("fdig p=%s" % p, {"op": "fdig", "p": p})


def opened(r):
    return r


def writer_res(r):
    return r


def arrays(c, rng, big):
    """the arrays s (small), l (large)"""
    c.make("s", {"t": "i2", "f": 0, "sh": [3], "el": ["0001", "0203", "fffe"]})
    c.make("u", {"t": "U", "f": 1, "sh": [2, 2], "el": ["61.62", "-", "3bb", "1f600.2e"]})
    c.fill("l", "u1", 0, [big], "rand:3")
    c.fill("z", "f8", 1, [big // 8], "zero:0")
    return c


SIZES = {"s": 128 + 6, "u": 128 + 32}


def C18(ctx):
    rng = ctx.rng
    programs = ctx.background(ctx.model, "DiskMC", ctx.n("DiskMC.cfg", "DiskMCBig.cfg"), what="all user programs and all refusals: silence means completeness")
    ctx.background(ctx.model, "DiskMC", "DiskMCNoClose.cfg", expect_violation=True, what="without a look at the stream after closing the file")
    ctx.background(ctx.model, "DiskMC", "DiskMCClear.cfg", expect_violation=True, what="with the mark of failure cleared before each write")

    cases = []
    # ---- single arrays
    # every capacity
    for d, en in (("s", "D"), ("u", "B")):
        need = SIZES[d]
        caps = list(range(0, need + 3))
        for i in range(0, len(caps), 40):
            c = arrays(DC("cap-%s-%d" % (d, i)), rng, 16)
            c.fsave("ref", d, en).fdig("ref").plan()
            for k in caps[i:i + 40]:
                c.room(k).fsave("p", d, en, SAVE_F[k % len(SAVE_F)]).room(-1).fdig("p")
            cases.append(c)
    for big in ((8063, 8064, 20000) if ctx.quick else (8000, 8061, 8062, 8063, 8064, 8065, 16000, 16255, 20000, 65536, 300000)):
        need = 128 + big
        caps = sorted({k for b in (0, 10, 64, 127, 128, 129, 4096, 8190, 8191, 8192, 8193, 16382, 16384, need - 8192, need)
                       for k in (b - 1, b, b + 1) if 0 <= k <= need + 1} | {rng.randrange(need) for _ in range(ctx.n(8, 60))})
        for i in range(0, len(caps), 30):
            c = arrays(DC("bigcap-%d-%d" % (big, i)), rng, big)
            c.fsave("ref", "l").fdig("ref").plan()
            for k in caps[i:i + 30]:
                c.room(k).fsave("p", "l", "D", SAVE_F[k % len(SAVE_F)]).room(-1).fdig("p")
            c.fsave("p", "l").fdig("p").fsave("p", "s").fdig("p")    # over what is there
            cases.append(c)
    # refusals of single transfers, once or for good, and short ones
    for big in ctx.n((20000, 9000, 8190), (20000, 9000, 8190, 100000, 8191, 16500, 3000000)):
        c = arrays(DC("refuse-%d" % big), rng, big)
        for d in ("s", "u", "l", "z"):
            c.fsave("ref", d).fdig("ref")
        for d in ("s", "u", "l", "z"):
            for k in range(1, 6):
                for wn, e in ((1, 28), (-1, 5), (2, 122), (1, 4), (1, 11)):
                    c.plan(w=k, wn=wn, e=e).fsave("p", d, "D", SAVE_F[k % len(SAVE_F)]).plan().fdig("p")
            c.plan(close=1).fsave("p", d).plan().fdig("p")
            for sh in (1, 7, 4096) if d != "l" or big < 50000 else (4096,):
                c.plan(short=sh).fsave("p", d).plan().fdig("p")
        cases.append(c)
    # places which cannot be written to
    for j, (kind, how) in enumerate([("full", ""), ("none", "dir"), ("none", "dangling"), ("none", "parent"), ("none", "files")]):
        c = arrays(DC("place-%d" % j), rng, 20000)
        p = "no/such/dir" if how == "parent" else "p"
        c.plan()
        if how == "files":
            c.openfiles(0)
        else:
            c.device(p, kind, how)
        for i, d in enumerate("sulz"):
            for f in SAVE_F:
                c.fsave(p, d, "DLB"[i % 3], f)
        for i, prog in enumerate((["w"], ["w", "c"], ["c"], ["w", "c", "c", "w"], ["W", "w", "c"], ["W", "c"], ["W"], [], ["w", "W", "w", "c", "w", "c"])):
            for m in (0, 8):
                w = "w%d_%d" % (i, m)
                c.wopen(w, p, m, "D", ("str", "cstr", "path")[i % 3])
                for x in prog:
                    c.wclose(w) if x == "c" else c.wwrite(w, "a%d" % len(c.cmds), "l" if x == "W" else "s")
                c.wdel(w)
        if how == "files":
            c.openfiles(1).fsave(p, "l").fdig(p)
        cases.append(c)
    ctx.validate("DiskTrace", cases, jvms=2)

    # ---- archives: every program of the model, every transfer refused
    progs = sorted({tuple(p["h"]) for p in programs()})
    ctx.cov["user programs"] = len(progs)
    cases = []

    def run(c, h, w, p, m, en="D", between=None):
        c.wopen(w, p, m, en)
        n = 0
        for i, x in enumerate(h):
            if between:
                between(i)
            if x in ("small", "large"):
                n += 1
                c.wwrite(w, "e%d" % n, {"small": "su", "large": "lz"}[x][n % 2 if m == 0 or x == "small" else 0])
            elif x == "close":
                c.wclose(w)
            else:
                c.wdel(w)
        return c

    for i, h in enumerate(progs):
        c = arrays(DC("prog-%d" % i), rng, 20000)
        for m in (0, 8):
            run(c, h, "ref", "ref", m)
            c.fdig("ref").plan()
            writes = 3 * sum(x != "del" for x in h) + 2
            for k in range(1, min(writes, ctx.n(6, 12)) + 1):
                for wn, e in ((1, 28), (-1, 5)) if ctx.quick else ((1, 28), (-1, 5), (2, 122), (1, 4)):
                    c.plan(w=k, wn=wn, e=e)
                    run(c, h, "w", "p", m).plan().fdig("p")
            c.plan(close=1)
            run(c, h, "w", "p", m).plan().fdig("p")
            c.plan(short=100)
            run(c, h, "w", "p", m).plan().fdig("p")
        cases.append(c)
    ctx.validate("DiskTrace", cases, jvms=4)

    # every capacity, for whole small archives; the limit lifted at every call
    cases = []
    todo = [(("small", "small", "close", "del"), m, en) for m in (0, 8) for en in ("D", "B")]
    todo += [(("close", "del"), 0, "D"), (("small", "del"), 0, "D")]
    for i, (h, m, en) in enumerate(todo):
        top = 640 if "small" in h else 40
        caps = list(range(0, top, ctx.n(2, 1) if i else 1))
        for j in range(0, len(caps), 40):
            c = arrays(DC("acap-%d-%d" % (i, j)), rng, 16)
            run(c, h, "ref", "ref", m, en)
            c.fdig("ref").plan()
            for k in caps[j:j + 40]:
                c.room(k)
                run(c, h, "w", "p", m, en).room(-1).fdig("p")
            cases.append(c)
    for i, h in enumerate([("large", "small", "close", "del"), ("small", "large", "small", "close", "close", "del"), ("large", "large", "close", "small", "del")]):
        for m in (0, 8):
            c = arrays(DC("alift-%d-%d" % (i, m)), rng, 20000)
            run(c, h, "ref", "ref", m)
            c.fdig("ref").plan()
            caps = sorted({rng.randrange(61000) for _ in range(ctx.n(6, 60))} | {0, 100, 8191, 8192, 20128, 20129 + 40, 20400, 20450})
            for k in caps:
                for lift in range(len(h) + 1):
                    for back in (range(lift + 1, len(h) + 1) if not ctx.quick else (len(h) + 1,)):
                        # the disk is full before call number lift, and has room again before call number back
                        def between(i, lift=lift, back=back, k=k):
                            if i == lift:
                                c.room(k)
                            if i == back:
                                c.room(-1)
                        run(c, h, "w", "p", m, "D", between).room(-1).fdig("p")
                        if ctx.quick:
                            def between2(i, lift=lift, k=k):
                                if i == 0:
                                    c.room(k)
                                if i == lift:
                                    c.room(-1)
                            run(c, h, "w", "p", m, "D", between2).room(-1).fdig("p")
            cases.append(c)
    ctx.validate("DiskTrace", cases, jvms=4, cpu=60)
