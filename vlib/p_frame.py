"""C30: what belongs to the caller (spec/Frame.tla)."""
from .npygen import *
from .npzgen import nb
from .p_npy import bad_headers
from .p_world import only, material, hit, NAMES, TYPES

NTYPES = ("i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f4", "f8", "c8", "c16", "b1", "U")
DRESS = ("", "h", "s", "l", "hsl", "w", "wh", "b", "t", "hslwb")
FORMS = ("str", "cstr", "path")


class XC(Case):
    """cases for spec/Frame.tla: every command has the things it is for"""

    def look(self):
        return self.add("things", {"op": "look"})

    def base(self):
        return self.add("things", {"op": "base"})

    def q(self, line):
        return self.add(line, {"op": "quiet", "res": only("r")})

    def ev(self, line, op, **k):
        return self.add(line, dict(k, op=op, res=only("r", "pre")))

    def array(self, d, a):
        return self.ev(amake_line(d, a), "array", d=d)

    def stream(self, s, b=b"", fl=""):
        self.ev("snew s=%s%s" % (s, " fl=" + fl if fl else ""), "stream", s=s)
        return self.ev("sset s=%s hex=%s" % (s, b.hex()), "stream", s=s)

    def prime(self, s):
        """what the program has set on its stream is set now"""
        return self.ev("sseek s=%s pos=0" % s, "stream", s=s)

    def wopen(self, w, p="", m=0, en="L", form="str"):
        return self.ev("wopen w=%s kind=%s%s m=%d en=%s" % (w, "f" if p else "s", " p=%s form=%s" % (p, form) if p else "", m, en), "writer", w=w)

    def wwrite(self, w, name, d):
        return self.ev("wwrite w=%s name=%s d=%s" % (w, nb(name).hex(), d), "writer", w=w)

    def wclose(self, w):
        return self.ev("wclose w=%s" % w, "writer", w=w)

    def wdel(self, w):
        return self.ev("wdel w=%s" % w, "writer", w=w)

    def ropenb(self, x, b, form="copy"):
        c = self.ev("ropen x=%s kind=s b=%s form=%s" % (x, b, form), "reader", x=x)
        return c

    def ropen(self, x, p, form="str"):
        return self.ev("ropen x=%s kind=f p=%s form=%s" % (x, p, form), "reader", x=x)

    def read(self, x, i, t=None):
        return self.q("rread x=%s name=%s t=%s form=%s dg=1" % (x, NAMES[i].encode().hex(), t or TYPES[i], ("one", "two")[i % 2]))


def prepare(c, rng, fl=""):
    s, u, g, d = material(rng)
    t = [rand_arr(rng, k, rng.choice([[4], [2, 3], []])) for k in ("f8", "u4", "c16", "b1", "i8")]
    c.array("t", s).array("v", u)
    for i, a in enumerate(t):
        c.array("k%d" % i, a)
    c.ev("cnew d=c sh=2 code=%s f=0 pay=0102030405060708" % b"<i4".hex(), "user", d="c")
    c.ev("cnew d=cx sh=2 code=%s f=0 pay=0102030405060708 throw=3%s" % (b"<i4".hex(), an_exc()), "user", d="cx")
    img = py_image(s, "L")
    c.stream("s", img * 4, fl).stream("o", img + b"x")
    for b, x in (("b", g), ("bd", d), ("bj", b"PK\5\6" + bytes(30))):
        c.ev("bset b=%s hex=%s" % (b, x.hex()), "string", b=b)
        c.q("bsave b=%s p=%s" % (b, b))
    c.q("fwrite p=a.npy hex=%s" % img.hex()).q("mkdir p=d").q("fwrite p=d/a.npy hex=%s" % img.hex())
    c.wopen("w0", "", 8).wwrite("w0", "a", "t")
    c.ropenb("x0", "b")
    c.wopen("w").ropenb("x", "b")
    return c.prime("s")


def run_program(c, h, rng, k):
    """a program of FrameMC"""
    for i, op in enumerate(h):
        o = op.split(" ")
        z = i + k
        if o[0] == "save":
            c.ev("ssave s=s d=%s en=%s form=%s" % (o[1], "LBD"[z % 3], ("free", "tmpl", "member")[k % 3]), "saves", s="s")
        elif o[0] == "fsave":
            c.q("fsave p=%s d=%s en=%s form=%s" % (("p", "no/such", "d/p")[z % 3], o[1], "BL"[i % 2], ("free", "tmpl", "member")[k % 3]))
        elif o[0] == "load":
            c.q("sload s=s t=i2 form=%s" % ("one", "two")[z % 2]) if z % 2 else c.q("fload p=a.npy t=i2 form=free dg=1")
        elif o[0] == "badload":
            c.q("sload s=s t=%s form=one" % ("u2", "U")[z % 2]) if z % 2 else c.q("fload p=bj t=i2 form=free dg=1")
        elif o[0] == "peek":
            c.q("speek s=s") if z % 2 else c.q("fpeek p=a.npy")
        elif o[0] == "write":
            c.wwrite("w", "e%d" % i, o[1])
        elif o[0] == "read":
            c.read("x", z % 4)
        elif o[0] == "badread":
            c.read("x", z % 4, "b1") if z % 2 else c.read("x", 4)
        elif o[0] == "ask":
            c.q("rpeek x=x name=%s" % NAMES[z % 5].encode().hex()).q("rhas x=x name=%s" % NAMES[k % 5].encode().hex())
        elif o[0] == "open":
            c.ropenb("x", ("b", "b", "bd", "b")[z % 4]) if z % 2 else c.ropen("x", ("b", "bd")[i % 2], FORMS[k % 3])
        elif o[0] == "close":
            c.wclose("w")
        elif o[0] == "set":
            c.ev("tpoke d=%s k=0 v=%s form=data" % (o[1], {"t": "%04x" % (k % 65536), "v": "%x.41" % (65 + k % 20)}[o[1]]), "array", d=o[1])
        elif o[0] == "assign":
            c.ev("tcopy d=v s=t", "array", d="v")
            c.ev("tpoke d=v k=0 v=%04x form=data" % (k * 7 % 65536), "array", d="v")
        c.look()
    # as it was
    if any(o in ("assign", "set v") for o in h):
        c.array("v", rand_arr(rng, "U", [2]))
    c.wdel("w").wopen("w", "", (0, 8)[k % 2]).ropenb("x", "b").look()
    return c


def program_cases(ctx, rng, programs, per):
    progs = sorted({tuple(p["h"]) for p in programs()})
    ctx.cov["user programs"] = len(progs)
    todo = progs if len(progs) <= ctx.n(1500, 12000) else rng.sample(progs, ctx.n(1500, 12000))
    cases = []
    for i in range(0, len(todo), per):
        c = prepare(XC("prog-%d" % i), rng, DRESS[i // per % len(DRESS)])
        c.base()
        for k, h in enumerate(todo[i:i + per]):
            run_program(c, h, rng, i + k)
        cases.append(c)
    return cases


def each_call(ctx, rng):
    """every type, every form and every refusal, with a look after each"""
    cases = []
    hs = bad_headers(rng)
    rng.shuffle(hs)
    for n in range(ctx.n(len(DRESS), 4 * len(DRESS))):
        fl = DRESS[n % len(DRESS)]
        c = prepare(XC("each-%d" % n), rng, fl)
        if n % 3 == 2:
            c.ev("locale grp=03 sep=2e dp=2c", "setlocale")
        c.base()
        for d in ("t", "v", "k0", "k1", "k2", "k3", "k4"):
            for en in "LBD":
                c.ev("ssave s=s d=%s en=%s form=free" % (d, en), "saves", s="s").look()
                c.q("fsave p=%s d=%s en=%s form=%s" % (rng.choice(["p", "d/p"]), d, en, rng.choice(["free", "tmpl", "member"]))).look()
            for m in (0, 8, 5):
                for p in ("", "q.npz"):
                    c.wopen("w", p, m, "LB"[n % 2], FORMS[n % 3]).look().wwrite("w", "a", d).look().wclose("w").look()
                    c.wwrite("w", "late", d).look()
        # streams which refuse what they are given, whole or from some byte on, by a mark or an exception
        for d in ("t", "v", "k0", "k1", "k2", "k3", "k4", "c", "cx"):
            for r in (0, 8, 70, 130, 131, 137):
                for f in ("marks", "throws"):
                    c.ev("%ssave s=s d=%s en=%s form=free sink=1 room=%d full=%s" % ("sc"[d[0] == "c"], d, rng.choice("BL"), r, f), "saves", s="s").look()
        for d in ("c", "cx"):
            c.ev("csave s=s d=%s en=L" % d, "saves", s="s").look()
            c.q("cfsave p=p d=%s en=B" % d).look()
            c.wopen("w").ev("cwrite w=w name=%s d=%s" % (b"c".hex(), d), "writer", w="w").look()
        a = rand_arr(rng, "i2", [3])
        img = py_image(a, "LB"[n % 2])
        for x in (img, img[:-1], hit(img, 3), hit(img, 9), img[:20], b"", img[:10]):
            c.stream("s", x, fl).prime("s").look().q("sload s=s t=i2 form=one").look()
            c.stream("s", x, fl).prime("s").look().q("speek s=s").look()
            c.stream("s", x, fl).prime("s").look().q("sload s=s t=f8 form=two").look()
        for h in hs[n * 12 % len(hs):][:ctx.n(12, 40)]:
            x = wrap(h.encode("latin1"), 1 + len(h) % 2) + bytes(8)
            c.stream("s", x, fl).prime("s").look().q("sload s=s t=i2 form=one").look()
            c.q("hinfo hex=%s" % h.encode("latin1").hex()).look()
        for p in ("a.npy", "d/a.npy", "bj", "d/none", "p", "d"):
            for f in ("free", "tmpl", "member"):
                c.q("fload p=%s t=%s form=%s dg=1" % (p, rng.choice(["i2", "U"]), f)).look()
            c.q("fpeek p=%s" % p).look()
        for b in ("b", "bd", "bj"):
            for how in ("copy", "file"):
                c.ropenb("x", b) if how == "copy" else c.ropen("x", b, FORMS[n % 3])
                c.look()
                if b != "bj":
                    for i in range(5):
                        c.read("x", i).look().read("x", i, "b1").look()
                        c.q("rpeek x=x name=%s" % NAMES[i].encode().hex()).look()
                        c.q("rhas x=x name=%s" % NAMES[i].encode().hex()).look()
                    c.q("cread x=x name=%s take=4" % b"e0".hex()).look()
                    c.q("cread x=x name=%s take=2 throw=1%s" % (b"e0".hex(), an_exc())).look()
        for form in ("get", "call", "ccall", "callvec", "ccallvec", "ravel", "ravelvec"):
            for ix in ("0", "-1", "-3", "99", "-99", "0,0", ""):
                c.q("tget d=t i=%s form=%s" % (ix, form)).look()
        for form in ("set", "call", "callvec"):
            for ix in ("-2", "1", "99", "-99", "0,0"):
                c.ev("tset d=t i=%s v=0102 form=%s" % (ix, form), "array", d="t").look()
        for sh in ("2,3", "", "0", "4294967296,4294967296,4294967296"):
            c.ev("tnew d=n t=i2 sh=%s f=%d" % (sh, n % 2), "array", d="n").look()
        # arrays next to arrays
        c.ev("tcopy d=y s=t", "array", d="y").look().ev("tpoke d=y k=0 v=7777 form=data", "array", d="y").look()
        c.ev("tassign d=y s=t", "array", d="y").look().ev("tpoke d=y k=1 v=1234 form=data", "array", d="y").look()
        c.ev("tpoke d=t k=2 v=4321 form=data", "array", d="t").look()
        c.ev("tcopyfrom d=y form=vec el=0001", "array", d="y").look().ev("tcopyvals d=y s=t form=vec", "array", d="y").look()
        c.ev("tmove d=z s=y", "moves", d="z", s="y").look().ev("tpoke d=z k=0 v=4444 form=data", "array", d="z").look()
        c.ev("tdel d=z", "array", d="z").look()
        cases.append(c)
    # arrays of every type and more than a buffer, to streams and disks which refuse
    for i, t in enumerate(NTYPES):
        c = XC("full-" + t).q("mkdir p=d").array("a", rand_arr(rng, t, [3000])).array("b", rand_arr(rng, t, [5])).stream("s", b"", DRESS[i % len(DRESS)]).prime("s")
        c.base()
        for d in "ab":
            for en in "LBD":
                for r in (0, 128, 129, 133, 140, 1000, 9000):
                    c.ev("ssave s=s d=%s en=%s form=free sink=1 room=%d full=%s" % (d, en, r, rng.choice(["marks", "throws"])), "saves", s="s").look()
                    c.stream("s", b"", DRESS[i % len(DRESS)]).prime("s").look()
                for k in (1, 2, 3):
                    c.q("faults w=%d wn=-1 e=28" % k).q("fsave p=%s d=%s en=%s form=free" % (("p", "d/p")[k % 2], d, en)).q("nofaults").look()
                for m in (0, 8):
                    c.q("faults w=%d wn=-1 e=28" % rng.choice([1, 2])).wopen("w", "d/z", m, en if en != "D" else "L").wwrite("w", "a", d).wclose("w").q("nofaults").look()
        cases.append(c)
    # with memory refused and disks and reads which fail
    for k0 in range(1, ctx.n(60, 160), 12):
        c = prepare(XC("mem-%d" % k0), rng, DRESS[k0 // 12 % len(DRESS)])
        c.base()
        for k in range(k0, k0 + 12):
            p = "faults m=%d mn=%d" % (k, (1, -1)[k % 2])
            for d in ("t", "v"):
                c.q(p).ev("ssave s=s d=%s en=B form=free" % d, "saves", s="s").q("nofaults").look()
                c.q(p).q("fsave p=p d=%s en=B form=free" % d).q("nofaults").look()
                c.q(p).wwrite("w0", "n%d" % k, d).q("nofaults").look()
            c.stream("o", img).look().q(p).q("sload s=o t=i2 form=one").q("nofaults").look()
            c.q(p).read("x0", 1).q("nofaults").look().q(p).read("x0", 2).q("nofaults").look()
        for k in range(1, 6):
            c.q("faults w=%d wn=-1 e=28" % k).q("fsave p=p d=v en=B form=free").q("nofaults").look()
            c.q("faults r=%d rn=-1 e=5" % k).q("fload p=a.npy t=i2 form=free dg=1").q("nofaults").look()
            c.q("faults r=%d rn=-1 e=5" % k).ropen("x", "b").q("nofaults").look()
        cases.append(c)
    return cases


def C30(ctx):
    rng = ctx.rng
    programs = ctx.background(ctx.model, "FrameMC", ctx.n("FrameMC.cfg", "FrameMCBig.cfg"), what="all programs of saves, loads, writes, reads and updates: what is changed for a while is restored")
    for cfg, w in (("Return", "without restoring before a return"), ("Throw", "without restoring before a throw"), ("Shallow", "with copies which share their elements")):
        ctx.background(ctx.model, "FrameMC", "FrameMC%s.cfg" % cfg, expect_violation=True, what=w)
    ctx.validate("FrameTrace", each_call(ctx, rng), cpu=60, jvms=2)
    ctx.validate("FrameTrace", program_cases(ctx, rng, programs, 25), cpu=60, jvms=4)
