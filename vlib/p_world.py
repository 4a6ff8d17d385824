"""C28, C29: what calls leave behind (spec/World.tla)."""
import io, zipfile
from .npygen import *
from .npzgen import nb
from .p_npy import bad_headers


def only(*ks):
    return lambda r: {k: r[k] for k in ks if k in r}


class WC(Case):
    """cases for spec/World.tla: every command has its footprint"""

    def look(self):
        return self.add("world", {"op": "look"})

    def base(self):
        return self.add("world base=1", {"op": "base"})

    def q(self, line):
        return self.add(line, {"op": "quiet", "res": only("r")})

    def wr(self, p, line):
        return self.add(line, {"op": "writes", "p": p, "res": only("r")})

    def wopen(self, w, p, m=0, form="str", can=1, en="L"):
        if not p:
            return self.add("wopen w=%s kind=s m=%d en=%s" % (w, m, en), {"op": "opened", "w": w, "p": "", "writes": 1, "can": 1})
        return self.add("wopen w=%s kind=f p=%s form=%s m=%d en=%s" % (w, p, form, m, en), {"op": "opened", "w": w, "p": p, "writes": 1, "can": can})

    def wwrite(self, w, name, d):
        return self.q("wwrite w=%s name=%s d=%s" % (w, nb(name).hex(), d))

    def wclose(self, w):
        return self.add("wclose w=%s" % w, {"op": "closed", "w": w})

    def wdel(self, w):
        return self.add("wdel w=%s%s" % (w, an_end()), {"op": "gone", "w": w})

    def ropen(self, x, p, form="str"):
        return self.add("ropen x=%s kind=f p=%s form=%s" % (x, p, form), {"op": "opened", "w": x, "p": p, "writes": 0, "can": 1})

    def ropenb(self, x, b, form="copy"):
        return self.add("ropen x=%s kind=s b=%s form=%s" % (x, b, form), {"op": "opened", "w": x, "p": "", "writes": 0, "can": 1})

    def rclose(self, x):
        return self.add("rclose x=%s" % x, {"op": "closed", "w": x})

    def rdel(self, x):
        return self.add("rdel x=%s" % x, {"op": "gone", "w": x})

    def rmove(self, x, y):
        return self.add("rmove x=%s y=%s" % (x, y), {"op": "moved", "x": x, "y": y})

    def isopen(self, k, w):
        return self.add("%sisopen %s=%s" % (k, "w" if k == "w" else "x", w), {"op": "isopen", "w": w})

    def array(self, d, a):
        return self.q(amake_line(d, a))

    def again(self, n=8):
        return self.add("again n=%d" % n, {"op": "again", "res": only("r", "grow", "fds")})


def archive(rng, arrs, how=(0, 8)):
    o = io.BytesIO()
    with zipfile.ZipFile(o, "w") as z:
        for i, a in enumerate(arrs):
            z.writestr(zipfile.ZipInfo("e%d.npy" % i), py_image(a, "L"), how[i % len(how)])
    return o.getvalue()


def hit(b, at, x=0xff):
    return b[:at] + bytes([b[at] ^ x]) + b[at + 1:]


def material(rng):
    """arrays s (i2), u (strings), l (large), a user tensor c which throws; archives: good, damaged, none"""
    s, u = rand_arr(rng, "i2", [3]), rand_arr(rng, "U", [2, 2])
    g = archive(rng, [s, u, rand_arr(rng, "i2", [300]), rand_arr(rng, "f8", [2])], (0, 8, 8, 0))
    d = g
    for i in range(4):
        at = d.index(b"PK\3\4") if i == 0 else d.index(b"PK\3\4", at + 4)
        if i != 3:
            d = hit(d, at + 30 + 6 + (130, 40, 90)[i])
    return s, u, g, d


def prepare(c, rng, full=True):
    s, u, g, d = material(rng)
    c.array("s", s).array("u", u)
    c.q("amake d=l t=u1 f=0 sh=20000 fill=rand:3")
    c.q("cnew d=c sh=2 code=%s f=0 pay=0102030405060708 throw=3%s" % (b"<i4".hex(), an_exc()))
    if full:
        for p, x in (("g", g), ("d", d), ("j", b"PK\5\6" + bytes(30)), ("a.npy", py_image(s, "L"))):
            c.wr(p, "fwrite p=%s hex=%s" % (p, x.hex()))
    return c


NAMES = ("e0", "e1.npy", "e2", "e3", "nil")
TYPES = ("i2", "U", "i2", "f8", "i2")


def ask(c, x, some=range(5), rng=None):
    for i in some:
        n = NAMES[i].encode().hex()
        c.q("rread x=%s name=%s t=%s form=one dg=1" % (x, n, TYPES[i]))
        c.q("rpeek x=%s name=%s" % (x, n))
    c.q("rhas x=%s name=%s" % (x, NAMES[0].encode().hex()))
    c.q("rread x=%s name=%s t=b1 form=one dg=1" % (x, NAMES[0].encode().hex()))
    return c


def run_program(c, h, rng, k):
    """a program of WorldMC"""
    have = set()
    forms = ("str", "cstr", "path")
    for i, op in enumerate(h):
        o = op.split(" ")
        if o[0] == "save":
            c.wr("p", "fsave p=p d=%s en=%s form=free" % ("su"[i % 2], "LB"[k % 2]))
        elif o[0] == "savex":
            c.wr("p", "cfsave p=p d=c en=D")
        elif o[0] == "load":
            c.q(("fload p=%s t=%s form=free dg=1" % (o[1], ("i2", "U")[k % 2])) if k % 3 else "fpeek p=%s" % o[1])
        elif o[0] == "wopen":
            c.wopen("w", "p", (0, 8)[k % 2], forms[(i + k) % 3])
            have.add("w")
        elif o[0] == "wwrite":
            c.wwrite("w", "e%d" % i, "sul"[(i + k) % 3])
            if k % 5 == 0:
                c.q("cwrite w=w name=%s d=c" % b"t".hex())
        elif o[0] == "wclose":
            c.wclose("w")
        elif o[0] == "wdel":
            c.wdel("w")
            have.discard("w")
        elif o[0] == "ropen":
            c.ropen("x", o[1], forms[(i + k) % 3])
            # (whether there is a reader after opening what the program wrote depends on that)
        elif o[0] == "rread":
            ask(c, "x", (i % 5, (k + 1) % 5))
        elif o[0] == "rclose":
            c.rclose("x")
        elif o[0] == "rmove":
            c.rmove("x", "y")
        elif o[0] == "rdel":
            c.rdel(o[1])
        c.look()
    for w in ("w",):
        c.wdel(w)
    c.rdel("x").rdel("y").look().wr("p", "fdel p=p").look()
    return c


def opened_after(h):
    """programs whose reader surely exists when it is asked: what 'ropen p' gives depends on the file"""
    x = y = False
    for op in h:
        o = op.split(" ")
        if o[0] == "ropen":
            if o[1] in "gd":
                x = True
            elif not x and o[1] == "p":
                x = None    # perhaps
        elif op in ("rread", "rclose", "rmove"):
            if x is not True:
                return False
            if op == "rmove":
                x, y = False, True
        elif op == "rdel x":
            x = False
    return True


def mortal_cases(rng, n):
    """files and a directory which may only be read"""
    out = []
    for k in range(n):
        c = WC("mortal-%d" % k)
        prepare(c, rng)
        for p in ("g", "d", "j", "a.npy"):
            c.q("chmod p=%s mode=444" % p)
        c.base().q("chmod p= mode=555").q("mortal").look()
        for f in ("str", "cstr", "path"):
            for p in ("g", "d", "j"):
                c.ropen("x" + p, p, f).look()
                if p != "j":
                    ask(c, "x" + p, rng.sample(range(5), 3))
                    c.isopen("r", "x" + p)
                    if p == "g":    # what can only be read can be read
                        c.add("rread x=xg name=%s t=i2 form=one dg=1" % b"e0".hex(), {"op": "must"})
                        c.add("rhas x=xg name=%s" % b"e1".hex(), {"op": "must"})
                    c.rclose("x" + p).look()
            c.add("fload p=a.npy t=i2 form=%s dg=1" % ("free" if f == "str" else "tmpl"), {"op": "must"}).look()
            c.add("fpeek p=a.npy", {"op": "must"}).look()
        c.wopen("w", "new", 0, "str", 0).wwrite("w", "a", "s").wclose("w").wdel("w").look()
        c.q("fsave p=new d=s en=L form=free").look()
        c.q("chmod p= mode=755").look()
        out.append(c)
    return out


def frame_cases(ctx, rng):
    """C29: what changes and what does not, call by call"""
    cases = []
    for k in range(ctx.n(12, 60)):
        c = prepare(WC("frame-%d" % k), rng)
        c.base()
        # streams and memory: no file at all
        img = py_image(rand_arr(rng, "i2", [4]), "LB"[k % 2])
        for x in (img, img[:-1], hit(img, 3), hit(img, 9), img[:20], b""):
            c.q("snew s=s").q("sset s=s hex=%s" % x.hex()).q("sload s=s t=i2 form=one").q("sset s=s hex=%s" % x.hex()).q("speek s=s").look()
        c.q("snew s=s").q("ssave s=s d=u en=B form=free").look()
        c.wopen("m", "", (0, 8)[k % 2]).wwrite("m", "a", "s").wwrite("m", "b", "l").q("wstr w=m b=B").wclose("m").q("wstr w=m b=B").look()
        c.ropenb("r", "B", ("copy", "move")[k % 2]).look()
        ask(c, "r").look().rdel("r").wdel("m").look()
        # files which are there and not, loaded in every form
        for p in ("a.npy", "g", "j", "none", "no/such", "cwd"):
            for f in ("free", "tmpl", "member"):
                c.q("fload p=%s t=%s form=%s dg=1" % (p, rng.choice(["i2", "U", "f8"]), f)).look()
            c.q("fpeek p=%s" % p).look()
        # names like names of other files
        for p in ("p", "p.npy", "p.npz", "P", "p.tmp", "p~", ".p", "cwd/p", "g.npz", "a.npy.npy"):
            for f in ("free", "tmpl", "member"):
                c.wr(p, "fsave p=%s d=%s en=L form=%s" % (p, rng.choice("sul"), f))
            c.look()
            c.q("fload p=%s t=i2 form=free dg=1" % p).look()
            if k % 2:
                c.wopen("w", p, (0, 8)[k % 4 // 2], ("str", "cstr", "path")[k % 3]).look().wwrite("w", "e0", "u").look().wwrite("w", "e1", "l").look()
                c.isopen("w", "w").wclose("w").look().isopen("w", "w").wwrite("w", "late", "s").look().wclose("w").look().wdel("w").look()
                c.ropen("x", p).look()
                ask(c, "x").look().isopen("r", "x").rmove("x", "y").look().rclose("y").look().isopen("r", "y").rdel("y").look()
        for p in ("no/such", "cwd"):
            c.q("fsave p=%s d=s en=L form=free" % p).look()
            c.wopen("w", p, 0, "str", 0).look().wwrite("w", "e0", "u").wclose("w").look().wdel("w").look()
        # two writers, two readers and single arrays in turns
        for r in range(ctx.n(2, 6)):
            names = {"w1": "q1", "w2": "q2"}
            for w, p in names.items():
                c.wopen(w, p, rng.choice([0, 8]))
            for w, p in list(names.items()) * 2:
                c.wwrite(w, "e0", rng.choice("sul")).look()
            c.ropen("x1", "g").ropen("x2", "d").look()
            for i in range(6):
                z = rng.randrange(5)
                if z == 0:
                    ask(c, rng.choice(["x1", "x2"]), [rng.randrange(5)])
                elif z == 1:
                    c.wwrite(rng.choice(["w1", "w2"]), "e%d" % i, rng.choice("sul"))
                elif z == 2:
                    c.wr("p", "fsave p=p d=s en=L form=free")
                elif z == 3:
                    c.q("fload p=a.npy t=i2 form=free dg=1")
                else:
                    c.rclose(rng.choice(["x1", "x2"]))
                c.look()
            for w in names:
                if rng.random() < .5:
                    c.wclose(w).look()
                c.wdel(w).look()
            c.rdel("x1").look().rdel("x2").look()
        cases.append(c)
    return cases + mortal_cases(rng, ctx.n(3, 12))


def program_cases(ctx, rng, programs, per, again):
    progs = sorted({tuple(p["h"]) for p in programs()})
    progs = [h for h in progs if opened_after(h)]
    ctx.cov["user programs"] = len(progs)
    todo = progs if len(progs) <= ctx.n(1500, 25000) else rng.sample(progs, ctx.n(1500, 25000))
    cases = []
    for i in range(0, len(todo), per):
        c = prepare(WC("prog-%d" % i), rng)
        c.base()
        for k, h in enumerate(todo[i:i + per]):
            run_program(c, h, rng, i + k)
        if again:
            c.again(6)
        cases.append(c)
    return cases


def C29(ctx):
    rng = ctx.rng
    programs = ctx.background(ctx.model, "WorldMC", ctx.n("WorldMC.cfg", "WorldMCBig.cfg"), what="all programs of a writer, a reader and single arrays: the footprint of World")
    ctx.background(ctx.model, "WorldMC", "WorldMCReadWrite.cfg", expect_violation=True, what="with readers which open files for writing")
    ctx.validate("WorldTrace", frame_cases(ctx, rng), jvms=2)
    ctx.validate("WorldTrace", program_cases(ctx, rng, programs, 25, False), jvms=4)


# ---------------------------------------------------------------- C28
def refused_cases(ctx, rng):
    """everything that is refused, and everything that is not, again and again"""
    cases = []
    hs = bad_headers(rng)
    rng.shuffle(hs)
    for i in range(0, len(hs), 60):
        c = WC("headers-%d" % i)
        c.base()
        for h in hs[i:i + 60]:
            img = wrap(h.encode("latin1"), 1 + len(h) % 2) + bytes(8)
            c.q("snew s=s").q("sset s=s hex=%s" % img.hex()).q("sload s=s t=%s form=one" % rng.choice(["i2", "U"]))
            if len(h) % 3 == 0:
                c.wr("h", "fwrite p=h hex=%s" % img.hex()).q("fload p=h t=i2 form=free dg=1").q("fpeek p=h")
        cases.append(c.look().again())
    for t in ("i2", "U", "c16", "b1"):
        c = WC("cut-%s" % t)
        c.base()
        img = py_image(rand_arr(rng, t, [5]), "LB"[t == "U"])
        for i in range(0, len(img) + 1, 3):
            c.q("snew s=s").q("sset s=s hex=%s" % img[:i].hex()).q("sload s=s t=%s form=one" % t)
            c.wr("h", "fwrite p=h hex=%s" % img[:i].hex()).q("fload p=h t=%s form=free dg=1" % t).look()
        cases.append(c.again())
    # archives: cut short and damaged everywhere
    s, u, g, d = material(rng)
    sp = [("cut", [g[:i] for i in range(0, len(g), ctx.n(7, 1))])]
    sp.append(("hit", [hit(g, i, x) for i in range(0, len(g), ctx.n(3, 1)) for x in ((0xff, 1)[i % 2],)]))
    for name, xs in sp:
        for i in range(0, len(xs), 40):
            c = WC("%s-%d" % (name, i))
            c.base()
            for k, b in enumerate(xs[i:i + 40]):
                c.q("bset b=z hex=%s" % b.hex())
                c.wr("z", "probe b=z names=%s tys=%s%s" % (",".join(nb(n).hex() for n in NAMES), ",".join(TYPES), " kind=f p=z" if k % 2 else ""))
            cases.append(c.look().again())
    return cases


def good_and_bad(ctx, rng):
    cases = []
    for k in range(ctx.n(8, 40)):
        c = prepare(WC("mix-%d" % k), rng)
        c.base()
        for f in ("free", "tmpl", "member"):
            c.wr("p", "fsave p=p d=%s en=%s form=%s" % (rng.choice("sul"), rng.choice("LB"), f)).look()
            for p in ("p", "a.npy", "j", "none"):
                c.q("fload p=%s t=%s form=%s dg=1" % (p, rng.choice(["i2", "U", "u1"]), f)).look()
        c.wr("p", "cfsave p=p d=c en=D").look()
        for m in (0, 8):
            for kind in ("p", ""):
                c.wopen("w", kind, m).wwrite("w", "a", "s").wwrite("w", "b", "l").q("cwrite w=w name=%s d=c" % b"t".hex()).wwrite("w", "n" * 70000, "s").look()
                if rng.random() < .7:
                    c.wclose("w").look().wwrite("w", "late", "s")
                c.wdel("w").look()
        for p in ("g", "d", "j", "none", "p"):
            c.ropen("x", p, rng.choice(["str", "cstr", "path"])).look()
            if p in "gd":
                ask(c, "x").look()
                c.q("cread x=x name=%s take=4" % b"e0".hex()).q("cread x=x name=%s take=2 throw=1%s" % (b"e0".hex(), an_exc())).look()
                ask(c, "x", (1, 2)).look()
                if rng.random() < .5:
                    c.rclose("x").look()
                    ask(c, "x", (0, 1)).look()
                if rng.random() < .5:
                    c.rmove("x", "y").look().rdel("y").look()
            c.rdel("x").look()
        for p in ("g", "d"):
            c.q("bload b=z p=%s" % p).ropenb("x", "z", rng.choice(["copy", "move"])).look()
            ask(c, "x").look().rdel("x").look()
        cases.append(c.again(8 if k % 2 else 20))
    return cases


def failing_cases(ctx, rng):
    """disks which refuse, reads which fail, memory which runs out"""
    cases = []
    big = rng.choice([9000, 20000])
    for w, m in ((w, m) for w in range(1, ctx.n(5, 12)) for m in (0, 8)):
        c = prepare(WC("disk-%d-%d" % (w, m)), rng)
        c.base()
        for wn, e in ((1, 28), (-1, 5)):
            plan = "faults w=%d wn=%d e=%d" % (w, wn, e)
            c.q(plan).wr("p", "fsave p=p d=l en=L form=free").q("nofaults").look()
            c.q(plan).wopen("w", "p", m).wwrite("w", "a", "l").wwrite("w", "b", "s").wclose("w").q("nofaults").look().isopen("w", "w").wdel("w").look()
            c.q(plan).wopen("w", "p", m).wwrite("w", "a", "l").wdel("w").q("nofaults").look()
        c.q("faults close=1").wr("p", "fsave p=p d=l en=L form=free").q("nofaults").look()
        c.q("faults close=1").wopen("w", "p", m).wwrite("w", "a", "l").wclose("w").q("nofaults").look().wdel("w").look()
        cases.append(c.again())
    for r in range(1, ctx.n(6, 14)):
        c = prepare(WC("reads-%d" % r), rng)
        c.base()
        for rn in (1, -1):
            plan = "faults r=%d rn=%d e=5 short=%d" % (r, rn, (0, 40, 7)[r % 3])
            for p in ("a.npy", "g"):
                c.q(plan).q("fload p=%s t=i2 form=free dg=1" % p).q("nofaults").look()
            c.ropen("x", "g").q(plan)
            ask(c, "x", (0, 1, 2)).q("nofaults").look().rdel("x").look()
            c.ropen("x", "d").q(plan).ropen("x", "g").q("nofaults").look().rdel("x").look()
        cases.append(c.again())
    # no descriptors at all
    c = prepare(WC("nofiles"), rng)
    c.base().q("maxfiles n=0")
    c.q("fload p=a.npy t=i2 form=free dg=1").q("fpeek p=a.npy").q("fsave p=p d=s en=L form=free").look()
    c.wopen("w", "p", 0, "str", 0).wwrite("w", "a", "s").wclose("w").wdel("w").look()
    c.add("ropen x=x kind=f p=g form=str", {"op": "opened", "w": "x", "p": "g", "writes": 0, "can": 0}).rdel("x").look()
    cases.append(c.q("maxfiles n=-").again())
    # requests for memory refused: one after another
    step = ctx.n(12, 4)
    for k0 in range(1, ctx.n(70, 160), step):
        for mn in (1, -1):
            c = prepare(WC("mem-%d-%d" % (k0, mn)), rng)
            c.q("bload b=zg p=g").q("bload b=zd p=d")
            c.base()
            for k in range(k0, k0 + step):
                p = "faults m=%d mn=%d" % (k, mn)
                c.q(p).wr("p", "fsave p=p d=u en=B form=free").q("nofaults")
                c.q(p).q("fload p=a.npy t=i2 form=free dg=1").q("nofaults")
                c.wopen("w", "p", (0, 8)[k % 2]).q(p).wwrite("w", "a", "u").q("nofaults").q(p).wclose("w").q("nofaults").look().wdel("w").look()
                c.wopen("w", "", 8).q(p).wwrite("w", "a", "s").q("nofaults").q(p).wclose("w").q("nofaults").wdel("w")
                c.ropen("x", "g")
                for e in (0, 1, 2):
                    c.q(p).q("rread x=x name=%s t=%s form=one dg=1" % (NAMES[e].encode().hex(), TYPES[e])).q("nofaults")
                c.rdel("x").look()
                c.ropenb("x", "zd").q(p).q("rread x=x name=%s t=i2 form=one dg=1" % b"e2".hex()).q("nofaults").rdel("x")
                c.q(p).add("ropen x=x kind=f p=g form=path", {"op": "opened", "w": "x", "p": "g", "writes": 0, "can": 1}).q("nofaults").look().rdel("x").look()
            cases.append(c.again())
    return cases


def C28(ctx):
    rng = ctx.rng
    programs = ctx.background(ctx.model, "WorldMC", ctx.n("WorldMC.cfg", "WorldMCBig.cfg"), what="all programs of a writer, a reader and single arrays: what is taken is given back")
    for cfg, w in (("Refused", "the file stays open when its directory is refused"), ("Thrown", "a load or save which throws leaves its file open"),
                   ("Close", "closing keeps the file"), ("Destroy", "destroying keeps it")):
        ctx.background(ctx.model, "WorldMC", "WorldMC%s.cfg" % cfg, expect_violation=True, what=w)
    env = {"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"}
    ctx.validate("WorldTrace", refused_cases(ctx, rng) + good_and_bad(ctx, rng), env=env, cpu=60, jvms=2)
    ctx.validate("WorldTrace", failing_cases(ctx, rng), env=env, cpu=120, jvms=2)
    ctx.validate("WorldTrace", program_cases(ctx, rng, programs, 25, True), env=env, cpu=60, jvms=4)
