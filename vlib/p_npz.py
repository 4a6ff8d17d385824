"""Checks over spec/Npz.tla: C10, C12, C13, C14."""
from .core import Infra
from .npygen import *
from .npzgen import ZC

A1 = {"t": "u1", "f": 0, "sh": [2], "el": ["07", "1a"]}
A2 = {"t": "i2", "f": 1, "sh": [], "el": ["0102"]}
QNAMES = ["a", "a.npy", "a.npy.npy", "", "x"]


def ask_all(c, x, names=QNAMES, ts=("u1", "i2")):
    c.rkeys(x)
    for i, n in enumerate(names):
        c.rhas(x, n).rpeek(x, n)
        for t in ts:
            c.rread(x, n, t, ["one", "two"][i % 2])


def model_programs(ctx, cfg, phase, every=1, what=""):
    progs = ctx.model("NpzMC", cfg, what=what)
    if not progs:
        raise Infra("the model printed no programs")
    progs.sort(key=lambda g: str(g))
    out = []
    for i, g in enumerate(progs):
        if (i + ctx.seed) % every:
            continue
        c = ZC("model-%s-%d" % (phase, i))
        c.make("a1", A1).make("a2", A2).cthrow("bad")
        if phase == "read":
            c.wopen("v", "s", "", 0, "B")
            if g["id"] == 1:
                c.wwrite("v", "a", "a1").wwrite("v", "", "a2").wwrite("v", "b", "a2")
            else:
                c.wwrite("v", "a.npy", "a1").wwrite("v", "a", "a2").wwrite("v", "a.npy.npy", "a1")
            c.wclose("v").wstr("v", "b").wdel("v")
            if g["id"] == 1:
                c.bdamage("b", "b", "b.npy")
            c.bsave("b", "p")
        has_w = kind = reader = False
        for o in g["prog"]:
            op = o["op"]
            if op == "wopen":
                c.wopen("w", o["kind"], "p", o["m"], "L")
                has_w, kind = True, o["kind"]
            elif op == "wwrite":
                c.wwrite("w", bytes(o["name"]), o["d"])
            elif op == "wthrow":
                c.wthrow("w", "a", "bad")
            elif op == "wstr":
                c.wstr("w", "b")
            elif op == "wclose":
                c.wclose("w")
            elif op == "wdel":
                c.wdel("w")
                has_w = False
            elif op == "ropenb":
                c.ropenb("r", "b")
                reader = True
            elif op == "ropenf":
                c.ropenf("r", "p")
                reader = True
            elif op == "rread":
                c.rread("r", bytes(o["name"]), o["t"])
            elif op == "rpeek":
                c.rpeek("r", bytes(o["name"]))
            elif op == "rhas":
                c.rhas("r", bytes(o["name"]))
            elif op == "rkeys":
                c.rkeys("r")
            elif op == "rclose":
                c.rclose("r")
            else:
                raise Infra("unknown operation of the model: " + op)
        # finish the writer and look at everything there is
        if phase == "write":
            if has_w:
                if kind == "s":
                    c.wstr("w", "z").ropenb("q0", "z").wclose("w").wstr("w", "z").ropenb("q", "z")
                    ask_ok(c, g, "q")
                else:
                    c.ropenf("q0", "p").wdel("w").ropenf("q", "p")
                    ask_ok(c, g, "q")
        out.append(c)
    return out


def ask_ok(c, g, x):
    # the reader exists in every behaviour the specification allows
    ask_all(c, x, ["a", "a.npy", "x"])


def archive(rng, c, k=None, t=None, names=None):
    """arrays a0.. with names; returns [(name, type, slot)]"""
    k = rng.choice([0, 1, 1, 2, 3, 5, 8]) if k is None else k
    out = []
    for i in range(k):
        a = rand_arr(rng, t, rng.choice(SHAPES + [[30], [4, 25]]))
        c.make("a%d" % i, a)
        n = names[i] if names else rng.choice(["v%d", "name with space %d", "d/e%d", "%d", "\u00e9\u4e2d%d", "x%d.npz", "y.npy%d"]) % i
        out.append((n, a["t"], "a%d" % i))
    return out


def bulk_cases(ctx, sizes):
    cases = []
    i = 0
    for n in sizes:
        for m in (0, 8):
            for fill in (["rand", "mix"] if ctx.quick else ["rand", "mix", "ramp", "zero", "rep"]):
                t = ["u1", "i2", "f8", "c16", "b1", "U"][i % 6]
                c = ZC("bulk-%d-%d-%s" % (n, m, fill))
                c.fill("a", t, i % 2, [n], "%s:%d" % (fill, i)).fill("b", "u1", 0, [3], "ramp:1")
                kind = "sf"[(i // 2) % 2]
                c.wopen("w", kind, "z", m, "LB"[i % 2]).wwrite("w", "b", "b").wwrite("w", "a", "a").wwrite("w", "c", "b").wclose("w")
                if kind == "s":
                    c.wstr("w", "m").ropenb("r", "m")
                else:
                    c.ropenf("r", "z")
                c.rkeys("r").rread("r", "c", "u1").rread("r", "a", t).rread("r", "b", "u1").rpeek("r", "a").rread("r", "a", t, "two")
                cases.append(c)
                i += 1
    return cases


# ------------------------------------------------------------------------ C10

def C10(ctx):
    rng = ctx.rng
    mc = ctx.background(model_programs, ctx, "NpzMC.cfg", "write", ctx.n(9, 1), "all writer programs")
    cases = []
    for i in range(ctx.n(350, 6000)):
        c = ZC("rnd-%d" % i)
        es = archive(rng, c)
        kind = rng.choice("sf")
        if rng.random() < 0.1:
            c.wopen("w", kind, "z.npz", None, "D")
        else:
            c.wopen("w", kind, "z.npz", rng.choice([0, 8]), rng.choice(ENS), rng.choice(["str", "cstr", "path"]))
        for n, t, d in es:
            c.wwrite("w", n, d, rng.randrange(2))
        extra = []
        if es and rng.random() < 0.3:     # a name written again: the last one counts
            n, t, d = rng.choice(es)
            n2, t2, d2 = rng.choice(es)
            c.wwrite("w", n + rng.choice(["", ".npy"]) if not n.endswith(".npy") else n, d2)
            extra = [(n, t2)]
        if kind == "s":
            c.wclose("w").wstr("w", "b").ropenb("r", "b", rng.choice(["copy", "move"]))
        else:
            c.add("nop") if False else (c.wclose("w") if rng.random() < 0.5 else c.wdel("w"))
            c.ropenf("r", "z.npz", rng.choice(["str", "cstr", "path"]))
        c.rkeys("r")
        order = es[:]
        rng.shuffle(order)
        for n, t, d in order:
            q = dict((a, b) for a, b in extra).get(n, t)
            c.rread("r", n, q, rng.choice(["one", "two"]), "back")
            if rng.random() < 0.2:
                c.fsave("y", "back").fload("y", q)
        c.rhas("r", "no such name").rread("r", "no such name", "i4")
        cases.append(c)
    # archives which look alike, one after another at one place or side by side: each is read as it is
    for i in range(ctx.n(24, 200)):
        c = ZC("alike-%d" % i)
        t, sh, m, kind = rng.choice(TYPES[:-1]), rng.choice([[2], [3, 1], [4, 25]]), 8 * (i % 2), "sfff"[i % 4]
        for k in range(4):
            names = rng.choice([["x", "y"], ["x", "z"], ["y", "x"], ["x"], ["y"]])
            c.make("a", rand_arr(rng, t, sh)).make("b", rand_arr(rng, t, sh))
            p = "one.npz" if i % 3 else "n%d.npz" % k
            c.wopen("w%d" % k, kind, p, m, "L")
            for j, n in enumerate(names):
                c.wwrite("w%d" % k, n, "ab"[j])
            c.wclose("w%d" % k)
            if kind == "s":
                c.wstr("w%d" % k, "b%d" % k).ropenb("r%d" % k, "b%d" % k)
            else:
                c.ropenf("r%d" % k, p, ["str", "cstr", "path"][k % 3])
            for x in (k, k, rng.randrange(k + 1) if i % 3 == 0 or kind == "s" else k):
                for n in ("x", "y", "z"):
                    c.rhas("r%d" % x, n).rpeek("r%d" % x, n).rread("r%d" % x, n, t)
                c.rkeys("r%d" % x)
            if i % 3:
                c.rclose("r%d" % k) if kind != "s" else None
        cases.append(c)
    # every type with every option
    i = 0
    for t in TYPES:
        for m in (0, 8):
            for en in ENS:
                for f in (0, 1):
                    c = ZC("all-%s-%d-%s-%d" % (t, m, en, f))
                    c.make("a0", rand_arr(rng, t, SHAPES[i % len(SHAPES)], f)).make("a1", rand_arr(rng, t, [2, 2], f))
                    kind = "sf"[i % 2]
                    c.wopen("w", kind, "z", m, en).wwrite("w", "p", "a0").wwrite("w", "q", "a1").wclose("w")
                    if kind == "s":
                        c.wstr("w", "b").ropenb("r", "b")
                    else:
                        c.ropenf("r", "z")
                    c.rkeys("r").rread("r", "q", t).rread("r", "p", t).rpeek("r", "p")
                    cases.append(c)
                    i += 1
    # over a file which exists already, longer or shorter
    for i in range(ctx.n(24, 120)):
        c = ZC("over-%d" % i)
        c.make("a0", rand_arr(rng, "i4", [2])).make("a1", rand_arr(rng, "f8", [[90], [1]][i % 2])).make("a2", rand_arr(rng, "u1", [3]))
        if i % 4 == 3:
            c.bjunk("j", bytes(rng.randrange(256) for _ in range(rng.choice([1, 30, 5000])))).bsave("j", "z.npz")
        else:
            c.wopen("w", "f", "z.npz", 8 * (i % 3 == 0), "D", rng.choice(["str", "cstr", "path"])).wwrite("w", "long", "a1").wwrite("w", "b", "a0").wwrite("w", "c", "a1").wclose("w").wdel("w")
        if i % 3:
            c.wopen("w", "f", "z.npz", rng.choice([0, 8]), "D", ["str", "cstr", "path"][i % 3])
        else:
            c.wopen("w", "f", "z.npz", None, "D")
        c.wwrite("w", "p", "a2")
        if i % 2:
            c.wwrite("w", "q", "a0")
        (c.wclose("w") if i % 5 else c.wdel("w")).ropenf("r", "z.npz", ["str", "cstr", "path"][(i // 3) % 3]).rkeys("r").rread("r", "p", "u1").rread("r", "q", "i4").rhas("r", "long")
        c.bload("k", "z.npz").ropenb("r2", "k").rkeys("r2").rread("r2", "p", "u1")
        cases.append(c)
    # many entries
    for k in ctx.n([60, 300], [60, 255, 256, 300, 1000, 3000]):
        c = ZC("many-%d" % k)
        c.make("a", rand_arr(rng, "i4", [2])).make("b", rand_arr(rng, "u1", [5]))
        c.wopen("w", "s", "", 8 * (k % 2))
        for j in range(k):
            c.wwrite("w", "e%d" % j, "ab"[j % 2])
        c.wclose("w").wstr("w", "m").ropenb("r", "m").rkeys("r")
        for j in rng.sample(range(k), 20):
            c.rread("r", "e%d" % j, ["i4", "u1"][j % 2])
        cases.append(c)
    ctx.validate("NpzTrace", cases)
    ctx.validate("NpzTrace", bulk_cases(ctx, ctx.n([1000, 65536, 200000], [1000, 16384, 65535, 65536, 131072, 1048576, 1500001])), sample=0, as_mb=6000)
    big = []
    for i, (n, how) in enumerate([(131073, "zero:1"), (400000, "zero:2"), (3 << 20, "low:3"), (5 << 20, "mix:4")]):
        c = ZC("big-%d" % i)
        c.fill("a", "u1", 0, [n], how).fill("b", "u1", 0, [5], "ramp:1").wopen("w", "sf"[i % 2], "z", 8).wwrite("w", "a", "a").wwrite("w", "b", "b")
        c.wclose("w")
        if i % 2:
            c.ropenf("r", "z")
        else:
            c.wstr("w", "m").ropenb("r", "m")
        c.rread("r", "a", "u1").rread("r", "b", "u1")
        big.append(c)
    ctx.validate("NpzTrace", big, sample=0, as_mb=6000)
    ctx.validate("NpzTrace", mc(), sample=0)


# ------------------------------------------------------------------------ C12

NAMES = ["a", "a.npy", "a.npy.npy", "", ".npy", ".npy.npy", "npy", "x.NPY", "b.npyx", "b.np", "b.npy ", "a.npz", "A", "aa", "a/b", "a/b.npy", "\u00e9", "\u4e2d\u6587.npy",
         "\0", "a\0", "a\0b", "\0.npy", ".", "..", "a.", "a..npy", "npy.a", "anpy", "n.npy/x", "\x01", "a\nb", "z" * 255, "z" * 256, "z" * 251, "z" * 252, "y" * 300 + ".npy"]


def C12(ctx):
    rng = ctx.rng
    mc = ctx.background(model_programs, ctx, ctx.n("NpzMCRead.cfg", "NpzMCReadBig.cfg"), "read", ctx.n(2, 2), "all reader programs")
    cases = []
    # each name alone: what is stored, and what finds it
    for i, n in enumerate(NAMES):
        c = ZC("one-%d" % i)
        c.make("a", rand_arr(rng, "i2", [2])).wopen("w", "sf"[i % 2], "z", 8 * (i % 3 == 0)).wwrite("w", n, "a").wclose("w")
        if i % 2:
            c.ropenf("r", "z")
        else:
            c.wstr("w", "b").ropenb("r", "b")
        c.rkeys("r")
        for q in dict.fromkeys([n, n + ".npy", n + ".npy.npy", n[:-4], n[:-1], n + " ", n.upper(), ""] + rng.sample(NAMES, 4)):
            c.rhas("r", q).rpeek("r", q).rread("r", q, "i2")
        cases.append(c)
    # archives without entries, and with a single one: nothing is found there
    for i in range(8):
        c = ZC("empty-%d" % i)
        c.make("a", rand_arr(rng, "i2", [2])).wopen("w", "sf"[i % 2], "z", 8 * (i // 2 % 2))
        if i >= 4:
            c.wwrite("w", "only", "a")
        c.wclose("w")
        if i % 2:
            c.ropenf("r", "z", ["str", "cstr", "path"][i % 3])
        else:
            c.wstr("w", "b").ropenb("r", "b", ["copy", "move"][i // 2 % 2])
        for q in ["", "a", "a.npy", ".npy", "only", "only.npy", "only.npy.npy", "onl", "onlyy", "nothing"]:
            c.rhas("r", q).rpeek("r", q).rread("r", q, "i2").rread("r", q, "i2", "two")
        c.rkeys("r")
        cases.append(c)
    # all pairs of confusable names
    conf = NAMES[:13]
    for i, n in enumerate(conf):
        for j, m in enumerate(conf):
            if i == j or (ctx.quick and (i + j) % 2):
                continue
            c = ZC("two-%d-%d" % (i, j))
            c.make("a", rand_arr(rng, "i2", [2])).make("b", rand_arr(rng, "u1", [3]))
            c.wopen("w", "s", "", 0).wwrite("w", n, "a").wwrite("w", m, "b").wclose("w").wstr("w", "m").ropenb("r", "m").rkeys("r")
            for q in dict.fromkeys([n, m, n + ".npy", m + ".npy", rng.choice(NAMES)]):
                c.rhas("r", q).rread("r", q, "i2").rread("r", q, "u1").rpeek("r", q)
            cases.append(c)
    # long names which differ only near their ends, written out of order
    for i, k in enumerate([15, 16, 31, 63, 64, 70, 127, 128, 250, 255, 256, 300, 1000, 5000]):
        c = ZC("long-%d" % k)
        c.make("a", rand_arr(rng, "u1", [1])).make("b", rand_arr(rng, "i2", [2]))
        c.wopen("w", "sf"[i % 2], "z", 0)
        base, ends = "q" * (k - 1) + "k", ["c", "a", "b", "", "aa", "B", "b.npy", "d/e", "\u00e9", "zz", "0"]
        rng.shuffle(ends)
        for j, e in enumerate(ends):
            c.wwrite("w", base + e, "ab"[j % 2])
        c.wclose("w")
        if i % 2:
            c.ropenf("r", "z")
        else:
            c.wstr("w", "m").ropenb("r", "m")
        c.rkeys("r")
        for j, e in enumerate(ends + ["c.npy", "nope"]):
            c.rhas("r", base + e).rread("r", base + e, ["u1", "i2"][j % 2])
        cases.append(c)
    # random bytes as names, sorted keys
    for i in range(ctx.n(120, 1500)):
        c = ZC("rnd-%d" % i)
        c.make("a", rand_arr(rng, "u1", [1]))
        kind = rng.choice("sf")
        c.wopen("w", kind, "z", rng.choice([0, 8]))
        ns = []
        for _ in range(rng.randrange(1, 12)):
            k = rng.random()
            if k < 0.4:
                n = bytes(rng.choice([0x20, 0x2e, 0x2f, 0x41, 0x61, 0x7f, 0x80, 0xff, 0x2d, 0x31, 0x0a]) for _ in range(rng.randrange(0, 4)))
            elif k < 0.7:
                n = rng.choice(NAMES[:20]).encode()
            else:
                n = ("k%d" % rng.randrange(30)).encode() + rng.choice([b"", b".npy", b".npy.npy"])
            ns.append(n)
            c.wwrite("w", n, "a")
        c.wclose("w")
        if kind == "s":
            c.wstr("w", "m").ropenb("r", "m")
        else:
            c.ropenf("r", "z")
        c.rkeys("r")
        for _ in range(8):
            n = rng.choice(ns)
            q = rng.choice([n, n + b".npy", n[:-4] if n.endswith(b".npy") else n, n[:-1], n + b"x"])
            c.rhas("r", q)
            c.rpeek("r", q)
            c.rread("r", q, "u1")
        cases.append(c)
    ctx.validate("NpzTrace", cases)
    ctx.validate("NpzTrace", mc(), sample=0)


# ------------------------------------------------------------------------ C13

def C13(ctx):
    rng = ctx.rng
    mc = ctx.background(model_programs, ctx, ctx.n("NpzMC.cfg", "NpzMCBig.cfg"), "write", ctx.n(4, 4), "all writer programs")
    cases = []
    for i in range(ctx.n(250, 4000)):
        c = ZC("rnd-%d" % i)
        for k in range(3):
            c.make("a%d" % k, rand_arr(rng, None, rng.choice(SHAPES + [[50]])))
        c.cthrow("bad", after=rng.choice([0, 1, 3, 8]))
        kind = rng.choice("sf")
        m = rng.choice([0, 8, 8, 9, 1, 14])
        c.wopen("w", kind, "z", m, rng.choice(ENS))
        names, closed = [], False
        for _ in range(rng.randrange(2, 12)):
            k = rng.random()
            if k < 0.5:
                n = "n%d" % rng.randrange(4)
                c.wwrite("w", n, "a%d" % rng.randrange(3))
                names.append(n)
            elif k < 0.62:
                c.wthrow("w", "t", "bad") if m in (0, 8) else c.wwrite("w", "n1", "a0")
            elif k < 0.75 and kind == "s":
                c.wstr("w", "e").ropenb("re", "e")
            elif k < 0.82 and kind == "f":
                c.wisopen("w").ropenf("re", "z")
            elif k < 0.94:
                c.wclose("w")
                closed = True
                if kind == "f" and rng.random() < 0.5:
                    c.ropenf("r", "z").rkeys("r")
        if kind == "s":
            c.wclose("w").wstr("w", "b").wclose("w").wstr("w", "b").ropenb("r", "b")
        else:
            if rng.random() < 0.5:
                c.wclose("w")
                if rng.random() < 0.5:   # the file is the program's now: the writer must not touch it again
                    c.bjunk("j", b"mine").bsave("j", "z").wclose("w").wdel("w").bload("k", "z").bdig("k").bdig("j")
                    cases.append(c)
                    continue
            c.wdel("w").ropenf("r", "z")
        if True:
            c.rkeys("r")
            for n in sorted(set(names)) + ["t"]:
                for t in TYPES[:3]:
                    c.rread("r", n, t)
                c.rpeek("r", n)
        cases.append(c)
    # a name the format cannot hold is refused, and the writer goes on
    for i, n in enumerate([65532, 70000]):
        c = ZC("name-%d" % n)
        c.make("a", rand_arr(rng, "i2", [2])).wopen("w", "s", "", 8 * i).wwrite("w", "x", "a").wwrite("w", "q" * n, "a").wstr("w", "b").wwrite("w", "y", "a")
        c.wclose("w").wstr("w", "b").ropenb("r", "b").rkeys("r").rread("r", "x", "i2").rread("r", "y", "i2")
        cases.append(c)
    ctx.validate("NpzTrace", cases)
    ctx.validate("NpzTrace", mc(), sample=0)


# ------------------------------------------------------------------------ C14

def C14(ctx):
    rng = ctx.rng
    mc = ctx.background(model_programs, ctx, ctx.n("NpzMCRead.cfg", "NpzMCReadBig.cfg"), "read", ctx.n(1, 1), "all reader programs")
    cases = []
    for i in range(ctx.n(300, 5000)):
        c = ZC("rnd-%d" % i)
        m = rng.choice([0, 8])
        es = archive(rng, c, rng.randrange(2, 7))
        c.wopen("w", "s", "", m, rng.choice(ENS))
        for n, t, d in es:
            c.wwrite("w", n, d)
        c.wclose("w").wstr("w", "b").wdel("w")
        if m == 0 and rng.random() < 0.7:
            n = rng.choice(es)[0]
            sn = n if n.endswith(".npy") else n + ".npy"
            c.bdamage("b", "b", sn)
        nr = rng.choice([1, 1, 2])
        kinds = []
        for k in range(nr):
            kd = rng.choice("sf")
            kinds.append(kd)
            if kd == "s":
                c.ropenb("r%d" % k, "b", rng.choice(["copy", "move"]))
            else:
                c.bsave("b", "z%d" % k).ropenf("r%d" % k, "z%d" % k)
        name = ["r%d" % k for k in range(nr)]
        for _ in range(rng.randrange(6, 30)):
            k = rng.randrange(nr)
            x = name[k]
            n, t, d = rng.choice(es)
            if rng.random() < 0.04:   # the reader moves
                if nr == 2 and rng.random() < 0.3 and kinds[0] == kinds[1] and name[0] != name[1]:
                    c.rmove(name[k], name[1 - k])
                    name[k] = name[1 - k]
                else:
                    y = rng.choice([z for z in ("r0", "m", "o") if z not in name])
                    c.rmove(x, y)
                    name = [y if z == x else z for z in name]
                x = name[k]
            q = n if rng.random() < 0.8 else rng.choice([n + ".npy", "missing", "", n + ".npy.npy"])
            z = rng.random()
            if z < 0.45:
                c.rread(x, q, t if rng.random() < 0.75 else rng.choice(TYPES), rng.choice(["one", "two"]))
            elif z < 0.7:
                c.rpeek(x, q)
            elif z < 0.85:
                c.rhas(x, q)
            elif z < 0.93:
                c.rkeys(x)
            elif z < 0.95 and kinds[k] == "f":
                c.rclose(x).risopen(x)
            else:
                c.risopen(x) if kinds[k] == "f" else c.rkeys(x)
        cases.append(c)
    # few entries, or none: closings of the file at any point
    for i in range(ctx.n(60, 400)):
        c = ZC("few-%d" % i)
        k = [1, 0, 1, 2][i % 4]
        c.make("a", rand_arr(rng, "i2", [2])).make("b", rand_arr(rng, "u1", [300])).wopen("w", "f", "z", 8 * (i // 4 % 2))
        for j in range(k):
            c.wwrite("w", "n%d" % j, "ab"[j])
        c.wclose("w").wdel("w").ropenf("r", "z", ["str", "cstr", "path"][i % 3])
        shut = rng.randrange(10)
        for j in range(10):
            if j == shut:
                c.rclose("r").risopen("r")
                if i % 3 == 0:
                    c.rclose("r")
            q = rng.choice(["n0", "n0", "n0.npy", "n1", "", "x"])
            z = rng.randrange(5)
            if z == 0:
                c.rkeys("r")
            elif z == 1:
                c.rhas("r", q)
            elif z == 2:
                c.rpeek("r", q)
            else:
                c.rread("r", q, rng.choice(["i2", "u1"]), rng.choice(["one", "two"]))
        c.rkeys("r").rhas("r", "n0").risopen("r")
        cases.append(c)
    # archives in which one entry cannot be read, damaged at its start, in its data or at its end:
    # all orders of asking for the others before and after it
    for i in range(ctx.n(120, 1500)):
        c = ZC("hurt-%d" % i)
        m = rng.choice([0, 8])
        es = archive(rng, c, rng.randrange(3, 6), None, ["n%d" % j for j in range(6)])
        c.wopen("w", "s", "", m, rng.choice(ENS))
        for n, t, d in es:
            c.wwrite("w", n, d)
        c.wclose("w").wstr("w", "b").wdel("w")
        for n, t, d in rng.sample(es, rng.choice([1, 1, 2])):
            c.bdamage("b", "b", n + ".npy", at=rng.choice(["sig", "sig", "name", "dirfar", "diroff", "dircrc", "dirsize"] + (["data"] if m == 0 else [])))
        x = "r"
        if i % 2:
            c.ropenb(x, "b")
        else:
            c.bsave("b", "z").ropenf(x, "z")
        for rnd in range(2):
            order = es[:] if rng.random() < 0.6 else rng.sample(es, len(es))
            for n, t, d in order:
                z = rng.random()
                if z < 0.7:
                    c.rread(x, n, t, rng.choice(["one", "two"]))
                elif z < 0.9:
                    c.rpeek(x, n)
                else:
                    c.rread(x, n, rng.choice(TYPES))
        cases.append(c)
    ctx.validate("NpzTrace", cases)
    ctx.validate("NpzTrace", mc(), sample=0)
