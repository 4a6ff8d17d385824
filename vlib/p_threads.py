"""C19: separate objects in separate threads (spec/Threads.tla; each thread's own
calls are judged by the sequential specifications)."""
import os, random, subprocess, tempfile
from .core import Case, Infra, run_driver, to_trace
from .npygen import *
from .npzgen import ZC
from .p_custom import UC, rand_custom, CODES
from .p_tensor import TC


class Prog:
    """what one thread does: a case of one of the specifications, the first
    nsetup commands of it before the threads start"""

    def __init__(self, module, case, nsetup=0):
        self.module, self.case, self.nsetup = module, case, nsetup


def p_streams(rng, k, size):
    """save and load on a stream of the thread's own"""
    c = NC("")
    n = size
    ts = []
    for i in range(n):
        a = rand_arr(rng, "U" if rng.random() < .3 else None)
        ts.append(a["t"])
        c.make("a%d" % i, a)
    s = len(c.cmds)
    c.snew("s", "mf"[k % 2])
    for i in range(n):
        c.ssave("s", "a%d" % i, rng.choice(ENS))
    if rng.random() < .5:
        pos = "pipe"
        c.pload("s", ts[0], 0, rng.choice([1, 3, 17]))
    for i in range(n):
        c.sload("s", ts[i] if rng.random() < .9 else rng.choice(TYPES))
        if c.cmds[-1][1]["t"] != ts[i]:
            break
    return Prog("NpyTrace", c, s)


def p_files(rng, k, size):
    c = NC("")
    for i in range(size):
        c.make("a%d" % i, rand_arr(rng))
    s = len(c.cmds)
    for i in range(size):
        t = None
        c.fsave("p%d" % i, "a%d" % i, rng.choice(ENS), rng.choice(SAVE_F)).fpeek("p%d" % i)
        for t in rng.sample(TYPES, 2):
            c.fload("p%d" % i, t)
        c.fread("p%d" % i)
    return Prog("NpyTrace", c, s)


def p_common_npy(rng, k, size, img=None, t=None):
    """one file which all threads read"""
    c = NC("").fwrite("@n.npy", img)
    for i in range(size):
        c.fload("@n.npy", t, "", rng.choice(LOAD_F)).fpeek("@n.npy").fload("@n.npy", rng.choice(TYPES))
    return Prog("NpyTrace", c, 1)


def p_rejects(rng, k, size):
    """inputs which are refused, between ones which are not"""
    c = NC("").snew("s")
    for i in range(size):
        a = rand_arr(rng)
        img = py_image(a, rng.choice("LB"), rng.choice([1, 2]))
        bad = bytearray(img)
        x = rng.randrange(4)
        if x == 0:
            bad = bad[:rng.randrange(len(bad))]
        elif x == 1:
            bad[rng.randrange(min(len(bad), 60))] = rng.randrange(256)
        elif x == 2:
            bad = bad.replace(b"descr", b"derb ")
        c.sset("s", bytes(bad)).sload("s", a["t"]).sset("s", bytes(bad)).speek("s").sset("s", img).sload("s", a["t"])
        c.add("fromdtype code=%s" % rng.choice(["3c6932", "3e6638", "7c7531", "3c78", "", "3e6331", "3c553132", "3c5531"]), None)
    return Prog("NpyTrace", c, 0)


def p_codes(rng, k, size):
    c = NC("")
    codes = ["<i2", ">f8", "|u1", "<c16", ">u4", "|b1", "<q", "", ">i3", "i4", "<f2", "|S3", ">x9", "<i99"]
    for i in range(size):
        code = rng.choice(codes).encode()
        c.add("fromdtype code=%s" % code.hex(), {"op": "fromdtype", "code": list(code)})
        t, en = rng.choice(TYPES[:-1]), rng.choice("LBN")
        c.add("todtype t=%s en=%s" % (t, en), {"op": "todtype", "t": t, "en": en})
    return Prog("NpyTrace", c, 0)


def p_archive(rng, k, size):
    """an archive written and read back, in memory or on disk"""
    c = ZC("")
    kind, m = rng.choice("sf"), rng.choice([0, 8, 8])
    ts = []
    for i in range(size):
        if rng.random() < .25:
            ts.append("i4")
            c.fill("a%d" % i, "i4", rng.randrange(2), [rng.choice([300, 9000, 20000])], rng.choice(["ramp:3", "rand:7", "zero:1"]))
        else:
            a = rand_arr(rng)
            ts.append(a["t"])
            c.make("a%d" % i, a)
    c.cthrow("bad")
    s = len(c.cmds)
    c.wopen("w", kind, "z.npz", m, rng.choice(ENS))
    for i in range(size):
        c.wwrite("w", "e%d" % i, "a%d" % i)
        if rng.random() < .2:
            c.wthrow("w", "e%d" % i, "bad")
        if kind == "s" and rng.random() < .3:
            c.wstr("w", "part").ropenb("q", "part")
    c.wclose("w").wwrite("w", "late", "a0")
    if kind == "s":
        c.wstr("w", "z").bdig("z")
        if rng.random() < .5 and m == 0:
            c.bdamage("z", "y", "e0.npy").ropenb("d", "y").rread("d", "e0", ts[0]).rkeys("d")
        c.ropenb("r", "z")
    else:
        c.bload("z", "z.npz").bdig("z").ropenf("r", "z.npz")
    c.rkeys("r")
    for i in range(size):
        j = rng.randrange(size)
        c.rread("r", "e%d" % j, ts[j]).rpeek("r", "e%d.npy" % j).rhas("r", "f").rread("r", "f", "u1").rread("r", "e%d" % j, rng.choice(TYPES))
    if rng.random() < .3 and kind == "f":
        c.rclose("r").rread("r", "e0", ts[0])
    return Prog("NpzTrace", c, s)


def p_common_npz(rng, k, size, arrs=None):
    """one archive which all threads read, each with a reader of its own"""
    c = ZC("")
    for i, a in enumerate(arrs):
        c.make("a%d" % i, a)
    c.wopen("v", "s", "", 8, "L")
    for i in range(len(arrs)):
        c.wwrite("v", "e%d" % i, "a%d" % i)
    c.wclose("v").wstr("v", "b").wdel("v").bsave("b", "@c.npz")
    s = len(c.cmds)
    c.ropenf("r", "@c.npz").ropenf("q", "@c.npz")
    for i in range(size * 2):
        x, j = rng.choice("rq"), rng.randrange(len(arrs))
        c.rread(x, "e%d" % j, arrs[j]["t"] if rng.random() < .8 else rng.choice(TYPES)).rpeek(x, "e%d" % j)
        if rng.random() < .2:
            c.rread(x, "nothing", "u1")
    return Prog("NpzTrace", c, s)


def p_custom(rng, k, size):
    c = UC("")
    for i in range(size):
        sh, f, code, pay, thr = rand_custom(rng)
        c.cnew("c%d" % i, sh[:9], f, rng.choice(CODES[:17]), pay[:60], min(thr, 5))
    s = len(c.cmds)
    c.snew("s").wopen("w", rng.choice("sf"), 8, rng.choice(ENS))
    for i in range(size):
        c.csave("s", "c%d" % i, rng.choice(ENS)).cwrite("w", "e%d" % i, "c%d" % i)
    c.wclose("w").ropen("r", "w")
    for i in range(size):
        c.cread("r", "e%d" % i, rng.choice([-1, 3])).cread("r", "e%d" % i, 2, 1)
    c.sseek("s", 0).cload("s")
    return Prog("CustomTrace", c, s)


def p_tensor(rng, k, size):
    c = TC("")
    t = rng.choice(["u1", "i2"])
    el = lambda: "%0*x" % (2 if t == "u1" else 4, rng.randrange(256))
    c.new("x", t, [2, 3], rng.randrange(2)).new("y", t, [2, 3], rng.randrange(2))
    for i in range(size):
        c.set("x", [rng.randrange(-3, 4), rng.randrange(-4, 4)], el()).get("x", [rng.randrange(2), rng.randrange(4)]).assign("y", "x")
        c.bulk("y", [el() for _ in range(rng.choice([6, 6, 5]))], rng.choice(["vec", "move"])).copy("z", "y").delete("z")
    return Prog("TensorTrace", c, 0)


PROGS = [p_streams, p_files, p_rejects, p_codes, p_archive, p_custom, p_tensor, p_archive, p_streams]


def p_all_headers(rng, k, size):
    """every kind of wrong and odd header, loaded, peeked at, and as a file"""
    from .p_npy import bad_headers
    c = NC("").snew("s", "mf"[k % 2])
    for i, h in enumerate(bad_headers(rng)):
        img = wrap(h.encode("latin1"), 1 + i % 2) + bytes(8)
        c.sset("s", img).sload("s", ("i2", "U", "b1", "f8")[i % 4] if i % 3 else "i2").sset("s", img).speek("s")
        if i % 8 == 0:
            c.fwrite("x", img).fload("x", "i2").fpeek("x")
    img = py_image(rand_arr(rng, "U", [2]), "L")
    for i in range(len(img) + 1):
        c.sset("s", img[:i]).sload("s", "U").sset("s", img[:i] + b"\xff" + img[i + 1:]).sload("s", "U")
    for code in ["<i2", ">f8", "|u1", "<q", "", ">i3", "i4", "<f2", "|S3", ">x9", "<i99", "<U3", ">", "=i4"]:
        c.add("fromdtype code=%s" % code.encode().hex(), {"op": "fromdtype", "code": list(code.encode())})
    c.fload("missing", "i4").fpeek("missing")
    return Prog("NpyTrace", c, 0)


def p_all_damage(rng, k, size):
    """an archive with each of its bytes damaged, and cut short everywhere"""
    import io, zipfile
    o = io.BytesIO()
    arrs = [rand_arr(rng, "i2", [3]), rand_arr(rng, "U", [2])]
    with zipfile.ZipFile(o, "w") as z:
        for i, a in enumerate(arrs):
            z.writestr(zipfile.ZipInfo("e%d.npy" % i), py_image(a, "L"), (0, 8)[i])
    b = o.getvalue()
    c = NC("")
    vs = [bytes([b[i] ^ x]) for i in range(len(b)) for x in (0xff, 1)]
    bad = [b[:i // 2] + v + b[i // 2 + 1:] for i, v in enumerate(vs) if i % 4 < 2 or i // 2 > len(b) - 300] + [b[:i] for i in range(0, len(b), 5)] + [b"", b"x" * 30, b * 2, b[:-22]]
    for i, x in enumerate(bad):
        c.add("bset b=z hex=%s" % x.hex()).add("probe b=z names=%s,%s tys=%s" % (b"e0".hex(), b"e1.npy".hex(), ("i2,U", "f8,U")[i % 5 == 0]) + (" kind=f p=z.npz" if i % 6 == 0 else ""))
    return Prog("NpyTrace", c, 0)


def hot_rejects(rng):
    """single calls which are refused, one for each place that refuses: several threads make the same again and again"""
    import io, zipfile
    from .p_npy import bad_headers
    out = []

    def cmd(*lines):
        def p(rng, k, size):
            c = NC("")
            c.snew("s", "mf"[k % 2])
            for l in lines:
                c.add(*l) if isinstance(l, tuple) else l(c)
            return Prog("NpyTrace", c, 0)
        out.append(p)

    def load(img, ty="i2"):
        cmd(lambda c: c.sset("s", img).sload("s", ty))

    D, F, S = "'descr': '<i2', ", "'fortran_order': False, ", "'shape': (2,), "
    hs = ["{'descr': '<i2', 'fortran_order': Tru , 'shape': (2,), }", "{'descr': '<i2', 'fortran_order': Fa1se, 'shape': (2,), }", "{%s%s'shape': (2x,), }" % (D, F),
          "{%s%s'shape': (18446744073709551616,), }" % (D, F), "{%s%s'shape': (4294967296,4294967296), }" % (D, F), "{%s%s%s'extra': 1, }" % (D, F, S), "{%s%s}" % (D, F),
          "{%s%s%s%s}" % (D, F, F, S), "{'descr': '<i3', %s%s}" % (F, S), "{'descr': '>f8', %s%s}" % (F, S), "{'descr': '<U99999999999999999999', %s%s}" % (F, S), "{'descr': '<U3', %s%s}" % (F, S),
          "{'descr': <i2, %s%s}" % (F, S), "x", "{%s%s%s" % (D, F, S), "{'descr", "{'descr' 1", "{%s'fortran_order': 1, %s}" % (D, S), ""]
    for h in hs + rng.sample(bad_headers(rng), 6):
        load(wrap(h.encode("latin1"), 1) + bytes(8))
    good = "{%s%s%s}" % (D, F, S)
    img = wrap(good.encode(), 2) + bytes(4)
    for x in (b"", b"\x93NUMPX" + img[6:], img[:6] + b"\7" + img[7:], img[:8], img[:20], img[:-1], img[:-4]):
        load(x)
    us = wrap(("{'descr': '<U2', %s%s}" % (F, S)).encode(), 1)
    load(us + b"\xff" * 16, "U")
    load(us + b"a\0\0\0", "U")
    for code in ("<x4", "i4", "", "<f2"):
        cmd(("fromdtype code=%s" % code.encode().hex(), {"op": "fromdtype", "code": list(code.encode())}))
    cmd(lambda c: c.fload("missing", "i4"))
    cmd(lambda c: c.fpeek("missing"))

    o = io.BytesIO()
    arrs = [rand_arr(rng, "i2", [3]), rand_arr(rng, "i2", [40])]
    with zipfile.ZipFile(o, "w") as z:
        for i, a in enumerate(arrs):
            z.writestr(zipfile.ZipInfo("e%d.npy" % i), py_image(a, "L"), (0, 8)[i])
    b = o.getvalue()
    cd, end = b.index(b"PK\1\2"), b.index(b"PK\5\6")
    second = b.index(b"PK\3\4", 4)
    for off, x in ((0, 1), (8, 1), (14, 1), (18, 1), (22, 1), (26, 1), (40, 1), (second, 1), (second + 30 + 6 + 1, 0xff), (second + 30 + 6 + 20, 0xff), (cd, 1), (cd + 6, 99), (cd + 8, 1), (cd + 10, 4),
                   (cd + 16, 1), (cd + 20, 1), (cd + 42, 1), (end, 1), (end + 4, 1), (end + 10, 1), (end + 16, 1)):
        y = b[:off] + bytes([b[off] ^ x]) + b[off + 1:]
        cmd(("bset b=z hex=%s" % y.hex(),), ("probe b=z names=%s,%s tys=i2,i2" % (b"e0".hex(), b"e1.npy".hex()),))
    cmd(("bset b=z hex=%s" % b.hex(),), ("probe b=z names=%s,%s tys=i4,i2" % (b"e0".hex(), b"nil".hex()),))
    return out


class Multi(Case):
    def __init__(self, cid, progs, sched="", repeat=1):
        super().__init__(cid)
        self.progs = progs
        if sched:
            self.add("sched " + sched)
        if repeat > 1:
            self.add("repeat %d" % repeat)
        self.where = []
        # the commands of the threads in turns: the order of the lines means nothing
        idx = [[] for _ in progs]
        for k, p in enumerate(progs):
            for i, (l, e) in enumerate(p.case.cmds):
                idx[k].append(len(self.cmds))
                self.add("%d%s %s" % (k, "!" if i < p.nsetup else "", l), e)
        self.idx = idx
        self.add("races")

    def traces(self, results):
        last = results[-1]
        out = []
        for k, p in enumerate(self.progs):
            if last["r"] != "end":
                t = {"id": "%s.%d" % (self.id, k), "ev": [{"op": "crash", "at": "threads", "res": last}]}
            else:
                t = to_trace(p.case, [results[i] for i in self.idx[k]] + [{"r": "end"}])
                t["id"] = "%s.%d" % (self.id, k)
                x = results[len(self.cmds) - 1]
                if k == 0 and (x["races"] or x["differ"]):
                    # nothing any specification allows
                    t["ev"].insert(0, {"op": "race" if x["races"] else "differ", "res": {"r": "race", "what": bytes(x["what"]).decode("latin1")}})
            out.append((p.module, t))
        return out


def run_multi(ctx, exe, cases, cpu, env=None, jobs=4):
    res = run_driver(exe, cases, as_mb=3000, cpu=cpu, jobs=jobs, env=env)
    by = {}
    points = 0
    for c, r in zip(cases, res):
        if r[-1]["r"] == "end":
            points += r[len(c.cmds) - 1]["points"]
        for m, t in c.traces(r):
            by.setdefault(m, ([], []))
            by[m][0].append(c)
            by[m][1].append(t)
    ctx.cov["scheduling_points"] = ctx.cov.get("scheduling_points", 0) + points
    joins = []
    for m, (cs, ts) in sorted(by.items()):
        joins.append(ctx.background(ctx.check_traces, m, cs, ts, confirm=False, jvms=2 if len(ts) > 300 else 1))
    for j in joins:
        j()


def mixed(rng, name, n, size, sched="", repeat=1, common=.3):
    progs = []
    img = arrs = None
    if rng.random() < common:
        a = rand_arr(rng, "U" if rng.random() < .5 else None)
        img = py_image(a, rng.choice("LB"))
        for k in range(n):
            progs.append(p_common_npy(rng, k, size, img, a["t"]))
    elif rng.random() < common:
        arrs = [rand_arr(rng) for _ in range(3)]
        for k in range(n):
            progs.append(p_common_npz(rng, k, size, arrs))
    else:
        same = rng.random() < .4
        f = rng.choice(PROGS)
        for k in range(n):
            progs.append((f if same else rng.choice(PROGS))(rng, k, size))
    return Multi(name, progs, sched, repeat)


def C19(ctx):
    rng = ctx.rng
    ctx.background(ctx.model, "Threads", "ThreadsOwn3.cfg", what="three threads, everything their own: same results as alone")
    ctx.background(ctx.model, "Threads", "ThreadsGuarded.cfg", what="a common work area behind a lock: still the same results")
    for c, w in (("Static", "a common work area"), ("Flag", "a table marked as made before it is"), ("Cached", "a common file handle")):
        ctx.background(ctx.model, "Threads", "Threads%s.cfg" % c, expect_violation=True, what=w + ": another thread's results")
    j1 = ctx.background(ctx.model, "Threads", "ThreadsSched1.cfg", what="all interleavings of two calls")
    j2 = ctx.background(ctx.model, "Threads", "ThreadsSched.cfg", what="all interleavings of two threads with two calls each")
    j3 = ctx.background(ctx.model, "Threads", "ThreadsSched3.cfg", what="all interleavings of three threads")

    # data races, whatever the schedule: every access of the library under ThreadSanitizer
    tsan = ctx.exe("tsan", "threads")
    env = {"TSAN_OPTIONS": "exitcode=0 halt_on_error=0 report_signal_unsafe=0 history_size=4"}
    probe = Case("probe").add("0 racy").add("1 racy").add("races")
    try:
        r = run_driver(tsan, [probe], as_mb=0, cpu=60, jobs=1, env=env)[0]
        works = r[-1]["r"] == "end" and r[2]["races"] > 0
    except (Infra, subprocess.SubprocessError):
        works = False
    ctx.cov["race_detection"] = works
    if works:
        cases = []
        # every kind of program against every other
        kinds = PROGS[:7]
        for i, f in enumerate(kinds):
            for j, g in enumerate(kinds):
                if j >= i:
                    for v in range(ctx.n(2, 12)):
                        cases.append(Multi("race-%d-%d-%d" % (i, j, v), [f(rng, 0, 3), g(rng, 1, 3)], repeat=2))
        # everything that is refused, by several threads
        for v in range(ctx.n(1, 4)):
            cases.append(Multi("race-headers-%d" % v, [p_all_headers(rng, 0, 0), p_all_headers(rng, 1, 0)]))
            cases.append(Multi("race-damage-%d" % v, [p_all_damage(rng, 0, 0), p_all_damage(rng, 1, 0)]))
        for i, f in enumerate(hot_rejects(rng)):
            cases.append(Multi("race-hot-%d" % i, [f(rng, k, 0) for k in range(4)], repeat=ctx.n(60, 300)))
        for i, f in enumerate(kinds):  # and the same that is accepted
            cases.append(Multi("race-same-%d" % i, [f(random.Random(rng.random()), k, 2) for k in range(4)], repeat=ctx.n(8, 40)))
        for i in range(ctx.n(40, 500)):
            cases.append(mixed(rng, "racemix-%d" % i, rng.choice([2, 3, 4, 6]), 3, repeat=ctx.n(2, 4), common=.4))
        run_multi(ctx, tsan, cases, 120, env=env, jobs=4)
    else:
        ctx.assumptions.append("ThreadSanitizer did not work here: only interleavings at scheduling points were explored")

    # all schedules of the model at scheduling points
    exe = ctx.exe("plain", "threads")
    s1 = ["".join(map(str, x["s"])) for x in j1()]
    s2 = ["".join(map(str, x["s"])) for x in j2()]
    s3 = ["".join(map(str, x["s"])) for x in j3()]
    if len(s1) != 70 or len(s2) != 12870 or len(s3) != 34650:
        raise Infra("schedules missing")
    rng.shuffle(s2)
    rng.shuffle(s3)
    cases = []
    for i, s in enumerate(s1 * ctx.n(4, 20)):
        cases.append(mixed(rng, "sched1-%d" % i, 2, 2, s))
    for i, s in enumerate(s2[:ctx.n(250, 4000)]):
        cases.append(mixed(rng, "sched2-%d" % i, 2, 3, s))
    for i, s in enumerate(s3[:ctx.n(120, 3000)]):
        cases.append(mixed(rng, "sched3-%d" % i, 3, 2, s))
    # long stretches: one thread runs far into a call before another goes on
    for i in range(ctx.n(150, 3000)):
        s = "".join("01"[j % 2] * rng.choice([1, 2, 5, 13, 40, 100]) for j in range(rng.choice([2, 5, 20])))
        cases.append(mixed(rng, "runs-%d" % i, 2, 3, s))
    run_multi(ctx, exe, cases, 40, jobs=8)
    # free running
    cases = [mixed(rng, "free-%d" % i, rng.choice([2, 4, 8]), 3, repeat=ctx.n(4, 20)) for i in range(ctx.n(60, 600))]
    run_multi(ctx, exe, cases, 120, jobs=4)
