"""C21: tensor types of the user (spec/Custom.tla)."""
from .npygen import *
from .npzgen import ZC, nb
from .p_forms import compiles


class UC(NC):
    """cases for spec/Custom.tla"""

    def cnew(self, d, sh, f, code, pay, thr=-1):
        return self.add("cnew d=%s sh=%s f=%d code=%s pay=%s%s" % (d, ",".join(map(str, sh)), f, code.hex(), pay.hex(), "" if thr < 0 else " throw=%d" % thr + an_exc()),
                        {"op": "cnew", "d": d, "c": {"sh": [str(x) for x in sh], "f": f, "code": list(code), "pay": list(pay), "thr": thr}})

    def csave(self, s, d, en="D"):
        return self.add("csave s=%s d=%s en=%s%s" % (s, d, en, self.turn("sink", SINKS)), {"op": "csave", "s": s, "d": d, "en": en})

    def cload(self, s, take=-1, thr=0):
        return self.add("cload s=%s take=%d%s" % (s, take, " throw=1" + an_exc() if thr else ""), {"op": "cload", "s": s, "take": take, "throws": int(thr)})

    def cfsave(self, p, d, en="D"):
        return self.add("cfsave p=%s d=%s en=%s" % (p, d, en), {"op": "cfsave", "p": p, "d": d, "en": en})

    def cfload(self, p, take=-1, thr=0):
        return self.add("cfload p=%s take=%d%s" % (p, take, " throw=1" + an_exc() if thr else ""), {"op": "cfload", "p": p, "take": take, "throws": int(thr)})

    def wopen(self, w, kind, m=0, en="D"):
        self.kind = kind
        l = "wopen w=%s kind=%s p=%s.npz m=%d" % (w, kind, w, m)
        return self.add(l + (" en=" + en if en != "D" else ""), {"op": "wopen", "w": w, "m": m, "en": en})

    def cwrite(self, w, name, d):
        n = nb(name)
        return self.add("cwrite w=%s name=%s d=%s" % (w, n.hex(), d), {"op": "cwrite", "w": w, "name": list(n), "d": d})

    def wwrite(self, w, name, d, cst=0):
        n = nb(name)
        return self.add("wwrite w=%s name=%s d=%s%s" % (w, n.hex(), d, " cst=%d" % cst if cst else ""), {"op": "wwrite", "w": w, "name": list(n), "d": d})

    def wclose(self, w):
        return self.add("wclose w=%s" % w, {"op": "wclose", "w": w})

    def ropen(self, x, w):
        if self.kind == "s":
            self.add("wstr w=%s b=%s" % (w, w), {"op": "nothing"})
            return self.add("ropen x=%s kind=s b=%s form=copy" % (x, w), {"op": "ropen", "x": x, "w": w})
        return self.add("ropen x=%s kind=f p=%s.npz form=str" % (x, w), {"op": "ropen", "x": x, "w": w})

    def rkeys(self, x):
        return self.add("rkeys x=%s" % x, {"op": "rkeys", "x": x})

    def rpeek(self, x, name):
        n = nb(name)
        return self.add("rpeek x=%s name=%s" % (x, n.hex()), {"op": "rpeek", "x": x, "name": list(n)})

    def cread(self, x, name, take=-1, thr=0):
        n = nb(name)
        return self.add("cread x=%s name=%s take=%d%s" % (x, n.hex(), take, " throw=1" + an_exc() if thr else ""),
                        {"op": "cread", "x": x, "name": list(n), "take": take, "throws": int(thr)})

    def rread(self, x, name, t, form="one"):
        n = nb(name)
        return self.add("rread x=%s name=%s t=%s form=%s" % (x, n.hex(), t, form), {"op": "rread", "x": x, "name": list(n), "t": t})


CODES = [b"%i2", b"%f4", b"%f8", b"%c16", b"|u1", b"|b1", b"|i1", b"%u8", b"%U3", b"%U0", b"%U12", b"<i4", b">i4", b"%c8", b"%i8", b"%u4", b"%u2",
         # types which only the user understands
         b"%V4", b"|S5", b"%f2", b"%M8[ns]", b"|O", b"", b"complex", b"%i16", b"|i2", b"%u1"]


def rand_custom(rng):
    code = rng.choice(CODES)
    sh = rng.choice(SHAPES + [[100000, 3], [4294967296, 7], [18446744073709551615], [1] * 40])
    if rng.random() < .5 and code in CODES[:17]:
        sh = rng.choice(SHAPES)
    n = rng.choice([0, 1, 2, 17, 64, count(sh) * 4 if count(sh) < 100 else 5, 300])
    pay = bytes(rng.choice([0, 10, 0x93, 0x4e, 0x50, 0x4b, 0x27, 0x7d, 0xff, rng.randrange(256)]) for _ in range(n))
    thr = -1 if rng.random() < .75 else rng.randrange(0, n + 1)
    return sh, rng.randrange(2), code, pay, thr


# types with the documented members and no others: they cannot be copied, nor made of nothing
PRE = """#include <npy/npy.h>
#include <memory>
#include <sstream>
template <typename T> class V {
  struct Key {};
  std::unique_ptr<T[]> v;
  V(Key, size_t n) : v(new T[n]) {}
public:
  V(V &&) = default;
  V(const V &) = delete;
  V &operator=(const V &) = delete;
  static V make() { return V(Key(), 1); }
  size_t ndim() const { return 1; }
  size_t shape(size_t) const { return 1; }
  bool fortran_order() const { return false; }
  std::string dtype(npy::endian_t) const { return "|u1"; }
  void save(std::basic_ostream<char> &o, npy::endian_t e) const { npy::write_values<T, char>(o, v.get(), 1, e); }
  static V load(std::basic_istream<char> &i, const npy::header_info &h) { V r(Key(), 1); npy::read_values<T, char>(i, r.v.get(), 1, h); return r; }
};
typedef V<std::uint8_t> U;
void f(U &t, const U &c, std::string p, std::stringstream &io) {
  auto N = npy::endian_t::NATIVE; (void)N;
  %s;
}
"""
FORMS = {
    "save to stream": ["npy::save(io, t); npy::save(io, c, N)", "npy::save<std::uint8_t, V>(io, t); npy::save<std::uint8_t, V>(io, c, N)"],
    "save to path": ["npy::save(p, t); npy::save(p, c, N)", "npy::save<std::uint8_t, V>(p, t)"],
    "load from stream": ["U x = npy::load<U>(io); auto y = npy::load<U>(io)"],
    "load from path": ["U x = npy::load<U>(p)", "U x = npy::load<std::uint8_t, V>(p)"],
    "writers": ["npy::npzstringwriter w; w.write(p, t); w.write(p, c)", "npy::npzfilewriter w(p); w.write(p, t); w.write(p, c)"],
    "readers": ["npy::npzstringreader r(p); U x = r.read<U>(p)", "npy::npzfilereader r(p); U x = r.read<U>(p)",
                "npy::npzstringreader r(p); U x = r.read<std::uint8_t, V>(p)", "npy::npzfilereader r(p); U x = r.read<std::uint8_t, V>(p)"],
}


def C21(ctx):
    rng = ctx.rng
    compiles(ctx, PRE, FORMS)
    progs = ctx.background(ctx.model, "CustomMC", ctx.n("CustomMC.cfg", "CustomMCBig.cfg"), what="programs with user tensors that write, throw or throw at once")
    cases = []
    # user tensors of every kind on streams and files, between arrays and other bytes
    for i in range(ctx.n(150, 1500)):
        c = UC("mix-%d" % i)
        c.snew("s", "mf"[i % 2])
        n = rng.randrange(1, 5)
        a = rand_arr(rng)
        c.make("a", a)
        spots = []
        for k in range(n):
            x = rng.randrange(5)
            if x == 0:
                c.sput("s", bytes(rng.randrange(256) for _ in range(rng.randrange(6))))
            elif x == 1:
                c.ssave("s", "a", rng.choice(ENS))
            else:
                d = "c%d" % k
                v = rand_custom(rng)
                c.cnew(d, *v)
                c.csave("s", d, rng.choice(ENS))
                if rng.random() < .5:
                    c.cfsave("p%d" % k, d, rng.choice(ENS)).cfload("p%d" % k, rng.choice([-1, -1, 0, 3]), rng.random() < .2).fload("p%d" % k, "i2")
                    if rng.random() < .5:
                        c.fsave("p%d" % k, "a", "D", "free").cfload("p%d" % k)
        c.sseek("s", 0)
        c.cload("s", rng.choice([0, 2, 5, -1]), rng.random() < .1)
        cases.append(c)
    # several images of user tensors on one stream: each load takes its part, and a peek only the header
    for i in range(ctx.n(60, 600)):
        c = UC("seq-%d" % i)
        c.snew("s", "mf"[i % 2])
        items = []
        for k in range(rng.randrange(2, 6)):
            sh, f, code, pay, _ = rand_custom(rng)
            code = rng.choice(CODES[:17])
            if rng.random() < .3:
                a = rand_arr(rng)
                c.make("a%d" % k, a).ssave("s", "a%d" % k, rng.choice(ENS))
                items.append(("a", a["t"]))
            else:
                c.cnew("c%d" % k, sh, f, code, pay).csave("s", "c%d" % k, rng.choice(ENS))
                items.append(("c", len(pay)))
        c.sseek("s", 0)
        for kind, x in items:
            if kind == "c":
                c.cload("s", x)
            else:
                c.sload("s", x)
        cases.append(c)
    # headers of other producers reach the tensor as parsed, and the stream behind them
    for i in range(ctx.n(120, 1200)):
        a = rand_arr(rng)
        img = py_image(a, rng.choice("LB"), rng.choice([1, 2]), extra_pad=rng.choice([0, 64, 640]))
        junk = rng.randrange(8)
        if junk == 0:
            img = img[:rng.randrange(len(img))]
        elif junk == 1:
            k = rng.randrange(min(len(img), 100))
            img = img[:k] + bytes([rng.randrange(256)]) + img[k + 1:]
        c = UC("foreign-%d" % i)
        pre = bytes(rng.randrange(256) for _ in range(rng.choice([0, 0, 3])))
        c.snew("s", "mf"[i % 2]).sput("s", pre + img + b"tail").sseek("s", len(pre)).cload("s", rng.choice([0, 1, 4, -1]))
        c.sseek("s", len(pre)).cload("s", 2, 1).sseek("s", len(pre)).sload("s", a["t"])
        cases.append(c)
    # archives: all programs of the model, read back by the user's type and the built-in one
    hs = progs()
    if not ctx.quick:
        rng.shuffle(hs)
        hs = hs[:9000]
    for i, h in enumerate(hs):
        c = UC("prog-%d" % i)
        c.make("a", {"t": "u1", "f": 0, "sh": [2], "el": ["07", "09"]})
        c.cnew("good", [2, 3], 1, b"%i2", b"hello, world").cnew("throw", [7], 0, b"%f4", b"partial", 4).cnew("early", [], 0, b"|u1", b"x", 0)
        c.snew("s").wopen("w", "sf"[i % 2], 8 * (i // 2 % 2), "B")
        for e in h["h"]:
            if e["op"] == "csave":
                c.csave("s", e["d"], "B")
            elif e["op"] == "ssave":
                c.ssave("s", "a", "L")
            elif e["op"] == "cwrite":
                c.cwrite("w", chr(97 + e["k"]), e["d"])
            elif e["op"] == "wwrite":
                c.wwrite("w", chr(97 + e["k"]), "a")
            else:
                c.wclose("w")
        c.wclose("w").ropen("r", "w").rkeys("r")
        for n in "ab":
            c.cread("r", n).rread("r", n, "u1").cread("r", n, 1, 1).rread("r", n, "i2").rpeek("r", n)
        cases.append(c)
    # archives of random user tensors, also with an unsupported method
    for i in range(ctx.n(120, 1200)):
        c = UC("arch-%d" % i)
        m = rng.choice([0, 8, 8, 0, 0, 8, 8, 9])
        c.wopen("w", rng.choice("sf"), m, rng.choice(ENS))
        names = ["x", "y.npy", "", "z" * 300, "x.npy"]
        for k in range(rng.randrange(1, 6)):
            if rng.random() < .3:
                c.make("a%d" % k, rand_arr(rng)).wwrite("w", rng.choice(names), "a%d" % k, rng.randrange(3))
            else:
                c.cnew("c%d" % k, *rand_custom(rng)).cwrite("w", rng.choice(names), "c%d" % k)
        c.wclose("w")
        c.ropen("r", "w").rkeys("r")
        for n in names:
            for k in range(2):
                c.cread("r", n, rng.choice([-1, 0, 4]), rng.random() < .2).rread("r", n, rng.choice(TYPES)).rpeek("r", n)
        cases.append(c)
    # a header which cannot be represented: refused before the tensor writes anything
    for nd in (21830, 22000):
        c = UC("long-%d" % nd)
        c.cnew("c", [1] * nd, 0, b"%i2", b"abcd").cnew("k", [2], 0, b"%i2", b"abcd").snew("s").csave("s", "k").csave("s", "c").csave("s", "k").wopen("w", "s", 8)
        c.cwrite("w", "k", "k").cwrite("w", "c", "c").cwrite("w", "l", "k").wclose("w").ropen("r", "w").rkeys("r").cread("r", "k").cread("r", "c").cread("r", "l").cfsave("p", "c").cfsave("q", "k").cfload("q")
        cases.append(c)
    ctx.validate("CustomTrace", cases, jvms=ctx.n(4, 6), cpu=60)

    # a tensor template of the user, built on the documented helpers, does all the built-in one does
    forms_s, forms_f = ["user", "user2"], ["user", "user2"]
    cases = []
    for i, t in enumerate(TYPES * ctx.n(3, 20)):
        for f in (0, 1):
            c = NC("tmpl-%s-%d-%d" % (t, i, f))
            a = rand_arr(rng, t, None, f)
            b = rand_arr(rng)
            c.make("a", a).make("b", b).snew("s", "mf"[i % 2])
            en = rng.choice(ENS)
            c.ssave("s", "a", en, forms_s[i % 2]).ssave("s", "a", en).ssave("s", "b", "D", "user")
            c.sload("s", t, "", "user").sload("s", t).sload("s", rng.choice(TYPES), "", "user")
            c.fsave("p", "a", en, forms_f[i % 2]).fread("p").fload("p", t, "", forms_f[(i + f) % 2]).fload("p", t).fload("p", rng.choice(TYPES), "", "user")
            c.sseek("s", 0).sload("s", t, "n", "user").snew("o").ssave("o", "n", en, "user2")
            img = py_image(a, rng.choice("LB"), rng.choice([1, 2]), extra_pad=rng.choice([0, 64]))
            c.snew("x").sput("x", img + b"rest").sload("x", t, "", "user").sput("x", img[:-1] if count(a["sh"]) and t != "U" else b"").sload("x", t, "", "user")
            cases.append(c)
    ctx.validate("NpyTrace", cases, jvms=4)
    cases = []
    for i in range(ctx.n(40, 400)):
        c = ZC("tarch-%d" % i)
        kind, m, en = rng.choice("sf"), rng.choice([0, 8]), rng.choice(ENS)
        c.wopen("w", kind, "z.npz", m, en)
        ts = []
        for k in range(rng.randrange(1, 5)):
            t = rng.choice(TYPES)
            c.make("a%d" % k, rand_arr(rng, t)).wwrite("w", "e%d" % k, "a%d" % k, 2 if rng.random() < .8 else 0)
            ts.append(t)
        c.wclose("w")
        if kind == "s":
            c.wstr("w", "z").ropenb("r", "z")
        else:
            c.ropenf("r", "z.npz")
        for k, t in enumerate(ts):
            c.rread("r", "e%d" % k, t, rng.choice(["user", "user2"])).rread("r", "e%d" % k, t).rread("r", "e%d" % k, rng.choice(TYPES), "user").rpeek("r", "e%d" % k)
        cases.append(c)
    ctx.validate("NpzTrace", cases, jvms=2)
