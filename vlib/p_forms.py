"""C23: all equivalent ways of calling the library (spec/Forms.tla)."""
import hashlib, json, os, subprocess
from . import core
from .core import Case, Infra
from .npygen import *
from .zipgen import BC, nb


def sha(x):
    return hashlib.sha256(json.dumps(x, sort_keys=True).encode()).hexdigest()[:24]


def only_r(r):
    return {"r": r["r"]}


def answer(r):
    """What a call answered, without the kind of an exception."""
    if r["r"] != "ok":
        return {"r": r["r"]}
    return {"r": "ok", "x": sha({k: v for k, v in r.items() if k != "r"})}


def image(r):
    if r["r"] != "ok":
        return {"r": r["r"]}
    return {"r": "ok", "x": sha(r["app"])}


class FC(Case):
    def make(self, d, a):
        return self.add(amake_line(d, a), {"op": "make", "d": d, "a": sha(a), "res": only_r})

    # arrays
    def ssave(self, o, d, en, form, kind="m"):
        return (self.add("snew s=%s kind=%s p=%s.st" % (o, kind, o))
                .add("ssave s=%s d=%s en=%s form=%s" % (o, d, en, form), {"op": "save", "o": o, "d": d, "en": en, "res": image}))

    def fsave(self, o, d, en, form, p=None):
        return self.add("fsave p=%s d=%s en=%s form=%s get=1" % (p or o, d, en, form), {"op": "save", "o": o, "d": d, "en": en, "res": image})

    def raw_s(self, o, b, kind="m"):
        return self.add("snew s=%s kind=%s p=%s.st" % (o, kind, o)).add("sset s=%s hex=%s" % (o, b.hex()), {"op": "raw", "o": o, "id": sha(b.hex()), "res": only_r})

    def raw_f(self, o, b):
        return self.add("fwrite p=%s hex=%s" % (o, b.hex()), {"op": "raw", "o": o, "id": sha(b.hex()), "res": only_r})

    def sload(self, o, t, form):
        def res(r):
            return answer({k: v for k, v in r.items() if k != "pos"})
        return self.add("sseek s=%s pos=0" % o).add("sload s=%s t=%s form=%s" % (o, t, form), {"op": "load", "o": o, "t": t, "res": res})

    def fload(self, o, t, form, p=None):
        return self.add("fload p=%s t=%s form=%s" % (p or o, t, form), {"op": "load", "o": o, "t": t, "res": answer})

    def speek(self, o, form):
        def res(r):
            return answer({k: v for k, v in r.items() if k != "pos"})
        return self.add("sseek s=%s pos=0" % o).add("speek s=%s form=%s" % (o, form), {"op": "peek", "o": o, "res": res})

    def fpeek(self, o, form="str", p=None):
        return self.add("fpeek p=%s form=%s" % (p or o, form), {"op": "peek", "o": o, "res": answer})

    # archives
    def wopen(self, w, kind, m, en, form, p=None):
        l = "wopen w=%s kind=%s p=%s form=%s" % (w, kind, p or w + ".npz", form)
        if m != -1:
            l += " m=%d" % m
            if en != "D":
                l += " en=%s" % en
        self.add(l, {"op": "wopen", "w": w, "m": m, "en": en, "res": only_r})
        return self

    def wwrite(self, w, name, d, cst=0):
        return self.add("wwrite w=%s name=%s d=%s cst=%d" % (w, nb(name).hex(), d, cst),
                        {"op": "wwrite", "w": w, "name": nb(name).hex(), "d": d, "res": only_r})

    def wdone(self, w, o, kind, how, p=None):
        e = {"op": "wdone", "w": w, "o": o, "res": only_r}
        self.add("w%s w=%s" % ("del" if how == "destroy" else "close", w), e)
        if kind == "s":
            self.add("wstr w=%s b=%s" % (w, o))
        else:
            self.add("bload b=%s p=%s" % (o, p or w + ".npz"))
        return self.add("bget b=%s" % o, {"op": "bytes", "o": o, "res": answer})

    def raw_b(self, o, b):
        return self.add("bset b=%s hex=%s" % (o, b.hex()), {"op": "raw", "o": o, "id": sha(b.hex()), "res": only_r})

    def ropen(self, x, o, kind, form):
        if kind == "s":
            return self.add("ropen x=%s kind=s b=%s form=%s" % (x, o, form), {"op": "ropen", "x": x, "o": o, "res": only_r})
        return (self.add("bsave b=%s p=%s.in" % (o, x))
                .add("ropen x=%s kind=f p=%s.in form=%s" % (x, x, form), {"op": "ropen", "x": x, "o": o, "res": only_r}))

    def ask(self, x, q, line):
        return self.add(line, {"op": "ask", "x": x, "q": q, "res": answer})

    def rkeys(self, x):
        return self.ask(x, "keys", "rkeys x=%s" % x)

    def rhas(self, x, name):
        return self.ask(x, "has " + nb(name).hex(), "rhas x=%s name=%s" % (x, nb(name).hex()))

    def rpeek(self, x, name):
        return self.ask(x, "peek " + nb(name).hex(), "rpeek x=%s name=%s" % (x, nb(name).hex()))

    def rread(self, x, name, t, form):
        return self.ask(x, "read %s %s" % (nb(name).hex(), t), "rread x=%s name=%s t=%s form=%s dg=1" % (x, nb(name).hex(), t, form))

    def drop(self, x):
        return self.add("rdel x=%s" % x)


S_SAVE = ["one", "two", "full", "user", "user2"]
F_SAVE = ["free", "member", "two", "const", "cstr", "path", "twoc", "expl", "mcstr", "mpath", "user", "user2"]
S_LOAD = ["one", "member", "full", "user"]
F_LOAD = ["free", "member", "two", "cstr", "path", "twoc", "mcstr", "mpath", "user", "user2"]
NATIVE = ["D", "N", "L"]

# every overload, in a translation unit of its own: used when the driver does not compile
PRE = """#include <npy/npy.h>
#include <sstream>
struct U { std::vector<size_t> s; size_t ndim() const { return 1; } size_t shape(size_t i) const { return s[i]; } bool fortran_order() const { return false; }
  std::string dtype(npy::endian_t) const { return "|u1"; } void save(std::basic_ostream<char> &, npy::endian_t) const {}
  static U load(std::basic_istream<char> &, const npy::header_info &) { return U(); } };
template <typename T> using X = npy::tensor<T>;
void f(npy::tensor<int> &t, const npy::tensor<int> &c, U &u, std::string p, const char *s, std::filesystem::path fp, std::stringstream &io) {
  auto N = npy::endian_t::NATIVE; auto M = npy::compression_method_t::STORED; (void)N; (void)M;
  %s;
}
"""
FORMS = {
    "save to stream": ["npy::save(io, t); npy::save(io, c, N)", "npy::save<int, npy::tensor>(io, t); npy::save<int, npy::tensor>(io, c, N)",
                       "npy::save(io, u); npy::save(io, u, N)"],
    "save to path": ["npy::save(p, t); npy::save(p, t, N)", "npy::save(p, c); npy::save(p, c, N)", "npy::save<int, npy::tensor>(p, t); npy::save<int, npy::tensor>(p, t, N)",
                     "npy::save(s, t); npy::save(s, t, N)", "npy::save(fp, t); npy::save(fp, t, N)", "npy::save(p, u); npy::save(p, u, N)", "t.save(p); t.save(p, N)", "t.save(s); t.save(fp)"],
    "load from stream": ["npy::load<npy::tensor<int>>(io)", "npy::load<U>(io)", "npy::tensor<int>::load(io, npy::read_npy_header(io))"],
    "load from path": ["npy::load<npy::tensor<int>>(p)", "npy::load<int, npy::tensor>(p)", "npy::load<npy::tensor<int>>(s); npy::load<int, npy::tensor>(s)",
                       "npy::load<npy::tensor<int>>(fp); npy::load<int, npy::tensor>(fp)", "npy::load<U>(p)", "npy::tensor<int>::from_file(p)"],
    "peek": ["npy::peek(io)", "npy::peek(p); npy::peek(s); npy::peek(fp)"],
    "string writer": ["npy::npzstringwriter w; npy::npzstringwriter v(M); npy::npzstringwriter x(M, N)", "npy::npzstringwriter w; w.write(p, t); w.write(s, c); w.close(); w.str()",
                      "npy::npzstringwriter w; w.write(p, u)"],
    "file writer": ["npy::npzfilewriter w(p); npy::npzfilewriter v(p, M); npy::npzfilewriter x(p, M, N)", "npy::npzfilewriter w(s); npy::npzfilewriter v(s, M); npy::npzfilewriter x(s, M, N)",
                    "npy::npzfilewriter w(fp); npy::npzfilewriter v(fp, M); npy::npzfilewriter x(fp, M, N)", "npy::npzfilewriter w(p); w.write(p, t); w.write(s, c); w.is_open(); w.close()",
                    "npy::npzfilewriter w(p); w.write(p, u)"],
    "string reader": ["npy::npzstringreader r(p); npy::npzstringreader q(std::move(p))", "npy::npzstringreader r(p); r.keys(); r.contains(p); r.peek(p)",
                      "npy::npzstringreader r(p); r.read<npy::tensor<int>>(p)", "npy::npzstringreader r(p); r.read<int, npy::tensor>(p)", "npy::npzstringreader r(p); r.read<U>(p)"],
    "file reader": ["npy::npzfilereader r(p)", "npy::npzfilereader r(s)", "npy::npzfilereader r(fp)", "npy::npzfilereader r(p); r.keys(); r.contains(p); r.peek(p); r.is_open(); r.close()",
                    "npy::npzfilereader r(p); r.read<npy::tensor<int>>(p)", "npy::npzfilereader r(p); r.read<int, npy::tensor>(p)", "npy::npzfilereader r(p); r.read<U>(p)"],
}


def callable_forms(ctx, PRE=PRE, FORMS=FORMS):
    """Does every form compile?  Returns the ones which do not although their plain counterparts do."""
    from concurrent.futures import ThreadPoolExecutor

    def go(src):
        r = subprocess.run(["g++", "-std=c++17", "-fsyntax-only", "-x", "c++", "-I", os.path.join(core.REPO, "include"), "-"],
                           input=PRE.replace("%s", src), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return r.returncode == 0, r.stdout
    todo = [("", "")] + [(g, s) for g, fs in FORMS.items() for s in fs]
    with ThreadPoolExecutor(core.NCPU) as ex:
        res = list(ex.map(lambda x: go(x[1]), todo))
    if not res[0][0]:
        raise Infra("the header does not compile: " + res[0][1][-1500:])
    bad = [(g, s, o) for (g, s), (ok, o) in zip(todo, res) if not ok]
    return len(todo) - 1, bad


def compiles(ctx, *a):
    n, bad = callable_forms(ctx, *a)
    if bad:
        g, s, o = bad[0]
        ctx.violation("Forms", None, {"id": "callable", "ev": [{"op": "call", "form": g, "code": s, "res": {"r": "does not compile", "why": o[-1500:]}}]}, 1)
    ctx.cov["forms compiled"] = n


def C23(ctx):
    rng = ctx.rng
    compiles(ctx)
    bg = [ctx.background(ctx.model, "FormsMC", "FormsMC_%s.cfg" % d, expect_violation=True, workers=2, what="a library in which one form is not as the others")
          for d in ("pathorder", "cstrmethod", "memoryorder", "native", "two")]
    variants = ctx.model("FormsMC", what="all variants of making and reading an archive agree with the plain one")
    exe = ctx.exe()

    # archives: the plain way, then variants of it
    cases = []
    by = {}
    for v in variants:
        by.setdefault(tuple(v["o"]), []).append(v)
    k = 0
    for o, vs in by.items():
        rng.shuffle(vs)
        for i in range(0, len(vs), 14):
            c = FC("arch-%d" % k)
            k += 1
            names = rng.sample(["x", "y.npy", "dir/z", "", "npy", "\u00e9t\u00e9", "a b", "x.npy.npy", "q" * 200], rng.randrange(1, 4))
            arrs = []
            for j, nm in enumerate(names):
                a = rand_arr(rng)
                arrs.append(a["t"])
                c.make("a%d" % j, a)
            m, en = (0 if o[0] == -1 else o[0]), ("B" if o[1] == "B" else "L")

            def ask(x, o_, kind, form, rd):
                c.ropen(x, o_, kind, form).rkeys(x)
                for j, nm in enumerate(names):
                    c.rhas(x, nm).rread(x, nm, arrs[j], rd).rpeek(x, nm)
                    if rng.random() < .3:
                        c.rread(x, nm, "i2" if arrs[j] != "i2" else "f8", rd).rread(x, nm, arrs[j], rd)
                c.rhas(x, "none").rpeek(x, "none").rread(x, "none", "i4", rd).drop(x)
            # the plain way of writing and reading
            c.wopen("w0", "s", m, en, "str")
            for j, nm in enumerate(names):
                c.wwrite("w0", nm, "a%d" % j)
            c.wdone("w0", "z0", "s", "close")
            # one which answers every question first, so that each later answer has one to agree with
            c.ropen("r0", "z0", "s", "copy").rkeys("r0")
            for j, nm in enumerate(names):
                c.rhas("r0", nm).rpeek("r0", nm).rread("r0", nm, arrs[j], "one").rread("r0", nm, "i2" if arrs[j] != "i2" else "f8", "one")
            for q, v in enumerate(vs[i:i + 14]):
                w, z, x = "w%d" % (q + 1), "z%d" % (q + 1), "r%d" % (q + 1)
                kind = v["w"]["kind"]
                c.wopen(w, kind, v["o"][0], v["o"][1], v["w"]["path"])
                for j, nm in enumerate(names):
                    c.wwrite(w, nm, "a%d" % j, v["wr"] if rng.random() < .8 else rng.randrange(4))
                c.wdone(w, z, kind, v["c"])
                ask(x, z, v["r"]["kind"], v["r"]["path"], v["rd"])
            cases.append(c)
    ctx.validate("FormsTrace", cases, jvms=4, exe=exe)

    # the options are honoured: what is written is as the format says
    cases = []
    for i, o in enumerate(by):
        for kind, path in (("s", "-"), ("f", "str"), ("f", "cstr"), ("f", "path")):
            for rep in range(ctx.n(1, 6)):
                c = BC("opt-%d-%s%s-%d" % (i, kind, path, rep))
                en = o[1] if o[0] != -1 else "D"
                c.wopen("w", kind, "o.npz", None if o[0] == -1 else o[0], en, path)
                ts = []
                for j in range(2):
                    a = rand_arr(rng, ["i4", "c16", "U", "f8", "u2", "c8", "i8", "u4"][(i + j + rep) % 8], [3, 2])
                    c.make("a%d" % j, a).wwrite("w", "e%d" % j, "a%d" % j)
                    ts.append(a["t"])
                c.wclose("w")
                if kind == "s":
                    c.wbytes("w", "z")
                else:
                    c.fbytes("w", "o.npz", "z")
                c.ropen("r", "z", "sf"[rep % 2]).rkeys("r")
                for j in range(2):
                    c.rpeek("r", "e%d" % j).rread("r", "e%d" % j, ts[j])
                cases.append(c)
    ctx.validate("ZipTrace", cases, jvms=4, exe=exe, sample=0)

    # arrays on streams and in files
    cases = []
    ways = [("s", f, k) for f in S_SAVE for k in "mf"] + [("f", f, "") for f in F_SAVE]
    for i in range(ctx.n(70, 700)):
        c = FC("npy-%d" % i)
        a = rand_arr(rng, TYPES[i % 14])
        c.make("a", a)
        t = a["t"]
        big = i % 3 == 0
        c.ssave("s0", "a", "B" if big else "L", "one").sload("s0", t, "one").sload("s0", "i2" if t != "i2" else "u8", "one").speek("s0", "peek")
        for j, (w, f, kk) in enumerate(ways):
            en = "B" if big else NATIVE[(i + j) % 3]
            o = "o%d" % j
            if w == "s":
                c.ssave(o, "a", en, f, kk).sload(o, t, rng.choice(S_LOAD)).speek(o, rng.choice(["peek", "hdr"]))
                c.sload(o, "i2" if t != "i2" else "u8", rng.choice(["one", "full", "member"]))
            else:
                c.fsave(o, "a", en, f).fload(o, t, F_LOAD[(i + j) % len(F_LOAD)]).fpeek(o, rng.choice(["str", "cstr", "path"]))
                c.fload(o, "i2" if t != "i2" else "u8", rng.choice(F_LOAD))
        cases.append(c)
    # names which cannot be written or read: no form does
    for i, p in enumerate(["nodir/x", ".", "l" * 300]):
        c = FC("badpath-%d" % i)
        c.make("a", rand_arr(rng, "i4", [2]))
        for f in F_SAVE:
            c.add("fsave p=%s d=a en=D form=%s" % (p, f), {"op": "ask", "x": "bad", "q": "save", "res": only_r})
        for f in F_LOAD:
            c.add("fload p=%s t=i4 form=%s" % (p, f), {"op": "ask", "x": "bad", "q": "load", "res": only_r})
        for f in ("str", "cstr", "path"):
            c.add("fpeek p=%s form=%s" % (p, f), {"op": "ask", "x": "bad", "q": "peek", "res": only_r})
            for m, en in ((-1, "D"), (0, "D"), (8, "B")):
                def res(r):
                    return {"r": "ok" if r["r"] == "ok" else r["r"], "x": r.get("open", 0)}
                c.add("wopen w=w%s%d kind=f p=%s form=%s%s%s" % (f, m, p, f, "" if m == -1 else " m=%d" % m, "" if en == "D" else " en=" + en),
                      {"op": "ask", "x": "bad", "q": "wopen", "res": res})
            c.add("ropen x=x%s kind=f p=%s form=%s" % (f, p, f), {"op": "ask", "x": "bad", "q": "ropen", "res": only_r})
        c.cmds.insert(0, ("bset b=bad hex=", {"op": "raw", "o": "bad", "id": "bad", "res": only_r}))
        cases.append(c)
    # images of other producers, and damaged ones
    for i in range(ctx.n(150, 2000)):
        a = rand_arr(rng)
        img = py_image(a, rng.choice("LB"), rng.choice([1, 2]), extra_pad=rng.choice([0, 64]))
        if i % 3:
            k = rng.randrange(min(len(img), 90))
            img = rng.choice([img[:rng.randrange(len(img) + 1)], img[:k] + bytes([rng.randrange(256)]) + img[k + 1:], img[:k] + img[k + 1:]])
        c = FC("raw-%d" % i)
        c.raw_s("m", img, "m").raw_s("f", img, "f").raw_f("p", img)
        ts = [a["t"], rng.choice(TYPES)]
        for t in ts:
            for f in S_LOAD if t == a["t"] and i % 3 == 0 else S_LOAD[:3]:
                c.sload("m", t, f).sload("f", t, f)
            for f in F_LOAD if t == a["t"] and i % 3 == 0 else F_LOAD[:8]:
                c.fload("p", t, f)
        for f in ("peek", "hdr"):
            c.speek("m", f).speek("f", f)
        for f in ("str", "cstr", "path"):
            c.fpeek("p", f)
        cases.append(c)
    ctx.validate("FormsTrace", cases, jvms=4, exe=exe, sample=0, as_mb=600, cpu=60)

    # readers over the same foreign or damaged archives
    from .p_zip import py_zip
    feats = ["lz64", "dz64", "flags", "vers", "times", "attrs", "order", "pre", "gap", "softflags", "softextra", "comment", "acomment", "newer", "lack"]
    cases = []
    for i in range(ctx.n(260, 4000)):
        arrs = [rand_arr(rng) for _ in range(rng.choice([0, 1, 2, 2, 3]))]
        names, tys = ["e%d.npy" % j if rng.random() < .8 else "raw%d" % j for j in range(len(arrs))], [a["t"] for a in arrs]
        z = py_zip(rng, [(nm, py_image(a, rng.choice("LB"), rng.choice([1, 1, 2]))) for nm, a in zip(names, arrs)], set(x for x in feats if rng.random() < .15))
        if i % 4:
            for _ in range(rng.choice([1, 1, 2, 3])):
                k = rng.randrange(len(z))
                where = rng.randrange(4)
                if where == 0:
                    z = z[:k]
                elif where == 1:
                    z = z[:k] + bytes([rng.randrange(256)]) + z[k + 1:]
                elif where == 2:
                    z = z[:k] + bytes([z[k] ^ (1 << rng.randrange(8))]) + z[k + 1:]
                else:
                    z = z[:k] + z[k + rng.randrange(1, 9):]
                z = z or b"\0"
        c = FC("foreign-%d" % i)
        c.raw_b("z", z)
        order = [("s", "copy"), ("s", "move"), ("f", "str"), ("f", "cstr"), ("f", "path")]
        for j, (kind, form) in enumerate(order):
            x = "r%d" % j
            rd = rng.choice(["one", "two"])
            c.ropen(x, "z", kind, form).rkeys(x)
            qs = list(zip(names, tys)) + [("none", "i4")]
            rng.shuffle(qs)
            for nm, t in qs:
                c.rhas(x, nm).rpeek(x, nm).rread(x, nm, t, rd)
        cases.append(c)
    ctx.validate("FormsTrace", cases, jvms=4, exe=exe, sample=0, as_mb=600, cpu=60)
    for b in bg:
        b()
