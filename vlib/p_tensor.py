"""Checks over spec/Tensor.tla: C08, C09."""
import itertools
from .core import Case, Infra
from .npygen import *

SIGNED = ["get", "call", "ccall", "ravel"]
UNSIGNED = ["callvec", "ccallvec", "ravelvec"]


class TC(Case):
    def new(self, d, t, sh, f=0):
        return self.add("tnew d=%s t=%s sh=%s%s" % (d, t, ",".join(map(str, sh)), "" if f < 0 else " f=%d" % f),
                        {"op": "tnew", "d": d, "t": t, "sh": sh, "f": f})

    def newbig(self, d, t, sh):
        return self.add("tnew d=%s t=%s sh=%s f=0" % (d, t, ",".join(map(str, sh))), {"op": "tnewbig"})

    def copy(self, d, s):
        return self.add("tcopy d=%s s=%s" % (d, s), {"op": "tcopy", "d": d, "s": s})

    def move(self, d, s):
        return self.add("tmove d=%s s=%s" % (d, s), {"op": "tmove", "d": d, "s": s})

    def assign(self, d, s):
        return self.add("tassign d=%s s=%s" % (d, s), {"op": "tassign", "d": d, "s": s})

    def massign(self, d, s, keep=1):
        return self.add("tmassign d=%s s=%s%s" % (d, s, " keep=1" if keep else ""), {"op": "tmassign", "d": d, "s": s, "keep": keep})

    def delete(self, d):
        return self.add("tdel d=%s" % d, {"op": "tdel", "d": d})

    def set(self, d, idx, v, form="set"):
        return self.add("tset d=%s i=%s v=%s form=%s" % (d, ",".join(map(str, idx)), v, form if form != "setvec" else "callvec"),
                        {"op": "tset", "d": d, "i": idx, "v": v, "form": form})

    def get(self, d, idx, form="get"):
        return self.add("tget d=%s i=%s form=%s" % (d, ",".join(map(str, idx)), form), {"op": "tget", "d": d, "i": idx, "form": form})

    def sweep(self, d, idxs, form):
        return self.add("tsweep d=%s form=%s is=%s" % (d, form, ";".join(",".join(map(str, i)) or "-" for i in idxs)),
                        {"op": "tsweep", "d": d, "idx": [list(i) for i in idxs], "form": form})

    def bulk(self, d, els, form="vec"):
        if form == "move":
            return self.add("tmovefrom d=%s el=%s" % (d, ",".join(els)), {"op": "tbulk", "d": d, "el": els})
        return self.add("tcopyfrom d=%s form=%s el=%s" % (d, form, ",".join(els)), {"op": "tbulk", "d": d, "el": els})

    def bulkfrom(self, d, s, form="vec"):
        return self.add("tcopyvals d=%s s=%s form=%s" % (d, s, form), {"op": "tbulkfrom", "d": d, "s": s})

    def poke(self, d, k, v, form="data"):
        return self.add("tpoke d=%s k=%d v=%s form=%s" % (d, k, v, form), {"op": "tpoke", "d": d, "k": k, "v": v})


def programs(ctx, cfg, every=1):
    progs = ctx.model("TensorMC", cfg, what="index bijection over all small shapes; all programs over tensor slots")
    if not progs:
        raise Infra("the model printed no programs")
    progs.sort(key=str)
    out = []
    for i, pr in enumerate(progs):
        if (i + ctx.seed) % every:
            continue
        c = TC("model-%d" % i)
        for n, o in enumerate(pr):
            op = o["op"]
            d = "s%d" % o["d"]
            s = "s%d" % o["s"] if "s" in o else ""
            if op == "new":
                c.new(d, "u1", o["sh"], o["f"])
            elif op == "copy":
                c.copy(d, s)
            elif op == "assign":
                c.assign(d, s)
            elif op == "move":
                c.move(d, s)
            elif op == "massign":
                c.massign(d, s, 1)
            elif op == "set":
                c.set(d, o["i"], o["v"], ["set", "call", "callvec"][(i + n) % 3])
            elif op == "bulk":
                c.bulk(d, o["el"], ["vec", "ptr", "move"][(i + n) % 3])
            else:
                raise Infra(op)
        out.append(c)
    return out


def distinct(t, n, start=1):
    """n distinct element texts"""
    if t == "b1":
        return ["%02x" % ((start + k) & 1) for k in range(n)]
    if t == "U":
        return ["%x.%x" % (0x41 + (start + k) % 50, 0x100 + start + k) for k in range(n)]
    return [("%x" % (start + k)).rjust(2 * SIZE[t], "0")[-2 * SIZE[t]:] for k in range(n)]


def box(sh, lo, hi):
    return list(itertools.product(*[range(lo(d), hi(d)) for d in sh]))


# ------------------------------------------------------------------------ C08

def C08(ctx):
    rng = ctx.rng
    mc = ctx.background(ctx.model, "TensorMC", "TensorMC.cfg", what="index bijection over all small shapes")
    cases = []
    n = 0
    shapes = [list(s) for r in range(0, 4) for s in itertools.product(range(0, 4), repeat=r)]
    shapes += [[2, 1, 2, 2], [1, 2, 3, 2], [2, 2, 2, 2, 2], [3, 1, 2, 1, 2], [5], [7, 3], [2, 5, 3], [1, 1, 1, 1, 1, 1]]
    if not ctx.quick:
        shapes += [list(s) for s in itertools.product(range(0, 3), repeat=4)] + [[1, 2, 2, 1, 3, 2], [4, 5, 6], [11, 13], [64, 3]]
    for sh in shapes:
        for f in (0, 1):
            t = ["i4", "u2", "f8", "c16", "U"][n % 5]
            size = count(sh)
            c = TC("idx-%s-%d" % ("x".join(map(str, sh)), f))
            c.new("t", t, sh, f)
            if size:
                c.bulk("t", distinct(t, size), ["vec", "ptr", "move"][n % 3])
            wide = 2 if len(sh) <= 2 else 1
            s_idx = box(sh, lambda d: -d - wide, lambda d: d + wide)
            u_idx = box(sh, lambda d: 0, lambda d: d + wide)
            lim = ctx.n(400, 3000)
            if len(s_idx) > lim:
                s_idx = rng.sample(s_idx, lim)
            # wrong numbers of components, far away components
            odd = []
            for k in {0, 1, 2, 3, 4, 5, 6} - {len(sh)}:
                odd += [[0] * k, [rng.choice([0, 1, -1])] * k]
            if sh:
                for far in (2 ** 31 - 1, -2 ** 31, 1 << 16, -(1 << 16), 1 << 30):
                    k = rng.randrange(len(sh))
                    odd.append([far if j == k else 0 for j in range(len(sh))])
            for form in SIGNED:
                c.sweep("t", (s_idx + [o for o in odd]) if s_idx or odd else [[]], form)
            for form in UNSIGNED:
                far = [[x & 0x7fffffff for x in o] for o in odd]
                c.sweep("t", u_idx + far, form)
            # writes, each through a different form; then failing ones
            ok = [i for i in s_idx if all(-d <= x < d for x, d in zip(i, sh))]
            oku = [i for i in u_idx if all(x < d for x, d in zip(i, sh))]
            for k, i in enumerate(rng.sample(ok, min(len(ok), 4))):
                c.set("t", list(i), distinct(t, 1, 70 + k)[0], ["set", "call"][k % 2])
            for k, i in enumerate(rng.sample(oku, min(len(oku), 3))):
                c.set("t", list(i), distinct(t, 1, 80 + k)[0], "setvec")
            bad = [i for i in s_idx if not all(-d <= x < d for x, d in zip(i, sh))]
            badu = [i for i in u_idx if not all(x < d for x, d in zip(i, sh))]
            for k, i in enumerate(rng.sample(bad, min(len(bad), 4)) + odd[:4]):
                c.set("t", list(i), distinct(t, 1, 90)[0], ["set", "call"][k % 2])
            for k, i in enumerate(rng.sample(badu, min(len(badu), 3)) + odd[:3]):
                c.set("t", [abs(x) for x in i], distinct(t, 1, 91)[0], "setvec")
            n += 1
            cases.append(c)
    # large dimensions: offsets beyond 2^31 cannot be stored, but indices near the end of long axes can
    for sh in ctx.n([[100003], [2, 50000], [70000, 3], [2, 3, 70000], [70000, 3, 2], [3, 70000, 2], [2, 2, 66000, 1, 2], [1, 1, 300, 300, 2], [257] * 2 + [3]],
                    [[100003], [2, 50000], [70000, 3], [2, 3, 70000], [70000, 3, 2], [3, 70000, 2], [2, 2, 66000, 1, 2], [1, 1, 300, 300, 2], [257] * 2 + [3],
                     [2, 3, 1 << 20], [1 << 20, 2, 3], [17] * 5, [3] * 13, [2] * 21, [1 << 24, 2], [5, 1 << 22], [70000, 1, 70]]):
        for f in (0, 1):
            idx = [[rng.choice([0, 1, d - 1, d - 1, d, -1, -d, -d - 1] + [rng.randrange(d)] * 6) for d in sh] for _ in range(60)]
            idx += [[rng.choice([0, d - 1, rng.randrange(d), -1, -d]) for d in sh] for _ in range(30)]
            big = TC("long-%s-%d" % ("x".join(map(str, sh)), f))
            big.add("amake d=t t=i4 f=%d sh=%s fill=ramp:0" % (f, ",".join(map(str, sh))), None)
            for form in ("get", "call", "ccall", "ravel"):
                if "call" in form and len(sh) > 6:
                    continue  # (the driver's calls have up to six arguments)
                big.add("tsweepq d=t form=%s is=%s" % (form, ";".join(",".join(map(str, i)) for i in idx)),
                        {"op": "rsweep", "sh": sh, "f": f, "idx": idx, "form": form})
            uidx = [[x % d if x != d else d for x, d in zip(i, sh)] for i in idx]
            for form in UNSIGNED:
                big.add("tsweepq d=t form=%s is=%s" % (form, ";".join(",".join(map(str, i)) for i in uidx)),
                        {"op": "rsweep", "sh": sh, "f": f, "idx": uidx, "form": form})
            cases.append(big)
    # more elements than 32 bits can count
    huge = []
    for i, (sh, f) in enumerate(ctx.n([([65540, 65537], 0), ([65540, 65537], 1), ([2 ** 32 + 5], 0), ([3, 2 ** 31], 0), ([2 ** 31 + 3, 2], 1), ([2 ** 30, 2, 2], 1)],
                                      [(s, f) for s in ([65540, 65537], [2 ** 32 + 5], [3, 2 ** 31], [2 ** 31 + 3, 2], [2 ** 30, 2, 2], [2, 2 ** 30, 2], [3, 3, 2 ** 29], [1, 2 ** 32 + 1], [2 ** 32 + 1, 1], [5, 2 ** 30], [1291, 1831, 1823])
                                       for f in (0, 1)])):
        for form in ("ints", "vec"):
            idx = []
            for k in range(60):
                x = []
                for d in sh:
                    v = rng.choice([0, d - 1, rng.randrange(d), rng.randrange(d), d // 2, min(d - 1, 2 ** 31 - 1), min(d - 1, 2 ** 31)] + [d, d + 1] * (k % 4 == 0))
                    if form == "ints":
                        v = rng.choice([v, v - d])
                        if rng.random() < .05:
                            v = -d - 1
                        if not -2 ** 31 <= v < 2 ** 31:
                            v = v - d if -2 ** 31 <= v - d < 0 else rng.choice([-1, -2 ** 31, 2 ** 31 - 1, -rng.randrange(2 ** 31)])
                    x.append(v)
                idx.append(x)
            c = TC("huge-%d-%s" % (i, form))
            c.add("thuge sh=%s f=%d form=%s is=%s" % (",".join(map(str, sh)), f, form, ";".join(",".join(map(str, x)) for x in idx)),
                  {"op": "thuge", "sh": [w8(d) for d in sh], "f": f, "form": form, "idx": [[{"n": int(v < 0), "w": w8(abs(v))} for v in x] for x in idx]})
            huge.append(c)
    hg = ctx.background(ctx.validate, "TensorTrace", huge, as_mb=12000, cpu=120, sample=0, jobs=2)
    ctx.validate("TensorTrace", cases)
    hg()
    mc()


# ------------------------------------------------------------------------ C09

def C09(ctx):
    rng = ctx.rng
    mc = ctx.background(programs, ctx, ctx.n("TensorMC.cfg", "TensorMCBig.cfg"), ctx.n(6, 1))
    cases = []
    n = 0
    for t in TYPES:
        for sh in SHAPES:
            f = [-1, 0, 1][n % 3]
            c = TC("new-%s-%d" % (t, n))
            size = count(sh)
            c.new("a", t, sh, f).copy("b", "a")
            e1 = distinct(t, size, 3)
            if size:
                c.bulk("a", e1, ["vec", "ptr", "move"][n % 3]).poke("a", size - 1, distinct(t, 1, 40)[0], ["data", "it"][n % 2])
            for k in {0, 1, size - 1, size + 1, 2 * size + 1} - {size, -1}:
                c.bulk("a", distinct(t, k, 50), ["vec", "ptr", "move"][(n + k) % 3])
            c.assign("b", "a").copy("d", "b")
            if size:
                c.poke("b", 0, distinct(t, 1, 41)[0]).poke("d", size - 1, distinct(t, 1, 42)[0], "it")
            c.move("e", "d").massign("a", "e", n % 2)
            if n % 2:
                c.assign("e", "b")
            c.assign("b", "b").delete("a").new("g", t, [0], 1).massign("g", "b", 0)
            cases.append(c)
            n += 1
    # a tensor takes over another which differs in shape, order, both or neither, and is indexed and updated afterwards
    forms = [[2, 3], [3, 2], [6, 1], [1, 6], [6], [2, 2], [2, 4], [1, 2, 3], [3, 2, 1], [2, 1, 3], [0, 3], []]
    for i, (x, y) in enumerate(itertools.product(forms, forms)):
        for how in ("assign", "massign", "twice"):
            for fx, fy in ((0, 0), (1, 1), (0, 1), (1, 0)):
                if ctx.quick and (i + fx + 2 * fy + len(how)) % 3 and len(x) != len(y):
                    continue
                t = TYPES[(i + fx) % len(TYPES)]
                c = TC("over-%d-%s-%d%d" % (i, how, fx, fy))
                c.new("a", t, x, fx).new("b", t, y, fy)
                if count(x):
                    c.bulk("a", distinct(t, count(x), 60))
                if count(y):
                    c.bulk("b", distinct(t, count(y), 3), ["vec", "ptr", "move"][i % 3])
                c.bulkfrom("a", "a", ["vec", "ptr"][i % 2])
                if (i + fx) % 3 == 0:
                    c.bulkfrom("a", "b", ["ptr", "vec"][i % 2]).bulkfrom("b", "a", ["vec", "ptr"][i % 2])
                if how == "assign":
                    c.assign("a", "b")
                elif how == "massign":
                    c.massign("a", "b", i % 2)
                else:
                    c.copy("d", "a").massign("a", "b", 1).assign("b", "d").copy("e", "b").massign("b", "a", 0)
                    c.assign("e", "b")
                d = "b" if how == "twice" else "a"
                c.sweep(d, box(y, lambda n: 0, lambda n: n), "get")
                if count(y):
                    c.set(d, [n - 1 for n in y], distinct(t, 1, 77)[0]).set(d, [-n for n in y], distinct(t, 1, 78)[0], "call" if y else "set")
                cases.append(c)
    for i in range(ctx.n(250, 5000)):
        c = TC("rnd-%d" % i)
        t = rng.choice(TYPES)
        live, moved = {}, set()
        for _ in range(rng.randrange(4, 22)):
            d = rng.choice("abcd")
            k = rng.random()
            if not live or k < 0.15:
                sh = rng.choice(SHAPES)
                f = rng.choice([-1, 0, 1])
                c.new(d, t, sh, f)
                live[d] = sh
                moved.discard(d)
                continue
            s = rng.choice(sorted(live))
            if k < 0.27:
                c.copy(d, s)
                live[d] = live[s]
                moved.discard(d)
            elif k < 0.39 and (d in live or d in moved):
                c.assign(d, s)
                live[d] = live[s]
                moved.discard(d)
            elif k < 0.47 and d != s:
                c.move(d, s)
                live[d] = live.pop(s)
                moved.discard(d)
            elif k < 0.55 and d != s and (d in live or d in moved):
                keep = rng.randrange(2)
                c.massign(d, s, keep)
                live[d] = live.pop(s)
                moved.discard(d)
                if keep:
                    moved.add(s)
            elif k < 0.72:
                sz = count(live[s])
                m = sz if rng.random() < 0.7 else rng.choice([0, 1, sz + 1, max(0, sz - 1)])
                c.bulk(s, distinct(t, m, rng.randrange(1, 90)), rng.choice(["vec", "ptr", "move"]))
            elif k < 0.9 and count(live[s]):
                sh = live[s]
                c.set(s, [rng.randrange(-x, x) for x in sh], distinct(t, 1, rng.randrange(1, 90))[0], rng.choice(["set", "call"]) if len(sh) <= 6 else "set")
            elif count(live[s]):
                c.poke(s, rng.randrange(count(live[s])), distinct(t, 1, rng.randrange(1, 90))[0], rng.choice(["data", "it"]))
        cases.append(c)
    # shapes whose number of elements cannot be counted
    for i, sh in enumerate([[2 ** 63, 2], [2 ** 32, 2 ** 32], [2 ** 64 - 1, 2], [2 ** 16] * 4, [6148914691236517206, 3], [2 ** 33, 2 ** 33, 2 ** 33]]):
        c = TC("big-%d" % i)
        c.new("a", "u1", [2]).newbig("b", ["u1", "f8", "U"][i % 3], sh)
        cases.append(c)
    ctx.validate("TensorTrace", cases, as_mb=2000)
    ctx.validate("TensorTrace", mc(), sample=0)
    if not ctx.quick:
        ctx.validate("TensorTrace", cases[:1200], exe=ctx.exe("asan"), as_mb=0, cpu=60, sample=0,
                     env={"ASAN_OPTIONS": "allocator_may_return_null=1:max_allocation_size_mb=2000:detect_leaks=0"})
