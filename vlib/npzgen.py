"""Cases for archives (spec/Npz.tla): contents of arrays are digests."""
from .core import Case
from .npygen import *


def nb(name):
    return name if isinstance(name, bytes) else name.encode()


def digests(r):
    return r


class ZC(Case):
    def make(self, d, a):
        w = "0"
        if a["t"] == "U":   # digests do not see that NULs at the end are dropped: use strings without
            el = []
            for x in a["el"]:
                q = x.split(".")
                while q and q[-1] == "0":
                    q.pop()
                el.append(".".join(q) or "-")
            a = dict(a, el=el)
            w = str(max([0 if x == "-" else len(x.split(".")) for x in el] or [0]))
        ev = {"op": "amake", "d": d, "a": {"t": a["t"], "f": a["f"], "sh": [str(x) for x in a["sh"]], "w": w, "dg": ""}}
        return self.add(amake_line(d, a), ev)

    def fill(self, d, t, f, sh, how):
        ev = {"op": "amake", "d": d, "a": {"t": t, "f": f, "sh": [str(x) for x in sh], "w": "?" if t == "U" else "0", "dg": ""}}
        return self.add("amake d=%s t=%s f=%d sh=%s fill=%s" % (d, t, f, ",".join(map(str, sh)), how), ev)

    def fsave(self, p, d, en="D", form="free"):
        return self.add("fsave p=%s d=%s en=%s form=%s" % (p, d, en, form), {"op": "fsave", "p": p, "d": d, "en": en})

    def fload(self, p, t, form="free"):
        return self.add("fload p=%s t=%s form=%s dg=1" % (p, t, form), {"op": "fload", "p": p, "t": t})

    def seq(self, ds, es="L,B", kind="m", piece=64):
        """save the arrays ds on one stream, load them one by one"""
        return self.add("seq ds=%s es=%s kind=%s p=seq piece=%d" % (",".join(ds), es, kind, piece), {"op": "seq", "ds": list(ds)})

    def fpeek(self, p):
        return self.add("fpeek p=%s" % p, {"op": "fpeek", "p": p})

    def wopen(self, w, kind, p="", m=0, en="D", form="str"):
        """m None: no constructor options; en "D": the default byte order."""
        l = "wopen w=%s kind=%s p=%s form=%s" % (w, kind, p, form)
        if m is not None:
            l += " m=%d" % m
            if en != "D":
                l += " en=%s" % en
        return self.add(l, {"op": "wopen", "w": w, "kind": kind, "p": p, "m": m or 0, "en": en})

    def wwrite(self, w, name, d, cst=0):
        n = nb(name)
        return self.add("wwrite w=%s name=%s d=%s%s" % (w, n.hex(), d, " cst=%d" % cst if cst else ""),
                        {"op": "wwrite", "w": w, "name": list(n), "d": d})

    def cthrow(self, d, t="<i4", after=3):
        """a user tensor whose save throws after some bytes"""
        return self.add("cnew d=%s sh=2 code=%s f=0 pay=0102030405060708 throw=%d%s" % (d, t.encode().hex(), after, an_exc()))

    def wthrow(self, w, name, d):
        return self.add("cwrite w=%s name=%s d=%s" % (w, nb(name).hex(), d), {"op": "wthrow", "w": w})

    def wstr(self, w, b):
        return self.add("wstr w=%s b=%s" % (w, b), {"op": "wstr", "w": w, "b": b})

    def wclose(self, w):
        return self.add("wclose w=%s" % w, {"op": "wclose", "w": w})

    def wisopen(self, w):
        return self.add("wisopen w=%s" % w, {"op": "wisopen", "w": w})

    def wdel(self, w):
        return self.add("wdel w=%s%s" % (w, an_end()), {"op": "wdel", "w": w})

    def bload(self, b, p):
        return self.add("bload b=%s p=%s" % (b, p), {"op": "bload", "b": b, "p": p})

    def bsave(self, b, p):
        return self.add("bsave b=%s p=%s" % (b, p), {"op": "bsave", "b": b, "p": p})

    def bdamage(self, b, c, name, back=0, at="data"):
        n = nb(name)
        return self.add("bdamage b=%s d=%s name=%s back=%d at=%s" % (b, c, n.hex(), back, at),
                        {"op": "bdamage", "b": b, "d": c, "name": list(n)})

    def fforeign(self, p, parts, ents):
        """a file made elsewhere: parts [(offset, bytes)]; ents [(stored name, array)]"""
        return self.add("fsparse p=%s parts=%s" % (p, ";".join("%d:%s" % (o, b.hex()) for o, b in parts)),
                        {"op": "fforeign", "p": p, "ents": [{"n": list(n), "d": d} for n, d in ents]})

    def bjunk(self, b, data):
        return self.add("bset b=%s hex=%s" % (b, data.hex()), {"op": "bjunk", "b": b})

    def bdig(self, b):
        return self.add("bdig b=%s" % b, {"op": "bdig", "b": b})

    def ropenb(self, x, b, form="copy"):
        return self.add("ropen x=%s kind=s b=%s form=%s" % (x, b, form), {"op": "ropenb", "x": x, "b": b})

    def ropenf(self, x, p, form="str"):
        return self.add("ropen x=%s kind=f p=%s form=%s" % (x, p, form), {"op": "ropenf", "x": x, "p": p})

    def rkeys(self, x):
        return self.add("rkeys x=%s" % x, {"op": "rkeys", "x": x})

    def rhas(self, x, name):
        n = nb(name)
        return self.add("rhas x=%s name=%s" % (x, n.hex()), {"op": "rhas", "x": x, "name": list(n)})

    def rpeek(self, x, name):
        n = nb(name)
        return self.add("rpeek x=%s name=%s" % (x, n.hex()), {"op": "rpeek", "x": x, "name": list(n)})

    def rread(self, x, name, t, form="one", d=""):
        n = nb(name)
        return self.add("rread x=%s name=%s t=%s form=%s dg=1%s" % (x, n.hex(), t, form, " d=" + d if d else ""),
                        {"op": "rread", "x": x, "name": list(n), "t": t, "d": d})

    def rclose(self, x):
        return self.add("rclose x=%s" % x, {"op": "rclose", "x": x})

    def risopen(self, x):
        return self.add("risopen x=%s" % x, {"op": "risopen", "x": x})

    def rmove(self, x, y):
        return self.add("rmove x=%s y=%s" % (x, y), {"op": "rmove", "x": x, "y": y})

    def rdel(self, x):
        return self.add("rdel x=%s" % x, {"op": "rdel", "x": x})

    def locale(self, grp=None, sep=",", dp=".", ctype=None):
        l = "locale"
        if grp is not None:
            l += " grp=%s sep=%s dp=%s" % (grp.hex(), sep.encode().hex(), dp.encode().hex())
        if ctype:
            l += " ctype=" + ctype
        return self.add(l, {"op": "locale"})
