"""Cases for archives as bytes (spec/Zip.tla)."""
from .core import Case
from .npygen import *


def nb(name):
    return name if isinstance(name, bytes) else name.encode("utf-8", "surrogateescape")


class BC(Case):
    def make(self, d, a):
        return self.add(amake_line(d, a), {"op": "amake", "d": d, "a": arr_event(a)})

    def wopen(self, w, kind, p="", m=0, en="D", form="str"):
        l = "wopen w=%s kind=%s p=%s form=%s" % (w, kind, p, form)
        if m is not None:
            l += " m=%d" % m
            if en != "D":
                l += " en=%s" % en
        return self.add(l, {"op": "wopen", "w": w, "m": m or 0, "en": en})

    def wwrite(self, w, name, d, cst=0):
        n = nb(name)
        return self.add("wwrite w=%s name=%s d=%s%s" % (w, n.hex(), d, " cst=1" if cst else ""),
                        {"op": "wwrite", "w": w, "name": list(n), "d": d})

    def cthrow(self, d, after=3):
        return self.add("cnew d=%s sh=2 code=%s f=0 pay=0102030405060708 throw=%d%s" % (d, b"<i4".hex(), after, an_exc()))

    def wthrow(self, w, name, d):
        return self.add("cwrite w=%s name=%s d=%s" % (w, nb(name).hex(), d), {"op": "wthrow", "w": w})

    def wclose(self, w):
        return self.add("wclose w=%s" % w, {"op": "wclose", "w": w})

    def wdel(self, w):
        return self.add("wdel w=%s%s" % (w, an_end()), {"op": "wdel", "w": w})

    def wbytes(self, w, b):
        """contents of an in-memory writer"""
        return self.add("wstr w=%s b=%s" % (w, b)).add("bget b=%s" % b, {"op": "wbytes", "w": w, "d": b})

    def fbytes(self, w, p, b):
        """contents of the file of a writer"""
        return self.add("bload b=%s p=%s" % (b, p)).add("bget b=%s" % b, {"op": "wbytes", "w": w, "d": b})

    def mset(self, b, data):
        return self.add("bset b=%s hex=%s" % (b, data.hex()), {"op": "mset", "d": b, "b": list(data)})

    def ropen(self, x, b, kind="s", form="str"):
        if kind == "s":
            return self.add("ropen x=%s kind=s b=%s form=%s" % (x, b, form), {"op": "ropen", "x": x, "d": b})
        return (self.add("bsave b=%s p=in.npz" % b)
                .add("ropen x=%s kind=f p=in.npz form=%s" % (x, form), {"op": "ropen", "x": x, "d": b}))

    def rkeys(self, x):
        return self.add("rkeys x=%s" % x, {"op": "rkeys", "x": x})

    def rhas(self, x, name):
        n = nb(name)
        return self.add("rhas x=%s name=%s" % (x, n.hex()), {"op": "rhas", "x": x, "name": list(n)})

    def rpeek(self, x, name):
        n = nb(name)
        return self.add("rpeek x=%s name=%s" % (x, n.hex()), {"op": "rpeek", "x": x, "name": list(n)})

    def rread(self, x, name, t, form="one"):
        n = nb(name)
        return self.add("rread x=%s name=%s t=%s form=%s" % (x, n.hex(), t, form),
                        {"op": "rread", "x": x, "name": list(n), "t": t})

    def probe(self, b, names, tys, ev, kind="s"):
        return self.add("probe b=%s kind=%s p=pr.npz names=%s tys=%s" %
                        (b, kind, ",".join(nb(n).hex() for n in names), ",".join(tys)), ev)

    def pref(self, b, names, tys, kind="s"):
        return self.probe(b, names, tys, {"op": "pref", "d": b, "names": [list(nb(n)) for n in names]}, kind)

    def pedit(self, b, data, off, n, ins, names, tys, kind="s"):
        """probe the bytes data with n of them behind off replaced by ins"""
        self.add("bset b=%s hex=%s" % (b, (data[:off] + ins + data[off + n:]).hex()))
        return self.probe(b, names, tys, {"op": "pedit", "off": off, "n": n, "ins": list(ins)}, kind)

    def plate(self, o, data, names, tys, ask):
        """the file of a reader of the bytes in slot o becomes data"""
        self.add("bset b=late hex=%s" % data.hex())
        return self.add("probe b=late o=%s kind=late p=pl.npz names=%s tys=%s%s" % (o, ",".join(nb(n).hex() for n in names), ",".join(tys), " ask=1" if ask else ""),
                        {"op": "plate"})
