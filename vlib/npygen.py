"""Cases for the NPY domain (spec/Npy.tla)."""
import itertools, struct
from .core import Case, el_json

EXCS = itertools.cycle(["", "ios", "rt", "ia", "oor", "len", "mem", "cast", "tag"])


def an_exc():
    """the sort of exception a user type throws"""
    k = next(EXCS)
    return " exc=" + k if k else ""


UNWINDS = itertools.cycle(["", "", " un=1"])


def an_end():
    """a writer ends quietly, or while an exception passes"""
    return next(UNWINDS)


def w8(n):
    """a wide number"""
    return list(struct.pack("<Q", n))


TYPES = ["i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f4", "f8", "c8", "c16", "b1", "U"]
SIZE = {"i1": 1, "u1": 1, "b1": 1, "i2": 2, "u2": 2, "i4": 4, "u4": 4, "f4": 4, "i8": 8, "u8": 8, "f8": 8,
        "c8": 8, "c16": 16}
ENS = ["L", "B", "N", "D"]          # D: the default argument
SHAPES = [[], [0], [1], [3], [2, 2], [0, 3], [3, 0], [2, 1, 3], [1, 1, 1, 1], [7], [2, 3, 2], [1, 0, 2], [12], [1] * 9]

SPECIAL = [0x00, 0x01, 0x0a, 0x0d, 0x1a, 0x20, 0x7f, 0x80, 0xfe, 0xff]


def rand_el(rng, t):
    if t == "U":
        n = rng.choice([0, 1, 1, 2, 3, 5]) if rng.random() < 0.9 else rng.choice([7, 8, 9, 15, 16, 17, 20, 31, 33, 64, 100])
        cps = [rng.choice([0, 1, 0x41, 0x7f, 0x80, 0xe9, 0xff, 0x100, 0x3bb, 0xfeff, 0xffff, 0x10000, 0x1f600, 0x10ffff])
               for _ in range(n)]
        if n and rng.random() < 0.8 and cps[-1] == 0:
            cps[-1] = 0x62
        return ".".join("%x" % c for c in cps) or "-"
    if t == "b1":
        return rng.choice(["00", "01"])
    if rng.random() < 0.3:
        sp = {"f4": ["7fc00000", "7f800000", "ff800000", "80000000", "7f800001", "ffc12345", "00000001", "3f800000"],
              "f8": ["7ff8000000000000", "7ff0000000000000", "fff0000000000000", "8000000000000000",
                     "7ff0000000000001", "fff8000000abcdef", "0000000000000001", "3ff0000000000000"]}
        if t in sp:
            return rng.choice(sp[t])
        if t == "c8":
            return rng.choice(sp["f4"]) + rng.choice(sp["f4"])
        if t == "c16":
            return rng.choice(sp["f8"]) + rng.choice(sp["f8"])
    return "".join("%02x" % (rng.choice(SPECIAL) if rng.random() < 0.5 else rng.randrange(256)) for _ in range(SIZE[t]))


def count(sh):
    n = 1
    for d in sh:
        n *= d
    return n


# zero-size arrays may have any extents
WIDE = [9, 10, 99, 100, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 53 + 1]


def rand_shape(rng):
    """Mostly small; now and then of many dimensions, long, or empty with huge extents."""
    x = rng.random()
    if x < 0.88:
        return rng.choice(SHAPES)
    if x < 0.92:
        sh = [1] * rng.choice([10, 16, 17, 20, 31, 32, 33, 34, 63, 64, 65, 66, 100, 130])
        sh[rng.randrange(len(sh))] = rng.choice([0, 1, 2, 3])
        return sh
    if x < 0.96:
        return [rng.choice([15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129])]
    sh = [rng.choice([0, 1, 2]), rng.choice([0, 1])]
    sh[rng.randrange(2)] = 0
    sh.insert(rng.randrange(3), rng.choice(WIDE))
    return sh


def rand_arr(rng, t=None, sh=None, f=None):
    t = t or rng.choice(TYPES)
    sh = rand_shape(rng) if sh is None else sh
    f = rng.randrange(2) if f is None else f
    return {"t": t, "f": f, "sh": sh, "el": [rand_el(rng, t) for _ in range(count(sh))]}


def arr_event(a):
    return {"t": a["t"], "f": a["f"], "sh": [str(d) for d in a["sh"]],
            "el": [el_json(a["t"], x) for x in a["el"]]}


def amake_line(d, a):
    return "amake d=%s t=%s f=%d sh=%s el=%s" % (d, a["t"], a["f"], ",".join(map(str, a["sh"])), ",".join(a["el"]))


# formatting flags (h), no skipping of white space (s), a locale (l), unit buffering (u)
DRESS = ["", "h", "", "sl", "", "hsul", ""]
# a sink which cannot seek
SINKS = ["", "", "1", "", ""]


class NC(Case):
    """Case builder with one method per action of Npy."""

    def make(self, d, a):
        return self.add(amake_line(d, a), {"op": "amake", "d": d, "a": arr_event(a)})

    def snew(self, s, kind="m"):
        return self.add("snew s=%s kind=%s p=%s.bin%s" % (s, kind, s, self.turn("fl", DRESS)), {"op": "snew", "s": s})

    turns = {}

    # what the user's streams are like, which is nothing the specification knows: every stream
    # and every save takes the next kind
    def turn(self, name, kinds):
        n = NC.turns[name] = NC.turns.get(name, -1) + 1
        x = kinds[n % len(kinds)]
        return " %s=%s" % (name, x) if x else ""

    def sput(self, s, b):
        return self.add("sput s=%s hex=%s" % (s, b.hex()), {"op": "sput", "s": s, "b": list(b)})

    def sset(self, s, b):
        return self.add("sset s=%s hex=%s" % (s, b.hex()), {"op": "sset", "s": s, "b": list(b)})

    def sseek(self, s, pos):
        return self.add("sseek s=%s pos=%d" % (s, pos), {"op": "sseek", "s": s, "pos": pos})

    def ssave(self, s, d, en="D", form="one"):
        return self.add("ssave s=%s d=%s en=%s form=%s%s" % (s, d, en, form, self.turn("sink", SINKS)), {"op": "ssave", "s": s, "d": d, "en": en})

    def sload(self, s, t, d="", form="one"):
        return self.add("sload s=%s t=%s form=%s%s" % (s, t, form, " d=" + d if d else ""),
                        {"op": "sload", "s": s, "t": t, "d": d})

    def pload(self, s, t, frm, piece=1, form="one"):
        return self.add("sload s=%s t=%s form=%s pipe=%d from=%d" % (s, t, form, piece, frm),
                        {"op": "pload", "s": s, "t": t, "from": frm})

    def speek(self, s, form="peek"):
        return self.add("speek s=%s form=%s" % (s, form), {"op": "speek", "s": s})

    def ppeek(self, s, frm, piece=1):
        return self.add("speek s=%s form=peek pipe=%d from=%d" % (s, piece, frm), {"op": "ppeek", "s": s, "from": frm})

    def hinfo(self, b):
        return self.add("hinfo hex=%s" % b.hex(), {"op": "hinfo", "b": list(b)})

    def padded(self, op, head, pad, post, t, keep=None):
        """load ("lpad") or peek ("lpeek") a version 2.0 image with pad spaces behind its dictionary"""
        return self.add("%s head=%s pad=%d post=%s t=%s%s" % (op, head.hex(), pad, post.hex(), t, "" if keep is None else " keep=%d" % keep),
                        {"op": op, "head": list(head), "pad": w8(pad), "post": list(post), "t": t, "whole": int(keep is None)})

    def fwrite(self, p, b):
        return self.add("fwrite p=%s hex=%s" % (p, b.hex()), {"op": "fwrite", "p": p, "b": list(b)})

    def fdel(self, p):
        return self.add("fdel p=%s" % p, {"op": "fdel", "p": p})

    def fsave(self, p, d, en="D", form="free"):
        return self.add("fsave p=%s d=%s en=%s form=%s" % (p, d, en, form), {"op": "fsave", "p": p, "d": d, "en": en})

    def fsavebad(self, p, d, form="free"):
        return self.add("fsave p=%s d=%s en=D form=%s" % (p, d, form), {"op": "fsavebad", "p": p})

    def fread(self, p):
        return self.add("fread p=%s" % p, {"op": "fread", "p": p})

    def fload(self, p, t, d="", form="free"):
        return self.add("fload p=%s t=%s form=%s%s" % (p, t, form, " d=" + d if d else ""),
                        {"op": "fload", "p": p, "t": t, "d": d})

    def fpeek(self, p):
        return self.add("fpeek p=%s" % p, {"op": "fpeek", "p": p})

    def locale(self, grp=None, sep=",", dp=".", ctype=None):
        l = "locale"
        if grp is not None:
            l += " grp=%s sep=%s dp=%s" % (grp.hex(), sep.encode().hex(), dp.encode().hex())
        if ctype:
            l += " ctype=" + ctype
        return self.add(l, {"op": "locale"})


SAVE_S = ["one", "two", "full"]
SAVE_F = ["free", "member", "two", "const", "cstr"]
LOAD_S = ["one", "member"]
LOAD_F = ["free", "member", "two", "cstr"]


# ------------------------------------------------------- an independent writer
# (only used to produce inputs; what they mean is decided by the specification)

def py_image(a, en, version=1, pre_ws="", extra_pad=0, header=None, data=None):
    t = a["t"]
    mark = "|" if t in ("i1", "u1", "b1") else (">" if en == "B" else "<")
    w = max([0 if x == "-" else len(x.split(".")) for x in a["el"]] or [0]) if t == "U" else 0
    descr = mark + (t if t != "U" else "U%d" % w)
    if header is None:
        sh = a["sh"]
        tup = "(" + ", ".join(map(str, sh)) + ("," if len(sh) == 1 else "") + ")"
        header = "{'descr': '%s', 'fortran_order': %s, 'shape': %s, }" % (descr, bool(a["f"]), tup)
    if data is None:
        data = b"".join(py_el(t, x, en, w) for x in a["el"])
    return wrap(header.encode("latin1"), version, extra_pad) + data


def wrap(h, version=1, extra_pad=0, align=64, newline=b"\n"):
    pre = 10 if version == 1 else 12
    n = pre + len(h) + 1
    pad = (-n) % align + extra_pad
    h = h + b" " * pad + newline
    if version == 1:
        return b"\x93NUMPY\x01\x00" + struct.pack("<H", len(h)) + h
    return b"\x93NUMPY" + bytes([version, 0]) + struct.pack("<I", len(h)) + h


def py_el(t, x, en, w):
    if t == "U":
        cps = [] if x == "-" else [int(c, 16) for c in x.split(".")]
        cps += [0] * (w - len(cps))
        return b"".join(struct.pack(">I" if en == "B" else "<I", c) for c in cps)
    b = bytes.fromhex(x)
    if en == "B":
        return b
    if t in ("c8", "c16"):
        h = len(b) // 2
        return b[:h][::-1] + b[h:][::-1]
    return b[::-1]
