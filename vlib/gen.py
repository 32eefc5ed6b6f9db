"""Concrete payloads for the opaque identifiers of the specification."""
import struct
from .core import H

def f32(x): return struct.unpack("f", struct.pack("f", x))[0]
def num(x):
    s = "%.9g" % f32(x)
    return s

NASTY = [b"", b" ", b"\"", b"\\", b"\n", b"=", b"\r", b"n", b"\\n", b"\"\"", b"a=b", b"\xc3\xa9", b"\xff", b"\x80\xfe", b"\x01\x1f\x7f", b"@@TRAX:quit \n",
         b"\n@@TRAX:quit\n", b"tab\there", b"%s%n%d", b"=\"=\\", b" lead", b"trail ", b"\\\\\"", b";,:", b"k=\"v\" "]

def rbytes(rng, maxlen=24):
    k = rng.random()
    if k < 0.35: return rng.choice(NASTY)
    if k < 0.5: return rng.choice(NASTY) + rng.choice(NASTY)
    if k < 0.7: return bytes(rng.choice(b"abcXYZ019/._-") for _ in range(rng.randint(1, maxlen)))
    return bytes(rng.randint(1, 255) for _ in range(rng.randint(1, maxlen)))

KEYCHARS = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._"
def rkey(rng):
    k = rng.random()
    if k < 0.6: return bytes(rng.choice(KEYCHARS) for _ in range(rng.randint(1, 8)))
    if k < 0.7: return bytes(rng.choice(KEYCHARS) for _ in range(rng.choice([63, 64])))
    return rng.choice([b"a", b"x.y", b"_", b".", b"0", b"key_1", b"tag", b"n", b"color"])

class Props(dict):
    def lit(self):
        if not self: return "-"
        return "&".join(H(k) + "=" + H(v) for k, v in self.items())
    def out(self):
        if not self: return "-"
        return "&".join(H(k) + "=" + H(v) for k, v in sorted(self.items()))
    def wire(self): return [(k, v) for k, v in self.items()]

def rprops(rng, lo=1, hi=4, prefix=b""):
    p = Props()
    for _ in range(rng.randint(lo, hi)):
        k = rkey(rng)
        if not k.startswith(b"trax."): p[prefix + k] = rbytes(rng)
    return p

# ---- regions: literal, the literal a receiver must show, and the wire text
class Region:
    def __init__(self, lit, out, text): self.lit, self.out, self.text = lit, out, text

def quarter(rng, lo=-200, hi=200):
    return rng.randint(lo * 4, hi * 4) / 4.0

def rle(bits):
    out = []; cur = "0"; run = 0
    for b in bits:
        if b != cur: out.append(run); run = 0; cur = b
        run += 1
    if cur == "1" or not out and False: out.append(run)
    return out

def mk_rect(x, y, w, h):
    l = "R:%s:%s:%s:%s" % (num(x), num(y), num(w), num(h))
    return Region(l, l, "%.4f,%.4f,%.4f,%.4f" % (x, y, w, h))
def mk_poly(pts):
    l = "G:" + ":".join(num(c) for p in pts for c in p)
    return Region(l, l, ",".join("%.4f" % c for p in pts for c in p))
def mk_mask(x, y, w, h, bits):
    l = "K:%d:%d:%d:%d:%s" % (x, y, w, h, bits)
    return Region(l, l, "mask:%d,%d,%d,%d," % (x, y, w, h) + ",".join(map(str, rle(bits) or [0])))
def mk_special(code):
    l = "S:%d" % code
    return Region(l, l, "%d" % code)

def rregion(rng, special=False, kinds=("R", "G", "K")):
    k = rng.choice(list(kinds) + (["S"] if special else []))
    if k == "S": return mk_special(rng.choice([0, 1, 2, -1, 17, 2**31 - 1 if False else 99999]))
    if k == "R": return mk_rect(quarter(rng), quarter(rng), rng.randint(4, 400) / 4.0, rng.randint(4, 400) / 4.0)
    if k == "G":
        n = rng.randint(3, 7)
        return mk_poly([(quarter(rng), quarter(rng)) for _ in range(n)])
    w, h = rng.randint(1, 9), rng.randint(1, 7)
    bits = "".join(rng.choice("01") for _ in range(w * h))
    if "1" not in bits: bits = "1" + bits[1:]
    return mk_mask(rng.randint(-20, 60), rng.randint(-20, 60), w, h, bits)

# ---- images
class Image:
    def __init__(self, lit, out, text): self.lit, self.out, self.text = lit, out, text

import base64
MEMFMT = {1: b"gray8", 2: b"gray16", 3: b"rgb"}
def mk_path(p): return Image("P:" + H(p), "P:" + H(p), b"file://" + p)
def mk_url(u): return Image("U:" + H(u), "U:" + H(u), u)
def mk_mem(w, h, f, d): return Image("M:%d:%d:%d:%s" % (w, h, f, H(d)), "M:%d:%d:%d:%s" % (w, h, f, H(d)), b"image:%d;%d;%s;" % (w, h, MEMFMT[f]) + base64.b64encode(d))
JPG = b"\xff\xd8\xff\xe0"; EXIF = b"\xff\xd8\xff\xe1"; PNG = b"\x89PNG"
def mk_buf(d):
    f = 2 if d[:3] == JPG[:3] else 1
    return Image("B:" + H(d), "B%d:%s" % (f, H(d)), b"data:image/%s;" % (b"jpeg" if f == 2 else b"png") + base64.b64encode(d))

def rimage(rng, kinds="PUMB", small=True):
    k = rng.choice(kinds)
    if k == "P":
        p = rbytes(rng)
        return mk_path(p)
    if k == "U": return mk_url(rng.choice([b"http://", b"https://", b"ftp://", b"x-y.z+w:"]) + rbytes(rng))
    if k == "M":
        w, h, f = rng.randint(1, 6), rng.randint(1, 5), rng.choice([1, 2, 3])
        return mk_mem(w, h, f, bytes(rng.randint(0, 255) for _ in range(w * h * {1: 1, 2: 2, 3: 3}[f])))
    n = rng.randint(1, 30)
    return mk_buf(rng.choice([JPG, EXIF, b"\xff\xd8\xff\xdb", PNG, PNG]) + bytes(rng.randint(0, 255) for _ in range(n)))

# ---- the peer's encoder (messages put into the channel by the script)
def esc(b): return b.replace(b"\\", b"\\\\").replace(b"\"", b"\\\"").replace(b"\n", b"\\n")
def encode(type_, args=(), props=()):
    if isinstance(type_, str): type_ = type_.encode()
    out = b"@@TRAX:" + type_ + b" "
    for a in args: out += b'"' + esc(a) + b'" '
    for k, v in (props.items() if isinstance(props, dict) else props): out += b'"' + k + b"=" + esc(v) + b'" '
    return out + b"\n"
