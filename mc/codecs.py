"""Byte-level codecs of the reference model. Never imports pyflp.

A codec describes one value stored inside an event payload:
  has(p)      whether payload p is long enough to hold it
  dec(p)      the value it reads as (normalised, see norm())
  enc(p, v)   the payload after storing v
  raws(lvl)   stored forms to enumerate (bytes of the field), lvl 1 = quick, 2 = thorough
  vals(lvl)   values to assign (as Python values accepted by the attribute)
"""
import datetime
import enum
import math
import pathlib
import struct
import types

MISSING = object()


class Raises(tuple):
    """Expected outcome of an operation: one of these exception class names."""

    def __new__(cls, *names):
        return tuple.__new__(cls, ("!",) + names)


def sig(v):
    return float("%.12g" % v)


def norm(v):
    """Normal form under which observed and expected values are compared."""
    if v is None or isinstance(v, (bytes, bool)):
        return v
    if isinstance(v, enum.Enum):
        return int(v) if isinstance(v, int) else v.name
    t = type(v).__name__
    if t == "RGBA":
        return ("rgba",) + tuple(round(x * 255, 6) for x in v)
    if isinstance(v, pathlib.PurePath):
        return str(v)
    if isinstance(v, datetime.datetime):
        return ("dt", v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond)
    if isinstance(v, datetime.timedelta):
        return ("td", v.days, v.seconds, v.microseconds)
    if isinstance(v, float):
        return sig(v)
    if isinstance(v, int):
        return int(v)
    if isinstance(v, str):
        return str(v)
    if isinstance(v, dict):
        return {norm(k): norm(x) for k, x in v.items()}
    if isinstance(v, types.GeneratorType):
        v = list(v)
    if isinstance(v, (tuple, list)):
        return tuple(norm(x) for x in v)
    if t == "FLVersion":
        return ("ver", v.major, v.minor, v.patch, v.build)
    return v


INTERESTING = (0, 1, 2, 3, 4, 5, 7, 8, 10, 12, 15, 16, 31, 32, 48, 60, 64, 100, 101, 120, 127, 128,
               131, 132, 160, 192, 200, 240, 255, 256, 320, 450, 499, 500, 512, 600, 640, 820, 999,
               1000, 1023, 1024, 1200, 1446, 1447, 1660, 1800, 2048, 3600, 4096, 4800, 5777, 6400,
               10000, 12800, 16000, 17500, 20000, 25600, 30000, 32767, 32768, 32950, 33145, 55825,
               61440, 65535, 65536, 65537, 1072693248)


def ints(n, signed, lvl):
    """Stored integers to enumerate for an n byte field, in a fixed order, without duplicates."""
    bits = 8 * n
    if n == 1 or (n == 2 and lvl >= 2):
        us = list(range(1 << bits))
    else:
        us = []
        for i in range(bits):
            us.append(1 << i)
            us.append((1 << bits) - 1 - (1 << i))
            us.append((1 << i) - 1)
        for v in INTERESTING:
            for d in (v - 1, v, v + 1, -v):
                us.append(d % (1 << bits) if -(1 << bits) < d < (1 << bits) else 0)
        for lane in range(n):
            for b in (range(256) if lvl >= 2 else range(0, 256, 5)):
                us.append(b << (8 * lane))
                us.append(((1 << bits) - 1) ^ (b << (8 * lane)))
        us.append(sum(k << (8 * k) for k in range(n)))
    seen, out = set(), []
    for u in us:
        if u not in seen:
            seen.add(u)
            out.append(u - (1 << bits) if signed and u >> (bits - 1) else u)
    return out


class Field:
    ro = False

    def __init__(self, off, size):
        self.off, self.size = off, size

    def has(self, p):
        return len(p) >= self.off + self.size

    def raw(self, p):
        return p[self.off:self.off + self.size]

    def put(self, p, raw):
        assert len(raw) == self.size
        return p[:self.off] + raw + p[self.off + self.size:]

    def dec(self, p):
        return norm(self.to(self.raw(p)))

    def enc(self, p, v):
        return self.put(p, self.fr(v, self.raw(p)))

    def key(self):
        return (self.off, self.size)

    def few(self):
        """A handful of assignable values (three when possible)."""
        v = self.vals(1)
        return [v[0], v[len(v) // 2], v[-1]] if len(v) > 3 else list(v)


class Int(Field):
    def __init__(self, off, size, signed=False):
        super().__init__(off, size)
        self.signed = signed

    def to(self, raw):
        return int.from_bytes(raw, "little", signed=self.signed)

    def fr(self, v, raw):
        return int(v).to_bytes(self.size, "little", signed=self.signed)

    def raws(self, lvl):
        return [self.fr(v, b"") for v in ints(self.size, self.signed, lvl)]

    def vals(self, lvl):
        return ints(self.size, self.signed, lvl)

    def few(self):
        m = 8 * self.size
        if self.signed:
            return [0, -(1 << (m - 1)), (1 << (m - 1)) - 1, -2, 0x15]
        return [0, (1 << m) - 1, 0x12 % (1 << m), 1 << (m - 1)]


def U(off, size):
    return Int(off, size)


def S(off, size):
    return Int(off, size, True)


class Bool(Field):
    """A truth value stored as an integer 0 / 1 of ``size`` bytes."""

    def __init__(self, off, size=1):
        super().__init__(off, size)

    def to(self, raw):
        return any(raw)

    def fr(self, v, raw):
        return int(bool(v)).to_bytes(self.size, "little")

    def raws(self, lvl):
        return [self.fr(0, b""), self.fr(1, b"")]

    def vals(self, lvl):
        return [True, False]


class Flt(Field):
    def to(self, raw):
        return struct.unpack("<f" if self.size == 4 else "<d", raw)[0]

    def fr(self, v, raw):
        return struct.pack("<f" if self.size == 4 else "<d", v)

    VALS = (0.0, 1.0, -1.0, 0.5, 0.25, -0.75, 0.1, 0.3, 1 / 3, 1.5, 2.0, 100.0, -100.5, 1e-5, 1e-30, 12345.678,
            3.4e38, -3.4e38, 1e-45, 2.0 ** -126, -0.0, float("inf"), float("-inf"))

    def raws(self, lvl):
        return [self.fr(v, b"") for v in self.VALS]

    def vals(self, lvl):
        return [self.to(self.fr(v, b"")) for v in self.VALS]


class Enum(Int):
    """Enumerated integer; observed values are compared by number (see norm) and by name."""

    def __init__(self, off, size, members, signed=False, cls=None):
        super().__init__(off, size, signed)
        self.members, self.cls = members, cls

    def raws(self, lvl):
        return [self.fr(v, b"") for v in self.members.values()]

    def vals(self, lvl):
        return [("enum", self.cls, name) for name in self.members]

    def few(self):
        return self.vals(1)

    def fr(self, v, raw):
        if isinstance(v, tuple):
            v = self.members[v[2]]
        return super().fr(v, raw)


class CEnum(Int):
    """construct.Enum: read and written by name."""

    def __init__(self, off, names):
        super().__init__(off, 4)
        self.names = names

    def to(self, raw):
        n = super().to(raw)
        return self.names[n] if n < len(self.names) else n

    def fr(self, v, raw):
        return super().fr(self.names.index(v) if isinstance(v, str) else v, raw)

    def raws(self, lvl):
        return [super(CEnum, self).fr(i, b"") for i in (*range(len(self.names) + 1), 0x10000, 0x80000001, 0xFFFFFFFF)]

    def vals(self, lvl):
        return list(self.names)

    def few(self):
        return self.vals(1)


class Bit(Field):
    def __init__(self, off, size, bit, inv=False):
        super().__init__(off, size)
        self.bit, self.inv = bit, inv

    def to(self, raw):
        return bool(int.from_bytes(raw, "little") >> self.bit & 1) != self.inv

    def fr(self, v, raw):
        n = int.from_bytes(raw, "little")
        n = n | 1 << self.bit if bool(v) != self.inv else n & ~(1 << self.bit)
        return n.to_bytes(self.size, "little")

    def raws(self, lvl):
        if self.size == 1:
            return [bytes((i,)) for i in range(256)]
        out = []
        for i in range(8 * self.size):
            out.append((1 << i).to_bytes(self.size, "little"))
            out.append(((1 << 8 * self.size) - 1 - (1 << i)).to_bytes(self.size, "little"))
        return out + [b"\0" * self.size, b"\xff" * self.size]

    def vals(self, lvl):
        return [True, False]


class Color(Field):
    def __init__(self, off=0):
        super().__init__(off, 4)

    def to(self, raw):
        return ("rgba",) + tuple(float(b) for b in raw)

    def dec(self, p):
        return self.to(self.raw(p))

    def fr(self, v, raw):
        return bytes(v[1])

    def raws(self, lvl):
        out = []
        for lane in range(4):
            for b in range(256):
                base = bytearray((7, 90, 171, 254))
                base[lane] = b
                out.append(bytes(base))
        return out

    def vals(self, lvl):
        return [("rgba", r) for r in self.raws(lvl)]

    def few(self):
        return [("rgba", b"\x01\x02\x03\x04"), ("rgba", b"\xff\x00\x80\x7f"), ("rgba", b"\0\0\0\0")]


class Pair(Field):
    def __init__(self, off, each):
        super().__init__(off, 2 * each)
        self.each = each

    def to(self, raw):
        return (int.from_bytes(raw[:self.each], "little"), int.from_bytes(raw[self.each:], "little"))

    def fr(self, v, raw):
        return b"".join(x.to_bytes(self.each, "little") for x in v)

    def raws(self, lvl):
        xs = ints(self.each, False, 1)
        return [self.fr((x, xs[(i * 7 + 3) % len(xs)]), b"") for i, x in enumerate(xs)] + \
               [self.fr((xs[(i * 5 + 1) % len(xs)], x), b"") for i, x in enumerate(xs)]

    def vals(self, lvl):
        return [self.to(r) for r in self.raws(lvl)]

    def few(self):
        m = (1 << 8 * self.each) - 1
        return [(0, m), (m, 0), (1, 2), (258, 3)]


class Half(Field):
    """One half of a pair of 16 bit integers."""

    def __init__(self, which):
        super().__init__(2 * which, 2)

    def to(self, raw):
        return int.from_bytes(raw, "little")

    def fr(self, v, raw):
        return v.to_bytes(2, "little")

    def raws(self, lvl):
        return [v.to_bytes(2, "little") for v in ints(2, False, lvl)]

    def vals(self, lvl):
        return ints(2, False, lvl)

    def few(self):
        return [0, 65535, 256, 77]


class Height(Flt):
    """Track height: a float, shown as a rounded percentage."""

    def __init__(self, off):
        super().__init__(off, 4)

    def to(self, raw):
        return "%d%%" % round(super().to(raw) * 100)

    def fr(self, v, raw):
        return struct.pack("<f", int(v[:-1]) / 100)

    def raws(self, lvl):
        return [struct.pack("<f", n / 100) for n in range(0, 1001 if lvl < 2 else 5001)] + \
               [struct.pack("<f", x) for x in (1.234, 0.3349, 17.0)]

    def vals(self, lvl):
        return ["%d%%" % n for n in range(0, 1001 if lvl < 2 else 5001)]

    def few(self):
        return ["0%", "29%", "100%", "57%", "233%"]


class Musical(Int):
    def __init__(self, off):
        super().__init__(off, 4)

    def to(self, raw):
        n = super().to(raw)
        return (n // 768, n % 768 // 48, n % 48 * 5)

    def fr(self, v, raw):
        return super().fr(v[1][0] * 768 + v[1][1] * 48 + v[1][2] // 5, raw)

    def raws(self, lvl):
        return [n.to_bytes(4, "little") for n in list(range(0, 3 * 768 + 2)) + ints(4, False, 1)]

    def vals(self, lvl):
        return [("mt", self.to(r)) for r in self.raws(lvl)]

    def few(self):
        return [("mt", (0, 0, 0)), ("mt", (1, 2, 15)), ("mt", (5, 15, 235))]


class Log2(Int):
    def __init__(self, off, factor):
        super().__init__(off, 4, True)
        self.factor = factor

    def to(self, raw):
        return 2.0 ** (super().to(raw) / self.factor)

    def fr(self, v, raw):
        return super().fr(round(self.factor * math.log2(v)), raw)

    def raws(self, lvl):
        step = 37 if lvl < 2 else 1
        ns = sorted(set(range(-20000, 20001, step)) | {-100000, 100000, -1, 1, 0, -20000, 20000, -19999, 19999})
        return [n.to_bytes(4, "little", signed=True) for n in ns]

    def vals(self, lvl):
        return [self.to(r) for r in self.raws(lvl)]

    def few(self):
        return [self.to(n.to_bytes(4, "little", signed=True)) for n in (0, -20000, 20000, 5849, 17)]


class LogNorm(Field):
    def __init__(self, off):
        super().__init__(off, 4)

    def to(self, raw):
        a, b = struct.unpack("<HH", raw)
        if a == b == 0:
            return 0.0
        assert b == 63 and a <= 61440
        return 2 ** (a / 4096) / 32768

    def fr(self, v, raw):
        if v == 0:
            return b"\0\0\0\0"
        return struct.pack("<HH", min(max(0, round(4096 * (math.log2(v) + 15))), 61440), 63)

    def raws(self, lvl):
        step = 31 if lvl < 2 else 1
        return [b"\0\0\0\0"] + [struct.pack("<HH", a, 63) for a in sorted(set(range(0, 61441, step)) | {61440, 1, 61439})]

    def vals(self, lvl):
        return [self.to(r) for r in self.raws(lvl)]

    def few(self):
        return [0.0, 1.0, 0.5, self.to(struct.pack("<HH", 12345, 63))]


class Text:
    """A whole text payload: characters plus one NUL."""

    SAMPLES = ("", "a", "A b", "x" * 30, "Name (1)", "q" * 63, "r" * 64, "s" * 126, "t" * 127, "u" * 128, "0", " ", "tab\t",
               "long " * 40, "a\0b", " lead", "nl\r\nx\n", "a\0\0 b", "\x01\x7f")
    UNI = ("\u00e9", "\u4e2d\u6587", "\U0001f600 x", "\u00ff\u0100", "\ufeffx\ufffe", "\ud7ff\ue000\uffff")

    def __init__(self, enc):
        self.e = enc

    def has(self, p):
        return True

    def dec(self, p):
        return p.decode(self.e).rstrip("\0")

    def enc(self, p, v):
        return self.make(v)

    def make(self, v):
        return (v + "\0").encode(self.e)

    def raws(self, lvl):
        return [self.make(v) for v in self.vals(lvl)]

    def vals(self, lvl):
        return self.SAMPLES + (self.UNI if self.e != "ascii" else ())

    def few(self):
        return ["", "New name", "z" * 130] + (["\u00e9\u4e2d\U0001f600"] if self.e != "ascii" else [])


class PathText(Text):
    """Text attribute exposed as a pathlib.Path."""

    SAMPLES = ("", "a.wav", "C:\\dir\\x.wav", "/abs/path", "%FLStudioFactoryData%\\k.wav", "p" * 130)

    def dec(self, p):
        return str(pathlib.Path(super().dec(p)))

    def enc(self, p, v):
        return self.make("" if v[1] == "." else v[1])

    def vals(self, lvl):
        return [("path", v) for v in ("a.wav", "C:\\dir\\x.wav", "/abs/path", "%FLStudioFactoryData%\\k.wav", ".", "p" * 130)]

    def raws(self, lvl):
        return [self.make(v) for v in self.SAMPLES]

    def few(self):
        return self.vals(1)[:3] + [("path", ".")]


class Blob(Field):
    """Raw bytes up to the end of the payload."""

    def __init__(self):
        super().__init__(0, 0)

    def dec(self, p):
        return p
