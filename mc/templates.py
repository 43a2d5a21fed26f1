"""Model states (whole projects) to explore. Never imports pyflp.

``Gen(j, ...)`` makes the j-th variant of every payload: each field takes its (j + salt)-th stored form and the
bytes in between a j-dependent filler, so that enumerating j covers every stored form of every field, on changing
backgrounds, in one sweep.
"""
import struct

from . import spec
from .codecs import Bit, Flt, ints
from .flpfmt import State, varint

COD = {}
for _t in (spec.KEYBOARD, spec.ARP, spec.DELAY_T, spec.LADJ, spec.POLY, spec.TIME, spec.TRACKING, spec.CONTENT,
           spec.FILTER_T, spec.FX, spec.ENV, spec.LFO, spec.PLAYBACK, spec.STRETCHING, spec.SMPINS, spec.WRAPPER,
           spec.INSERT, spec.TRACK):
    for _s in _t.values():
        if _s[1] is not None:
            COD.setdefault(_s[0], []).append(_s[1])
COD[217] = [spec.Pair(0, 4)]
COD[219] += [spec.S(0, 4), spec.U(4, 4)]

_RAWS = {}


def raws(codec, lvl):
    key = (id(codec), lvl)
    if key not in _RAWS:
        _RAWS[key] = (codec, codec.raws(lvl))
    return _RAWS[key][1]


_TEXT = {}


def text_raws(enc):
    if enc not in _TEXT:
        _TEXT[enc] = spec.Text(enc).raws(1)
    return _TEXT[enc]


def T(s, enc="utf-16-le"):
    return (s + "\0").encode(enc)


u8 = lambda n: bytes((n & 255,))
u16 = lambda n: struct.pack("<H", n & 0xFFFF)
u32 = lambda n: struct.pack("<I", n & 0xFFFFFFFF)


REVERBS = [u32(t + m) for m in ints(2, False, 1) for t in (0, 65536)]


class Gen:
    def __init__(self, j=0, version="20.8.4.2576", lvl=1, stride=1):
        self.j, self.version, self.lvl = j * stride, version, lvl
        self.enc = spec.text_encoding(version)
        self.salt = 0
        self.ev = []

    def vt(self):
        return tuple(int(x) for x in self.version.split("."))[:3]

    # -- payloads
    def pick(self, seq):
        self.salt += 1
        return seq[(self.j + self.salt * 3) % len(seq)]

    def filler(self, n, tag=0):
        a, b = self.j * 37 + tag * 11 + self.salt * 7, 29 + 2 * (self.salt % 50)
        return bytes((a + b * k + (k >> 3)) & 255 for k in range(n))

    def fields(self, p, codecs, off=0):
        for c in codecs:
            if off == 0:
                if c.has(p):
                    p = c.put(p, self.pick(raws(c, self.lvl)))
            else:
                p = p[:off] + c.put(p[off:], self.pick(raws(c, self.lvl)))
        return p

    def struct(self, id, size=None):
        return self.fields(self.filler(spec.FULL[id] if size is None else size, id), COD.get(id, ()))

    def text(self):
        return self.pick(text_raws(self.enc))

    def scalar(self, id):
        k = spec.kind_of(id)
        if k == "text":
            return self.text()
        if id == 139:       # reverb: type A / B plus the mix
            return self.pick(REVERBS)
        return self.pick(raws(spec.SCALAR[k], self.lvl))

    # -- appending events
    def raw(self, id, payload):
        self.ev.append((id, payload))
        return self

    def s(self, *ids):
        for i in ids:
            self.raw(i, self.scalar(i))
        return self

    def st(self, *ids):
        for i in ids:
            self.raw(i, self.struct(i))
        return self

    def t(self, id, s):
        return self.raw(id, T(s, self.enc))

    # -- blocks
    def head(self, full=True, current_pattern=None):
        self.raw(199, T(self.version, "ascii"))
        parts = self.version.split(".")
        if len(parts) == 4:
            self.raw(159, u32(int(parts[3])))
        if not full:
            return self
        self.s(28)
        self.t(200, spec.licensee_store(self.pick(("demberto", "User1", "", "Zz09az", "q" * 40))))
        self.raw(156, u32(self.pick(range(10000, 522001, 977))))
        if current_pattern is not None:
            self.raw(67, u16(current_pattern))
        self.s(80, 12)
        self.raw(23, u8(self.pick((0, 2))))
        self.s(9, 10, 17, 18, 11, 13, 194, 206, 207, 197, 195)
        self.raw(202, self.pick([T(x, self.enc) for x in spec.PathText.SAMPLES]))
        self.raw(237, struct.pack("<dd", *self.pick(((44000.5, 0.25), (40000.75, 12.125), (0.0, 0.0), (36526.000011574, 1 / 86400)))))
        self.s(30)
        self.st(217)
        return self

    def head_old(self):
        """Project events of an old (ASCII) version."""
        self.raw(199, T(self.version, "ascii"))
        self.s(28)
        self.raw(66, u16(self.pick(range(10, 523))))
        self.raw(93, u16(self.pick(range(0, 1000))))
        self.s(80, 12)
        self.raw(23, u8(self.pick((0, 2))))
        self.s(9, 10, 17, 18, 11, 13, 194, 206, 207, 197, 198, 30)
        self.raw(202, self.pick([T(x, self.enc) for x in spec.PathText.SAMPLES]))
        self.s(152)
        return self

    def groups(self, n=2):
        for i in range(n):
            self.s(231)
        return self

    def note(self, key=None):
        p = self.fields(self.filler(24), spec.NOTE.values())
        return p[:12] + u16(self.pick(range(132)) if key is None else key) + p[14:]

    def notes(self, n):
        return b"".join(self.note() for _ in range(n))

    def controllers(self, n):
        return b"".join(self.fields(self.filler(12), spec.CONTROLLER.values()) for _ in range(n))

    def plitem(self, rvidx, item, base=20480, size=60):
        p = self.fields(self.filler(size), spec.PLITEM.values())
        p = p[:4] + u16(base) + u16(item) + p[8:12] + u16(rvidx) + p[14:24]
        p += struct.pack("<ff", *self.pick(((0.0, 1.0), (-1.0, -1.0), (0.25, 960.5), (3.5, 0.125))))
        return p + self.filler(size - 32)

    def automation(self, n, tail=0):
        p = self.filler(4) + self.pick(raws(spec.AUTOLFO["amount"][1], 1))[:4] + self.filler(9) + u32(n)
        for i in range(n):
            p += struct.pack("<d", self.pick((0.0, 1.0, 0.5, 2.25, 16.0, 0.125)))
            p += struct.pack("<d", self.pick(Flt.VALS)) + struct.pack("<f", self.pick((0.0, 0.5, -0.25, 1.0))) + self.filler(4)
        return p + self.filler(tail)

    def marker(self, sig=True, name=True):
        pos = self.pick(ints(4, False, 1)) % (1 << 27)
        self.raw(148, u32(pos + ((1 << 27) if self.pick((0, 1)) else 0)))
        if sig:
            self.s(33, 34)
        if name:
            self.s(205)
        return self

    def wrapper(self):
        return self.st(212)

    def vst(self, ids=(1, 2, 30, 31, 32, 50, 51, 52, 53, 54, 55, 56)):
        out = u32(10)
        for rid in ids:
            out += self.vst_record(rid)
        return out

    def vst_record(self, rid):
        if rid == 1:
            d = self.fields(self.filler(20), spec.VST_MIDI.values())
        elif rid == 2:
            d = self.fields(self.filler(29), [c for t in spec.VST_FLAGS.values() for c in t.values()])
        elif rid in (51, 54, 55, 56):
            d = self.pick(("", "abcd", "Some \u00e9 name", "x" * 150, "C:\\vst\\p.dll")).encode("utf8")
        else:
            d = self.filler(self.pick((0, 1, 16, 40)))
        return struct.pack("<IQ", rid, len(d)) + d

    def native(self, name, longer=False):
        cls, size, big, table = spec.NATIVE[name]
        off = 4 if longer and big else 0
        return self.fields(self.filler(size + off), table.values(), off)

    def notebook(self, pages=({0: "a", 1: "Page two", 7: "x" * 140}, {}, {3: ""}, {0: "\u00e9\u4e2d", -2: "n"})):
        return spec.Notebook.make(self.filler(4) + u32(self.pick(range(8))), self.pick(pages), self.pick((0, 1)))

    def plug(self, name, data, wrapper=True):
        self.t(201, name)
        if wrapper:
            self.wrapper()
        self.s(203, 155, 128)
        self.raw(213, data)
        return self

    def channel(self, iid, type, group=0):
        self.raw(64, u16(iid))
        self.raw(21, u8(type))
        self.raw(145, struct.pack("<i", group))
        return self

    def chan_common(self, new=True):
        self.s(0, 32, 15, 22, 20, 71, 83, 74, 75, 76, 86, 85, 69, 97, 89, 131, 132, 135, 138, 139, 142, 143)
        self.raw(70, self.pick([(1 << i).to_bytes(2, "little") for i in range(16)] + [b"\xff\xff", b"\0\0"]))
        if new:
            self.st(209, 215, 219, 221, 228, 229)
        else:
            if self.salt % 2:
                self.s(2, 3)
            else:
                self.s(72, 73)
            self.st(209, 221)
        return self

    def sampler(self, iid, group=0, new=True):
        self.channel(iid, 0, group)
        self.t(201, "")
        self.wrapper()
        self.s(203, 155, 128)
        self.chan_common(new)
        self.raw(196, self.pick([T(x, self.enc) for x in spec.PathText.SAMPLES]))
        if new:
            self.s(153).st(228)
            for _ in range(5):
                self.st(218)
        return self

    def instrument(self, iid, name, data, group=0, new=True):
        self.channel(iid, 2, group)
        self.plug(name, data)
        self.chan_common(new)
        if new:
            self.st(228)
        return self

    def layer(self, iid, kids, group=0):
        self.channel(iid, 3, group)
        self.s(203, 155, 128, 0, 32, 144)
        for k in kids:
            self.raw(94, u16(k))
        return self

    def autoclip(self, iid, n, group=0):
        self.channel(iid, 5, group)
        self.t(201, "")
        self.s(203, 155, 128, 0, 32)
        self.st(219)
        self.raw(234, self.automation(n, self.pick((0, 48))))
        return self

    def track(self, name=True, size=None):
        p = self.struct(238, size)
        self.raw(238, p)
        if name:
            self.s(239)
        return self

    def slot(self, index, plug=None, data=None):
        if plug is not None:
            self.plug(plug, data)
        self.raw(98, u16(index))
        return self

    def insert_head(self):
        self.s(95, 149, 204)
        self.st(236)
        return self

    def insert_tail(self, routes=5):
        self.raw(235, bytes(self.pick((0, 1)) for _ in range(routes)))
        self.s(154, 147)
        return self

    def param(self, ins, slot, rid):
        return self.filler(4) + u8(rid) + self.filler(1) + u16(ins << 6 | slot) + self.pick(raws(spec.SCALAR["i32"], 1))

    def params(self, inserts, slots, sends=3, order=1):
        recs = []
        for i in range(inserts):
            for s in range(slots):
                recs += [(i, s, 0), (i, s, 1)]
            recs += [(i, 0, r) for r in (192, 193, 194, 208, 209, 210, 216, 217, 218, 224, 225, 226)]
            recs += [(i, 0, 64 + k) for k in range(sends)]
        if order > 1:
            recs = [recs[(k * order) % len(recs)] for k in range(len(recs))] if len(recs) % order else recs[::-1]
        return b"".join(self.param(*r) for r in recs)

    def state(self, fmt=0, channels=None, ppq=96):
        if channels is None:
            channels = sum(1 for i, _ in self.ev if i == 64)
        return State(tuple(self.ev), fmt, channels, ppq)


def rich(j, version="20.8.4.2576", lvl=1, stride=1):
    """A project exercising every model and attribute."""
    g = Gen(j, version, lvl, stride)
    rv = 499
    g.head(current_pattern=2).groups(2)
    g.raw(65, u16(1)).raw(224, g.notes(3))
    g.raw(65, u16(2)).raw(223, g.controllers(2))
    g.marker().marker()
    g.raw(65, u16(5)).raw(224, g.notes(1))
    g.raw(226, g.filler(13)).raw(227, g.struct(227))
    g.sampler(0, 0)
    g.raw(65, u16(1)).s(193, 150, 164, 26)
    g.instrument(1, "BooBass", g.native("BooBass", j % 2 == 1), 1)
    g.instrument(2, "Fruit Kick", g.native("Fruit Kick"))
    g.instrument(7, "Plucked!", g.native("Plucked!"), 1)
    g.raw(65, u16(2)).s(193, 150)
    g.instrument(8, spec.VST, g.vst())
    g.layer(9, (1, 20, 0))
    g.autoclip(10, 3, 1)
    g.channel(20, 4).t(201, "").raw(196, T("a.wav", g.enc)).chan_common()   # an audio clip
    g.raw(99, u16(0)).s(241).raw(36, u8(0))
    g.raw(233, g.plitem(rv, 0) + g.plitem(rv - 1, 20481) + g.plitem(rv, 20485) + g.plitem(rv - 2, 10))
    g.marker().marker()
    for k in range(3):
        g.track(name=k != 1, size=66 if k == 2 else None)
    g.raw(99, u16(1)).s(241)
    g.raw(233, g.plitem(rv - 1, 20482))
    g.track(False).track()
    g.raw(100, u16(1))
    g.s(29).raw(39, u8(1)).raw(40, u8(0))
    g.insert_head()
    g.slot(0, "Fruity Balance", g.native("Fruity Balance"))
    g.slot(1, "Fruity Blood Overdrive", g.native("Fruity Blood Overdrive", j % 2 == 0))
    g.slot(2)
    g.slot(3, spec.NOTEBOOK, g.notebook())
    g.insert_tail()
    g.insert_head()
    for n, e in enumerate(e for e in spec.EFFECTS if e not in ("Fruity Balance", "Fruity Blood Overdrive")):
        g.slot(n, e, g.native(e, (j >> 1) % 2 == 1))
    g.insert_tail()
    g.st(236).slot(0).slot(1, "Unknown thing", g.filler(9)).slot(2, spec.VST, g.vst((2, 54, 1))).insert_tail(3)
    g.raw(225, g.params(3, 3, 3, 7))
    g.s(133)
    return g.state()


def old(j, version="11.4.0", lvl=1, stride=1):
    """A project of an FL version which still stored ASCII text, coarse/fine tempo and byte / word levels."""
    g = Gen(j, version, lvl, stride)
    g.head_old().groups(1)
    g.raw(65, u16(1)).raw(224, g.notes(2)).s(193)
    g.marker(True, False)
    g.sampler(0, new=False)
    g.instrument(1, "BooBass", g.native("BooBass"), new=False)
    g.channel(3, 2).s(192, 128, 0, 2, 3)
    g.raw(99, u16(0)).s(241)
    g.raw(233, g.plitem(198, 1, size=32) + g.plitem(197, 20481, size=32))
    g.marker(False)
    g.track(True).track(False)
    g.raw(100, u16(0))
    g.s(29)
    g.insert_head().slot(0, "Fruity Balance", g.native("Fruity Balance")).slot(1).insert_tail()
    g.raw(225, g.params(1, 2, 2))
    g.s(133)
    return g.state()


# --------------------------------------------------------------------------- focused projects
def sec_project(j, lvl=1, version="20.8.4.2576"):
    g = Gen(j, version, lvl).head(current_pattern=2).groups(2)
    g.raw(65, u16(2)).s(193)
    return g.s(29, 133).state()


def sec_oldproject(j, lvl=1, version="10.0.9"):
    g = Gen(j, version, lvl).head_old().groups(1)
    return g.s(29, 133).state()


def sec_sampler(j, lvl=1, version="20.8.4.2576"):
    g = Gen(j, version, lvl).head(False).groups(1)
    return g.sampler(0).sampler(1).state()


def sec_instrument(j, lvl=1, version="20.8.4.2576"):
    g = Gen(j, version, lvl).head(False).groups(2)
    g.instrument(0, "BooBass", g.native("BooBass", j % 2 == 1), 1)
    g.instrument(1, "BooBass", g.native("BooBass", j % 2 == 0), 0)
    return g.state()


def sec_generators(j, lvl=1, version="20.8.4.2576"):
    g = Gen(j, version, lvl).head(False).groups(1)
    for i, n in enumerate(("Fruit Kick", "Plucked!", "Fruit Kick", "Plucked!")):
        g.channel(i, 2).plug(n, g.native(n)).s(0)
    return g.state()


def sec_vst(j, lvl=1, version="20.8.4.2576"):
    g = Gen(j, version, lvl).head(False).groups(1)
    g.channel(0, 2).plug(spec.VST, g.vst()).s(0)
    g.channel(1, 2).plug(spec.VST, g.vst((56, 2, 53, 1, 54))).s(0)
    g.insert_head().slot(0, spec.VST, g.vst((1, 2, 51, 52))).insert_tail()
    return g.state()


def sec_misc(j, lvl=1, version="20.8.4.2576"):
    g = Gen(j, version, lvl).head(False).groups(2)
    g.layer(3, (5, 3), 1).autoclip(4, 3).autoclip(5, 2, 1).layer(6, ())
    g.channel(7, 1).s(203, 128, 0, 155, 32, 64 + 8)
    return g.state()


def sec_pattern(j, lvl=1, version="20.8.4.2576"):
    g = Gen(j, version, lvl).head(False, None).groups(1)
    g.raw(67, u16(2)).s(30)
    g.raw(65, u16(1)).raw(224, g.notes(3)).raw(223, g.controllers(2))
    g.raw(65, u16(2)).raw(224, g.notes(2)).raw(223, g.controllers(3)).marker().marker()
    g.raw(65, u16(1)).s(193, 150, 164, 26)
    g.raw(65, u16(2)).s(193, 150, 164, 26)
    return g.state()


def sec_arrangement(j, lvl=1, version="20.8.4.2576"):
    g = Gen(j, version, lvl).head(False).groups(1)
    g.s(17, 18).st(217)
    g.channel(0, 0).s(0).channel(6, 0).s(0)
    g.raw(65, u16(1)).s(193).raw(65, u16(3)).s(193)
    rv = 499 if g.vt() >= (12, 9, 1) else 198
    size = 60 if j % 2 == 0 else 32
    for a in range(2):
        g.raw(99, u16(a)).s(241)
        g.raw(233, g.plitem(rv, 0, size=size) + g.plitem(rv - 1, 20483, size=size) + g.plitem(rv, 20481, size=size) +
              g.plitem(rv, 6, size=size))
        g.marker().marker()
        g.track().track(False).track()
    return g.raw(100, u16(1)).state()


def sec_mixer(j, lvl=1, version="20.8.4.2576"):
    g = Gen(j, version, lvl).head(False).groups(1)
    g.channel(0, 2).plug("BooBass", g.native("BooBass")).s(0)
    g.s(29)
    for i in range(3):
        g.insert_head()
        g.slot(0).slot(1, "Fruity Send", g.native("Fruity Send"))
        g.insert_tail()
    g.raw(225, g.params(3, 2, 3, 5))
    return g.state()


def sec_effects(j, lvl=1, version="20.8.4.2576"):
    g = Gen(j, version, lvl).head(False).groups(1)
    g.s(29)
    for i in range(2):
        g.insert_head()
        for n, e in enumerate(spec.EFFECTS):
            g.slot(n, e, g.native(e, (j + i) % 2 == 1))
        g.slot(9, spec.NOTEBOOK, g.notebook())
        g.insert_tail()
    return g.state()


def sec_oldchannel(j, lvl=1, version="9.6.0"):
    g = Gen(j, version, lvl).head_old().groups(1)
    g.sampler(0, new=False).instrument(1, "BooBass", g.native("BooBass"), new=False)
    g.channel(3, 2).s(192, 128, 0, 2, 3)
    g.channel(4, 0).s(203, 0, 72, 73)
    return g.state()


def _alternatives(j, lvl, version, new_first):
    """Old and new carriers of the same attributes side by side, in either order."""
    g = Gen(j, version, lvl).head(False)

    def both(new, old):
        for f in (new, old) if new_first else (old, new):
            f()

    both(lambda: g.raw(156, u32(g.pick(range(10000, 522001, 977)))),
         lambda: g.raw(66, u16(g.pick(range(10, 523)))).raw(93, u16(g.pick(range(0, 1000)))))
    both(lambda: g.s(195), lambda: g.s(198))
    both(lambda: g.st(217), lambda: g.s(152))
    g.groups(1)
    for i, t in enumerate((0, 2, 3)):
        g.channel(i, t)
        both(lambda: g.s(203), lambda: g.s(192))
        g.s(128, 0)
        if t == 0:
            both(lambda: g.st(219), lambda: g.s(72, 73))
        else:
            both(lambda: g.st(219), lambda: g.s(2, 3))
        g.s(22)
    return g.state()


def sec_altnew(j, lvl=1, version="20.8.4.2576"):
    return _alternatives(j, lvl, version, True)


def sec_altold(j, lvl=1, version="20.8.4.2576"):
    return _alternatives(j, lvl, version, False)


IDENTITY = (199, 159, 64, 21, 145, 65, 99, 98, 94, 201, 67, 100)


def twin(st):
    """The same project with every object storing the payloads of the first of its kind."""
    first, name, out = {}, None, []
    for id, p in st.events:
        if id == 201:
            name = p
        if id == 224:
            p = p[:24] * (len(p) // 24)
        if id == 223:
            p = p[:12] * (len(p) // 12)
        if id not in IDENTITY:
            p = first.setdefault((id, name if id == 213 else None), p)
        out.append((id, p))
    return State(tuple(out), *st[1:])


def _section(f):
    return lambda j=0, *args, **kw: twin(f(-1 - j, *args, **kw)) if j < 0 else f(j, *args, **kw)


SECTIONS = {n[4:]: _section(f) for n, f in list(globals().items()) if n.startswith("sec_")}    # j < 0: twins
