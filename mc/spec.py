"""Reference semantics of an FLP project. Never imports pyflp.

``build(state)`` turns a model state (flpfmt.State) into a tree of ``Node`` objects: which events belong
to which channel / insert / slot / pattern / arrangement / track / marker, and for every public attribute
a ``Cell`` saying what it must read as and what an assignment must do to the stored bytes.
"""
import struct

from .codecs import (Bit, Bool, CEnum, Color, Enum, Flt, Half, Height, Log2, LogNorm, Musical, Pair,
                     PathText, Raises, S, Text, U, norm)
from .flpfmt import PPQS

PCBS = Raises("PropertyCannotBeSet")
ATTR = Raises("AttributeError")
REF = Raises()      # attribute of an object which is reached through a reference; written elsewhere

# --------------------------------------------------------------------------- event kinds
BOOL_IDS = {0, 15, 20, 32, 26, 30, 9, 10, 28}
I8_IDS = {22}
I16_IDS = {95, 80}
COLOR_IDS = {128, 149, 150}
PAIR_IDS = {131, 132, 138, 152}
F32_IDS = {140}
I32_IDS = {142, 145, 147, 154, 161, 146}
NEW_TEXT = {231, 239, 241}
VERSION = 199
STRUCT_IDS = {209, 212, 215, 217, 218, 219, 221, 226, 227, 228, 229, 234, 236, 237, 238}
LIST_IDS = {223, 224, 225, 233, 235}
PLUGIN_DATA = 213


def text_encoding(version_text):
    return "utf-16-le" if [int(x) for x in version_text.split(".")][:2] >= [11, 5] else "ascii"


def kind_of(id):
    """How the value of an event with this ID is represented."""
    if id in BOOL_IDS:
        return "bool"
    if id < 64:
        return "i8" if id in I8_IDS else "u8"
    if id < 128:
        return "i16" if id in I16_IDS else "u16"
    if id < 192:
        if id in COLOR_IDS:
            return "color"
        if id in PAIR_IDS:
            return "pair"
        if id in F32_IDS:
            return "f32"
        return "i32" if id in I32_IDS else "u32"
    if id == VERSION:
        return "ascii"
    if id < 208 or id in NEW_TEXT:
        return "text"
    if id in STRUCT_IDS or id in LIST_IDS:
        return "struct"
    if id == PLUGIN_DATA:
        return "plugin"
    return "blob"


SCALAR = {"bool": Bool(0), "u8": U(0, 1), "i8": S(0, 1), "u16": U(0, 2), "i16": S(0, 2), "u32": U(0, 4),
          "i32": S(0, 4), "f32": Flt(0, 4), "color": Color(0), "pair": Pair(0, 2)}


def scalar_codec(id, enc):
    k = kind_of(id)
    if k == "ascii":
        return Text("ascii")
    if k == "text":
        return Text(enc)
    return SCALAR[k]


# --------------------------------------------------------------------------- field tables
LFO_SHAPE = dict(Sine=0, Triangle=1, Pulse=2)
FILTER = dict(FastLP=0, LP=1, BP=2, HP=3, BS=4, LPx2=5, SVFLP=6, SVFLPx2=7)
ARP_DIR = dict(Off=0, Up=1, Down=2, UpDownBounce=3, UpDownSticky=4, Random=5)
DECLICK = dict(OutOnly=0, TransientNoBleeding=1, Transient=2, Generic=3, Smooth=4, Crossfade=5)
STRETCH = dict(Stretch=-1, Resample=0, E3Generic=1, E3Mono=2, SliceStretch=3, SliceMap=4, Auto=5, E2Generic=6,
               E2Transient=7, E2Mono=8, E2Speech=9)
MOTION = dict(Stay=0, OneShot=1, MarchWrap=2, MarchStay=3, MarchStop=4, Random=5, ExclusiveRandom=6)
PRESS = dict(Retrigger=0, HoldStop=1, HoldMotion=2, Latch=3)
SYNC = dict(Off=0, QuarterBeat=1, HalfBeat=2, Beat=3, TwoBeats=4, FourBeats=5, Auto=6)
FILE_FORMATS = dict(None_=-1, Project=0, Score=16, Automation=24, ChannelState=32, PluginState=48, GeneratorState=49,
                    FXState=50, InsertState=64, _ProbablyPatcher=80)
PAGE = dict(Editor=0, Settings=1, Sample=3, Envelope=4, Miscellaneous=5)

PARAMS, DELAY, LEVELS, FXF, SMPF = 215, 209, 219, 70, 143

# {attribute: (event id, codec)}; codec None means the whole (scalar / text) event
KEYBOARD = {"fine_tune": (142, None), "root_note": (135, None, 60), "main_pitch": (PARAMS, Bool(11)),
            "add_root": (PARAMS, Bool(63)), "key_region": (PARAMS, Pair(68, 4))}
ARP = {"direction": (PARAMS, Enum(40, 4, ARP_DIR, cls="channel.ArpDirection")), "range": (PARAMS, U(44, 4)),
       "chord": (PARAMS, U(48, 4)), "time": (PARAMS, Flt(52, 4)), "gate": (PARAMS, Flt(56, 4)),
       "slide": (PARAMS, Bool(60)), "repeat": (PARAMS, U(92, 4))}
DELAY_T = {"feedback": (DELAY, U(0, 4)), "pan": (DELAY, S(4, 4)), "pitch_shift": (DELAY, S(8, 4)),
           "echoes": (DELAY, U(12, 4)), "time": (DELAY, U(16, 4)), "ping_pong": (PARAMS, Bit(10, 1, 1)),
           "fat_mode": (PARAMS, Bit(10, 1, 2))}
LADJ = {"pan": (229, S(0, 4)), "volume": (229, U(4, 4)), "mod_x": (229, S(12, 4)), "mod_y": (229, S(16, 4))}
POLY = {"max": (221, U(0, 4)), "slide": (221, U(4, 4)), "mono": (221, Bit(8, 1, 0)), "porta": (221, Bit(8, 1, 1))}
TIME = {"swing": (97, None), "shift": (89, None), "gate": (PARAMS, U(64, 2)), "full_porta": (PARAMS, Bool(62))}
TRACKING = {"middle_value": (228, U(0, 4)), "pan": (228, S(4, 4)), "mod_x": (228, S(8, 4)), "mod_y": (228, S(12, 4))}
CONTENT = {"declick_mode": (PARAMS, Enum(83, 1, DECLICK, cls="channel.DeclickMode")), "resample": (SMPF, Bit(0, 4, 0)),
           "load_regions": (SMPF, Bit(0, 4, 1)), "load_slices": (SMPF, Bit(0, 4, 2)), "keep_on_disk": (SMPF, Bit(0, 4, 8))}
FILTER_T = {"mod_x": (LEVELS, U(12, 4)), "mod_y": (LEVELS, U(16, 4)),
            "type": (LEVELS, Enum(20, 4, FILTER, cls="channel.FilterType"))}
FX = {"boost": (74, None), "clip": (FXF, Bit(0, 2, 2)), "crossfade": (PARAMS, U(84, 4)), "cutoff": (71, None),
      "fade_in": (76, None), "fade_out": (75, None), "fade_stereo": (FXF, Bit(0, 2, 0)), "fix_trim": (PARAMS, Bool(157)),
      "freq_tilt": (69, None), "inverted": (PARAMS, Bool(81)), "length": (PARAMS, LogNorm(141)),
      "normalize": (PARAMS, Bool(80)), "pogo": (86, None), "remove_dc": (PARAMS, Bool(9)), "resonance": (83, None),
      "reverse": (FXF, Bit(0, 2, 1)), "ringmod": (131, None), "start": (PARAMS, LogNorm(133)), "stereo_delay": (85, None),
      "swap_stereo": (FXF, Bit(0, 2, 8)), "trim": (PARAMS, U(88, 4))}
ENV = {"synced": (218, Bit(0, 4, 0)), "enabled": (218, S(4, 4)), "predelay": (218, S(8, 4)), "attack": (218, S(12, 4)),
       "hold": (218, S(16, 4)), "decay": (218, S(20, 4)), "sustain": (218, S(24, 4)), "release": (218, S(28, 4)),
       "amount": (218, S(32, 4)), "attack_tension": (218, S(56, 4)), "decay_tension": (218, S(60, 4)),
       "release_tension": (218, S(64, 4))}
LFO = {"synced": (218, Bit(0, 4, 1)), "retrig": (218, Bit(0, 4, 5)), "predelay": (218, U(36, 4)), "attack": (218, U(40, 4)),
       "amount": (218, S(44, 4)), "speed": (218, U(48, 4)), "shape": (218, Enum(52, 4, LFO_SHAPE, True, cls="channel.LFOShape"))}
PLAYBACK = {"ping_pong_loop": (20, None), "start_offset": (PARAMS, U(148, 4)), "use_loop_points": (SMPF, Bit(0, 4, 3))}
STRETCHING = {"mode": (PARAMS, Enum(108, 4, STRETCH, True, cls="channel.StretchMode")), "multiplier": (PARAMS, Log2(104, 10000)),
              "pitch": (PARAMS, S(100, 4)), "time": (PARAMS, Musical(96))}
AUTOLFO = {"amount": (234, S(4, 4))}
CHANNEL = {"color": (128, None), "internal_name": (201, None), "enabled": (0, None), "icon": (155, None), "iid": (64, None),
           "locked": (32, None)}
SMPINS = {"cut_group": (132, None), "insert": (22, None), "pitch_shift": (LEVELS, S(8, 4))}
LAYER = {"random": (144, Bit(0, 4, 0)), "crossfade": (144, Bit(0, 4, 1))}
RACK = {"fit_to_steps": (13, None), "height": (133, None), "swing": (11, None)}
WRAPPER = {"visible": (212, Bit(16, 4, 0)), "disabled": (212, Bit(16, 4, 1)), "detached": (212, Bit(16, 4, 2)),
           "generator": (212, Bit(16, 4, 4)), "smart_disable": (212, Bit(16, 4, 5)), "multithreaded": (212, Bit(16, 4, 6)),
           "demo_mode": (212, Bit(16, 4, 7)), "compact": (212, Bit(16, 4, 8)), "minimized": (212, Bit(16, 4, 9)),
           "directx": (212, Bit(16, 4, 16)), "page": (212, Enum(20, 1, PAGE, cls="plugin.WrapperPage")),
           "width": (212, U(44, 4)), "height": (212, U(48, 4))}

INSERT = {"bypassed": (236, Bit(4, 4, 2, True)), "channels_swapped": (236, Bit(4, 4, 1)), "enabled": (236, Bit(4, 4, 3)),
          "is_solo": (236, Bit(4, 4, 12)), "locked": (236, Bit(4, 4, 11)), "polarity_reversed": (236, Bit(4, 4, 0)),
          "separator_shown": (236, Bit(4, 4, 10)), "color": (149, None), "icon": (95, None), "input": (154, None),
          "name": (204, None), "output": (147, None)}
SLOT = {"color": (128, None), "iid": (98, None), "index": (98, None), "internal_name": (201, None), "icon": (155, None),
        "name": (203, None)}
TRACK = {"iid": (238, U(0, 4)), "color": (238, Color(4)), "icon": (238, U(8, 4)), "enabled": (238, Bool(12)),
         "height": (238, Height(13)), "content_locked": (238, Bool(21)),
         "motion": (238, Enum(22, 4, MOTION, cls="arrangement.TrackMotion")),
         "press": (238, Enum(26, 4, PRESS, cls="arrangement.TrackPress")),
         "trigger_sync": (238, Enum(30, 4, SYNC, cls="arrangement.TrackSync")), "queued": (238, Bool(34, 4)),
         "tolerant": (238, Bool(38, 4)), "position_sync": (238, Enum(42, 4, SYNC, cls="arrangement.TrackSync")),
         "grouped": (238, Bool(46)), "locked": (238, Bool(47)), "name": (239, None)}
PATTERN = {"color": (150, None), "length": (164, None), "looped": (26, None, False), "name": (193, None)}
MARKER = {"denominator": (34, None), "numerator": (33, None), "name": (205, None)}
PROJECT = {"artists": (207, None), "genre": (206, None), "licensed": (28, None), "looped": (9, None), "main_pitch": (80, None),
           "main_volume": (12, None), "pan_law": (23, None), "show_info": (10, None), "title": (194, None), "url": (197, None)}
TIMESIG = {"num": (17, None), "beat": (18, None)}

NOTE = {"position": U(0, 4), "slide": Bit(4, 2, 3), "rack_channel": U(6, 2), "length": U(8, 4), "group": U(14, 2),
        "fine_pitch": U(16, 1), "release": U(18, 1), "midi_channel": U(19, 1), "pan": U(20, 1), "velocity": U(21, 1),
        "mod_x": U(22, 1), "mod_y": U(23, 1)}
CONTROLLER = {"position": U(0, 4), "channel": U(6, 1), "value": Flt(8, 4)}
PLITEM = {"position": U(0, 4), "length": U(8, 4), "group": U(14, 2)}
POINT = {"value": Flt(8, 8), "tension": Flt(16, 4)}

# native plugins: name -> (class, full size, optional longer size with 4 bytes in front or None, {attr: codec})
NATIVE = {
    "BooBass": ("BooBass", 12, 16, {"bass": U(0, 4), "mid": U(4, 4), "high": U(8, 4)}),
    "Fruit Kick": ("FruitKick", 32, None, {"max_freq": S(4, 4), "min_freq": S(8, 4), "freq_decay": U(12, 4),
                                           "amp_decay": U(16, 4), "click": U(20, 4), "distortion": U(24, 4)}),
    "Plucked!": ("Plucked", 20, None, {"decay": U(0, 4), "color": U(4, 4), "normalize": Bool(8, 4), "gate": Bool(12, 4),
                                       "widen": Bool(16, 4)}),
    "Fruity Balance": ("FruityBalance", 8, None, {"pan": S(0, 4), "volume": U(4, 4)}),
    "Fruity Blood Overdrive": ("FruityBloodOverdrive", 32, 36,
                               {"pre_band": U(0, 4), "color": U(4, 4), "pre_amp": U(8, 4), "x100": Bool(12, 4),
                                "post_filter": U(16, 4), "post_gain": U(20, 4)}),
    "Fruity Center": ("FruityCenter", 4, 8, {"enabled": Bool(0, 4)}),
    "Fruity Fast Dist": ("FruityFastDist", 20, None, {"pre": U(0, 4), "threshold": U(4, 4), "kind": CEnum(8, ("A", "B")),
                                                      "mix": U(12, 4), "post": U(16, 4)}),
    "Fruity Send": ("FruitySend", 16, None, {"pan": S(0, 4), "dry": U(4, 4), "volume": U(8, 4), "send_to": S(12, 4)}),
    "Fruity Soft Clipper": ("FruitySoftClipper", 8, None, {"threshold": U(0, 4), "post": U(4, 4)}),
    "Fruity Stereo Enhancer": ("FruityStereoEnhancer", 24, None,
                               {"pan": S(0, 4), "volume": U(4, 4), "stereo_separation": S(8, 4), "phase_offset": S(12, 4),
                                "effect_position": CEnum(16, ("pre", "post")),
                                "phase_inversion": CEnum(20, ("none", "left", "right"))}),
    "Soundgoodizer": ("Soundgoodizer", 8, 12, {"mode": CEnum(0, ("A", "B", "C", "D")), "amount": U(4, 4)}),
}
GENERATORS = ("BooBass", "Fruit Kick", "Plucked!")
EFFECTS = tuple(n for n in NATIVE if n not in GENERATORS)
NOTEBOOK, VST = "Fruity NoteBook 2", "Fruity Wrapper"

# VST records
VST_TEXT = {"fourcc": 51, "name": 54, "plugin_path": 55, "vendor": 56}
VST_BYTES = {"guid": 52, "state": 53}
VST_MIDI = {"input": S(0, 4), "output": S(4, 4), "pb_range": U(8, 4)}
VST_FLAGS = {
    "automation": {"notify_changes": Bit(9, 4, 6, True)},
    "compatibility": {"buffers_maxsize": Bit(13, 4, 1), "fast_idle": Bool(22), "fixed_buffers": Bit(9, 4, 1),
                      "process_maximum": Bit(13, 4, 0), "reset_on_transport": Bit(9, 4, 25, True),
                      "send_loop": Bit(9, 4, 11), "use_time_offset": Bit(9, 4, 31, True)},
    "midi": {"send_modx": Bit(9, 4, 17), "send_pb": Bit(9, 4, 0), "send_release": Bit(9, 4, 5, True)},
    "processing": {"allow_sd": Bit(9, 4, 29), "bridged": Bit(9, 4, 18), "external": Bit(9, 4, 21),
                   "keep_state": Bit(9, 4, 16, True), "multithreaded": Bit(9, 4, 12), "notify_render": Bit(9, 4, 2),
                   "process_inactive": Bit(9, 4, 3)},
    "ui": {"accept_drop": Bit(9, 4, 28), "always_update": Bit(9, 4, 23), "dpi_aware": Bit(9, 4, 26),
           "scale_editor": Bit(9, 4, 30)},
}

PLUGIN_IDS = {128, 155, 201, 203, 212, 213}
CHANNEL_IDS = {0, 2, 3, 15, 20, 21, 22, 32, 64, 69, 70, 71, 72, 73, 74, 75, 76, 83, 85, 86, 89, 94, 97, 131, 132, 135, 138,
               139, 140, 142, 143, 144, 145, 153, 192, 196, 209, 215, 218, 219, 221, 228, 229, 234}
PATTERN_IDS = {26, 65, 150, 193, 160, 161, 162, 164, 223, 224}
MARKER_IDS = {33, 34, 148, 205}
ARR_IDS = {99, 241, 233}
TRACK_IDS = {238, 239}
INSERT_IDS = {95, 147, 149, 154, 204, 235, 236}
ENVELOPES = ("Panning", "Volume", "Mod X", "Mod Y", "Pitch")

# all structured events: full size as documented, and the field boundaries at which a shorter form may end
LAYOUT = {
    209: [4, 4, 4, 4, 4],
    212: [16, 4, 1, 23, 4, 4],
    PARAMS: [9, 1, 1, 1, 28, 4, 4, 4, 4, 4, 1, 1, 1, 1, 2, 2, 8, 4, 1, 1, 1, 1, 4, 4, 4, 4, 4, 4, 4, 21, 4, 4, 4, 3, 4, 5, 1],
    217: [4, 4],
    218: [4] * 17,
    219: [4] * 6,
    221: [4, 4, 1],
    227: [2, 1, 1, 2, 2, 8, 4],
    228: [4] * 4,
    229: [4] * 5,
    236: [4, 4, 4],
    238: [4, 4, 4, 1, 4, 4, 1, 4, 4, 4, 4, 4, 4, 1, 1],
}
FULL = {k: sum(v) for k, v in LAYOUT.items()}
FULL.update({237: 16})


def boundaries(id):
    out, n = [0], 0
    for w in LAYOUT[id]:
        n += w
        out.append(n)
    return out


# --------------------------------------------------------------------------- cells and nodes
class Cell:
    """One attribute: what it reads as, and what assigning it does."""

    __slots__ = ("idx", "payload", "codec", "default", "ro")

    def __init__(self, idx, payload, codec, default=None, ro=None):
        self.idx, self.payload, self.codec, self.default, self.ro = idx, payload, codec, default, ro

    def value(self):
        if self.payload is None:
            return self.default
        return self.codec.dec(self.payload) if self.codec.has(self.payload) else None

    def present(self):
        return self.payload is not None and self.codec.has(self.payload)

    def writable(self):
        return self.ro is None

    def write(self, v):
        """-> {event index: new payload} or Raises(...)"""
        if self.ro is not None:
            return self.ro
        if not self.present():
            return PCBS
        return {self.idx: self.codec.enc(self.payload, v)}

    def vals(self, lvl):
        return self.codec.vals(lvl)

    def few(self):
        return self.codec.few()


class Const(Cell):
    """A read-only derived value; ``settable`` False means it is not tried to be set."""

    __slots__ = ("v",)

    def __init__(self, v, ro=ATTR):
        super().__init__(None, None, None, None, ro)
        self.v = v

    def value(self):
        return self.v

    def present(self):
        return False


class Fn(Cell):
    """An attribute with its own rules."""

    __slots__ = ("v", "w", "dom", "_few")

    def __init__(self, v, w=None, dom=(), few=None, ro=None):
        super().__init__(None, None, None, None, ro)
        self.v, self.w, self.dom, self._few = v, w, list(dom), few

    def value(self):
        return self.v

    def present(self):
        return self.w is not None and not isinstance(self.w, tuple)

    def write(self, v):
        if self.ro is not None:
            return self.ro
        if isinstance(self.w, tuple):
            return self.w
        return self.w(v)

    def vals(self, lvl):
        return self.dom

    def few(self):
        return list(self._few) if self._few is not None else self.dom[:4]


def iterate(obj):
    """All items of a collection, by iteration only (list() would call len(), which may raise NoModelsFound)."""
    return [x for x in obj]


class Node:
    __slots__ = ("cls", "attrs", "subs", "lists", "own")

    def __init__(self, cls=None):
        self.cls = cls
        self.attrs = {}
        self.subs = {}      # name -> Node or None (attribute must be None)
        self.lists = {}     # name -> (getter, [Node])
        self.own = []       # indices of the events the object must own

    def walk(self, path=()):
        yield path, self
        for n, s in self.subs.items():
            if s is not None:
                yield from s.walk(path + (("s", n),))
        for n, (_, nodes) in self.lists.items():
            for i, s in enumerate(nodes):
                yield from s.walk(path + (("l", n, i),))


def licensee_read(text):
    """The licensee is stored letter by letter, shifted by 26 up or 49 down and by its position."""
    out = ""
    for i, ch in enumerate(text):
        for num in (ord(ch) - 26 + i, ord(ch) + 49 + i):
            if num >= 0 and chr(num).isalnum():
                out += chr(num)
                break
    return out


def licensee_store(text):
    out = ""
    for i, ch in enumerate(text):
        for num in (ord(ch) + 26 - i, ord(ch) - 49 - i):
            if 0 < num <= 127:
                out += chr(num)
                break
    return out


def parse_vst(p):
    """-> [(id, offset of data, length)]"""
    pos, out = 4, []
    while pos + 12 <= len(p):
        rid, n = struct.unpack_from("<IQ", p, pos)
        out.append((rid, pos + 12, n))
        pos += 12 + n
    return out


class RecCodec:
    """A codec applied to a part of the payload at a fixed offset."""

    def __init__(self, codec, off):
        self.c, self.off = codec, off

    def has(self, p):
        return self.c.has(p[self.off:])

    def dec(self, p):
        return self.c.dec(p[self.off:])

    def enc(self, p, v):
        return p[:self.off] + self.c.enc(p[self.off:], v)

    def raws(self, lvl):
        return self.c.raws(lvl)

    def vals(self, lvl):
        return self.c.vals(lvl)

    def few(self):
        return self.c.few()


class VSTField:
    """A field of a fixed part of a VST record."""

    def __init__(self, rid, codec):
        self.rid, self.c = rid, codec

    def find(self, p):
        return next(((o, n) for r, o, n in parse_vst(p) if r == self.rid), None)

    def has(self, p):
        f = self.find(p)
        return f is not None and (self.c is None or self.c.has(p[f[0]:f[0] + f[1]]))

    def dec(self, p):
        o, n = self.find(p)
        return self.c.dec(p[o:o + n])

    def enc(self, p, v):
        o, n = self.find(p)
        return p[:o] + self.c.enc(p[o:o + n], v) + p[o + n:]

    def raws(self, lvl):
        return self.c.raws(lvl)

    def vals(self, lvl):
        return self.c.vals(lvl)

    def few(self):
        return self.c.few()


class VSTWhole(VSTField):
    """A whole VST record holding UTF-8 text or bytes."""

    def __init__(self, rid, text):
        super().__init__(rid, None)
        self.text = text

    def dec(self, p):
        o, n = self.find(p)
        return p[o:o + n].decode("utf8") if self.text else p[o:o + n]

    def enc(self, p, v):
        o, n = self.find(p)
        new = v.encode("utf8") if self.text else v
        return p[:o - 8] + struct.pack("<Q", len(new)) + new + p[o + n:]

    def vals(self, lvl):
        if self.text:
            return ["", "abcd", "Vendor \u00e9", "x" * 200]
        return [b"", b"\0", b"\xff" * 16, bytes(range(256))]

    few = lambda self: self.vals(1)


class VSTCell(Cell):
    __slots__ = ()

    def value(self):
        if self.codec.find(self.payload) is None:
            return ATTR     # no such record
        return self.codec.dec(self.payload) if self.codec.has(self.payload) else None


class Notebook:
    """Fruity NoteBook 2 payload: 4 bytes, active page, pages {index, varint length, utf-16 text}, -1, editable."""

    @staticmethod
    def pages(p):
        pos, out = 8, {}
        while True:
            idx = struct.unpack_from("<i", p, pos)[0]
            pos += 4
            if idx == -1:
                return out, pos
            n = shift = 0
            while True:
                b = p[pos]
                pos += 1
                n |= (b & 0x7F) << shift
                shift += 7
                if not b & 0x80:
                    break
            out[idx] = p[pos:pos + 2 * n].decode("utf-16-le")
            pos += 2 * n

    @staticmethod
    def make(head, pages, editable):
        from .flpfmt import varint
        out = head
        for i, t in pages.items():
            raw = t.encode("utf-16-le")
            out += struct.pack("<i", i) + varint(len(raw) // 2) + raw
        return out + struct.pack("<i", -1) + bytes((editable,))


class Builder:
    def __init__(self, st):
        self.st = st
        self.ev = st.events
        self.version = next(p.decode("ascii").rstrip("\0") for i, p in self.ev if i == VERSION)
        self.vt = tuple(int(x) for x in self.version.split("."))
        self.enc = text_encoding(self.version)
        self.plug = {}
        name = None
        for k, (i, p) in enumerate(self.ev):
            if i == 201:
                name = p.decode(self.enc).rstrip("\0")
            elif i == PLUGIN_DATA:
                self.plug[k] = name

    # -- helpers
    def cell(self, own, id, codec=None, default=None, ro=None, nth=0):
        ks = [k for k in own if self.ev[k][0] == id]
        codec = codec or scalar_codec(id, self.enc)
        if len(ks) <= nth:
            return Cell(None, None, codec, default, ro)
        return Cell(ks[nth], self.ev[ks[nth]][1], codec, default, ro)

    def attrs(self, node, own, table):
        for name, spec in table.items():
            id, codec = spec[0], spec[1]
            node.attrs[name] = self.cell(own, id, codec, spec[2] if len(spec) > 2 else None)

    def sub(self, own, cls, table):
        n = Node(cls)
        self.attrs(n, own, table)
        return n

    def first(self, own, id):
        return next((k for k in own if self.ev[k][0] == id), None)

    def text(self, k):
        return self.ev[k][1].decode(self.enc).rstrip("\0")

    @staticmethod
    def only(owners, iid):
        """The events of the channel / pattern with this number, when there is exactly one."""
        o = owners.get(iid, ())
        return o[0] if len(o) == 1 else []

    # -- project
    def project(self):
        st, ev = self.st, self.ev
        every = range(len(ev))
        n = Node("Project")
        self.attrs(n, every, PROJECT)
        n.attrs["comments"] = self.cell(every, 195 if self.first(every, 195) is not None else 198)
        if n.attrs["comments"].idx is None:
            n.attrs["comments"] = self.cell(every, 195)
        n.attrs["data_path"] = self.cell(every, 202, PathText(self.enc))
        n.attrs["format"] = Fn(st.fmt, lambda v: {"fmt": FILE_FORMATS[v[2]]},
                               [("enum", "project.FileFormat", f) for f in FILE_FORMATS])
        n.attrs["channel_count"] = Fn(st.channels, lambda v: {"channels": v} if v >= 0 else Raises("ValueError"),
                                      [0, 1, 2, 255, 256, 32768, 65535])
        n.attrs["ppq"] = Fn(st.ppq, lambda v: {"ppq": v} if v in PPQS else Raises("ValueError"), PPQS)
        n.attrs["version"] = self.version_cell(every)
        n.attrs["tempo"] = self.tempo_cell(every)
        n.attrs["licensee"] = self.licensee_cell(every)
        k = self.first(every, 237)
        n.attrs["created_on"] = Const(None if k is None else created_on(self.ev[k][1]))
        n.attrs["time_spent"] = Const(None if k is None else time_spent(self.ev[k][1]))
        n.subs["channels"] = self.rack()
        n.subs["patterns"] = self.patterns()
        n.subs["arrangements"] = self.arrangements()
        n.subs["mixer"] = self.mixer()
        return n

    def version_cell(self, every):
        k, b = self.first(every, VERSION), self.first(every, 159)

        def w(v):
            parts = [int(x) for x in v.split(".")]
            out = {k: (v + "\0").encode("ascii")}
            if len(parts) == 4 and b is not None:
                out[b] = struct.pack("<I", parts[3])
            return out

        new = self.vt[:2] >= (11, 5)
        dom = ["20.8.4.2576", "21.0.0", "12.9.1.5", "11.5.0"] if new else ["11.4.9", "3.4.0", "1.4.2.7", "9.0.0"]
        v = (self.vt + (0, 0))[:3] if len(self.vt) < 4 else self.vt
        return Fn(("ver",) + tuple(v[:3]) + ((self.vt[3],) if len(self.vt) > 3 else (None,)), w, dom)

    def tempo_cell(self, every):
        t, c, f = (self.first(every, i) for i in (156, 66, 93))
        if t is not None:
            val = norm(struct.unpack("<I", self.ev[t][1])[0] / 1000)
        elif c is not None:
            val = struct.unpack("<H", self.ev[c][1])[0]
            if f is not None:
                val = norm(val + struct.unpack("<H", self.ev[f][1])[0] / 1000)
        else:
            return Fn(None, PCBS, [120, 140])
        fine = t is not None or f is not None
        hi = 999 if (1, 4, 2) <= self.vt[:3] < (11, 0, 0) else 522
        allow_float = self.vt[:3] >= (3, 4, 0)

        def w(v):
            if isinstance(v, float) and not allow_float:
                return Raises("TypeError")
            if not 10 <= v <= hi:
                return Raises("ValueError")
            m = round(v * 1000)
            out = {}
            if t is not None:
                out[t] = struct.pack("<I", m)
            if f is not None:
                out[f] = struct.pack("<H", m % 1000)
            if c is not None:
                out[c] = struct.pack("<H", m // 1000)
            return out

        dom = [10, 120, 521, 522] + ([128.5, 99.999, 521.999, 10.001, 130.123] if fine and allow_float else [])
        return Fn(val, w, dom, few=[120, hi] + ([128.5, 99.999] if fine and allow_float else []))

    def licensee_cell(self, every):
        k = self.first(every, 200)
        if k is None:
            return Fn(None, PCBS, ["abc"])
        return Fn(licensee_read(self.text(k)), lambda v: {k: Text(self.enc).make(licensee_store(v))},
                  ["", "demberto", "User123", "ZZz9", "a", "0", "mZ" * 30])

    # -- rack
    def rack(self):
        ev = self.ev
        every = range(len(ev))
        n = Node("ChannelRack")
        self.attrs(n, every, RACK)
        groups = []
        for k in every:
            if ev[k][0] == 231:
                g = Node("DisplayGroup")
                g.attrs["name"] = Cell(k, ev[k][1], Text(self.enc))
                groups.append(g)
        n.lists["groups"] = (lambda o: iterate(o.groups), groups)
        owns, in_mixer = [], False
        for k, (i, _) in enumerate(ev):
            if i == 236:
                in_mixer = True
            if i == 64:
                in_mixer = False
                owns.append([])
            if owns and (i in CHANNEL_IDS or (i in PLUGIN_IDS and not in_mixer)):
                owns[-1].append(k)
        self.chan_own = {}
        for o in owns:
            self.chan_own.setdefault(struct.unpack("<H", ev[o[0]][1])[0], []).append(o)
        chans = [self.channel(o, groups) for o in owns]
        n.lists["channels"] = (iterate, chans)
        return n

    def channel_kind(self, own):
        t = self.ev[self.first(own, 21)][1][0]
        kind = {0: "Sampler", 2: "Instrument", 3: "Layer", 4: "Instrument", 5: "Automation"}.get(t, "Channel")
        k = self.first(own, 201)
        if kind == "Instrument" and self.first(own, 196) is not None and k is not None and self.text(k) == "":
            kind = "Sampler"
        return kind

    def channel(self, own, groups):
        ev = self.ev
        kind = self.channel_kind(own)
        n = Node(kind)
        n.own = own
        self.attrs(n, own, CHANNEL)
        nm = self.first(own, 203)
        n.attrs["name"] = self.cell(own, 203 if nm is not None else 192)
        n.attrs["display_name"] = Const(n.attrs["name"].value() or n.attrs["internal_name"].value())
        z = self.first(own, 15)
        n.attrs["zipped"] = Const(False if z is None else bool(ev[z][1][0]))
        for name, off, old in (("pan", S(0, 4), (73, 3)), ("volume", U(4, 4), (72, 2))):
            if self.first(own, LEVELS) is not None:
                n.attrs[name] = self.cell(own, LEVELS, off)
            else:
                n.attrs[name] = self.cell(own, next((i for i in old if self.first(own, i) is not None), old[0]))
        g = struct.unpack("<i", ev[self.first(own, 145)][1])[0]
        n.subs["group"] = groups[g]
        n.subs["keyboard"] = self.sub(own, "Keyboard", KEYBOARD)
        if kind == "Automation":
            n.subs["lfo"] = self.sub(own, "AutomationLFO", AUTOLFO)
            n.lists["points"] = (iterate, self.points(own))
        elif kind == "Layer":
            self.attrs(n, own, LAYER)
            iids = [struct.unpack("<H", ev[k][1])[0] for k in own if ev[k][0] == 94]
            kids = []
            for iid in iids:
                c = Node()
                c.attrs["iid"] = Const(iid, REF)
                c.own = self.only(self.chan_own, iid)
                kids.append(c)
            n.lists["children"] = (iterate, kids)
        elif kind in ("Sampler", "Instrument"):
            self.sampler_instrument(n, own)
            if kind == "Sampler":
                self.sampler(n, own)
            else:
                n.subs["plugin"] = self.plugin(own)
        return n

    def sampler_instrument(self, n, own):
        self.attrs(n, own, SMPINS)
        n.subs["arp"] = self.sub(own, "Arp", ARP)
        d = n.subs["delay"] = self.sub(own, "Delay", DELAY_T)
        k = self.first(own, 138)
        for name, which in (("mod_x", 0), ("mod_y", 1)):
            if k is None:
                d.attrs[name] = Fn(Raises("KeyError"), Raises("KeyError"), [3])
            else:
                d.attrs[name] = Cell(k, self.ev[k][1], Half(which))
        n.subs["level_adjusts"] = self.sub(own, "LevelAdjusts", LADJ)
        n.subs["polyphony"] = self.sub(own, "Polyphony", POLY)
        n.subs["time"] = self.sub(own, "Time", TIME)
        tr = [k for k in own if self.ev[k][0] == 228]
        n.lists["tracking"] = (lambda o: _named(o.tracking, ("volume", "keyboard")),
                               [self.sub([k], "Tracking", TRACKING) for k in tr[:2]])

    def sampler(self, n, own):
        n.attrs["au_sample_rate"] = self.cell(own, 153)
        n.attrs["sample_path"] = self.cell(own, 196, PathText(self.enc))
        n.subs["content"] = self.sub(own, "Content", CONTENT)
        n.subs["filter"] = self.sub(own, "Filter", FILTER_T)
        fx = n.subs["fx"] = self.sub(own, "FX", FX)
        fx.subs["reverb"] = self.reverb(own)
        n.subs["playback"] = self.sub(own, "Playback", PLAYBACK)
        n.subs["stretching"] = self.sub(own, "TimeStretching", STRETCHING)
        es = [k for k in own if self.ev[k][0] == 218][:5]
        n.lists["envelopes"] = (lambda o: _named(o.envelopes, ENVELOPES), [self.sub([k], "Envelope", ENV) for k in es])
        n.lists["lfos"] = (lambda o: _named(o.lfos, ENVELOPES), [self.sub([k], "SamplerLFO", LFO) for k in es])

    def reverb(self, own):
        n = Node("Reverb")
        k = self.first(own, 139)
        if k is None:
            n.attrs["type"] = Fn(None, PCBS, [("enum", "channel.ReverbType", "A")])
            n.attrs["mix"] = Fn(None, PCBS, [5])
            return n
        v = struct.unpack("<I", self.ev[k][1])[0]
        typ, mix = (65536, v - 65536) if v >= 65536 else (0, v)
        n.attrs["type"] = Fn(typ, lambda t: {k: struct.pack("<I", {"A": 0, "B": 65536}[t[2]] + mix)},
                             [("enum", "channel.ReverbType", "A"), ("enum", "channel.ReverbType", "B")])
        n.attrs["mix"] = Fn(mix, lambda m: {k: struct.pack("<I", typ + m)}, range(0, 257), few=[0, 1, 128, 256])
        return n

    def points(self, own):
        k = self.first(own, 234)
        if k is None:
            return []
        p = self.ev[k][1]
        count = struct.unpack_from("<I", p, 17)[0]
        out, pos = [], 0.0
        for i in range(count):
            off = 21 + 24 * i
            x = struct.unpack_from("<d", p, off)[0]
            pos = x if i == 0 else pos + x
            n = Node("AutomationPoint")
            n.attrs["position"] = Const(norm(pos), ro=PCBS)
            for a, c in POINT.items():
                n.attrs[a] = Cell(k, p, RecCodec(c, off))
            out.append(n)
        return out

    # -- plugins
    def plugin(self, own, slot=False):
        k = self.first(own, PLUGIN_DATA)
        if k is None:
            return None
        name = self.plug[k]
        p = self.ev[k][1]
        if name == VST:
            n = Node("VSTPlugin")
            self.vst(n, k, p)
        elif name == NOTEBOOK:
            n = Node("FruityNotebook2")
            pages, end = Notebook.pages(p)
            n.attrs["active_page"] = Cell(k, p, U(4, 4))
            n.attrs["editable"] = Cell(k, p, Bool(end))
            n.attrs["pages"] = Fn(pages, lambda v: {k: Notebook.make(p[:8], v, p[end])},
                                  [{}, {0: ""}, {0: "abc", 1: "\u00e9" * 200}, {5: "x"}, {2: "b", 0: "a\r\n"}])
        elif name in NATIVE:
            cls, size, longer, table = NATIVE[name]
            n = Node(cls)
            shift = 4 if longer and len(p) == longer else 0
            for a, c in table.items():
                n.attrs[a] = Cell(k, p, RecCodec(c, shift))
        else:
            n = Node("_PluginBase")
        for a, spec in WRAPPER.items():
            if a not in n.attrs:
                n.attrs[a] = self.cell(own, 212, spec[1])
        return n

    def vst(self, n, k, p):
        for a, rid in VST_TEXT.items():
            n.attrs[a] = VSTCell(k, p, VSTWhole(rid, True))
        for a, rid in VST_BYTES.items():
            n.attrs[a] = VSTCell(k, p, VSTWhole(rid, False))
        for s, table in VST_FLAGS.items():
            m = n.subs[s] = Node()
            for a, c in table.items():
                m.attrs[a] = VSTCell(k, p, VSTField(2, c))
            if s == "midi":
                for a, c in VST_MIDI.items():
                    m.attrs[a] = VSTCell(k, p, VSTField(1, c))

    # -- patterns
    def markers(self, ks):
        ids = (33, 34, 148, 205)
        cols = {i: [k for k in ks if self.ev[k][0] == i] for i in ids}
        out = []
        for j in range(max(len(c) for c in cols.values())):
            own = sorted(cols[i][j] for i in ids if len(cols[i]) > j)
            n = Node("TimeMarker")
            n.own = own
            self.attrs(n, own, MARKER)
            k = self.first(own, 148)
            if k is None:
                n.attrs["position"] = Const(None)
                n.attrs["type"] = Const(None)
            else:
                v = struct.unpack("<I", self.ev[k][1])[0]
                s = v >= 1 << 27
                n.attrs["position"] = Const(v - (1 << 27) if s else v)
                n.attrs["type"] = Const(1 << 27 if s else 0)
            out.append(n)
        return out

    def patterns(self):
        ev = self.ev
        every = range(len(ev))
        n = Node("Patterns")
        n.attrs["play_cut_notes"] = self.cell(every, 30)
        groups, cur, arr = {}, None, False
        for k, (i, p) in enumerate(ev):
            if i == 99:
                arr = True
            if i == 65:
                cur = struct.unpack("<H", p)[0]
            if i in PATTERN_IDS or (i in MARKER_IDS and not arr):
                groups.setdefault(cur, []).append(k)
        self.pat_own = {i: [o] for i, o in groups.items()}
        pats = [self.pattern(o) for o in groups.values()]
        n.lists["patterns"] = (iterate, pats)
        k = self.first(every, 67)
        n.subs["current"] = None
        if k is not None:
            want = struct.unpack("<H", ev[k][1])[0]
            if want in groups:
                c = Node("Pattern")
                c.own = groups[want]
                c.attrs["iid"] = Const(want, REF)
                n.subs["current"] = c
        return n

    def pattern(self, own):
        ev = self.ev
        n = Node("Pattern")
        n.own = own
        self.attrs(n, own, PATTERN)
        news = [k for k in own if ev[k][0] == 65]
        n.attrs["iid"] = Fn(struct.unpack("<H", ev[news[0]][1])[0],
                            lambda v: {k: struct.pack("<H", v) for k in news}, [1, 2, 999, 65535], few=[901, 902])
        n.lists["notes"] = (lambda o: iterate(o.notes), self.records(own, 224, 24, self.note))
        n.lists["controllers"] = (lambda o: iterate(o.controllers), self.records(own, 223, 12, self.controller))
        n.lists["timemarkers"] = (lambda o: iterate(o.timemarkers), self.markers(own))
        return n

    def records(self, own, id, size, make):
        k = self.first(own, id)
        if k is None:
            return []
        p = self.ev[k][1]
        return [make(k, p, size * i) for i in range(len(p) // size)]

    def note(self, k, p, off):
        n = Node("Note")
        for a, c in NOTE.items():
            n.attrs[a] = Cell(k, p, RecCodec(c, off))
        num = struct.unpack_from("<H", p, off + 12)[0]
        n.attrs["key"] = Fn(key_name(num), lambda v: note_key(k, p, off + 12, v),
                            list(range(132)) + [key_name(i) for i in range(132)], few=[0, 131, "C#5", "B0", "A10"])
        return n

    def controller(self, k, p, off):
        n = Node("Controller")
        for a, c in CONTROLLER.items():
            n.attrs[a] = Cell(k, p, RecCodec(c, off))
        return n

    # -- arrangements
    def arrangements(self):
        ev = self.ev
        every = range(len(ev))
        n = Node("Arrangements")
        new = self.vt[:3] >= (12, 9, 1)
        n.attrs["max_tracks"] = Const(500 if new else 199)
        a, b = self.first(every, 217), self.first(every, 152)
        if a is not None:
            n.attrs["loop_pos"] = Cell(a, ev[a][1], Pair(0, 4))
        elif b is not None:
            n.attrs["loop_pos"] = Cell(b, ev[b][1], Pair(0, 2))
        else:
            n.attrs["loop_pos"] = Fn(None, PCBS, [(1, 2)])
        n.subs["time_signature"] = self.sub(every, "TimeSignature", TIMESIG)
        owns, began, ended = [], False, False
        for k, (i, _) in enumerate(ev):
            if i == 99:
                owns.append([])
                began, ended = True, False
            elif i == 100:
                ended = True
            if began and not ended and (i in ARR_IDS or i in TRACK_IDS or i in MARKER_IDS):
                owns[-1].append(k)
        arrs = [self.arrangement(o, 499 if new else 198) for o in owns]
        if owns:
            n.lists["arrangements"] = (iterate, arrs)
            k = self.first(every, 100)
            n.subs["current"] = None
            if k is not None:
                i = struct.unpack("<H", ev[k][1])[0]
                if i < len(owns):
                    c = Node("Arrangement")
                    c.own = owns[i]
                    n.subs["current"] = c
                else:
                    del n.subs["current"]
                    n.attrs["current"] = Const(Raises("ModelNotFound"))
        return n

    def arrangement(self, own, max_idx):
        ev = self.ev
        n = Node("Arrangement")
        n.own = own
        n.attrs["iid"] = self.cell(own, 99)
        n.attrs["name"] = self.cell(own, 241)
        n.lists["timemarkers"] = (lambda o: iterate(o.timemarkers), self.markers(own))
        towns = []
        for k in own:
            if ev[k][0] == 238:
                towns.append([])
            if towns and ev[k][0] in TRACK_IDS:
                towns[-1].append(k)
        items = [[] for _ in towns]
        k = self.first(own, 233)
        if k is not None:
            p = ev[k][1]
            size = 60 if len(p) % 60 == 0 else 32
            for r in range(len(p) // size):
                off = size * r
                t = max_idx - struct.unpack_from("<H", p, off + 12)[0]
                if 0 <= t < len(towns):
                    items[t].append(self.plitem(k, p, off))
        tracks = []
        for o, its in zip(towns, items):
            t = Node("Track")
            t.own = o
            self.attrs(t, o, TRACK)
            t.lists["items"] = (iterate, its)
            tracks.append(t)
        n.lists["tracks"] = (lambda o: iterate(o.tracks), tracks)
        return n

    def plitem(self, k, p, off):
        base, idx = struct.unpack_from("<HH", p, off + 4)
        chan = idx <= base
        n = Node("ChannelPLItem" if chan else "PatternPLItem")
        for a, c in PLITEM.items():
            n.attrs[a] = Cell(k, p, RecCodec(c, off))
        offs = struct.unpack_from("<ff", p, off + 24)
        n.attrs["offsets"] = Fn(norm(offs), lambda v: {k: p[:off + 24] + struct.pack("<ff", *v) + p[off + 32:]},
                                [(0.0, 1.0), (-1.0, -1.0), (0.5, 1234.0), (8.0, 2.0), (0.0, 0.0)])
        t = Node("Pattern" if not chan else None)
        t.attrs["iid"] = Const(idx if chan else idx - base, REF)
        t.own = self.only(self.chan_own if chan else self.pat_own, idx if chan else idx - base)
        n.subs["channel" if chan else "pattern"] = t
        return n

    # -- mixer
    def mixer(self):
        ev = self.ev
        n = Node("Mixer")
        n.attrs["apdc"] = self.cell(range(len(ev)), 29)
        began, owns, cur = False, [], []
        for k, (i, _) in enumerate(ev):
            if i in INSERT_IDS or i in (29, 225, 98):
                began = True
            if began and (i in INSERT_IDS or i == 98 or i in PLUGIN_IDS):
                cur.append(k)
            if i == 147:
                owns.append(cur)
                cur = []
        params, pk = {}, self.first(range(len(ev)), 225)
        if pk is not None:
            p = ev[pk][1]
            for r in range(len(p) // 12):
                rid, addr = p[12 * r + 4], struct.unpack_from("<H", p, 12 * r + 6)[0]
                ins, slot = addr >> 6 & 0x7F, addr & 0x3F
                params[(ins, slot if rid < 2 else None, rid)] = 12 * r + 8
        self.params, self.pk = params, pk
        n.lists["inserts"] = (iterate, [self.insert(i, o) for i, o in enumerate(owns[:127])])
        n.attrs["max_inserts"] = Const(127) if self.vt[:3] > (12, 9, 0) else None
        n.attrs["max_slots"] = Const(10) if self.vt[:3] > (3, 0, 0) else None
        for a in ("max_inserts", "max_slots"):
            if n.attrs[a] is None:
                del n.attrs[a]
        return n

    def param(self, ins, slot, rid):
        off = self.params.get((ins, slot, rid))
        if off is None:
            return Fn(None, PCBS, [0, 77])
        return Cell(self.pk, self.ev[self.pk][1], RecCodec(S(0, 4), off))

    def insert(self, i, own):
        ev = self.ev
        n = Node("Insert")
        n.own = own
        n.attrs["iid"] = Const(i - 1)
        self.attrs(n, own, INSERT)
        n.attrs["volume"] = self.param(i, None, 192)
        n.attrs["pan"] = self.param(i, None, 193)
        n.attrs["stereo_separation"] = self.param(i, None, 194)
        k = self.first(own, 236)
        if k is None or len(ev[k][1]) < 8:
            n.attrs["dock"] = Const(None)
        else:
            f = struct.unpack_from("<I", ev[k][1], 4)[0]
            n.attrs["dock"] = Const("Middle" if f & 64 else "Right" if f & 128 else "Left")
        eq = n.subs["eq"] = Node("InsertEQ")
        for b, name in enumerate(("low", "mid", "high")):
            band = eq.subs[name] = Node("InsertEQBand")
            band.attrs["gain"] = self.param(i, None, 208 + b)
            band.attrs["freq"] = self.param(i, None, 216 + b)
            band.attrs["reso"] = self.param(i, None, 224 + b)
        k = self.first(own, 235)
        routes = []
        if k is not None:
            for j, flag in enumerate(ev[k][1]):
                off = self.params.get((i, None, 64 + j))
                if flag and off is not None:
                    routes.append(struct.unpack_from("<i", ev[self.pk][1], off)[0])
        n.attrs["routes"] = Const(tuple(routes))
        slots, cur = [], []
        for k in own:
            if ev[k][0] == 98 or ev[k][0] in PLUGIN_IDS:
                cur.append(k)
            if ev[k][0] == 98:
                slots.append(cur)
                cur = []
        nodes = []
        for j, o in enumerate(slots):
            s = Node("Slot")
            s.own = o
            self.attrs(s, o, SLOT)
            s.attrs["enabled"] = self.param(i, j, 0)
            s.attrs["mix"] = self.param(i, j, 1)
            s.subs["plugin"] = self.plugin(o, True)
            nodes.append(s)
        n.lists["slots"] = (iterate, nodes)
        return n


def _named(d, names):
    """The values of a dict attribute in its documented key order; None, not an empty dict, when nothing is stored."""
    if d is None:
        return []
    if not d:
        raise AssertionError("empty dict instead of None")
    want = list(names)[:len(d)]
    if list(d) != want:
        raise AssertionError("keys %r, expected %r" % (list(d), want))
    return list(d.values())


NOTE_NAMES = ("C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B")


def key_name(num):
    return NOTE_NAMES[num % 12] + str(num // 12)


def note_key(k, p, off, v):
    if isinstance(v, int):
        num = v
        if not 0 <= num <= 131:
            return Raises("ValueError")
    else:
        name = v.rstrip("0123456789")
        if name not in NOTE_NAMES or name == v:
            return Raises("ValueError")
        num = int(v[len(name):]) * 12 + NOTE_NAMES.index(name)
        if num > 131:
            return Raises("ValueError")
    return {k: p[:off] + struct.pack("<H", num) + p[off + 2:]}


def created_on(p):
    import datetime
    return norm(datetime.datetime(1899, 12, 30) + datetime.timedelta(days=struct.unpack_from("<d", p, 0)[0]))


def time_spent(p):
    import datetime
    return norm(datetime.timedelta(days=struct.unpack_from("<d", p, 8)[0]))


def build(st):
    return Builder(st).project()


def structural(node, name):
    """Attributes which decide how other events are interpreted (only written on their own, not in long histories)."""
    return name == "internal_name" or (name == "iid" and node.cls in (
        "Sampler", "Instrument", "Layer", "Automation", "Channel", "Pattern")) or (name == "version")


def writable(tree, structural_too=True):
    """All (path, node, name, cell) which can be assigned now."""
    for path, node in tree.walk():
        for name, cell in node.attrs.items():
            if cell.writable() and cell.present() and (structural_too or not structural(node, name)):
                yield path, node, name, cell


def resolve(node, path):
    for step in path:
        node = node.subs[step[1]] if step[0] == "s" else node.lists[step[1]][1][step[2]]
    return node


def apply(st, writes):
    for k, p in writes.items():
        st = st._replace(**{k: p}) if isinstance(k, str) else st.with_event(k, p)
    return st
