"""Reference reader / writer of the FLP container. Never imports pyflp.

A model state is a ``State``: header fields plus an ordered tuple of (event id, payload bytes).
"""
import struct
from typing import NamedTuple, Tuple

HEADER = struct.Struct("<4sIhHH")
PPQS = (24, 48, 72, 96, 120, 144, 168, 192, 384, 768, 960)
FORMATS = (-1, 0, 0x10, 24, 0x20, 0x30, 0x31, 0x32, 0x40, 0x50)


class State(NamedTuple):
    events: Tuple[Tuple[int, bytes], ...]
    fmt: int = 0
    channels: int = 0
    ppq: int = 96

    def with_event(self, idx, payload):
        ev = list(self.events)
        ev[idx] = (ev[idx][0], payload)
        return self._replace(events=tuple(ev))

    def without(self, *idxs):
        return self._replace(events=tuple(e for i, e in enumerate(self.events) if i not in idxs))


def varint(n):
    out = bytearray()
    while True:
        b = n & 0x7F
        n >>= 7
        if n:
            out.append(b | 0x80)
        else:
            out.append(b)
            return bytes(out)


def enc_event(id, payload):
    if id < 192:
        want = 1 if id < 64 else 2 if id < 128 else 4
        assert len(payload) == want, (id, payload)
        return bytes((id,)) + payload
    return bytes((id,)) + varint(len(payload)) + payload


def enc_events(events):
    return b"".join(enc_event(i, p) for i, p in events)


def header(fmt, channels, ppq, size, magic=b"FLhd", hsize=6, dmagic=b"FLdt"):
    return HEADER.pack(magic, hsize, fmt, channels, ppq) + dmagic + struct.pack("<I", size)


def encode(st):
    body = enc_events(st.events)
    return header(st.fmt, st.channels, st.ppq, len(body)) + body


def decode(buf):
    magic, hs, fmt, ch, ppq = HEADER.unpack_from(buf)
    assert magic == b"FLhd" and hs == 6 and buf[14:18] == b"FLdt"
    size = struct.unpack_from("<I", buf, 18)[0]
    assert len(buf) == size + 22
    pos, ev = 22, []
    while pos < len(buf):
        id = buf[pos]
        pos += 1
        if id < 192:
            n = 1 if id < 64 else 2 if id < 128 else 4
        else:
            n = shift = 0
            while True:
                b = buf[pos]
                pos += 1
                n |= (b & 0x7F) << shift
                shift += 7
                if not b & 0x80:
                    break
        assert pos + n <= len(buf)
        ev.append((id, bytes(buf[pos:pos + n])))
        pos += n
    return State(tuple(ev), fmt, ch, ppq)
