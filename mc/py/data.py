"""Datasets in the formats the readers understand, and what they hold."""
import struct, zlib, gzip, os


def varint(n):
    b = b""
    while True:
        c = n & 127
        n >>= 7
        b += bytes([c | (128 if n else 0)])
        if not n: return b


def field(num, payload): return varint(num << 3 | 2) + varint(len(payload)) + payload


def tensor_f32(values, keys=None, shape=None):
    b = field(1, struct.pack(f"<{len(values)}f", *values))
    if keys is not None: b += field(2, b"".join(map(varint, keys)))
    if shape is not None: b += field(3, b"".join(map(varint, shape)))
    return field(2, b)


def recordio(payload, kind=0):
    head = struct.pack("<II", 0xced7230a, kind << 29 | len(payload))
    return head + payload + b"\0" * (-len(payload) % 4)


def protobuf(features):
    b = b""
    for k, v in features.items(): b += field(1, field(1, k.encode()) + field(2, v))
    return recordio(b)


def png(rows, channels=3):
    """An image from rows of pixels (tuples of channels)."""
    raw = b"".join(b"\0" + b"".join(bytes(p) for p in r) for r in rows)
    chunk = lambda t, d: struct.pack(">I", len(d)) + t + d + struct.pack(">I", zlib.crc32(t + d))
    color = {1: 0, 3: 2}[channels]
    return (b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", len(rows[0]), len(rows), 8, color, 0, 0, 0)) +
            chunk(b"IDAT", zlib.compress(raw)) + chunk(b"IEND", b""))


def parquet(payload):
    meta = b"\x15" + b"m" * 10 + b"\x00"
    return b"PAR1" + payload + meta + struct.pack("<I", len(meta)) + b"PAR1"


def gz(b): return gzip.compress(b, mtime=0)
