"""A small TIFF reader and writer, independent of libtiff."""
import struct
import zlib

import numpy as np

W, L, BPS, COMP, PHOTO, DESC, OFFS, SPP, RPS, CNTS, PLANAR, PNAME, PNUM, SFMT, SUB = (
    256, 257, 258, 259, 262, 270, 273, 277, 278, 279, 284, 285, 297, 339, 254)
SIZE = {1: 1, 2: 1, 3: 2, 4: 4, 5: 8, 16: 8, 12: 8, 11: 4}


def read(path):
    """[{'array', 'name', 'desc', 'number', 'comp'}] of the pages of a file."""
    d = open(path, "rb").read()
    en = {b"II": "<", b"MM": ">"}[d[:2]]
    assert struct.unpack_from(en + "H", d, 2)[0] == 42, "not a TIFF file"
    off = struct.unpack_from(en + "I", d, 4)[0]
    pages = []
    while off:
        n = struct.unpack_from(en + "H", d, off)[0]
        tags = {}
        for i in range(n):
            tag, ty, cnt = struct.unpack_from(en + "HHI", d, off + 2 + 12 * i)
            size = SIZE[ty] * cnt
            at = off + 10 + 12 * i
            if size > 4:
                at = struct.unpack_from(en + "I", d, at)[0]
            raw = d[at:at + size]
            assert len(raw) == size, "tag outside the file"
            if ty == 2:
                tags[tag] = raw.split(b"\0")[0].decode()
            elif ty in (1, 3, 4):
                tags[tag] = struct.unpack(en + "%d%s" % (cnt, {1: "B", 3: "H", 4: "I"}[ty]), raw)
        w, h = tags[W][0], tags[L][0]
        spp = tags.get(SPP, (1,))[0]
        bps = tags.get(BPS, (1,))[0]
        comp = tags.get(COMP, (1,))[0]
        rps = min(tags.get(RPS, (h,))[0], h)
        assert tags.get(PLANAR, (1,))[0] == 1 and tags.get(317, (1,))[0] == 1 and tags.get(SFMT, (1,))[0] == 1
        data = b""
        for i, (o, c) in enumerate(zip(tags[OFFS], tags[CNTS])):
            s = d[o:o + c]
            assert len(s) == c, "strip outside the file"
            if comp in (8, 32946):
                s = zlib.decompress(s)
            else:
                assert comp == 1, "compression %d" % comp
            rows = min(rps, h - i * rps)
            assert len(s) == rows * w * spp * bps // 8, "strip size"
            data += s
        a = np.frombuffer(data, dtype=en + {8: "u1", 16: "u2"}[bps])
        a = a.astype(a.dtype.newbyteorder("=")).reshape((h, w, spp) if spp > 1 else (h, w))
        pages.append({"array": a, "name": tags.get(PNAME), "desc": tags.get(DESC), "number": tags.get(PNUM), "comp": comp})
        off = struct.unpack_from(en + "I", d, off + 2 + 12 * n)[0]
    return pages


def write(path, pages, en="<", rps=None, deflate=False, bits=None):
    """pages: [(array, name or None, desc or None, (index, total) or None)]"""
    out = bytearray((b"II" if en == "<" else b"MM") + struct.pack(en + "HI", 42, 0))
    prev = 4
    for a, name, desc, number in pages:
        h, w = a.shape[:2]
        spp = 1 if a.ndim == 2 else a.shape[2]
        r = rps or h
        offs, cnts = [], []
        for y in range(0, h, r):
            s = a[y:y + r].astype(a.dtype.newbyteorder(en)).tobytes()
            if deflate:
                s = zlib.compress(s)
            offs.append(len(out))
            cnts.append(len(s))
            out += s
            out += b"\0" * (len(out) % 2)
        tags = [(W, 4, (w,)), (L, 4, (h,)), (BPS, 3, (a.dtype.itemsize * 8,) * spp), (COMP, 3, (8 if deflate else 1,)),
                (PHOTO, 3, (2 if spp == 3 else 1,)), (OFFS, 4, tuple(offs)), (SPP, 3, (spp,)), (RPS, 4, (r,)),
                (CNTS, 4, tuple(cnts)), (PLANAR, 3, (1,))]
        if desc is not None:
            tags.append((DESC, 2, desc.encode() + b"\0"))
        if name is not None:
            tags.append((PNAME, 2, name.encode() + b"\0"))
        if number is not None:
            tags.append((PNUM, 3, tuple(number)))
        tags.sort()
        ents = b""
        for tag, ty, v in tags:
            raw = v if ty == 2 else struct.pack(en + "%d%s" % (len(v), {3: "H", 4: "I"}[ty]), *v)
            cnt = len(v)
            if len(raw) > 4:
                out += b"\0" * (len(out) % 2)
                val = struct.pack(en + "I", len(out))
                out += raw
            else:
                val = raw.ljust(4, b"\0")
            ents += struct.pack(en + "HHI", tag, ty, cnt) + val
        out += b"\0" * (len(out) % 2)
        struct.pack_into(en + "I", out, prev, len(out))
        out += struct.pack(en + "H", len(tags)) + ents
        prev = len(out)
        out += b"\0" * 4
    with open(path, "wb") as f:
        f.write(out)
