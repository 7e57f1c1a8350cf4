"""Independent reader of glTF/GLB/PNG files, and a PNG writer."""
import base64
import json
import os
import struct
import zlib

import numpy as np

from mc.core import fail

COMP = {5120: "<i1", 5121: "<u1", 5122: "<i2", 5123: "<u2", 5125: "<u4", 5126: "<f4"}
WIDTH = {"SCALAR": 1, "VEC2": 2, "VEC3": 3, "VEC4": 4}


def png_write(path, a, level=6):
    """8-bit grey, RGB or RGBA."""
    a = np.asarray(a, dtype=np.uint8)
    h, w = a.shape[:2]
    c = a.shape[2] if a.ndim == 3 else 1
    data = png_bytes(a.reshape(h, w, c), level)
    with open(path, "wb") as f:
        f.write(data)


def png_bytes(a, level=6):
    h, w, c = a.shape
    raw = b"".join(b"\0" + a[y].tobytes() for y in range(h))
    ch = lambda t, d: struct.pack(">I", len(d)) + t + d + struct.pack(">I", zlib.crc32(t + d))
    return (b"\x89PNG\r\n\x1a\n" + ch(b"IHDR", struct.pack(">IIBBBBB", w, h, 8, {1: 0, 3: 2, 4: 6}[c], 0, 0, 0)) +
            ch(b"IDAT", zlib.compress(raw, level)) + ch(b"IEND", b""))


def png_read(data, strict=True):
    if data[:8] != b"\x89PNG\r\n\x1a\n":
        fail("not a PNG file")
    p, idat, hdr, end = 8, b"", None, False
    while p + 8 <= len(data) if not strict else p < len(data):
        n, t = struct.unpack(">I4s", data[p:p + 8])
        d = data[p + 8:p + 8 + n]
        if strict and (len(d) != n or struct.unpack(">I", data[p + 8 + n:p + 12 + n])[0] != zlib.crc32(t + d)):
            fail("damaged PNG chunk")
        if t == b"IHDR":
            hdr = struct.unpack(">IIBBBBB", d)
        elif t == b"IDAT":
            idat += d
        elif t == b"IEND":
            end = True
            break
        p += 12 + n
    if strict and not end:
        fail("PNG without end")
    w, h, depth, ct, _, _, lace = hdr
    if depth != 8 or lace or ct not in (0, 2, 6):
        fail("PNG type %r" % (hdr,))
    c = {0: 1, 2: 3, 6: 4}[ct]
    raw = zlib.decompress(idat) if strict else zlib.decompressobj().decompress(idat)
    if len(raw) < h * (1 + w * c):
        fail("PNG with %d bytes of pixels" % len(raw))
    out = np.zeros((h, w * c), dtype=np.int64)
    p = 0
    for y in range(h):
        ft = raw[p]
        line = list(raw[p + 1:p + 1 + w * c])
        p += 1 + w * c
        up = out[y - 1].tolist() if y else [0] * (w * c)
        for x in range(w * c):
            a = line[x - c] if x >= c else 0
            b = up[x]
            if ft == 1:
                line[x] = (line[x] + a) & 255
            elif ft == 2:
                line[x] = (line[x] + b) & 255
            elif ft == 3:
                line[x] = (line[x] + (a + b) // 2) & 255
            elif ft == 4:
                q = up[x - c] if x >= c else 0
                pa, pb, pc = abs(b - q), abs(a - q), abs(a + b - 2 * q)
                line[x] = (line[x] + (a if pa <= pb and pa <= pc else b if pb <= pc else q)) & 255
        out[y] = line
    return out.reshape(h, w, c).astype(np.uint8)


def number(text):
    x = float(text)
    return int(x) if x.is_integer() else x


def read(path, strict=True):
    """(document, list of buffers, directory) of a .gltf or .glb file."""
    parse = {} if strict else {"parse_float": number}     # 3e2 is an integer
    data = open(path, "rb").read()
    d = os.path.dirname(path)
    if path.endswith(".glb"):
        magic, version, length, jl, jt = struct.unpack("<IIIII", data[:20])
        if (magic, version, jt) != (0x46546C67, 2, 0x4E4F534A):
            fail("GLB header %r" % ((magic, version, jt),))
        if length != len(data) or jl % 4:
            fail("GLB lengths: %d of %d bytes, JSON %d" % (length, len(data), jl))
        doc = json.loads(data[20:20 + jl].decode("utf-8"), **parse)
        body = b""
        if 20 + jl < len(data):
            bl, bt = struct.unpack("<II", data[20 + jl:28 + jl])
            if bt != 0x004E4942 or bl % 4 or 28 + jl + bl != len(data):
                fail("GLB binary chunk: type %x length %d" % (bt, bl))
            body = data[28 + jl:]
        bufs = doc.get("buffers", [])
        if len(bufs) > 1 or (bufs and "uri" in bufs[0]):
            fail("a GLB file has one buffer without uri: %r" % (bufs,))
        if bufs and not (bufs[0]["byteLength"] <= len(body) <= bufs[0]["byteLength"] + 3):
            fail("GLB buffer of %r bytes in a chunk of %d" % (bufs, len(body)))
        return doc, [body[:bufs[0]["byteLength"]]] if bufs else [], d
    doc = json.loads(data.decode("utf-8"), **parse)
    out = []
    for b in doc.get("buffers", []):
        out.append(load_uri(b["uri"], d))
        if len(out[-1]) < b["byteLength"]:
            fail("buffer has %d bytes, declared %d" % (len(out[-1]), b["byteLength"]))
    return doc, out, d


def load_uri(uri, d):
    if uri.startswith("data:"):
        return base64.b64decode(uri.partition(";base64,")[2])
    with open(os.path.join(d, uri), "rb") as f:
        return f.read()


def view(doc, bufs, i):
    v = doc["bufferViews"][i]
    o, n = v.get("byteOffset", 0), v["byteLength"]
    b = bufs[v["buffer"]]
    if o + n > len(b):
        fail("view %d leaves its buffer (%d+%d > %d)" % (i, o, n, len(b)))
    return b[o:o + n], v.get("byteStride", 0), o


def accessor(doc, bufs, i, strict=True):
    a = doc["accessors"][i]
    dt, w, n = np.dtype(COMP[a["componentType"]]), WIDTH[a["type"]], a["count"]
    o = a.get("byteOffset", 0)
    if strict:
        b, stride, vo = view(doc, bufs, a["bufferView"])
    else:      # as long as the data is in the buffer, the length of the view does not matter
        if a["bufferView"] < 0:
            fail("negative view")
        v = doc["bufferViews"][a["bufferView"]]
        vo, stride = v.get("byteOffset", 0), v.get("byteStride", 0)
        if vo < 0 or o < 0 or n < 0 or v["buffer"] < 0:
            fail("negative offset")
        b = bufs[v["buffer"]][vo:]
        if stride < dt.itemsize * w:
            stride = 0
    if strict and (o + vo) % dt.itemsize:
        fail("accessor %d is not aligned" % i)
    size = dt.itemsize * w
    step = stride or size
    if n and o + step * (n - 1) + size > len(b):
        fail("accessor %d leaves its view" % i)
    out = np.array([np.frombuffer(b, dt, w, o + step * k) for k in range(n)], dtype=dt).reshape(n, w)
    if strict and n and "min" in a:
        lim = [np.array(a[f], dtype=np.float64).astype(dt).tolist() for f in ("min", "max")]
        if lim != [out.min(0).tolist(), out.max(0).tolist()]:
            fail("accessor %d: min/max %r %r do not match the data" % (i, a["min"], a["max"]))
    return out


def image(doc, bufs, d, i, strict=True):
    im = doc["images"][i]
    data = view(doc, bufs, im["bufferView"])[0] if "bufferView" in im else load_uri(im["uri"], d)
    if strict and "bufferView" in im and im.get("mimeType") != "image/png":
        fail("image %d has type %r" % (i, im.get("mimeType")))
    return png_read(data, strict)


def decode(path, strict=True):
    """List of primitives: dict(indices, position, normal, uv, mode, material) with the material's textures
    resolved, plus the list of all materials (resolved) and images."""
    doc, bufs, d = read(path, strict)
    if doc["asset"]["version"] != "2.0":
        fail("version")
    images = [image(doc, bufs, d, i, strict) for i in range(len(doc.get("images", [])))]

    def tex(t):
        tx = doc["textures"][t["index"]]
        if strict and "sampler" in tx and not 0 <= tx["sampler"] < len(doc.get("samplers", [])):
            fail("texture %d refers to sampler %r of %d" % (t["index"], tx["sampler"], len(doc.get("samplers", []))))
        return images[tx["source"]]

    def material(m):
        p = m.get("pbrMetallicRoughness", {})
        return {"name": m.get("name", ""), "color": p.get("baseColorFactor"), "metallic": p.get("metallicFactor"),
                "roughness": p.get("roughnessFactor"),
                "base": None if "baseColorTexture" not in p else tex(p["baseColorTexture"]),
                "mr": None if "metallicRoughnessTexture" not in p else tex(p["metallicRoughnessTexture"])}
    mats = [material(m) for m in doc.get("materials", [])]
    prims, used = [], []
    for m in doc.get("meshes", []):
        for p in m["primitives"]:
            at = p["attributes"]
            prims.append({
                "indices": accessor(doc, bufs, p["indices"], strict)[:, 0],
                "position": accessor(doc, bufs, at["POSITION"], strict),
                "normal": accessor(doc, bufs, at["NORMAL"], strict),
                "uv": accessor(doc, bufs, at["TEXCOORD_0"], strict) if "TEXCOORD_0" in at else None,
                "mode": p.get("mode", 4),
                "material": mats[p["material"]]})
    # every mesh is shown once by the scene
    if not strict:
        return prims, mats, images, doc
    nodes = [n for s in doc["scenes"][doc.get("scene", 0):][:1] for n in s["nodes"]] if doc.get("scenes") else []
    shown = [doc["nodes"][n]["mesh"] for n in nodes]
    if shown != list(range(len(doc.get("meshes", [])))):
        fail("the scene shows meshes %r of %d" % (shown, len(doc.get("meshes", []))))
    return prims, mats, images, doc
