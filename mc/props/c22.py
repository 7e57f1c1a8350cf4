"""C22: legal glTF layouts, packing into one file, bounds."""
import base64
import copy
import itertools
import json
import os
import shutil
import struct

import numpy as np

from mc import gltf
from mc.core import Violation, fail, eq, raises
from mc import scenes as S
from sumo.threedee.glb_converter import gltf2glb
from sumo.threedee.gltf_model import GltfModel

ICOMP = {"u8": (5121, "<u1"), "u16": (5123, "<u2"), "u32": (5125, "<u4")}
LAYOUTS = ("views", "strided views", "interleaved", "interleaved wide", "one view")


class Doc:
    """Assembles a glTF document and its buffers."""

    def __init__(self, lay, voff, aoff, bufs, opt, itype, image):
        self.doc = {"asset": {"version": "2.0"}, "buffers": [], "bufferViews": [], "accessors": []}
        self.bufs = []
        self.lay, self.voff, self.aoff, self.bmode, self.opt, self.itype, self.image = lay, voff, aoff, bufs, opt, itype, image

    def buffer(self, role):
        n = {"one": 0, "two": int(role == "attr"), "each": len(self.bufs)}[self.bmode]
        while len(self.bufs) <= n:
            self.bufs.append(bytearray())
        return n

    def view(self, data, role, stride=None, target=None):
        b = self.buffer(role)
        buf = self.bufs[b]
        buf += b"\xa5" * ((-len(buf)) % 4 + self.voff)       # bytes of nobody
        v = {"buffer": b, "byteLength": len(data)}
        if len(buf) or not self.opt:
            v["byteOffset"] = len(buf)
        if stride is not None:
            v["byteStride"] = stride
        if target and not self.opt:
            v["target"] = target
            v["name"] = "view"
        buf += data
        self.doc["bufferViews"].append(v)
        return len(self.doc["bufferViews"]) - 1

    def accessor(self, view, off, comp, typ, data):
        a = {"bufferView": view, "componentType": comp, "type": typ, "count": len(data)}
        if off or not self.opt:
            a["byteOffset"] = off
        if not self.opt or typ == "VEC3":
            a["min"] = [float(x) if comp == 5126 else int(x) for x in data.min(0)]
            a["max"] = [float(x) if comp == 5126 else int(x) for x in data.max(0)]
        self.doc["accessors"].append(a)
        return len(self.doc["accessors"]) - 1

    def attributes(self, v, n, uv):
        """v, n, uv: (count, width) float arrays; returns the three accessors."""
        arrs = [a.astype("<f4") for a in ((v, n, uv) if uv is not None else (v, n))]
        k = len(v)
        t = ["VEC3", "VEC3", "VEC2"]
        acc = []
        pad = b"\x5a" * self.aoff
        if self.lay in ("views", "strided views"):
            for a, ty in zip(arrs, t):
                w = self.view(pad + a.tobytes(), "attr", 4 * a.shape[1] if self.lay == "strided views" else None, 34962)
                acc.append(self.accessor(w, len(pad), 5126, ty, a))
        elif self.lay == "one view":
            blob, offs = pad, []
            for a in arrs:
                offs.append(len(blob))
                blob += a.tobytes()
            # without a stride every accessor is packed
            w = self.view(blob, "attr", None, 34962)
            acc = [self.accessor(w, o, 5126, ty, a) for o, ty, a in zip(offs, t, arrs)]
        else:
            size = sum(4 * a.shape[1] for a in arrs)
            stride = int(self.lay[7:]) if self.lay.startswith("stride ") else size + (12 if self.lay == "interleaved wide" else 0)
            # with a nonzero offset the first row starts with foreign bytes inside the stride
            lead = self.aoff if stride - size >= self.aoff else 0
            rows = b""
            for i in range(k):
                row = b"\x5a" * lead + b"".join(a[i].tobytes() for a in arrs)
                rows += row + (b"\x33" * (stride - len(row)) if i < k - 1 else b"")   # no padding after the last row
            w = self.view(rows, "attr", stride, 34962)
            o = lead
            for a, ty in zip(arrs, t):
                acc.append(self.accessor(w, o, 5126, ty, a))
                o += 4 * a.shape[1]
        return acc

    def indices(self, idx):
        comp, dt = ICOMP[self.itype]
        a = np.array(idx, dtype=dt).reshape(-1, 1)
        size = a.dtype.itemsize
        lead = {0: 0, 4: size, 12: 3 * size}[self.aoff]
        w = self.view(b"\x5a" * lead + a.tobytes(), "index", None, 34963)
        return self.accessor(w, lead, comp, "SCALAR", a)

    def add_image(self, png, k):
        d = self.doc
        im = {}
        if self.image == "view":
            im["bufferView"] = self.view(png, "image")
            im["mimeType"] = "image/png"
        elif self.image == "data":
            im["uri"] = "data:image/png;base64," + base64.b64encode(png).decode()
        else:
            im["uri"] = "%d.png" % k
            self.files["%d.png" % k] = png
        if not self.opt:
            im["name"] = "image"
        d.setdefault("images", []).append(im)
        t = {"source": k}
        if not self.opt:
            d.setdefault("samplers", [{"magFilter": 9729, "wrapS": 10497}])
            t["sampler"] = 0
        d.setdefault("textures", []).append(t)

    def write(self, folder, kind):
        """kind: 'bin', 'data' (buffers inside the JSON) or 'glb'."""
        d = copy.deepcopy(self.doc)
        for n, b in self.files.items():
            os.makedirs(os.path.dirname(os.path.join(folder, n)), exist_ok=True)
            with open(os.path.join(folder, n), "wb") as f:
                f.write(b)
        if kind == "glb":
            body = bytearray()
            offs = []
            for b in self.bufs:
                body += b"\0" * ((-len(body)) % 4)
                offs.append(len(body))
                body += b
            for v in d["bufferViews"]:
                v["byteOffset"] = v.get("byteOffset", 0) + offs[v["buffer"]]
                v["buffer"] = 0
            d["buffers"] = [{"byteLength": len(body)}]
            return write_glb(os.path.join(folder, "m.glb"), d, bytes(body))
        for i, b in enumerate(self.bufs):
            if kind == "data":
                uri = "data:application/octet-stream;base64," + base64.b64encode(bytes(b)).decode()
            else:
                uri = "buf %d.bin" % i
                with open(os.path.join(folder, uri), "wb") as f:
                    f.write(bytes(b))
            d["buffers"].append({"uri": uri, "byteLength": len(b)})
        return write_gltf(os.path.join(folder, "m.gltf"), d)


def write_gltf(p, d):
    with open(p, "w") as f:
        json.dump(d, f)
    return p


def write_glb(p, d, body):
    j = json.dumps(d).encode()
    j += b" " * ((-len(j)) % 4)
    body += b"\0" * ((-len(body)) % 4)
    data = struct.pack("<IIIII", 0x46546C67, 2, 28 + len(j) + len(body), len(j), 0x4E4F534A) + j + \
        struct.pack("<II", len(body), 0x004E4942) + body
    with open(p, "wb") as f:
        f.write(data)
    return p


def geometry(n, k):
    idx, v, nn, uv = S.tri_data(n, k)
    return idx, v.T.copy(), nn.T.copy(), uv.T.copy()


def document(lay, voff, aoff, bufs, opt, itype, image, arrange):
    """Two primitives, the first textured.  Returns the Doc and the expected primitives."""
    D = Doc(lay, voff, aoff, bufs, opt, itype, image)
    D.files = {}
    g0, g1 = geometry(5, 1), geometry(4, 3)
    t0, t1 = S.texture(1, 3, 2), S.texture(2, 1, 1)
    D.add_image(gltf.png_bytes(t0), 0)
    a0 = D.attributes(g0[1], g0[2], g0[3])
    i0 = D.indices(g0[0])
    D.add_image(gltf.png_bytes(t1), 1)
    i1 = D.indices(g1[0])
    if arrange == "shared":           # the second primitive uses the vertices of the first
        a1, g1 = a0[:2], (g1[0], g0[1], g0[2], None)
    else:
        a1, g1 = D.attributes(g1[1], g1[2], None), g1[:3] + (None,)
    m0 = {"pbrMetallicRoughness": {"baseColorTexture": {"index": 0}, "metallicRoughnessTexture": {"index": 1}}}
    m1 = {"pbrMetallicRoughness": {"baseColorFactor": [0.5, 0.25, 1, 1]}, "name": "c"}
    D.doc["materials"] = [m1, m0]
    p0 = {"attributes": dict(zip(("POSITION", "NORMAL", "TEXCOORD_0"), a0)), "indices": i0, "material": 1}
    p1 = {"attributes": dict(zip(("POSITION", "NORMAL"), a1)), "indices": i1, "material": 0}
    if not opt:
        p0["mode"] = p1["mode"] = 4
    if arrange == "one mesh":
        D.doc["meshes"] = [{"primitives": [p0, p1]}]
    else:
        D.doc["meshes"] = [{"primitives": [p0], "name": "n"}, {"primitives": [p1]}]
    D.doc["nodes"] = [{"mesh": i} for i in range(len(D.doc["meshes"]))]
    D.doc["scenes"] = [{"nodes": list(range(len(D.doc["meshes"])))}]
    if not opt:
        D.doc["scene"] = 0
        D.doc["extras"] = {"x": [1, 2]}
    return D, [(g0, t0, t1), (g1, None, None)]


def check_model(gm, want, what):
    ms = gm.primitive_meshes()
    eq(len(ms), len(want), what + ": primitives")
    for i, (m, ((idx, v, n, uv), b, r)) in enumerate(zip(ms, want)):
        got = {"indices": m.indices(), "vertices": m.vertices().T, "normals": m.normals().T}
        exp = {"indices": idx, "vertices": v, "normals": n}
        eq(bool(m.is_textured()), uv is not None, "%s: primitive %d textured" % (what, i))
        if uv is not None:
            got.update(uv=m.uv_coords().T, base=m.base_color(), mr=m.metallic_roughness())
            exp.update(uv=uv, base=b, mr=r)
        for k in exp:
            if got[k].shape != exp[k].shape or not np.array_equal(got[k], exp[k]):
                fail("%s: %s of primitive %d: %r, expected %r" % (what, k, i, got[k].tolist(), exp[k].tolist()))


def check_decoded(path, want, what):
    prims, mats, images, doc = gltf.decode(path)
    eq(len(prims), len(want), what + ": primitives in the file")
    for i, (q, ((idx, v, n, uv), b, r)) in enumerate(zip(prims, want)):
        exp = {"indices": idx, "position": v, "normal": n}
        if uv is not None:
            exp["uv"] = uv
        for k in exp:
            if not np.array_equal(q[k], exp[k]):
                fail("%s: %s of primitive %d in the file: %r, expected %r" % (what, k, i, q[k].tolist(), exp[k].tolist()))
        eq(q["uv"] is None, uv is None, what + ": uv")
        for k, t in (("base", b), ("mr", r)):
            a = q["material"][k]
            t = t if t is not None and t.size else None
            if (a is None) != (t is None) or (t is not None and not np.array_equal(a, t)):
                fail("%s: %s texture of primitive %d in the file" % (what, k, i))
        if i == 1:
            eq((q["material"]["name"], q["material"]["color"]), ("c", [0.5, 0.25, 1, 1]), what + ": material")
    return doc


def put(doc, path, val):
    d = copy.deepcopy(doc)
    x = d
    for k in path[:-1]:
        x = x[k]
    if val == "drop":
        if isinstance(x, list):
            x.pop(path[-1])
        else:
            del x[path[-1]]
    else:
        x[path[-1]] = val
    return d


def outcome(p, kind):
    """('error', ) or the primitives as read by the code."""
    try:
        gm = GltfModel.load_from_glb(p) if kind == "glb" else GltfModel.load_from_gltf(p)
    except IOError:
        return None
    except ValueError:    # a picture outside of a GLB file
        return None
    try:
        ms = gm.primitive_meshes()
    except Exception:
        return None
    out = []
    for m in ms:
        r = [m.indices().tolist(), m.vertices().T.tolist(), m.normals().T.tolist()]
        if m.is_textured():
            r += [m.uv_coords().T.tolist(), m.base_color().tolist(), m.metallic_roughness().tolist()]
        out.append(repr(r))
    return out


def reference(p):
    """What an independent reader makes of the file, None if it is not valid."""
    try:
        prims = gltf.decode(p, strict=False)[0]
    except Violation:
        return None
    except Exception:
        return None
    out = []
    for q in prims:
        n = len(q["position"])
        if len(q["normal"]) != n or (q["indices"].size and int(q["indices"].max()) >= n):
            return None
        r = [q["indices"].tolist(), q["position"].tolist(), q["normal"].tolist()]
        if q["uv"] is not None:
            if len(q["uv"]) > n:
                return None
            z = np.zeros((0, 0, 3), dtype=np.uint8)
            r += [q["uv"].tolist()] + [(z if q["material"][f] is None else q["material"][f]).tolist() for f in ("base", "mr")]
        out.append(repr(r))
    return out


def explore(ctx):
    folder = os.path.join(ctx.tmp, "lay")

    def fresh():
        shutil.rmtree(folder, ignore_errors=True)
        os.mkdir(folder)

    def pack(p, how, want):
        """gltf2glb in each way it can be called; returns the glb path."""
        d, n = os.path.split(p)
        glb = os.path.join(d, "m.glb")
        old = os.getcwd()
        try:
            if how == "to":
                glb = os.path.join(d, "packed.glb")
                gltf2glb(p, glb)
            elif how == "default":
                gltf2glb(p)
            else:
                os.chdir(d)
                gltf2glb(n)
        finally:
            os.chdir(old)
        doc = check_decoded(glb, want, "packed file")
        for im in doc.get("images", []):
            if "uri" in im or "bufferView" not in im:
                fail("packed file refers to an image outside of it: %r" % (im,))
        for v in doc["bufferViews"]:
            if v["buffer"] != 0:
                fail("packed file refers to buffer %r" % v["buffer"])
        return glb

    def layout(case):
        lay, voff, aoff, bufs, opt, itype, image, arrange, kind = case
        fresh()
        D, want = document(lay, voff, aoff, bufs, opt, itype, image, arrange)
        p = D.write(folder, kind)
        gltf.decode(p)                      # the file is legal
        if kind == "glb":
            gm = GltfModel.load_from_glb(p)
            check_model(gm, want, "GLB")
            gm.save_as_glb(p)
            check_decoded(p, want, "GLB saved again") if arrange != "one mesh" else gltf.decode(p)
            check_model(GltfModel.load_from_glb(p), want, "GLB saved and loaded again")
            ctx.step(4)
            return case
        before = {f: open(os.path.join(folder, f), "rb").read() for f in os.listdir(folder)}
        gm = GltfModel.load_from_gltf(p)
        check_model(gm, want, "gltf")
        how = ("to", "default", "cwd")[(voff + aoff + len(lay)) % 3]
        glb = pack(p, how, want)
        check_model(GltfModel.load_from_glb(glb), want, "packed file")
        for f, b in before.items():
            if open(os.path.join(folder, f), "rb").read() != b:
                fail("packing changed the file %s" % f)
        q = gm.save_as_gltf(folder, "again")
        check_decoded(q, want, "saved again")
        check_model(GltfModel.load_from_gltf(q), want, "saved and loaded again")
        ctx.step(4)
        return case

    def layouts():
        full = ctx.thorough
        for lay, voff, aoff, bufs, itype, image, arrange, kind in itertools.product(
                LAYOUTS, (0, 4, 32), (0, 4, 12), ("one", "two", "each"), ICOMP, ("file", "data", "view"),
                ("two meshes", "one mesh", "shared"), ("bin", "data", "glb")):
            for opt in (0, 1):
                # quick: images matter only together with buffers and packaging
                if not full and image == "data" and (voff or aoff or arrange != "two meshes"):
                    continue
                if not full and opt != (LAYOUTS.index(lay) + voff // 4 + aoff // 4) % 2 and arrange != "two meshes":
                    continue
                yield (lay, voff, aoff, bufs, opt, itype, image, arrange, kind)
    ctx.enum("layouts", layouts(), layout)

    # -- every distance between vertices ---------------------------------------
    def strides(case):
        stride, aoff, kind, itype = case
        fresh()
        D, want = document("stride %d" % stride, 4, aoff, "one", 1, itype, "file", "two meshes")
        p = D.write(folder, kind)
        if kind != "glb":
            gltf.decode(p)
        check_model((GltfModel.load_from_glb if kind == "glb" else GltfModel.load_from_gltf)(p), want, "stride %d" % stride)
        ctx.step()
        return case
    ctx.enum("strides", ((s, a, k, i) for s in range(32, 253, 4) for a in (0, 4, 12) for k in ("data", "bin", "glb") for i in ("u16", "u32")), strides)

    # -- media types of embedded data ------------------------------------------
    def media(case):
        lay, bufs, kind, image, packs = case
        fresh()
        D, want = document(lay, 4, 4, bufs, 1, "u16", "data" if image else "file", "two meshes")
        p = D.write(folder, "data")
        d = json.load(open(p))
        for i, b in enumerate(d["buffers"]):
            k = kind if kind != "mixed" else ("octet-stream", "gltf-buffer")[i % 2]
            head, _, body = b["uri"].partition(",")
            b["uri"] = "data:application/%s;base64,%s" % (k, body)
        write_gltf(p, d)
        gltf.decode(p)
        check_model(GltfModel.load_from_gltf(p), want, kind)
        if packs:
            glb = pack(p, packs, want)
            check_model(GltfModel.load_from_glb(glb), want, "packed file")
        ctx.step(2)
        return case
    ctx.enum("media types", ((l, b, k, i, how) for l in LAYOUTS for b in ("one", "two", "each") for k in ("octet-stream", "gltf-buffer", "mixed")
                             for i in (0, 1) for how in ("", "to", "default", "cwd")), media)

    # -- index widths at their limits ------------------------------------------
    def widths(case):
        itype, n, kind = case
        fresh()
        D = Doc("views", 0, 0, "one", 1, itype, "file")
        D.files = {}
        v = np.arange(3 * n, dtype=np.float32).reshape(n, 3)
        idx = np.array([0, n - 1, n // 2, n - 2, 1, 0] if n > 2 else [0, 0, 0])
        a = D.attributes(v, v[::-1].copy(), None)
        D.doc["materials"] = [{}]
        D.doc["meshes"] = [{"primitives": [{"attributes": {"POSITION": a[0], "NORMAL": a[1]}, "indices": D.indices(idx), "material": 0}]}]
        D.doc["nodes"] = [{"mesh": 0}]
        D.doc["scenes"] = [{"nodes": [0]}]
        p = D.write(folder, kind)
        gm = GltfModel.load_from_glb(p) if kind == "glb" else GltfModel.load_from_gltf(p)
        check_model(gm, [((idx, v, v[::-1], None), None, None)], itype)
        ctx.step()
        return case
    ctx.enum("index widths", [(t, n, k) for t, lim in (("u8", 255), ("u16", 65535), ("u32", 70000))
                              for n in (1, 3, 127, 128, 254, 255, 256, 257, 32767, 32768, 32769, 65535, 65536, 70000) if n <= lim
                              for k in ("bin", "data", "glb")], widths)

    # -- every field with every out-of-range value --------------------------------
    def places(doc):
        """(path, value) of every number of the document that is not asset/min/max."""
        out = []

        def walk(x, path):
            if isinstance(x, dict):
                for k in sorted(x):
                    if k not in ("asset", "min", "max", "extras", "baseColorFactor"):
                        walk(x[k], path + (k,))
            elif isinstance(x, list):
                for i, y in enumerate(x):
                    walk(y, path + (i,))
            elif isinstance(x, int):
                out.append((path, x))
        walk(doc, ())
        return out

    def damaged(case):
        lay, kind, path, val = case
        fresh()
        D, want = document(*lay)
        p = D.write(folder, kind)
        if kind == "glb":
            doc, bufs, _ = gltf.read(p)
            p = write_glb(p, put(doc, path, val), bufs[0])
        else:
            doc = json.load(open(p))
            p = write_gltf(p, put(doc, path, val))
        ctx.step()
        got = outcome(p, kind)
        if got is not None:
            ref = reference(p)
            if ref is None:
                # what the reader sees as damage may only concern what the file does not use
                if val == "drop" or path[-1] in ("target", "mode", "sampler", "scene", "magFilter", "wrapS"):
                    ref = [repr([w[0].tolist(), w[1].tolist(), w[2].tolist()] + ([] if w[3] is None else [w[3].tolist(), b.tolist(), r.tolist()]))
                           for w, b, r in want]
                    if got == ref:
                        return (path, "as before")
                fail("%r = %r is invalid, but %d primitives were read: %s" % (path, val, len(got), got))
            if got != ref:
                fail("%r = %r was read as %s, the file says %s" % (path, val, got, ref))
        # packing must not turn an invalid file into a valid one with other contents
        if kind != "glb":
            glb = os.path.join(folder, "z.glb")
            try:
                gltf2glb(p, glb)
            except Exception:
                return (path, repr(val), "not packed")
            g2 = outcome(glb, "glb")
            if g2 is not None and g2 != (reference(glb) if got is None else got):
                fail("%r = %r: packed file was read as %s, the original as %s" % (path, val, g2, got))
        return (path, repr(val), got is None)
    menu = (-1, 0, 1, 2, 3, 4, 5, 7, 8, 100, 255, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 4, 2 ** 63 - 1, 2 ** 63, 2 ** 64,
            -2 ** 31, -2 ** 63, 1e300, "1", True, None, [], {}, "drop", 5120, 5121, 5122, 5123, 5125, 5126)
    lays = [("views", 4, 4, "two", 0, "u16", "view", "two meshes"), ("interleaved", 0, 0, "one", 0, "u8", "file", "one mesh")]
    if ctx.thorough:
        lays += [("one view", 32, 12, "each", 0, "u32", "data", "shared"), ("interleaved wide", 4, 12, "two", 1, "u32", "view", "two meshes")]

    def damage_cases():
        for lay in lays:
            for kind in ("bin", "data", "glb"):
                fresh()
                D, _ = document(*lay)
                p = D.write(folder, kind)
                doc = gltf.read(p)[0]
                for path, v in places(doc):
                    vals = list(menu) + [v + d for d in (-4, -2, -1, 1, 2, 4, 12, 100) if v + d not in menu]
                    if not ctx.thorough and kind == "data":
                        vals = [x for x in vals if x in (-1, 2 ** 31, 2 ** 64, "drop")]
                    for x in vals:
                        if x is v or (type(x) is int and x == v):
                            continue
                        yield (lay, kind, path, x)
    ctx.enum("one field out of range", damage_cases(), damaged)

    # -- pairs of fields of views and accessors at their limits --------------------
    def pairs(case):
        vi, f1, x1, f2, x2, kind = case
        fresh()
        D, _ = document(*lays[1])
        p = D.write(folder, "bin")
        doc = json.load(open(p))
        a = doc["accessors"][vi]
        v = doc["bufferViews"][a["bufferView"]]
        tgt = {"vo": (v, "byteOffset"), "vl": (v, "byteLength"), "vs": (v, "byteStride"), "ao": (a, "byteOffset"), "ac": (a, "count"),
               "bl": (doc["buffers"][v["buffer"]], "byteLength")}
        for f, x in ((f1, x1), (f2, x2)):
            o, k = tgt[f]
            o[k] = o.get(k, 0) + x if abs(x) < 1000 else x
        p = write_gltf(p, doc)
        ctx.step()
        got, ref = outcome(p, "bin"), reference(p)
        if got is not None and got != ref:
            fail("read as %s, the file says %s" % (got, ref))
        return (case, got is None)
    X = (-40, -12, -4, 0, 4, 12, 40, 2 ** 31, 2 ** 32 - 4, 2 ** 63)
    ctx.enum("two fields out of range", [(vi, f1, x1, f2, x2, "bin") for vi in range(4) for f1, f2 in
                                        itertools.combinations(("vo", "vl", "vs", "ao", "ac", "bl"), 2) for x1 in X for x2 in X], pairs)

    # -- shortened buffers: every length --------------------------------------------
    def short(case):
        kind, n = case
        fresh()
        D, want = document(*lays[0])
        p = D.write(folder, kind)
        if kind == "bin":
            f = os.path.join(folder, "buf 1.bin")
            b = open(f, "rb").read()
            b = b[:len(D.bufs[1])]
            with open(f, "wb") as o:
                o.write(b[:n])
            enough = n >= len(D.bufs[1])
        else:
            b = open(p, "rb").read()
            with open(p, "wb") as o:
                o.write(b[:n])
            enough = n >= len(b)
        ctx.step()
        got = outcome(p, kind)
        if got is not None and not enough:
            fail("a file cut to %d bytes was read" % n)
        if enough and got is None:
            fail("a complete file was not read")
        if kind == "bin" and not enough:
            raises(Exception, gltf2glb, p, os.path.join(folder, "z.glb"))
        return case
    fresh()
    D, _ = document(*lays[0])
    n1 = len(D.bufs[1])
    n2 = os.path.getsize(D.write(folder, "glb"))
    ctx.enum("cut files", [("bin", n) for n in range(n1 + 1)] + [("glb", n) for n in range(n2 + 1)], short)

    # -- refusals of the packer ----------------------------------------------------
    def refuse(case):
        kind, = case
        fresh()
        D, want = document(*lays[1])
        p = D.write(folder, "bin")
        if kind == "name":
            q = os.path.join(folder, "m.json")
            os.rename(p, q)
            raises((SystemExit, Exception), gltf2glb, q)
        elif kind == "buffer":
            os.remove(os.path.join(folder, "buf 0.bin"))
            raises(IOError, gltf2glb, p)
            raises(IOError, GltfModel.load_from_gltf, p)
        elif kind == "image":
            os.remove(os.path.join(folder, "0.png"))
            raises(IOError, gltf2glb, p)
        elif kind == "no file":
            raises(IOError, gltf2glb, os.path.join(folder, "absent.gltf"))
        elif kind == "not JSON":
            with open(p, "w") as f:
                f.write("{")
            raises(Exception, gltf2glb, p)
        elif kind == "no folder":
            raises(IOError, gltf2glb, p, os.path.join(folder, "absent", "m.glb"))
        ctx.step()
        return case
    ctx.enum("refusals", [(k,) for k in ("name", "buffer", "image", "no file", "not JSON", "no folder")], refuse)
