"""C19: malformed, truncated and missing files."""
import copy
import itertools
import json
import os
import shutil
import stat
import struct
import xml.etree.ElementTree as ET

import h5py
import numpy as np

from mc import gltf, tiff
from mc import scenes as S
from mc.core import fail
from mc.props import c10, c22
from mc.props.c03 import spec_valid
from sumo.images.multi_image_tiff import MultiImageTiff
from sumo.images.rgbd_360 import Rgbd360
from sumo.images.rgbdci_360 import Rgbdci360
from sumo.geometry.pose3 import Pose3
from sumo.geometry.rot3 import Rot3
from sumo.semantic.object_symmetry import ObjectSymmetry
from sumo.semantic.project_object import ProjectObject
from sumo.semantic.project_scene import ProjectScene
from sumo.threedee.box_3d import Box3d
from sumo.threedee.glb_converter import gltf2glb
from sumo.threedee.gltf_model import GltfModel
from sumo.threedee.point_cloud import PointCloud
from sumo.threedee.voxel_grid import VoxelGrid

T = c10.T
SPECS = {
    "bounding_box": (("bounding_box", "a", "chair", "gen2", "two_x", 0.5, True, "odd"), ("bounding_box", "b", "sofa", "t", "can", -1, False, "unit")),
    "voxels": (("voxels", "a", "chair", "gen2", "two_x", 0.5, False, "line"), ("voxels", "b", "sofa", "t", "can", -1, True, "one")),
    "meshes": (("meshes", "a", "chair", "gen2", "two_x", 0.5, False, "tex"), ("meshes", "b", "sofa", "t", "can", -1, True, "mixed")),
}
SCENE_ERRORS = (OSError, ValueError, RuntimeError)


class Bad(Exception):
    pass


# -- what a scene document says -------------------------------------------------
class Doc:
    """Reads a document; 'loose' is set where a reader may also refuse it."""

    def __init__(self, root, shapes):
        self.loose = False
        self.shapes = shapes
        if root.tag != "scene":
            raise Bad("root")
        self.settings, typ, sections = {}, None, []
        for e in root:
            if e.tag == "categories":
                for c in e:
                    if c.tag in ("id", "url"):
                        self.once(e, c.tag)
                        self.settings["categories_" + c.tag] = c.text or ""
            elif e.tag == "project_type":
                self.once(root, e.tag)
                typ = e.text
            elif e.tag == "version":
                self.once(root, e.tag)
                self.settings["version"] = e.text or ""
            elif e.tag == "elements":
                sections.append(e)
        if typ not in S.TYPES:
            raise Bad("project_type")
        if not sections:
            raise Bad("elements")
        self.typ = typ
        self.unclear = len(sections) > 1          # which section counts is not defined
        self.objects = {}
        for e in sections[-1]:
            if e.tag == "element":
                o = self.element(e)
                if o["id"] in self.objects:
                    self.unclear = True
                self.objects[o["id"]] = o

    def once(self, e, tag):
        if len(e.findall(tag)) > 1:
            self.loose = True

    def vector(self, e):
        try:
            v = [float(x) for x in (e.text or "").split(",")]
        except ValueError:
            raise Bad("number")
        if len(v) != 3:
            raise Bad("three numbers")
        if not np.isfinite(v).all():
            self.loose = True
        return v

    def parts(self, e, names):
        got = {}
        for c in e:
            if c.tag not in names:
                self.loose = True
                continue
            self.once(e, c.tag)
            got[c.tag] = c
        if len(got) != len(names):
            raise Bad("missing part of " + e.tag)
        return got

    def element(self, e):
        o = {"category": "unknown", "pose": (np.eye(3), np.zeros(3)), "symmetry": ("none",) * 3, "score": -1.0, "evaluated": True,
             "id": None, "bounds": None}
        for c in e:
            if c.tag in ("id", "pose", "category", "bounds", "symmetry", "detectionScore", "evaluated"):
                self.once(e, c.tag)
            if c.tag == "id":
                o["id"] = c.text
            elif c.tag == "category":
                o["category"] = c.text or ""
            elif c.tag == "bounds":
                p = self.parts(c, ("corner1", "corner2"))
                v = [self.vector(p["corner1"]), self.vector(p["corner2"])]
                o["bounds"] = (np.minimum(*v), np.maximum(*v))
                if (np.array(v[0]) > np.array(v[1])).any():
                    self.loose = True
            elif c.tag == "pose":
                p = self.parts(c, ("translation", "rotation"))
                r = self.parts(p["rotation"], ("c1", "c2", "c3"))
                R = np.array([self.vector(r["c%d" % i]) for i in (1, 2, 3)]).T
                if not np.allclose(R.T @ R, np.eye(3), atol=1e-6) or np.linalg.det(R) < 0:
                    self.loose = True
                o["pose"] = (R, np.array(self.vector(p["translation"])))
            elif c.tag == "symmetry":
                p = {}
                for a in c:
                    if a.tag in ("x", "y", "z"):
                        self.once(c, a.tag)
                        p[a.tag] = a.text
                    else:
                        self.loose = True
                o["symmetry"] = tuple(p.get(a) for a in "xyz")
                if not set(o["symmetry"]) <= {"none", "twoFold", "fourFold", "cylindrical", "spherical"} or not spec_valid(o["symmetry"]):
                    raise Bad("symmetry")
            elif c.tag == "detectionScore":
                try:
                    o["score"] = float(c.text or "")
                except ValueError:
                    raise Bad("score")
                if not np.isfinite(o["score"]):
                    self.loose = True
            elif c.tag == "evaluated":
                o["evaluated"] = {"True": True, "true": True, "False": False, "false": False}.get(c.text)
                if o["evaluated"] is None:      # other spellings are not defined: not true
                    self.loose = True
                    o["evaluated"] = False
        if not o["id"] or o["bounds"] is None:
            raise Bad("id or bounds")
        if self.typ != "bounding_box" and (self.typ, o["id"]) not in self.shapes:
            raise Bad("no file of the object")
        return o

    def check(self, sc, what):
        if self.unclear:
            return
        if sc.project_type != self.typ or dict(sc.settings) != self.settings:
            fail("%s: read as %r %r, the file says %r %r" % (what, sc.project_type, sc.settings, self.typ, self.settings))
        if sorted(sc.elements) != sorted(self.objects):
            fail("%s: read objects %r, the file says %r" % (what, sorted(sc.elements), sorted(self.objects)))
        for k, o in self.objects.items():
            p = sc.elements[k]
            got = (p.id, p.project_type, p.category, (p.symmetry.x_symmetry.name, p.symmetry.y_symmetry.name, p.symmetry.z_symmetry.name),
                   repr(float(p.score)), p.evaluated)
            want = (k, self.typ, o["category"], o["symmetry"], repr(o["score"]), o["evaluated"])
            if got != want:
                fail("%s: read object %r, the file says %r" % (what, got, want))
            for g, w, n in ((p.pose.R.matrix(), o["pose"][0], "rotation"), (p.pose.t, o["pose"][1], "translation"),
                            (p.bounds.min_corner, o["bounds"][0], "bounds"), (p.bounds.max_corner, o["bounds"][1], "bounds")):
                if not np.allclose(np.asarray(g, dtype=float), w, rtol=1e-6, atol=0, equal_nan=True):
                    fail("%s: %s of %r is %r, the file says %r" % (what, n, k, g, w))
            if self.typ != "bounding_box" and S.shape_state(p) != self.shapes[(self.typ, k)]:
                fail("%s: the shape of %r differs" % (what, k))


def nodes(e, path=()):
    yield path
    for i, c in enumerate(e):
        yield from nodes(c, path + (i,))


def at(e, path):
    for i in path:
        e = e[i]
    return e


TEXTS = (None, "", " ", "x", "1", "-1", "1.5e", "0x10", "1,2", "1,2,3", "1,2,x", "1,2,", "1;2;3", "1,2,3,4", "nan,0,0", "1 2 3", "True", "true", "yes",
         "twoFold", "spherical", "bounding_box", "voxels", "meshes", "zzz", "a", "b", "nan", "1e400", "[1,2,3]")


def mutate(root, m):
    root = copy.deepcopy(root)
    op, path = m[0], m[1]
    if op in ("text", "rename", "attr", "child"):
        e = at(root, path)
        if op == "text":
            e.text = m[2]
        elif op == "rename":
            e.tag = m[2]
        elif op == "attr":
            e.set("x", "1")
        else:
            e.insert(m[2], ET.Element("zzz"))
        return root
    p = at(root, path[:-1])
    i = path[-1]
    if op == "drop":
        p.remove(p[i])
    elif op == "empty":
        for c in list(p[i]):
            p[i].remove(c)
        p[i].text = None
    elif op == "dup":
        p.insert(i, copy.deepcopy(p[i]))
    elif op == "swap":
        if i + 1 >= len(p):
            return None
        a, b = p[i], p[i + 1]
        p[i], p[i + 1] = b, a
    return root


# -- a PLY file -----------------------------------------------------------------------
PT = {"char": "b", "uchar": "B", "short": "h", "ushort": "H", "int": "i", "uint": "I", "float": "f", "double": "d",
      "int8": "b", "uint8": "B", "int16": "h", "uint16": "H", "int32": "i", "uint32": "I", "float32": "f", "float64": "d"}


def ply_bytes(fmt):
    head = ["ply", "format %s 1.0" % fmt, "comment x y", "element camera 1", "property float fov", "element vertex 3", "property float x",
            "property float y", "property uchar red", "property float z", "element face 1", "property list uchar int vertex_indices", "end_header"]
    rows = [("f", (0.5,))] + [("ffBf", (i + 0.5, -2.25 * i, 10 + i, 7.0 - i)) for i in range(3)] + [("Biii", (3, 0, 1, 2))]
    h = ("\n".join(head) + "\n").encode()
    if fmt == "ascii":
        return h + "".join(" ".join(repr(v) for v in r) + "\n" for _, r in rows).encode()
    en = "<" if "little" in fmt else ">"
    return h + b"".join(struct.pack(en + t, *r) for t, r in rows)


def ply_read(data):
    """Points of a PLY file, None if it is not one."""
    try:
        end = data.index(b"end_header")
        lines = [x.split() for x in data[:end].decode("latin-1").split("\n")]
        body = data[end:]
        if not body.startswith(b"end_header\n"):
            return None
        body = body[11:]
        if lines[0] != ["ply"] or lines[-1] != []:
            return None
        fmt, elems = None, []
        for w in lines[1:-1]:
            if w[0] == "format" and fmt is None and w[2:] == ["1.0"]:
                fmt = w[1]
            elif w[0] == "element" and fmt and len(w) == 3:
                elems.append((w[1], int(w[2]), []))
                if int(w[2]) < 0:
                    return None
            elif w[0] == "property" and len(w) == 3:
                elems[-1][2].append((w[2], PT[w[1]], None))
            elif w[0] == "property" and w[1] == "list" and len(w) == 5:
                elems[-1][2].append((w[4], PT[w[3]], PT[w[2]]))
            elif w[0] not in ("comment", "obj_info"):
                return None
        if [e[0] for e in elems].count("vertex") != 1:
            return None
        ascii_ = fmt == "ascii"
        words = body.split() if ascii_ else None
        en = {"ascii": "<", "binary_little_endian": "<", "binary_big_endian": ">"}[fmt]
        pos = 0

        def take(c):
            nonlocal pos
            if ascii_:
                v = float(words[pos])
                pos += 1
                return v
            v, = struct.unpack_from(en + c, body, pos)
            pos += struct.calcsize("<" + c)
            return v
        out = None
        for name, n, props in elems:
            rows = []
            if n > 100000:
                return None
            for _ in range(n):
                r = {}
                for pn, c, lc in props:
                    if lc:
                        k = int(take(lc))
                        if k < 0 or k > 100000:
                            return None
                        for _ in range(k):
                            take(c)
                    else:
                        if pn in r:
                            return None
                        r[pn] = take(c)
                rows.append(r)
            if name == "vertex":
                out = [tuple(float(np.float32(r[a])) for a in "xyz") for r in rows]
        return out
    except (ValueError, IndexError, KeyError, struct.error, OverflowError):
        return None


def json_places(doc):
    out = []

    def walk(x, path):
        if path:
            out.append(path)
        if isinstance(x, dict):
            for k in sorted(x):
                walk(x[k], path + (k,))
        elif isinstance(x, list):
            for i, y in enumerate(x):
                walk(y, path + (i,))
    walk(doc, ())
    return out


def explore(ctx):
    tmp = os.path.join(ctx.tmp, "c19")
    os.mkdir(tmp)

    # -- things that exist while files are read -----------------------------------
    wit_model, wit_grid = S.make_model("mixed"), S.make_voxels("line")
    wit_scene = S.make_scene("bounding_box", SPECS["bounding_box"])
    wit = (S.model_state(wit_model), S.voxel_state(wit_grid), S.scene_state(wit_scene))

    def unharmed():
        if (S.model_state(wit_model), S.voxel_state(wit_grid), S.scene_state(wit_scene)) != wit:
            fail("reading a bad file changed an object that exists")

    # -- scenes -------------------------------------------------------------------
    base, shapes = {}, {}
    for typ in S.TYPES:
        d = os.path.join(tmp, "s_" + typ)
        os.mkdir(d)
        S.make_scene(typ, SPECS[typ]).save(d, "p")
        base[typ] = (d, open(os.path.join(d, "p", "p.xml"), "rb").read())
        sc = ProjectScene.load(d, "p")
        shapes.update({(typ, k): S.shape_state(o) for k, o in sc.elements.items()})

    def load_scene(typ, data, what):
        """Loads the scene whose document is data; compares it with what the document says."""
        d, _ = base[typ]
        with open(os.path.join(d, "p", "p.xml"), "wb") as f:
            f.write(data)
        doc, why = None, None
        try:
            doc = Doc(ET.fromstring(data), {k: v for k, v in shapes.items() if k[0] == typ})
        except (ET.ParseError, LookupError, ValueError):
            why = "not XML"
        except Bad as e:
            why = str(e)
        ctx.step()
        try:
            sc = ProjectScene.load(d, "p")
        except SCENE_ERRORS as e:
            if why == "not XML" and not isinstance(e, ValueError):
                fail("%s: %r instead of a ValueError" % (what, e))
            if why is None and not doc.loose and not doc.unclear:
                fail("%s: a valid scene is refused: %r" % (what, e))
            return type(e).__name__
        except Exception as e:
            fail("%s: %r is none of the documented errors" % (what, e))
        if why is not None:
            fail("%s: the scene is invalid (%s), but was read as %s" % (what, why, S.scene_state(sc, shape=False)))
        doc.check(sc, what)
        return "read"

    def documents(case):
        typ, ms = case
        root = ET.fromstring(base[typ][1])
        for m in ms:
            root = mutate(root, m)
            if root is None:
                return "same"
        r = load_scene(typ, ET.tostring(root, encoding="utf-8"), repr(ms))
        unharmed()
        return (typ, ms, r)

    def muts(typ, full=True):
        return mutations(ET.fromstring(base[typ][1]), full)

    def mutations(root, full=True):
        for p in nodes(root):
            yield ("rename", p, "zzz")
            yield ("attr", p)
            yield ("child", p, 0)
            if p:
                for op in ("drop", "empty", "dup", "swap"):
                    yield (op, p)
            e = at(root, p)
            if full and not len(e):
                for t in TEXTS:
                    yield ("text", p, t)
            elif full:
                for t in ("x", "1,2,3"):
                    yield ("text", p, t)
            if full and p:
                for t in ("id", "element", "elements", "pose", "bounds", "corner1", "x", "c1", "translation", "evaluated", "scene"):
                    if t != e.tag:
                        yield ("rename", p, t)
            if full:
                n = e.tag
                for t in {n + "s", n + "2", n + "_", "x" + n, n.upper(), n.capitalize(), n[:-1], n[1:], n[::-1], n + n, "{u}" + n} - {"", n}:
                    if t[0].isalpha() or t[0] == "{":
                        yield ("rename", p, t)

    def documents_cases():
        for typ in S.TYPES:
            for m in muts(typ):
                yield typ, (m,)
        for typ in S.TYPES if ctx.thorough else ("bounding_box",):
            root = ET.fromstring(base[typ][1])
            ns = [p for p in nodes(root) if p and (ctx.thorough or p[:2] != (3, 1))]
            for a, b in itertools.combinations(ns, 2):
                for o1, o2 in itertools.product(("drop", "dup", "empty"), ("drop", "empty", "swap")):
                    if b[:len(a)] == a or o1 != "empty" and b[:len(a) - 1] == a[:-1]:
                        continue
                    yield typ, ((o1, a), (o2, b))
    ctx.enum("scene documents", documents_cases(), documents)

    # the readers of the parts of a document, called with such a part
    odd = S.make_object(SPECS["bounding_box"][0])
    PART = {"element": (odd.save(), lambda e: ProjectObject.load("bounding_box", e), ValueError),
            "pose": (odd.pose.to_xml(), Pose3.from_xml, RuntimeError),
            "rotation": (odd.pose.R.to_xml(), Rot3.from_xml, ValueError),
            "box3d": (odd.bounds.to_xml(), Box3d.from_xml, RuntimeError),
            "symmetry": (odd.symmetry.to_xml(), ObjectSymmetry.from_xml, RuntimeError)}

    def said(kind, e):
        """What the part says, in plain numbers and texts, and whether a reader may also refuse it."""
        doc = Doc.__new__(Doc)
        doc.loose, doc.typ = False, "bounding_box"
        if e.tag != kind:
            raise Bad("tag")
        if kind == "element":
            o = doc.element(e)
        elif kind == "box3d":
            c = copy.deepcopy(e)
            c.tag = "bounds"
            o = doc.element(tree("element", tree("id", text="q"), c))["bounds"]
        elif kind == "rotation":
            o = doc.element(tree("element", tree("id", text="q"), BOX, tree("pose", tree("translation", text="0,0,0"), e)))["pose"][0]
        else:
            o = doc.element(tree("element", tree("id", text="q"), BOX, e))[kind]
        return o, doc.loose

    def tree(tag, *children, text=None):
        e = ET.Element(tag)
        e.text = text
        e.extend(children)
        return e
    BOX = copy.deepcopy(PART["box3d"][0])
    BOX.tag = "bounds"

    def plain(kind, r):
        if kind == "element":
            return {"id": r.id, "category": r.category, "score": float(r.score), "evaluated": r.evaluated, "pose": plain("pose", r.pose),
                    "bounds": plain("box3d", r.bounds), "symmetry": plain("symmetry", r.symmetry)}
        if kind == "pose":
            return np.array(r.R.matrix()), np.array(r.t, dtype=float)
        if kind == "rotation":
            return np.array(r.matrix())
        if kind == "box3d":
            return np.array(r.min_corner, dtype=float), np.array(r.max_corner, dtype=float)
        return r.x_symmetry.name, r.y_symmetry.name, r.z_symmetry.name

    def agrees(a, b):
        if isinstance(a, dict):
            return a.keys() == b.keys() and all(agrees(a[k], b[k]) for k in a)
        if isinstance(a, tuple):
            return len(a) == len(b) and all(agrees(x, y) for x, y in zip(a, b))
        if isinstance(a, (np.ndarray, float)):
            return bool(np.allclose(a, b, rtol=1e-6, atol=0, equal_nan=True))
        return a == b

    def parts(case):
        kind, ms = case
        e = ET.fromstring(ET.tostring(PART[kind][0]))
        for m in ms:
            e = mutate(e, m)
            if e is None:
                return "same"
        what = "<%s> with %r" % (kind, ms)
        text = ET.tostring(e)
        e = ET.fromstring(text)
        try:
            want, loose = said(kind, e)
        except Bad as b:
            want, loose = None, str(b)
        ctx.step()
        try:
            got = PART[kind][1](e)
        except (PART[kind][2] if loose == "tag" else (ValueError, RuntimeError)) as err:
            if want is not None and not loose:
                fail("%s: a valid part is refused: %r" % (what, err))
            return (kind, ms, type(err).__name__)
        except Exception as err:
            fail("%s: %r is not the documented error" % (what, err))
        if want is None:
            fail("%s: invalid (%s), but read as %r" % (what, loose, plain(kind, got)))
        if not agrees(plain(kind, got), want):
            fail("%s: read as %r, it says %r" % (what, plain(kind, got), want))
        if ET.tostring(e) != text:
            fail("%s: reading changed the document" % what)
        return (kind, ms, "read")

    def part_cases():
        for kind in PART:
            root = ET.fromstring(ET.tostring(PART[kind][0]))
            yield kind, ()
            one = list(mutations(root))
            for m in one:
                yield kind, (m,)
            places = list(nodes(root))
            for a, b in itertools.combinations(places, 2):
                for o1, o2 in itertools.product((("attr",), ("rename", "zzz"), ("child", 0), ("child", 1)), (("drop",), ("dup",), ("swap",), ("text", "1,2"), ("attr",))):
                    if not ctx.thorough and o1[0] != "attr" and o2[0] not in ("dup", "attr"):
                        continue
                    yield kind, ((o1[0], a) + o1[1:], (o2[0], b) + o2[1:])
    ctx.enum("parts of documents", ((k, ms) for k, ms in part_cases() if not any(m[0] == "child" and i + 1 < len(ms) and ms[i + 1][1][:len(m[1])] == m[1]
                                                                                for i, m in enumerate(ms))), parts)

    def scene_bytes(case):
        typ, pos, val = case
        data = base[typ][1]
        data = data[:pos] if val is None else data[:pos] + val.encode("latin-1") + data[pos + 1:]
        return (case, load_scene(typ, data, "byte %d, %r" % (pos, val)))
    ctx.enum("scene bytes", itertools.chain(
        ((t, n, None) for t in S.TYPES for n in range(len(base[t][1]))),
        (("bounding_box", n, v) for n in range(len(base["bounding_box"][1]))
         for v in ("<", ">", "&", "\0", "\xff", " ", "9", "", "/", ",", "\"", "e") + (tuple(map(chr, range(0, 256, 5))) if ctx.thorough else ()))), scene_bytes)

    # -- the files of the objects ------------------------------------------------------
    files = {}
    for typ, ext in (("voxels", ".h5"), ("meshes", ".glb")):
        for k in "ab":
            p = os.path.join(base[typ][0], "p", k + ext)
            files[(typ, k)] = (p, open(p, "rb").read())

    def broken(p, how, n, others):
        """Breaks the file p; returns what restores it."""
        data = open(p, "rb").read()
        os.remove(p)
        if how == "directory":
            os.mkdir(p)
        elif how == "unreadable":
            with open(p, "wb") as f:
                f.write(data)
            os.chmod(p, 0)
        elif how != "missing":
            with open(p, "wb") as f:
                f.write(data[:n] if how == "cut" else others[n] if how == "foreign" else b"" if how == "empty" else b"\0" * len(data))

        def restore():
            if os.path.isdir(p):
                os.rmdir(p)
            elif os.path.exists(p):
                os.remove(p)
            with open(p, "wb") as f:
                f.write(data)
        return restore

    def object_files(case):
        typ, k, how, n = case
        d = base[typ][0]
        with open(os.path.join(d, "p", "p.xml"), "wb") as f:
            f.write(base[typ][1])
        p, data = files[(typ, k)]
        restore = broken(p, how, n, others)
        ctx.step()
        try:
            if os.getuid() == 0 and how == "unreadable":
                return "as root"
            try:
                sc = ProjectScene.load(d, "p")
            except OSError as e:
                return (typ, k, how, n)
            except Exception as e:
                fail("%r instead of an IOError" % e)
            if how == "cut" and S.shape_state(sc.elements[k]) == shapes[(typ, k)]:
                return "complete"
            fail("a scene with a bad file was read as %s" % repr(S.scene_state(sc))[:500])
        finally:
            restore()
            unharmed()
    others = {"xml": base["meshes"][1], "h5": files[("voxels", "a")][1], "glb": files[("meshes", "a")][1], "text": b"hello", "png": gltf.png_bytes(S.texture(1))}

    def object_cases():
        for typ, k in sorted(files):
            for how in ("missing", "empty", "zeros", "directory", "unreadable"):
                yield typ, k, how, 0
            for n in others:
                if n != {"voxels": "h5", "meshes": "glb"}[typ]:
                    yield typ, k, "foreign", n
            size = len(files[(typ, k)][1])
            step = 1 if ctx.thorough else 23 if typ == "voxels" else 7
            for n in range(0, size, step):
                yield typ, k, "cut", n
            for n in range(max(0, size - 40), size):
                yield typ, k, "cut", n
    ctx.enum("files of objects", object_cases(), object_files)

    def scene_files(case):
        how, name = case
        d = os.path.join(tmp, "sf")
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(base["bounding_box"][0], d)
        x = os.path.join(d, "p", "p.xml")
        with open(x, "wb") as f:
            f.write(base["bounding_box"][1])
        want = OSError
        if how == "no xml":
            os.remove(x)
        elif how == "xml directory":
            os.remove(x)
            os.mkdir(x)
        elif how == "unreadable":
            os.chmod(x, 0)
        elif how == "no folder":
            shutil.rmtree(os.path.join(d, "p"))
        elif how == "file for folder":
            shutil.rmtree(os.path.join(d, "p"))
            with open(os.path.join(d, "p"), "w") as f:
                f.write("x")
        elif how == "foreign":
            with open(x, "wb") as f:
                f.write(others[name])
            want = ValueError
        elif how == "name":
            pass
        ctx.step()
        if how == "unreadable" and os.getuid() == 0:
            return case
        try:
            ProjectScene.load(d, name if how == "name" else "p")
        except want:
            unharmed()
            return case
        except Exception as e:
            fail("%s: %r instead of %s" % (how, e, want.__name__))
        fail("%s: was read" % how)
    ctx.enum("files of scenes", [(h, "") for h in ("no xml", "xml directory", "unreadable", "no folder", "file for folder")] +
             [("foreign", k) for k in sorted(others) if k != "xml"] + [("name", n) for n in ("q", "", "P", "p/p", "..", "p.xml")], scene_files)

    # -- voxel grids -----------------------------------------------------------------------
    h5 = os.path.join(tmp, "v.h5")
    CELLS = np.array([[0, 0, 0], [2, 0, 0], [0, 3, 1]], dtype=np.int32)

    def h5_write(cells=CELLS, scale=10.0, mc=(0.25, 0.5, -3.0), sx=3, sy=4, skip=(), group=False):
        with h5py.File(h5, "w") as f:
            if group:
                f.create_group("voxels_3d")
            elif "voxels_3d" not in skip:
                f.create_dataset("voxels_3d", data=cells)
            for k, v in (("scale", scale), ("min_corner", mc), ("size_x", sx), ("size_y", sy)):
                if k not in skip:
                    f.attrs[k] = v
    FIELDS = {
        "cells": {"fractions": CELLS + 0.5, "negative": CELLS - 1, "text": np.array([b"a", b"bc"]), "flat": CELLS.ravel(), "two columns": CELLS[:, :2].copy(),
                  "four columns": np.hstack([CELLS, CELLS[:, :1]]), "deep": CELLS[:, :, None], "scalar": np.int32(3), "nan": CELLS * np.nan,
                  "large": CELLS.astype(np.int64) * 2 ** 33, "complex": CELLS * 1j, "ok int64": CELLS.astype(np.int64), "ok int16": CELLS.astype(np.int16),
                  "ok floats": CELLS.astype(float), "ok empty": CELLS[:0], "one negative": CELLS * np.array([1, 1, -1]), "inf": CELLS * np.inf,
                  "repeated": np.vstack([CELLS, CELLS[:1]]), "order": CELLS[::-1].copy(), "row": CELLS[0]},
        "scale": {"zero": 0.0, "negative": -2.0, "nan": np.nan, "inf": np.inf, "text": "x", "list": [1.0, 2.0], "ok int": 10, "ok float32": np.float32(10),
                  "-inf": -np.inf, "empty": "", "true text": "10"},
        "mc": {"two": (1.0, 2.0), "four": (1.0, 2.0, 3.0, 4.0), "text": "xyz", "number": 1.0, "nan": (0, np.nan, 0), "inf": (np.inf, 0, 0), "matrix": np.zeros((3, 3)),
               "column": np.zeros((3, 1)), "ok ints": (1, 2, 3), "ok float32": np.float32((0.25, 0.5, -3)), "texts": np.array([b"1", b"2", b"3"])},
        "sx": {"zero": 0, "small": 2, "negative": -3, "text": "x", "fraction": 3.5, "list": [3, 3], "nan": np.nan, "ok large": 7, "ok int64": np.int64(3), "ok float": 3.0},
        "sy": {"zero": 0, "small": 3, "negative": -4, "text": "x", "fraction": 4.5, "list": [4, 4], "nan": np.nan, "ok large": 9, "ok int64": np.int64(4), "ok float": 4.0},
    }

    def voxel_fields(case):
        changes, skip, group = case
        kw = {f: FIELDS[f][n] for f, n in changes}
        h5_write(skip=skip, group=group, **kw)
        ok = not skip and not group and all(n.startswith("ok") for f, n in changes)
        # a count that is too small, or cells in another order, can be repaired by a reader
        loose = not skip and not group and all(n.startswith("ok") or (f in ("sx", "sy") and (n in ("zero", "small") or (n == "negative" and ("cells", "ok empty") in changes))) or n in ("repeated", "order") for f, n in changes)
        old = S.make_voxels("one")
        before = S.voxel_state(old)
        ctx.step()
        for new in (False, True):
            try:
                if new:
                    vg = VoxelGrid.from_file(h5)
                else:
                    old.load(h5)
                    vg = old
            except OSError as e:
                if ok:
                    fail("a valid grid is refused: %r" % e)
                if not new and S.voxel_state(old) != before:
                    fail("a failed load changed the grid")
                continue
            except Exception as e:
                fail("%r instead of an IOError" % e)
            if not (ok or loose):
                fail("an invalid grid was read: voxel size %r, corner %r" % (vg.voxel_size, vg.min_corner))
            mc = np.array(kw.get("mc", (0.25, 0.5, -3.0)), dtype=float)
            cells = {tuple(int(x) for x in c) for c in kw.get("cells", CELLS)}
            size = 1.0 / float(kw.get("scale", 10.0))
            for extra in (None, (1, 1, 1), (5, 9, 2)):
                if extra is not None:
                    vg.add_points((mc + size * (np.array(extra) + 0.5))[None, :])
                    cells = cells | {extra}
                got = S.voxel_state(vg)
                if abs(float(got[0]) - size) > 1e-9 or set(got[2]) != cells or got[3] != len(cells) or got[1] != S.vals(mc):
                    fail("read as %r, the file has size %r, corner %r, cells %r%s" % (
                        got, size, mc, sorted(cells), " with one more" if extra else ""))
        unharmed()
        return case

    def voxel_cases():
        yield (), (), False
        yield (), (), True
        for n in (1, 2):
            for k in itertools.combinations(("voxels_3d", "scale", "min_corner", "size_x", "size_y"), n):
                yield (), k, False
        for f in sorted(FIELDS):
            for n in sorted(FIELDS[f]):
                yield ((f, n),), (), False
        for f, g in itertools.combinations(sorted(FIELDS), 2):
            for n in sorted(FIELDS[f]):
                for m in sorted(FIELDS[g]):
                    yield ((f, n), (g, m)), (), False
    ctx.enum("fields of voxel files", voxel_cases(), voxel_fields)

    # -- models ----------------------------------------------------------------------------
    folder = os.path.join(tmp, "m")

    def fresh():
        shutil.rmtree(folder, ignore_errors=True)
        os.mkdir(folder)
    lays = (("views", 4, 4, "two", 0, "u16", "view", "two meshes"), ("interleaved", 0, 0, "one", 0, "u8", "file", "one mesh"),
            ("one view", 0, 4, "each", 1, "u32", "data", "shared"))

    def primitives(want):
        return [repr([w[0].tolist(), w[1].tolist(), w[2].tolist()] + ([] if w[3] is None else [w[3].tolist(), b.tolist(), r.tolist()])) for w, b, r in want]

    def compare(p, kind, want, what):
        got = c22.outcome(p, kind)
        ctx.step()
        if got is not None and got != primitives(want):
            ref = c22.reference(p)
            if got != ref:
                fail("%s: read as %s, the file %s" % (what, repr(got)[:600], "is invalid" if ref is None else "says " + repr(ref)[:600]))
        return got is None

    MENU = ("drop", None, True, False, -1, 0, 1, 1.5, "", "x", [], {}, [None], [0], [1.5, "x"], {"x": 1}, "rename")

    def model_documents(case):
        lay, kind, path, val = case
        fresh()
        D, want = c22.document(*lay)
        p = D.write(folder, kind)
        doc, bufs, _ = gltf.read(p)
        if val == "rename":
            x = doc
            for k in path[:-1]:
                x = x[k]
            x["zzz"] = x.pop(path[-1])
        else:
            doc = c22.put(doc, path, val)
        if kind == "glb":
            c22.write_glb(p, doc, bufs[0])
        else:
            c22.write_gltf(p, doc)
        r = compare(p, kind, want, "%r = %r" % (path, val))
        if kind != "glb":
            z = os.path.join(folder, "z.glb")
            try:
                gltf2glb(p, z)
            except Exception:
                return (path, repr(val), "not packed")
            except SystemExit:
                return (path, repr(val), "not packed")
            compare(z, "glb", want, "packed file of %r = %r" % (path, val))
        return (path, repr(val), kind, r)

    def model_cases():
        for lay in lays:
            for kind in ("bin", "glb"):
                if kind == "glb" and lay[6] == "file":
                    continue
                fresh()
                D, _ = c22.document(*lay)
                for path in json_places(gltf.read(D.write(folder, kind))[0]):
                    for v in MENU:
                        if v == "rename" and not isinstance(path[-1], str):
                            continue
                        yield lay, kind, path, v
    ctx.enum("model documents", model_cases(), model_documents)

    def model_bytes(case):
        pos, val = case
        fresh()
        D, want = c22.document(*lays[0])
        p = D.write(folder, "glb")
        data = open(p, "rb").read()
        with open(p, "wb") as f:
            f.write(data[:pos] + val.encode("latin-1") + data[pos + 1:])
        return (case, compare(p, "glb", want, "byte %d, %r" % (pos, val)))
    fresh()
    D, _ = c22.document(*lays[0])
    glb = open(D.write(folder, "glb"), "rb").read()
    jl = struct.unpack_from("<I", glb, 12)[0]
    ctx.enum("bytes of the header of a model", itertools.chain(
        ((n, chr(v)) for n in list(range(20)) + list(range(20 + jl, 28 + jl)) for v in range(0, 256, 1 if ctx.thorough else 3)),
        ((n, chr(v)) for n in range(20, 20 + jl) for v in (0, 255, 34, 44, 45, 48, 49, 57, 91, 92, 125, 101) + ((46, 58, 93, 123, 32, 10, 128) if ctx.thorough else ()))), model_bytes)

    # -- pictures of models ------------------------------------------------------------------
    def pictures(case):
        lay, kind, which, how, pos, val = case
        fresh()
        D, want = c22.document(*lay)
        t = (S.texture(1, 3, 2), S.texture(2, 1, 1))[which]
        png = gltf.png_bytes(t)
        bad = png[:pos] if how == "cut" else png[:pos] + bytes([val]) + png[pos + 1:]
        D2, _ = c22.document(*lay)
        if lay[6] == "file":
            D2.files["%d.png" % which] = bad
            if how == "missing":
                del D2.files["%d.png" % which]
        elif lay[6] == "data":
            import base64
            D2.doc["images"][which]["uri"] = "data:image/png;base64," + base64.b64encode(bad).decode()
        else:
            v = D2.doc["bufferViews"][D2.doc["images"][which]["bufferView"]]
            o = v.get("byteOffset", 0)
            D2.bufs[v["buffer"]][o:o + len(bad)] = bad
            v["byteLength"] = len(bad)
        p = D2.write(folder, kind)
        ctx.step()
        got = c22.outcome(p, kind)
        if got is not None and got != primitives(want):
            try:
                gltf.png_read(bad)
                ok = got == c22.reference(p)
            except Exception:
                ok = False
            if not ok:
                fail("a damaged picture was read: %s" % repr(got)[:800])
        return (case, got is None)

    def picture_cases():
        for lay in lays:
            for kind in ("bin", "glb"):
                if kind == "glb" and lay[6] == "file":
                    continue
                for which, n in ((0, len(gltf.png_bytes(S.texture(1, 3, 2)))), (1, len(gltf.png_bytes(S.texture(2, 1, 1))))):
                    for pos in range(n):
                        yield lay, kind, which, "cut", pos, 0
                if lay[6] == "file":
                    yield lay, kind, 0, "missing", 0, 0
                    yield lay, kind, 1, "missing", 0, 0
    ctx.enum("pictures of models", picture_cases(), pictures)

    # -- point clouds ----------------------------------------------------------------------------
    ply = os.path.join(tmp, "c.ply")
    FM = ("binary_little_endian", "binary_big_endian", "ascii")

    def load_ply(data, orig, what):
        with open(ply, "wb") as f:
            f.write(data)
        ctx.step()
        try:
            pc = PointCloud.load_ply(ply)
        except Exception as e:
            return type(e).__name__
        n = pc.num_points()
        got = [tuple(map(float, c)) for c in np.asarray(pc.points(), dtype=np.float32).T]
        want = ply_read(orig)
        if got == want:
            return "same"
        ref = ply_read(data)
        if repr(got) != repr(ref):
            fail("%s: read as %r, the file %s" % (what, got[:4], "is invalid" if ref is None else "says %r" % ref[:4]))
        return "other"

    def ply_words(case):
        fmt, ln, wd, val = case
        data = ply_bytes(fmt)
        end = data.index(b"end_header\n") + 11
        lines = [x.split(b" ") for x in data[:end - 1].split(b"\n")]
        if val == "dup":
            lines.insert(ln, lines[ln])
        elif val == "drop line":
            del lines[ln]
        elif val == "drop":
            del lines[ln][wd]
        elif val == "swap":
            lines[ln], lines[(ln + 1) % len(lines)] = lines[(ln + 1) % len(lines)], lines[ln]
        else:
            lines[ln][wd] = val.encode()
        new = b"\n".join(b" ".join(x) for x in lines) + b"\n" + data[end:]
        return (case, load_ply(new, data, repr(case)))

    def ply_cases():
        for fmt in FM:
            hdr = ply_bytes(fmt).split(b"end_header\n")[0].decode().split("\n")[:-1] + ["end_header"]
            for i, line in enumerate(hdr):
                for v in ("dup", "drop line", "swap"):
                    yield fmt, i, 0, v
                for j, w in enumerate(line.split(" ")):
                    for v in ("drop", "", "x", "y", "z", "0", "1", "2", "4", "-1", "3.5", "100", "4294967299", "99999999999999999999", "list", "float", "double", "uchar", "int",
                              "vertex", "face", "property", "element", "comment", "format", "ascii", "end_header", "float128"):
                        if v != w:
                            yield fmt, i, j, v
    ctx.enum("words of point cloud headers", ply_cases(), ply_words)

    def ply_bytes_(case):
        fmt, pos, val = case
        data = ply_bytes(fmt)
        return (case, load_ply(data[:pos] + val.encode("latin-1") + data[pos + 1:], data, repr(case)))
    ctx.enum("bytes of point cloud headers", (
        (f, n, chr(v)) for f in FM for n in range(ply_bytes(f).index(b"end_header") + 11) for v in ((0, 255, 10, 32, 45, 48, 57, 120) if not ctx.thorough else range(0, 256, 3))), ply_bytes_)

    # -- images ----------------------------------------------------------------------------------
    tif = os.path.join(tmp, "i.tif")
    pm = c10.page_map((T.RGB, T.Depth, T.Category, T.Instance), 3, 2)

    def tiff_base(kind):
        if kind == "saved":
            MultiImageTiff(pm).save(tif)
        else:
            codes = c10.u16(3, 2)
            tiff.write(tif, [(pm[T.RGB], "rgb", json.dumps({"version": 1, "near": 0.5}), (0, 3)), (codes, "inv_depth", None, (1, 3)),
                             (pm[T.Category], "category", None, (2, 3))], en=kind[0], rps=2 if "s" in kind else None, deflate="d" in kind)
        return open(tif, "rb").read()

    def tiff_says(path):
        """What the file says, None if it is not valid."""
        try:
            pages = tiff.read(path)
            near = 1.0
            if pages[0]["desc"] is not None:
                d = json.loads(pages[0]["desc"])
                near = d.get("near", 1.0)
            names = {"rgb": T.RGB, "inv_depth": T.Depth, "depth": T.Depth, "category": T.Category, "semantic": T.Category, "instance": T.Instance}
            out = {}
            for p in pages:
                k = names[p["name"]] if p["name"] is not None else (T.RGB if p["array"].ndim == 3 else T.Depth)
                if k in out:
                    return None
                out[k] = (p["array"], near)
            return out
        except Exception:
            return None

    def pages_of(m):
        return {k: a for k, a in ((T.RGB, m.rgb), (T.Depth, m.range), (T.Category, m.category), (T.Instance, m.instance)) if a is not None}

    def load_tiff(data, orig, what, container=False):
        with open(tif, "wb") as f:
            f.write(orig)
        first = pages_of(MultiImageTiff.load(tif))
        with open(tif, "wb") as f:
            f.write(data)
        ctx.step()
        try:
            got = pages_of(MultiImageTiff.load(tif))
        except Exception as e:
            return type(e).__name__
        if sorted(got) == sorted(first) and all(np.array_equal(got[k], first[k], equal_nan=True) for k in got):
            return "same"
        ref = tiff_says(tif)
        if container:       # contradictions that libtiff resolves: any image may result, but a sound one
            for k, a in got.items():
                if a.dtype not in ((np.uint8,) if k == T.RGB else (np.float32,) if k == T.Depth else (np.uint8, np.uint16)) or \
                        a.ndim != (3 if k == T.RGB else 2) or a.size > 2 ** 24:
                    fail("%s: page %s has type %s and shape %r" % (what, k, a.dtype, a.shape))
                a.sum()
            return "resolved"
        if ref is None:
            fail("%s: an invalid file was read as %r" % (what, got))
        if sorted(ref) != sorted(got):
            fail("%s: read pages %r, the file has %r" % (what, sorted(got), sorted(ref)))
        for k in got:
            a, near = ref[k]
            if k == T.Depth:
                if a.dtype == np.uint8:
                    continue
                c10.same_depth(got[k], c10.decode(a, near), what)
            elif a.dtype == got[k].dtype:
                c10.exact(got[k], a, what + " " + k)
            else:
                fail("%s: page %s has type %s in the file, read as %s" % (what, k, a.dtype, got[k].dtype))
        return "other"

    def tiff_cut(case):
        kind, n = case
        data = tiff_base(kind)
        return (case, load_tiff(data[:n], data, "cut at %d of %d" % (n, len(data))))
    KINDS = ("saved", "<", ">s", "<sd")
    ctx.enum("cut images", [(k, n) for k in KINDS for n in range(len(tiff_base(k)))], tiff_cut)

    def entries(data):
        """Offsets of the directory entries, and the byte order."""
        en = "<" if data[:2] == b"II" else ">"
        off = struct.unpack_from(en + "I", data, 4)[0]
        out = []
        while off:
            n = struct.unpack_from(en + "H", data, off)[0]
            out.append((off, n))
            off = struct.unpack_from(en + "I", data, off + 2 + 12 * n)[0]
        return en, out

    # fields that only libtiff interprets, and the parts of them
    LIB = {254: "t", 256: "v", 257: "v", 258: "v", 259: "tv", 262: "t", 270: "tycv", 273: "tycv", 277: "t", 278: "v"}

    def container(data, off):
        en, dirs = entries(data)
        for o, n in dirs:
            if o + 2 <= off < o + 2 + 12 * n:
                tag = struct.unpack_from(en + "H", data, o + 2 + (off - o - 2) // 12 * 12)[0]
                return {0: "t", 2: "y", 4: "c", 8: "v"}[(off - o - 2) % 12] in LIB.get(tag, "")
        return False

    def tiff_field(case):
        kind, off, fmt, val = case
        data = bytearray(tiff_base(kind))
        en = "<" if data[:2] == b"II" else ">"
        orig = bytes(data)
        struct.pack_into(en + fmt, data, off, val)
        return (case, load_tiff(bytes(data), orig, repr(case), container(orig, off)))

    def field_cases():
        for kind in KINDS:
            data = tiff_base(kind)
            en, dirs = entries(data)
            V4 = (0, 1, 2, 3, 4, 5, 6, 7, 8, 16, 17, 255, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, len(data) - 1, len(data), 0x00010002, 0x00030000, 0x00080000)
            for v in (0, 42, 43, 0x4949, 0x4d4d, 65535):
                for o in (0, 2):
                    yield kind, o, "H", v
            for v in V4 + (8,):
                yield kind, 4, "I", v
            for off, n in dirs:
                for v in (0, 1, n - 1, n + 1, 255, 65535):
                    yield kind, off, "H", v
                for v in V4 + tuple(o for o, _ in dirs):
                    yield kind, off + 2 + 12 * n, "I", v
                for i in range(n):
                    e = off + 2 + 12 * i
                    for v in (0, 254, 256, 257, 258, 259, 262, 270, 273, 277, 278, 279, 284, 285, 297, 317, 322, 330, 339, 65535):
                        yield kind, e, "H", v
                    for v in (0, 1, 2, 3, 4, 5, 6, 12, 13, 16, 255):
                        yield kind, e + 2, "H", v
                    for v in V4:
                        yield kind, e + 4, "I", v
                        yield kind, e + 8, "I", v
    ctx.enum("fields of images", field_cases(), tiff_field)

    DESCS = ("", "x", "{", "{}", "[]", "null", "1", '{"near": 0.5}', '{"version": 1}', '{"version": "1", "near": 0.5}', '{"version": 1, "near": "0.5"}',
             '{"version": 1, "near": null}', '{"version": 1, "near": 0.5} x', '{"version": 1, "near": 0.5', '{"version": 1.5, "near": 0.5}', '{"version": 2, "near": 0.5}',
             '{"near": -1}', '{"near": 0}', '{"near": 1e400}', '{"near": 1e-400}', '{"near": [0.5]}', '{"near": true}', '{"near": 1}', "{'near': 0.5}", '{"near": NaN}')
    NAMES = ("rgb", "inv_depth", "depth", "category", "semantic", "instance", "RGB", "", "x", "rgb ", None)

    def texts(case):
        desc, names, en = case
        arrs = {"rgb": pm[T.RGB], "x": c10.u16(3, 2), "y": c10.u16(3, 2, 3)}
        pages = [(arrs[a], n, desc if i == 0 else None, None) for i, (a, n) in enumerate(names)]
        tiff.write(tif, pages, en=en)
        ctx.step()
        try:
            json_ok = desc is None or isinstance(json.loads(desc), dict)
        except ValueError:
            json_ok = False
        ref = tiff_says(tif)
        if ref is not None and T.Depth in ref:
            near = ref[T.Depth][1]
            if isinstance(near, bool) or not isinstance(near, (int, float)) or not np.isfinite(near) or near <= 0:
                ref = None
        try:
            got = pages_of(MultiImageTiff.load(tif))
        except Exception as e:
            return (case, type(e).__name__)
        if ref is None or not json_ok:
            fail("an invalid file was read as %r" % got)
        if sorted(ref) != sorted(got):
            fail("read pages %r, the file has %r" % (sorted(got), sorted(ref)))
        for k in got:
            a, near = ref[k]
            if k == T.Depth:
                c10.same_depth(got[k], c10.decode(a, near), repr(case))
            else:
                c10.exact(got[k], a, repr(case) + k)
        return (case, "read")
    ctx.enum("texts of images", itertools.chain(
        ((d, (("rgb", "rgb"), ("x", "inv_depth")), en) for d in DESCS + (None,) for en in "<>"),
        ((None, (("rgb", a), ("x", b), ("y", c)), "<") for a in NAMES for b in NAMES for c in ("category", "instance", "x", None))), texts)

    # -- files that are not there, or something else ----------------------------------------------
    valid = dict(others)
    MultiImageTiff(pm).save(tif)
    valid["tif"] = open(tif, "rb").read()
    valid["ply"] = ply_bytes("ascii")
    valid["csv"] = b"id,category,is_evaluated,color\n0,a,True,1;2;3\n"
    fresh()
    D, _ = c22.document(*lays[2])
    valid["gltf"] = open(D.write(folder, "data"), "rb").read()
    READERS = {
        "voxels": (VoxelGrid.from_file, "h5", OSError), "glb": (GltfModel.load_from_glb, "glb", OSError), "gltf": (GltfModel.load_from_gltf, "gltf", OSError),
        "pack": (lambda p: gltf2glb(p, p + ".glb"), "gltf", Exception), "tiff": (MultiImageTiff.load, "tif", RuntimeError),
        "rgbd": (Rgbd360.load, "tif", RuntimeError), "rgbdci": (Rgbdci360.load, "tif", RuntimeError), "ply": (PointCloud.load_ply, "ply", Exception),
    }

    def foreign(case):
        reader, how, n = case
        f, own, exc = READERS[reader]
        d = os.path.join(tmp, "ab")
        shutil.rmtree(d, ignore_errors=True)
        os.mkdir(d)
        p = os.path.join(d, "f." + (n if how == "named" else own))
        data = valid[own]
        if how == "directory":
            os.mkdir(p)
        elif how == "in no folder":
            p = os.path.join(d, "q", "f." + own)
        elif how == "below a file":
            with open(os.path.join(d, "q"), "wb") as o:
                o.write(data)
            p = os.path.join(d, "q", "f." + own)
        elif how == "long name":
            p = os.path.join(d, "f" * 300 + "." + own)
        elif how == "dangling":
            os.symlink(os.path.join(d, "nothing." + own), p)
        elif how == "loop":
            os.symlink(p, p)
        elif how == "pipe end":
            p = "/dev/null"
        elif how != "missing":
            with open(p, "wb") as o:
                o.write({"empty": b"", "zeros": b"\0" * 200, "ff": b"\xff" * 200, "foreign": valid.get(n), "unreadable": data, "named": valid.get(n)}[how])
            if how == "unreadable":
                if os.getuid() == 0:
                    return case
                os.chmod(p, 0)
        old = os.getcwd()
        ctx.step()
        try:
            f(p)
        except exc as e:
            if isinstance(e, (SystemError, MemoryError, RecursionError)):
                fail("%r" % e)
        except SystemExit:
            if reader != "pack":
                raise
        except Exception as e:
            fail("%r instead of %s" % (e, exc.__name__))
        else:
            fail("%s %s %s: was read" % (reader, how, n))
        if os.getcwd() != old:
            fail("the current folder changed")
        unharmed()
        return case
    ctx.enum("absent and foreign files", [(r, h, "") for r in sorted(READERS) for h in ("missing", "empty", "zeros", "ff", "directory", "in no folder", "below a file", "long name",
                                                                                    "dangling", "loop", "pipe end", "unreadable")] +
             [(r, h, n) for r in sorted(READERS) for h in ("foreign", "named") for n in sorted(valid) if n != READERS[r][1] and not (r == "pack" and h == "named")], foreign)
