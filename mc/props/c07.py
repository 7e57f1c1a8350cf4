"""C07: glTF models keep what is put into them."""
import base64
import copy
import itertools
import json
import os
import shutil

import numpy as np

from mc.core import fail, eq, raises
from mc import gltf
from mc import scenes as S
from sumo.threedee.gltf_model import GltfModel
from sumo.threedee.mesh import Mesh
from sumo.threedee.textured_mesh import TexturedMesh

# geometries: name -> (vertices, triangles)
GEOM = {"a": 3, "b": 4, "c": 5}
NOTEX = np.zeros((0, 0, 3), dtype=np.uint8)
# images put into textures files for update_materials
FILES = {"p.png": ("rgb", 11, 3, 2), "dir/q x.png": ("rgba", 12, 1, 1)}


def img(key):
    """key: (components, k, w, h)"""
    c, k, w, h = key
    a = S.texture(k, w, h)
    if c == "rgba":
        a = np.concatenate([a, np.full((h, w, 1), 200, dtype=np.uint8)], axis=2)
    return a


def geo(name):
    idx, v, n, uv = S.tri_data(GEOM[name], ord(name) % 5)
    return idx, v, n, uv


NOMAT = {"name": "", "color": None, "metallic": None, "roughness": None, "base": None, "mr": None}

# primitive kinds: name -> (textured, geometry, base image key, mr image key, number of uv)
KIND = {
    "plain a": (False, "a", None, None),
    "plain b": (False, "b", None, None),
    "tex a": (True, "a", ("rgb", 1, 2, 2), ("rgb", 2, 3, 1)),
    "tex c": (True, "c", ("rgb", 3, 5, 4), None),
    "tex same": (True, "b", ("rgb", 1, 2, 2), ("rgb", 2, 3, 1)),
    "tex mr": (True, "a", None, ("rgb", 4, 1, 1)),
    "tex none": (True, "b", None, None),
}


def make_mesh(kind):
    t, g, b, r = KIND[kind]
    idx, v, n, uv = geo(g)
    if not t:
        return Mesh(idx, v, n)
    args = [idx, v, n, uv, NOTEX if b is None else img(b), NOTEX if r is None else img(r)]
    m = TexturedMesh(*args)
    for a in args:
        a[...] = 1
    return m


class Model:
    """Reference: primitives with the number of their material, materials, images."""

    def __init__(self):
        self.prims, self.mats, self.images = [], [], []
        self.shared = 0             # primitives of files that share the glTF mesh of the one before

    def copy(self):
        return copy.deepcopy(self)

    def add(self, kind, mat=None):
        t, g, b, r = KIND[kind]
        m = dict(NOMAT if mat is None else mat)
        if t:
            m["base"], m["mr"] = b, r
            for k in (b, r):
                if k is not None:
                    self.images.append(k)
        self.mats.append(m)
        self.prims.append({"t": t, "g": g, "m": len(self.mats) - 1})

    def add_prim(self, other, i):
        """What adding the extracted primitive i of other does."""
        p = other.prims[i]
        m = dict(other.mats[p["m"]])
        if p["t"]:
            for k in (m["base"], m["mr"]):
                if k is not None:
                    self.images.append(("rgb",) + k[1:])
            for f in ("base", "mr"):
                if m[f] is not None:
                    m[f] = ("rgb",) + m[f][1:]
        self.mats.append(m)
        self.prims.append({"t": p["t"], "g": p["g"], "m": len(self.mats) - 1})

    def key(self):
        return repr((self.prims, self.mats, self.images, self.shared))


def rgb(key):
    return img(("rgb",) + key[1:])


def check_mesh(mesh, p, mat, what):
    idx, v, n, uv = geo(p["g"])
    eq(type(mesh), TexturedMesh if p["t"] else Mesh, what + ": type")
    got = [mesh.indices(), mesh.vertices(), mesh.normals()]
    want = [idx, v, n]
    if p["t"]:
        got += [mesh.uv_coords(), mesh.base_color(), mesh.metallic_roughness()]
        want += [uv] + [NOTEX if mat[f] is None else rgb(mat[f]) for f in ("base", "mr")]
    for a, b, nm in zip(got, want, ("indices", "vertices", "normals", "uv", "base colour", "metallic roughness")):
        if a.size == 0 and b.size == 0:
            continue
        if a.shape != b.shape or a.dtype != b.dtype or not np.array_equal(a, b):
            fail("%s: %s %r, expected %r" % (what, nm, a, b))
    for a in got:
        a[...] = 9


def check(gm, model, what):
    eq(gm.num_primitive_meshes(), len(model.prims), what + ": number of primitives")
    eq(gm.num_images(), len(model.images), what + ": number of images")
    for i, k in enumerate(model.images):
        eq(gm.image_uri(i), "%d.png" % i, what + ": image uri")
        eq(gm.image_size(i), k[2] * k[3] * (4 if k[0] == "rgba" else 3), what + ": image size")
    eq(gm.num_nodes(), len(model.prims) - model.shared, what + ": nodes")
    ms = gm.primitive_meshes()
    eq(len(ms), len(model.prims), what + ": primitive_meshes")
    for i, (m, p) in enumerate(zip(ms, model.prims)):
        check_mesh(m, p, model.mats[p["m"]], "%s: primitive %d" % (what, i))
        again = gm.extract_primitive_mesh(i)
        check_mesh(again, p, model.mats[p["m"]], "%s: primitive %d again" % (what, i))
        if not m.has_same_material(again):
            fail("%s: primitive %d extracted twice has two materials" % (what, i))
        a = model.mats[p["m"]]
        for j in range(i):
            b = model.mats[model.prims[j]["m"]]
            if any(a[f] != b[f] for f in ("name", "color", "metallic", "roughness")) and m.has_same_material(ms[j]):
                fail("%s: primitives %d and %d have different materials %r %r" % (what, i, j, a, b))
            if a == b and a["base"] is None and a["mr"] is None and not m.has_same_material(ms[j]):
                fail("%s: primitives %d and %d have the same material" % (what, i, j))
    raises(Exception, gm.extract_primitive_mesh, len(model.prims))


def check_file(path, model, what):
    prims, mats, images, doc = gltf.decode(path)
    eq(len(prims), len(model.prims), what + ": primitives in the file")
    eq(len(images), len(model.images), what + ": images in the file")
    for a, k in zip(images, model.images):
        if not np.array_equal(a, rgb(k)):
            fail("%s: image %r in the file is %r" % (what, k, a.tolist()))

    def same_mat(got, want, w):
        for f in ("name", "color", "metallic", "roughness"):
            a, b = got[f], want[f]
            if f != "name" and a is not None and b is not None:     # the file has 15 digits
                ok = np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-14, atol=0)
            else:
                ok = a == b
            if not ok:
                fail("%s: %s is %r, expected %r" % (w, f, got[f], want[f]))
        for f in ("base", "mr"):
            if (got[f] is None) != (want[f] is None) or (want[f] is not None and not np.array_equal(got[f], rgb(want[f]))):
                fail("%s: %s texture is %r, expected %r" % (w, f, got[f], want[f]))
    eq(len(mats), len(model.mats), what + ": materials in the file")
    for i, (m, w) in enumerate(zip(mats, model.mats)):
        same_mat(m, w, "%s: material %d" % (what, i))
    for i, (q, p) in enumerate(zip(prims, model.prims)):
        idx, v, n, uv = geo(p["g"])
        w = "%s: primitive %d in the file" % (what, i)
        eq(q["mode"], 4, w + ": mode")
        for f, a in (("indices", idx), ("position", v.T), ("normal", n.T)):
            if q[f].tobytes() != np.ascontiguousarray(a).tobytes():
                fail("%s: %s %r, expected %r" % (w, f, q[f], a))
        if (q["uv"] is not None) != p["t"] or (p["t"] and q["uv"].tobytes() != np.ascontiguousarray(uv.T).tobytes()):
            fail("%s: uv %r" % (w, q["uv"]))
        same_mat(q["material"], model.mats[p["m"]], w)


UPD = {     # lists for update_materials: (color, uri) per primitive or None
    "red": [((1.0, 0.0, 0.0), "")],
    "tint2": [None, ((0.1, 1.0 / 3, 0.25), "")],
    "file": [((0.0, 0.0, 0.0), "p.png"), None],
    "both": [((0.0, 0.0, 0.5), "dir/q x.png"), ((0.0, 0.5, 0.0), "p.png"), ((1.0, 1.0, 1.0), "")],
    "nothing": [((0.0, 0.0, 0.0), "")],
    "none": [None, None, None, None],
    "missing": [((0.25, 0.0, 0.0), ""), ((0.5, 0.5, 0.5), "absent.png"), ((0.125, 0.0, 0.0), "")],
}


def update(gm, model, name, base_dir):
    arg = [None if u is None else {"color": np.array(u[0]), "uri": u[1]} for u in UPD[name]]
    bad = False
    for i, u in enumerate(UPD[name]):
        if u is None or i >= len(model.prims):
            continue
        m = dict(model.mats[model.prims[i]["m"]])
        if u[0] != (0.0, 0.0, 0.0):
            m["color"] = list(u[0]) + [1]
        if u[1] == "absent.png":
            bad = True
            break
        if u[1]:
            model.images.append(FILES[u[1]])
            m["base"] = FILES[u[1]]
        m["name"] = "material_%d" % len(model.mats)
        model.mats.append(m)
        model.prims[i]["m"] = len(model.mats) - 1
    if bad:
        raises(RuntimeError, gm.update_materials, base_dir, arg)
    else:
        gm.update_materials(base_dir, arg)


COLORS = {"m": ("bl ü\"\\/", (0.0, 0.0, 0.0), 0.0, 1.0), "n": ("", (0.1, 1.0, 1.0 / 3), 0.3, 0.7), "m2": ("bl ü\"\\/", (1.0, 0.5, 0.25), 1.0, 0.0)}


def fill(model_spec):
    gm, m = GltfModel(), Model()
    for k in model_spec:
        gm.add_mesh(make_mesh(k))
        m.add(k)
    return gm, m


def saved(model):
    """Reference of a model after saving and loading."""
    r = model.copy()
    r.images = [("rgb",) + k[1:] for k in r.images]
    for m in r.mats:
        for f in ("base", "mr"):
            if m[f] is not None:
                m[f] = ("rgb",) + m[f][1:]
    return r


def explore(ctx):
    base = os.path.join(ctx.tmp, "tex dir $HOME")
    out = os.path.join(ctx.tmp, "out $x 'y")
    os.makedirs(os.path.join(base, "dir"), exist_ok=True)
    os.makedirs(out, exist_ok=True)
    for f, k in FILES.items():
        gltf.png_write(os.path.join(base, f), img(k))

    def save_check(gm, m, what, folder=None, root="r"):
        folder = folder or out
        shutil.rmtree(folder)
        os.mkdir(folder)
        p = gm.save_as_gltf(folder, root)
        eq(p, os.path.join(folder, root + ".gltf"), "path returned")
        check_file(p, m, what + " (gltf)")
        eq(sorted(os.listdir(folder)), sorted([root + ".gltf"] + ["%d.png" % i for i in range(len(m.images))] +
           [b["uri"] for b in gltf.read(p)[0].get("buffers", []) if not b["uri"].startswith("data:")]), "files written")
        glb = os.path.join(folder, root + ".glb")
        gm.save_as_glb(glb)
        check_file(glb, m, what + " (glb)")
        return p, glb

    # -- histories of two models ---------------------------------------------
    ops = []
    for i in range(2):
        ops += [("add", i, k) for k in (KIND if ctx.thorough else ("plain a", "tex a", "tex c", "tex mr"))]
        ops += [("update", i, u) for u in (UPD if ctx.thorough or i == 0 else ("both", "missing"))]
        ops += [("color", i, c) for c in (("m", "n") if i == 0 else ("m2",))]
        ops += [("move", i, 1 - i, 0), ("move", i, i, 1)]
        ops += [("copy", i, 1 - i), ("gltf", i), ("glb", i)]
    ops += [("bad", 0)]
    roots = [((), ("tex a",)), (("plain b", "tex same"), ("tex c", "plain a")), (("tex none",), ("tex mr", "tex a"))]

    def run(hist):
        gms, models = map(list, zip(*[fill(s) for s in hist[0]]))
        for op in hist[1:]:
            ctx.step()
            k, i = op[0], op[1]
            gm, m = gms[i], models[i]
            if k == "add":
                if len(m.prims) < 4:
                    (gm.add_mesh if op[2] != "tex c" else gm.add_textured_primitive_mesh)(make_mesh(op[2]))
                    m.add(op[2])
            elif k == "update":
                update(gm, m, op[2], base)
            elif k == "color":
                name, c, me, ro = COLORS[op[2]]
                eq(gm.add_colored_material(name, np.array(c), me, ro), len(m.mats), "number of the new material")
                m.mats.append(dict(NOMAT, name=name, color=list(c) + [1], metallic=me, roughness=ro))
            elif k == "move":
                o = models[op[2]]
                j = op[3]
                # a plain primitive that refers to a texture loses its image when it moves: not covered
                if j < len(o.prims) and len(m.prims) < 4 and (o.prims[j]["t"] or o.mats[o.prims[j]["m"]]["base"] is None):
                    mesh = gms[op[2]].extract_primitive_mesh(j)
                    gm.add_mesh(mesh)
                    m.add_prim(o.copy(), j)
            elif k == "copy":
                gms[i], models[i] = gms[op[2]].deepcopy(), models[op[2]].copy()
            elif k in ("gltf", "glb"):
                if m.prims:
                    p = os.path.join(out, "h." + k)
                    if k == "gltf":
                        gm.save_as_gltf(out, "h")
                        gms[i] = GltfModel.load_from_gltf(p)
                    else:
                        gm.save_as_glb(p)
                        gms[i] = GltfModel.load_from_glb(p)
                    check(gm, m, "the model after saving")
                    models[i] = saved(m)
            elif k == "bad":
                raises(ValueError, gm.add_mesh, "mesh")
                raises(ValueError, gm.add_mesh, None)
                raises(ValueError, gm.save_as_gltf, os.path.join(out, "absent"), "x")
                raises(IOError, GltfModel.load_from_gltf, os.path.join(out, "absent.gltf"))
            for n in range(2):
                check(gms[n], models[n], "model %d after %r" % (n, op))
            a, b = ([GEOM[p["g"]] for p in m.prims] for m in models)
            eq(bool(gms[0].same_size(gms[1])), a == b, "same_size")
        for n in range(2):
            save_check(gms[n], models[n], "model %d" % n)
            check(gms[n], models[n], "model %d after saving" % n)
        return tuple(m.key() for m in models), None
    ctx.bfs("histories of two models", roots, ops, run, 3 if ctx.thorough else 2)
    # long histories of a single model
    ops1 = [o for o in ops if o[1] == 0 and o[0] not in ("copy", "bad") and not (o[0] == "move" and o[2] == 1) and o[1:] not in
            ((0, "none"), (0, "red"), (0, "nothing"), (0, "n"))]
    ctx.bfs("histories of one model", [((), ()), (("tex a", "plain b"), ())], ops1, run, 4 if ctx.thorough else 3)

    # -- all lists of primitives ------------------------------------------------
    def lists(case):
        kinds, = case
        gm, m = fill(kinds)
        check(gm, m, "new model")
        p, glb = save_check(gm, m, "new model")
        if kinds:
            for q, load in ((p, GltfModel.load_from_gltf), (glb, GltfModel.load_from_glb)):
                r = load(q)
                check(r, m, "loaded model")
                save_check(r, m, "loaded model")
                gm.save_as_gltf(out, "r")       # what save_check removed
                gm.save_as_glb(glb)
        else:
            raises(IOError, GltfModel.load_from_gltf, p)
        ctx.step(5)
        return case
    ctx.enum("lists of primitives", [(k,) for n in range(4 if ctx.thorough else 3) for k in itertools.product(KIND, repeat=n)] +
             [(("tex a",) * n,) for n in (5, 11, 40)] + [(tuple(list(KIND) * 2),)], lists)

    # -- files whose glTF meshes have several primitives -----------------------------
    def several(case):
        kinds, groups, fmt, ops = case
        gm, m = fill(kinds)
        p = gm.save_as_gltf(out, "s")
        with open(p) as f:
            doc = json.load(f)
        prims = [q for x in doc["meshes"] for q in x["primitives"]]
        doc["meshes"] = [{"primitives": [prims.pop(0) for _ in range(n)]} for n in groups]
        doc["nodes"] = [{"mesh": i} for i in range(len(groups))]
        doc["scenes"] = [{"nodes": list(range(len(groups)))}]
        with open(p, "w") as f:
            json.dump(doc, f)
        m = saved(m)
        m.shared = len(kinds) - len(groups)
        gm = GltfModel.load_from_gltf(p)
        if fmt:
            glb = os.path.join(out, "s.glb")
            gm.save_as_glb(glb)
            gm = GltfModel.load_from_glb(glb)
        check(gm, m, "loaded model")
        other, m2 = gm.deepcopy(), m.copy()
        for op in ops:
            ctx.step()
            if op[0] == "update":
                update(gm, m, op[1], base)
            elif op[0] == "add":
                gm.add_mesh(make_mesh(op[1]))
                m.add(op[1])
            elif op[0] == "move" and (m.prims[op[1]]["t"] or m.mats[m.prims[op[1]]["m"]]["base"] is None):
                mesh = gm.extract_primitive_mesh(op[1])
                gm.add_mesh(mesh)
                m.add_prim(m.copy(), op[1])
            check(gm, m, "model after %r" % (op,))
        check(other, m2, "copy")
        save_check(gm, m, "model")
        save_check(other, m2, "copy")
        return case
    SEV = [("update", u) for u in UPD] + [("add", "tex a"), ("add", "plain b"), ("move", 0), ("move", 1)]
    ctx.enum("meshes of several primitives", (
        (k, g, f, o) for k in (("plain a", "tex c"), ("tex a", "plain b", "tex mr"), ("tex same", "tex a", "tex none"), ("plain a", "plain b", "plain a", "tex c"))
        for n in range(1, len(k) + 1) for g in itertools.product(range(1, len(k) + 1), repeat=n) if sum(g) == len(k)
        for f in (0, 1) for d in range(3 if ctx.thorough else 2) for o in itertools.product(SEV, repeat=d)), several)

    # -- materials ------------------------------------------------------------------
    def materials(case):
        kinds, upds, fmt = case
        gm, m = fill(kinds)
        for u in upds:
            update(gm, m, u, base)
            check(gm, m, "updated model")
        other = gm.deepcopy()
        if fmt:
            p, glb = save_check(gm, m, "updated model")
            gm = GltfModel.load_from_gltf(p) if fmt == "gltf" else GltfModel.load_from_glb(glb)
            m2 = saved(m)
            check(gm, m2, "loaded model")
            save_check(gm, m2, "loaded model")
        check(other, m, "copy")
        save_check(other, m, "copy")
        ctx.step(3)
        return case
    ctx.enum("materials", [(k, u, f) for k in (("plain a",), ("tex a", "plain b"), ("tex none", "tex mr", "tex c"))
                           for n in (1, 2) for u in itertools.product(UPD, repeat=n) for f in ("", "gltf", "glb")], materials)

    def colors(case):
        c, me, ro, name = case
        gm, m = fill(("tex a",))
        eq(gm.add_colored_material(name, np.array(c), me, ro), 1, "number of the material")
        m.mats.append(dict(NOMAT, name=name, color=list(c) + [1], metallic=me, roughness=ro))
        p, glb = save_check(gm, m, "model")
        save_check(GltfModel.load_from_gltf(p), m, "loaded model")
        ctx.step(2)
        return case
    V = (0.0, 1.0, 0.1, 1.0 / 3, 0.5)
    ctx.enum("colored materials", [(c, 0.25, 0.75, "m") for c in itertools.product(V, repeat=3)] +
             [((0.5, 0.0, 1.0), a, b, "n") for a in V for b in V] +
             [((0.5, 0.0, 1.0), 0.5, 0.5, n) for n in ("", " ", "\"", "\\", "/", "ü", "日本", "a\nb", "\t", "\U0001f600", "%s", "${HOME}", "x" * 300)], colors)

    def same(case):
        meshes = []
        for i, (c, me, ro, name) in enumerate(case):
            gm, m = fill(("plain a",))
            gm.add_colored_material(name, np.array(c), me, ro)
            p = gm.save_as_gltf(out, "s%d" % i)
            with open(p) as f:
                doc = json.load(f)
            doc["meshes"][0]["primitives"][0]["material"] = 1
            with open(p, "w") as f:
                json.dump(doc, f)
            gm = GltfModel.load_from_gltf(p)
            meshes.append(gm.extract_primitive_mesh(0))
            gm.add_mesh(gm.extract_primitive_mesh(0))
            if not gm.extract_primitive_mesh(1).has_same_material(meshes[-1]):
                fail("a mesh added to a model has another material")
        want = case[0] == case[1]
        for a, b in (meshes, meshes[::-1]):
            if a.has_same_material(b) != want:
                fail("has_same_material of %r and %r is not %r" % (case[0], case[1], want))
        ctx.step(2)
        return case
    M = [((0.5, 0.25, 0.0), 0.5, 0.25, "m")]
    M += [(c, 0.5, 0.25, "m") for c in ((0.25, 0.25, 0.0), (0.5, 0.5, 0.0), (0.5, 0.25, 0.5))]
    M += [(M[0][0], a, b, n) for a, b, n in ((0.75, 0.25, "m"), (0.5, 0.75, "m"), (0.25, 0.5, "m"), (0.5, 0.25, "n"), (0.5, 0.25, ""))]
    ctx.enum("same material", itertools.product(M, repeat=2), same)

    # -- materials with values outside the metallic-roughness block ---------------------
    def file_materials(case):
        """A model of three primitives with the materials a, b, a; saved and loaded again."""
        mats = [MAT[k] for k in case]
        gm, _ = fill(("plain a", "plain b", "plain a"))
        p = gm.save_as_gltf(out, "f")
        with open(p) as f:
            doc = json.load(f)
        doc["materials"] = [mats[0], mats[1]]
        for q, k in zip((q for m in doc["meshes"] for q in m["primitives"]), (0, 1, 0)):
            q["material"] = k
        with open(p, "w") as f:
            json.dump(doc, f)
        gm = GltfModel.load_from_gltf(p)
        want = mats[0] == mats[1]
        first = gm.primitive_meshes()
        for rnd in range(3):
            ms = gm.primitive_meshes()
            eq(len(ms), 3, "primitives")
            for i, j in itertools.product(range(3), repeat=2):
                same = want or i % 2 == j % 2
                if ms[i].has_same_material(ms[j]) != same or ms[i].has_same_material(first[j]) != same:
                    fail("has_same_material of %r and %r is not %r" % (mats[i % 2], mats[j % 2], same))
            p = gm.save_as_gltf(out, "g")
            with open(p) as f:
                got = json.load(f)["materials"]
            if got != mats:
                fail("materials %r were written as %r" % (mats, got))
            if rnd == 1:
                g = os.path.join(out, "g.glb")
                gm.save_as_glb(g)
                gm = GltfModel.load_from_glb(g)
            else:
                gm = GltfModel.load_from_gltf(p)
        ctx.step(3)
        return case
    MAT = [{"name": "m"}, {"name": "n"}]
    for e in ({"alphaMode": "BLEND"}, {"alphaMode": "OPAQUE"}, {"alphaMode": "MASK"}, {"doubleSided": True}, {"doubleSided": False},
              {"alphaCutoff": 0.25}, {"alphaCutoff": 0.5}, {"alphaMode": "MASK", "alphaCutoff": 0.5}, {"alphaMode": "MASK", "doubleSided": True},
              {"emissiveFactor": [0.25, 0.5, 0.0]}, {"emissiveFactor": [0.25, 0.5, 0.5]}, {"emissiveFactor": [0.5, 0.25, 0.0]},
              {"pbrMetallicRoughness": {"baseColorFactor": [0.5, 0.25, 0.0, 1.0]}},
              {"pbrMetallicRoughness": {"baseColorFactor": [0.5, 0.25, 0.0, 0.5]}},
              {"pbrMetallicRoughness": {"baseColorFactor": [0.5, 0.25, 0.0, 1.0]}, "doubleSided": True},
              {"pbrMetallicRoughness": {"metallicFactor": 0.5}}, {"pbrMetallicRoughness": {"roughnessFactor": 0.5}},
              {"pbrMetallicRoughness": {"metallicFactor": 0.5, "roughnessFactor": 0.5}}):
        MAT.append(dict(e, name="m"))
    ctx.enum("materials of a file", itertools.product(range(len(MAT)), repeat=2), file_materials)

    # -- models written by other programs -------------------------------------------------
    from mc.props import c22

    def entry(kind):
        idx, v, n, uv = geo(KIND[kind][1])
        t, _, b, r = KIND[kind]
        if not t:
            return ((idx, v.T, n.T, None), None, None)
        return ((idx, v.T, n.T, uv.T), NOTEX if b is None else rgb(b), NOTEX if r is None else rgb(r))

    def elsewhere(case):
        lay, off, bufs, itype, image, arrange, kind, add, ext = case
        shutil.rmtree(out)
        os.mkdir(out)
        folder = os.path.join(ctx.tmp, "else")
        shutil.rmtree(folder, ignore_errors=True)
        os.mkdir(folder)
        D, want = c22.document(lay, off, off, bufs, 1, itype, image, arrange)
        p = D.write(folder, kind)
        gm = (GltfModel.load_from_glb if kind == "glb" else GltfModel.load_from_gltf)(p)
        shutil.rmtree(folder)
        c22.check_model(gm, want, "loaded")
        kept, old = gm.deepcopy(), want
        want = list(want)
        for k in add:
            gm.add_mesh(make_mesh(k))
            want.append(entry(k))
        c22.check_model(gm, want, "after adding")
        for rnd in range(2):
            if ext == "gltf":
                q = gm.save_as_gltf(out, "e%d" % rnd)
                gltf.decode(q)
                gm = GltfModel.load_from_gltf(q)
            else:
                q = os.path.join(out, "e%d.glb" % rnd)
                gm.save_as_glb(q)
                gm = GltfModel.load_from_glb(q)
            c22.check_model(gm, want, "saved and loaded %d" % rnd)
        c22.check_model(kept, old, "copy made before")
        ctx.step(5)
        return case
    ctx.enum("models from elsewhere", (
        (lay, off, bufs, itype, image, arrange, kind, add, ext)
        for lay, off, bufs, itype, image, arrange, kind, add, ext in itertools.product(
            c22.LAYOUTS, (0, 4, 12) if ctx.thorough else (0, 12), ("one", "each"), ("u8", "u16", "u32") if ctx.thorough else ("u8", "u32"),
            ("file", "data", "view"), ("two meshes", "one mesh", "shared"), ("bin", "glb"), ((), ("plain a", "tex c")), ("gltf", "glb"))
        if (kind, image) in (("bin", "file"), ("glb", "view"), ("glb", "data")) and
        (ctx.thorough or image == "file" or (lay in ("interleaved", "views")))), elsewhere)

    # -- models with pictures of every name --------------------------------------------
    def pictures(case):
        names, kind, add, late = case
        shutil.rmtree(out)
        os.mkdir(out)
        folder = os.path.join(ctx.tmp, "else")
        shutil.rmtree(folder, ignore_errors=True)
        os.mkdir(folder)
        D, want = c22.document("interleaved", 0, 0, "one", 1, "u8", "file", "two meshes")
        blobs = [D.files.pop("%d.png" % i) for i in range(2)]
        if names[0] == names[1] and names[0] not in ("data", "view"):
            blobs[1] = blobs[0]
            want = [(want[0][0], want[0][1], want[0][1]), want[1]]
        for im, b, n in zip(D.doc["images"], blobs, names):
            if n == "data":
                im["uri"] = "data:image/png;base64," + base64.b64encode(b).decode()
            elif n == "view":
                del im["uri"]
                im["bufferView"] = D.view(b, "image")
                im["mimeType"] = "image/png"
            else:
                im["uri"] = n
                D.files[n] = b
        p = D.write(folder, kind)
        load = {"glb": GltfModel.load_from_glb, "bin": GltfModel.load_from_gltf}
        gm = load[kind](p)
        shutil.rmtree(folder)
        want = list(want)
        for rnd in range(3):
            if add and rnd == late:
                for k in add:
                    gm.add_mesh(make_mesh(k))
                    want.append(entry(k))
            c22.check_model(gm, want, "round %d" % rnd)
            before = [gm.image_uri(i) for i in range(gm.num_images())]
            q, g = gm.save_as_gltf(out, "e%d" % rnd), os.path.join(out, "e%d.glb" % rnd)
            c22.check_decoded(q, want, "glTF file")
            gm.save_as_glb(g)
            c22.check_decoded(g, want, "GLB file")
            eq([gm.image_uri(i) for i in range(gm.num_images())], before, "image uris after saving")
            a = GltfModel.load_from_gltf(q)
            c22.check_model(a, want, "glTF %d" % rnd)
            b = GltfModel.load_from_glb(g)
            c22.check_model(b, want, "GLB %d" % rnd)
            gm = a if rnd == 0 else b
        ctx.step(8)
        return case
    NAME = ("0.png", "1.png", "2.png", "3.png", "a.png", "a b.png", "tex/a.png", "tex/0.png", "a.PNG", "a", "a.b", "a.jpg", "0.jpg", "a.bmp",
            "data", "view", "\u00e4.png", ".png", "m.gltf.png", "e0.bin.png")
    ctx.enum("names of pictures", (
        ((n, m), kind, add, late) for n, m, kind, add, late in itertools.product(
            NAME, NAME, ("bin", "glb"), ((), ("tex c",), ("tex a", "plain a", "tex c")), (0, 1))
        if (add or not late) and (ctx.thorough or len(add) < 3 or late == 0 and NAME.index(m) % 4 == NAME.index(n) % 4)), pictures)

    # -- textures of every small size ------------------------------------------------
    def sizes(case):
        w, h, w2, h2 = case
        idx, v, n, uv = geo("b")
        b, r = S.texture(w, w, h), S.texture(h + 3, w2, h2)
        gm = GltfModel.from_textured_mesh(TexturedMesh(idx, v, n, uv, b, r))
        for k in range(2):
            t = gm.extract_textured_primitive_mesh()
            if not np.array_equal(t.base_color(), b) or not np.array_equal(t.metallic_roughness(), r):
                fail("textures changed")
            gm.save_as_gltf(out, "t")
            pr = gltf.decode(os.path.join(out, "t.gltf"))[0]
            if not np.array_equal(pr[0]["material"]["base"], b) or not np.array_equal(pr[0]["material"]["mr"], r):
                fail("textures changed in the file")
            if k == 0:
                p = os.path.join(out, "t.glb")
                gm.save_as_glb(p)
                gltf.decode(p)
                gm = GltfModel.load_from_glb(p)
        ctx.step(2)
        return case
    R = range(1, 8 if ctx.thorough else 6)
    ctx.enum("texture sizes", [(w, h, a, b) for w in R for h in R for a, b in ((1, 1), (2, 3), (h, w))] +
             [(64, 3, 1, 100), (257, 2, 2, 257)], sizes)

    # -- index and vertex counts of both parities ----------------------------------------
    def counts(case):
        nv, tri, textured, fmt = case
        v = (np.arange(3 * nv, dtype=np.float32).reshape(3, nv) - 4) / 8
        n = v[::-1].copy()
        idx = np.array([i % nv for i in range(3 * tri)], dtype=np.uint32) if nv else np.zeros(0, dtype=np.uint32)
        gm = GltfModel()
        for k in range(2):
            if textured:
                gm.add_mesh(TexturedMesh(idx, v, n, v[:2].copy(), S.texture(k, 3, 1), NOTEX))
            else:
                gm.add_mesh(Mesh(idx, v, n))
        if fmt:
            if fmt == "gltf":
                p = gm.save_as_gltf(out, "c")
                gm = GltfModel.load_from_gltf(p)
            else:
                p = os.path.join(out, "c.glb")
                gm.save_as_glb(p)
                gm = GltfModel.load_from_glb(p)
            pr = gltf.decode(p)[0]
            for q in pr:
                if q["indices"].tolist() != idx.tolist() or not np.array_equal(q["position"].T, v) or not np.array_equal(q["normal"].T, n):
                    fail("geometry changed in the file")
        for m in gm.primitive_meshes():
            if m.indices().tolist() != idx.tolist() or not np.array_equal(m.vertices(), v) or not np.array_equal(m.normals(), n):
                fail("geometry changed")
            if textured and not np.array_equal(m.uv_coords(), v[:2]):
                fail("uv changed")
        ctx.step(2)
        return case
    ctx.enum("counts", [(nv, t, x, f) for nv in (1, 2, 3, 4, 5, 6, 7, 300) for t in (1, 2, 3, 5, 100) for x in (0, 1) for f in ("", "gltf", "glb")], counts)

    # -- paths --------------------------------------------------------------------------
    def paths(case):
        fname, root, rel = case
        gm, m = fill(("tex a", "plain b", "tex same"))
        folder = os.path.join(ctx.tmp, "p", fname) if fname else os.path.join(ctx.tmp, "p")
        os.makedirs(folder, exist_ok=True)
        old = os.getcwd()
        try:
            arg = folder
            if rel:
                os.chdir(os.path.join(ctx.tmp, "p"))
                arg = fname or "."
            eq(gm.save_as_gltf(arg, root), os.path.join(arg, root + ".gltf"), "path returned")
            check_file(os.path.join(folder, root + ".gltf"), m, "gltf")
            gm.save_as_glb(os.path.join(arg, root + ".glb") if rel != 2 or fname else root + ".glb")
            check_file(os.path.join(folder, root + ".glb"), m, "glb")
            check(GltfModel.load_from_gltf(os.path.join(arg, root + ".gltf")), m, "loaded gltf")
            check(GltfModel.load_from_glb(os.path.join(arg, root + ".glb")), m, "loaded glb")
            eq(os.getcwd(), os.path.realpath(os.path.join(ctx.tmp, "p")) if rel else old, "current directory")
        finally:
            os.chdir(old)
            shutil.rmtree(os.path.join(ctx.tmp, "p"))
        ctx.step(4)
        return case
    N = ("x", "a b", "$HOME", "`id`", "*", "ü日", "a'b", "a\"b", "~", "-v", "a.b.c", "[x]", "%41", "a#b", "a?b")
    ctx.enum("paths", [(f, r, rel) for f in N + ("",) for r in N for rel in (0, 1, 2)], paths)
