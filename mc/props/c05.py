"""C05: scene conversion."""
import itertools
import os

import numpy as np

from mc.core import fail, eq, raises
from mc import scenes as S
from sumo.geometry.pose3 import Pose3
from sumo.semantic.project_converter import ProjectConverter
from sumo.semantic.project_object_dict import ProjectObjectDict
from sumo.semantic.project_scene import ProjectScene
from sumo.threedee.box_3d import Box3d
from sumo.threedee.compute_bbox import ComputeBbox
from sumo.threedee.gltf_model import GltfModel
from sumo.threedee.mesh import Mesh
from sumo.threedee.textured_mesh import TexturedMesh

ALLOWED = {("meshes", "voxels"), ("meshes", "bounding_box"), ("voxels", "bounding_box")}
TARGETS = S.TYPES + ("mesh", "", "Voxels", None)
SETTINGS = {"default": None, "custom": {"version": "9.9", "categories_id": "cid", "categories_url": "u", "x": "y"}}
DEF = ("chair", "rz", "box", 0.75, False)
FIELDS = {0: ("", " ", "unknown", "\u00e9 <&>"), 1: ("id", "gen"), 2: ("none", "ball"), 3: (-1, 0, 1e-9, -0.5, -7.25, 1e3, 1), 4: (True,)}


def make(typ, specs, st):
    return S.make_scene(typ, specs, SETTINGS[st])


def tri_box_overlap(tri, center, half):
    """Separating axis test (Akenine-Moeller): does the closed triangle meet the closed box?"""
    v = tri - center
    if (np.minimum.reduce(v) > half).any() or (np.maximum.reduce(v) < -half).any():
        return False
    e = [v[1] - v[0], v[2] - v[1], v[0] - v[2]]
    n = np.cross(e[0], e[1])
    axes = [n] + [np.cross(u, x) for u in np.eye(3) for x in e]
    for a in axes:
        p = v.dot(a)
        r = half.dot(np.abs(a))
        if p.min() > r or p.max() < -r:
            return False
    return True


def triangles(model):
    out = []
    for m in model.primitive_meshes():
        v = m.vertices().T.astype(np.float64)
        i = np.asarray(m.indices()).reshape(-1, 3)
        out += [v[t] for t in i]
    return out


def check_voxels(vg, model, what):
    tris = triangles(model)
    cs = vg.voxel_centers()
    if len(cs) == 0:
        fail("%s: no voxels" % what)
    half = np.full(3, vg.voxel_size / 2 + 1e-4)      # float32 data in the mesh and the corner
    for c in np.asarray(cs, dtype=np.float64):
        if not any(tri_box_overlap(t, c, half) for t in tris):
            fail("%s: the surface does not pass through the occupied voxel at %r" % (what, c))


def bounds_of(model):
    v = np.hstack([m.vertices() for m in model.primitive_meshes()]).astype(np.float64)
    return v.min(1), v.max(1)


def explore(ctx):
    conv = ProjectConverter()

    def check_result(src, sc, target, what):
        a, b = S.scene_state(sc, shape=False), S.scene_state(src, shape=False)
        b = (target,) + (b[1], tuple((k, (target,) + o[1:]) for k, o in b[2]))
        S.same(a, b, what)
        if list(sc.elements) != [o.id for o in src.elements.values()]:
            fail("%s: ids %r" % (what, list(sc.elements)))
        for k, o in sc.elements.items():
            s = src.elements[k]
            if o.id != k:
                fail("%s: key and id" % what)
            if target == "bounding_box":
                if s.project_type == "meshes":
                    lo, hi = bounds_of(s.meshes)
                else:
                    c = np.asarray(s.voxels.voxel_centers(), dtype=np.float64)
                    lo, hi = c.min(0) - s.voxels.voxel_size / 2, c.max(0) + s.voxels.voxel_size / 2
                if not (np.abs(o.bounds.min_corner - lo).max() <= 1e-5 and np.abs(o.bounds.max_corner - hi).max() <= 1e-5):
                    fail("%s: bounds %s, expected %r %r" % (what, o.bounds, lo, hi))
                S.shape_state(o)
            else:
                S.shape_state(o)
                check_voxels(o.voxels, s.meshes, what)
                vb = o.voxels.bounds()
                if not vb.almost_equal(o.bounds):
                    fail("%s: bounds of a voxel object" % what)

    def convert(case):
        typ, specs, st, target, via = case
        np.random.seed(7)
        sc = make(typ, specs, st)
        before = S.scene_state(sc)
        chain = [t for t in (via, target) if t != "-"]
        cur = sc
        okall = True
        for t in chain:
            ctx.step()
            if (cur.project_type, t) not in ALLOWED:
                e = raises(ValueError, conv.run, cur, t)
                for o in cur.elements.values():
                    raises(ValueError, conv.convert_element, o, t)
                okall = False
                break
            b2 = S.scene_state(cur)
            new = conv.run(cur, t)
            S.same(S.scene_state(cur), b2, "the source scene")
            if type(new) is not ProjectScene or type(new.elements) is not ProjectObjectDict:
                fail("no ordinary scene")
            if new is cur or new.settings is cur.settings or new.elements is cur.elements:
                fail("the result shares data with the source")
            check_result(cur, new, t, "%s -> %s" % (cur.project_type, t))
            for k, o in cur.elements.items():
                one = conv.convert_element(o, t)
                S.same(S.object_state(one, shape=t == "bounding_box"),
                       S.object_state(new.elements[k], shape=t == "bounding_box"), "convert_element")
                if one.pose is o.pose or new.elements[k].pose is o.pose:
                    fail("the converted object shares its pose with the source")
            cur = new
        S.same(S.scene_state(sc), before, "the source scene")
        return (typ, len(specs), st, target, via, okall)
    SH = {"bounding_box": ("unit", "flat"), "voxels": ("line", "one", "far", "off"), "meshes": ("tex", "two", "mixed")}

    def specs_of(typ):
        yield ()
        for sh in SH[typ]:
            yield ((typ, "1") + DEF + (sh,),)
        for f, vs in FIELDS.items():
            for v in vs:
                s = list(DEF)
                s[f] = v
                yield ((typ, "1") + tuple(s) + (SH[typ][0],), (typ, "0") + DEF + (SH[typ][1],))
        if ctx.thorough:
            for n in (1, 2, 3):
                for shs in itertools.product(SH[typ], repeat=n):
                    yield tuple((typ, "n%d" % (5 - i)) + DEF + (sh,) for i, sh in enumerate(shs))
        else:
            yield tuple((typ, "n%d" % (5 - i)) + DEF + (sh,) for i, sh in enumerate(SH[typ][:2] * 2))[:3]
    ctx.enum("conversions", ((t, sp, st, tg, via) for t in S.TYPES for sp in specs_of(t) for st in SETTINGS
                             for via, tg in [("-", g) for g in TARGETS] + list(itertools.product(S.TYPES, S.TYPES))
                             if not (st == "custom" and len(sp) > 1 and via != "-")), convert)

    # -- the two scenes are independent --------------------------------------
    CH = ("settings", "clear-settings", "rooms", "pose-new", "pose-t", "pose-R", "category", "score", "del", "add", "shape")

    def mutate(sc, op):
        ctx.step()
        o = sc.elements["1"]
        if op == "settings":
            sc.settings["version"] = "zz"
            sc.settings["more"] = "1"
        elif op == "clear-settings":
            sc.settings.clear()
        elif op == "rooms":
            sc.settings.get("rooms", []).append("bath")
        elif op == "pose-new":
            o.pose = S.make_pose("t")
        elif op == "pose-t":
            o.pose.t += 1.5
        elif op == "pose-R":
            o.pose.R.R[:] = np.array([[0, 1.0, 0], [0, 0, 1], [1, 0, 0]])
        elif op == "category":
            o.category = "changed"
            o.evaluated = not o.evaluated
        elif op == "score":
            o.score = 123.0
        elif op == "del":
            del sc.elements["1"]
        elif op == "add":
            sc.elements["q"] = S.make_object((sc.project_type, "q") + DEF + (SH[sc.project_type][0],))
        elif op == "shape":
            if sc.project_type == "meshes":
                o.meshes.add_primitive_mesh(S.make_plain(3, 9))
            elif sc.project_type == "voxels":
                o.voxels.add_points(np.array([[50.0, 50, 50]]))
            else:
                o.bounds.min_corner[:] -= 1

    def independent(case):
        src, target, side, ops = case
        sc = make(src, ((src, "1") + DEF + (SH[src][0],), (src, "2") + DEF + (SH[src][1],)), "custom")
        sc.settings["rooms"] = ["kitchen"]
        new = conv.run(sc, target)
        a, b = (sc, new) if side == "source" else (new, sc)
        kept = S.scene_state(b)
        for op in ops:
            if "1" not in a.elements:
                break
            mutate(a, op)
            S.same(S.scene_state(b), kept, "the other scene after %s of the %s" % (op, side))
        return case
    ctx.enum("independence", ((s, t, side, ops) for s, t in sorted(ALLOWED) for side in ("source", "result")
                              for n in ((1, 2, 3) if ctx.thorough else (1, 2))
                              for ops in itertools.product(CH, repeat=n)), independent)

    # -- bounds over all small vertex sets ------------------------------------
    def bounds(case):
        model = GltfModel()
        for verts in case:
            v = np.ascontiguousarray(np.array(verts, dtype=np.float32).T)
            model.add_primitive_mesh(Mesh(np.arange(len(verts) // 3 * 3, dtype=np.uint32), v, np.ones_like(v)))
        o = S.ProjectObject.gen_meshes_object(id="1", meshes=model)
        ctx.step()
        b = conv.convert_element(o, "bounding_box").bounds
        a = np.array([p for verts in case for p in verts], dtype=np.float64)
        if not (np.array_equal(b.min_corner, a.min(0)) and np.array_equal(b.max_corner, a.max(0))):
            fail("bounds %s of %r" % (b, case))
        return S.box_state(b)
    L = [p for p in itertools.product((-1.0, 2.5), repeat=3)]
    tri = list(itertools.combinations(L, 3))
    ctx.enum("bounds", itertools.chain(((t,) for t in tri),
                                       ((s, t) for s in (tri if ctx.thorough else tri[::5]) for t in tri)), bounds)

    # -- the shape decides, not the box the object happens to carry -----------
    def stored(case):
        src, sh, target, stored = case
        np.random.seed(7)
        sc = make(src, ((src, "1") + DEF + (sh,), (src, "2") + DEF + (SH[src][0],)), "default")
        o = sc.elements["1"]
        true = ComputeBbox().from_gltf_object(o.meshes) if src == "meshes" else o.voxels.bounds()
        if stored == "none":
            o.bounds = None
        elif stored == "grown":         # the box of the shape before it was changed
            o.bounds = true
            if src == "meshes":
                o.meshes.add_primitive_mesh(S.make_plain(3, 9))
            else:
                o.voxels.add_points(np.array([[50.0, 50, 50]]))
        elif stored == "smaller":
            o.bounds = Box3d(true.min_corner, true.center())
        elif stored == "larger":
            o.bounds = Box3d(true.min_corner - 1, true.max_corner + 2)
        elif stored == "zero":
            o.bounds = Box3d()
        ctx.step(2)
        before = S.scene_state(sc, shape=False)
        new = conv.run(sc, target)
        S.same(S.scene_state(sc, shape=False), before, "the source scene")
        check_result(sc, new, target, "%s -> %s with a %s box" % (src, target, stored))
        return case
    ctx.enum("stored-box", ((s, sh, t, b) for s, t in sorted(ALLOWED) for sh in SH[s]
                            for b in ("own", "none", "grown", "smaller", "larger", "zero")), stored)
