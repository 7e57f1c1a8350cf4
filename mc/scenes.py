"""Builders and canonical states of scenes, objects and shapes (used by several checks)."""
import itertools

import numpy as np

from mc.core import fail
from sumo.base.vector import Vector3, Vector3f
from sumo.geometry.pose3 import Pose3
from sumo.geometry.rot3 import Rot3
from sumo.semantic.object_symmetry import ObjectSymmetry, SymmetryType
from sumo.semantic.project_object import ProjectObject
from sumo.semantic.project_object_dict import ProjectObjectDict
from sumo.semantic.project_scene import ProjectScene
from sumo.threedee.box_3d import Box3d
from sumo.threedee.gltf_model import GltfModel
from sumo.threedee.mesh import Mesh
from sumo.threedee.textured_mesh import TexturedMesh
from sumo.threedee.voxel_grid import VoxelGrid

TYPES = ("bounding_box", "voxels", "meshes")
ST = SymmetryType
SYM = {
    "none": (ST.none, ST.none, ST.none),
    "two_x": (ST.twoFold, ST.none, ST.none),
    "four_y": (ST.none, ST.fourFold, ST.none),
    "cyl_z": (ST.none, ST.none, ST.cylindrical),
    "box": (ST.twoFold, ST.fourFold, ST.twoFold),
    "can": (ST.twoFold, ST.twoFold, ST.cylindrical),
    "ball": (ST.spherical, ST.spherical, ST.spherical),
}


def cube_rotations():
    """The 24 rotation matrices with entries 0, 1, -1."""
    out = []
    for p in itertools.permutations(range(3)):
        for s in itertools.product((1.0, -1.0), repeat=3):
            m = np.zeros((3, 3))
            for i in range(3):
                m[i, p[i]] = s[i]
            if np.linalg.det(m) > 0:
                out.append(m)
    return out


POSES = {     # rotation matrix, translation (reference values; built into Pose3 by make_pose)
    "id": (np.eye(3), (0.0, 0.0, 0.0)),
    "t": (np.eye(3), (1.5, -2.25, 3.125)),
    "rz": (np.array([[0.0, -1, 0], [1, 0, 0], [0, 0, 1]]), (0.0, 1.0, -1.0)),
    "rx": (np.array([[1.0, 0, 0], [0, 0, -1], [0, 1, 0]]), (-7.0, 0.1, 1e-3)),
    "gen": (np.array([[0.36, 0.48, -0.8], [-0.8, 0.6, 0.0], [0.48, 0.64, 0.6]]), (1.0 / 3, -2e10, 3e-9)),
    "gen2": (np.array([[0.36, 0.48, -0.8], [-0.8, 0.6, 0.0], [0.48, 0.64, 0.6]]), (1.0 / 3, -2.5, 3e-3)),
    "neg0": (np.array([[-1.0, -0.0, 0], [0, -1.0, 0], [0, 0, 1]]), (-0.0, 0.1 + 0.2, -1e-300)),
}


def make_pose(name):
    R, t = POSES[name]
    return Pose3(Rot3(np.array(R)), np.array(t, dtype=np.float64))


BOXES = {
    "unit": ((0.0, 0.0, 0.0), (1.0, 1.0, 1.0)),
    "odd": ((-1.0 / 3, 0.1, -2e-7), (1e6 + 1.0 / 7, 0.30000000000000004, 5.0)),
    "flat": ((-2.0, 3.0, 4.0), (2.0, 3.0, 4.0)),
}
VOXELS = {
    "one": (0.5, (-1.0, -2.0, 0.5), ((0, 0, 0),)),
    "line": (0.1, (0.25, 0.5, -3.0), ((0, 0, 0), (2, 0, 0), (0, 3, 1))),
    "far": (2.0, (0.0, 0.0, 0.0), ((5, 1, 2), (1, 5, 0), (0, 0, 7))),
    "off": (0.5, (1.0, -1.0, 2.0), ((2, 3, 1), (4, 3, 6))),     # nothing near the origin of the grid
}


def make_voxels(name):
    vs, mc, cells = VOXELS[name]
    vg = VoxelGrid(vs, Vector3f(*mc))
    vg.add_points(np.array([[m + vs * (c + 0.5) for m, c in zip(mc, cell)] for cell in cells]))
    return vg


def texture(k, w=2, h=2):
    """A texture whose texels are all different (and differ for different k)."""
    n = np.arange(w * h * 3, dtype=np.int64).reshape(h, w, 3)
    return np.ascontiguousarray((n * 7 + k * 41 + 3) % 251, dtype=np.uint8)


def tri_data(n, k):
    """n vertices (n>=3), a fan of n-2 triangles, distinct coordinates depending on k."""
    v = np.array([[np.cos(2.0 * i), np.sin(2.0 * i + k), 0.25 * i + k] for i in range(n)], dtype=np.float32).T
    nn = np.array([[0.0, 0.6, 0.8] if i % 2 else [1.0, 0.0, -0.0] for i in range(n)], dtype=np.float32).T
    uv = np.array([[0.125 * i, 1.0 - 0.25 * i - 0.01 * k] for i in range(n)], dtype=np.float32).T
    idx = np.array(list(itertools.chain.from_iterable((0, i, i + 1) for i in range(1, n - 1))), dtype=np.uint32)
    return idx, np.ascontiguousarray(v), np.ascontiguousarray(nn), np.ascontiguousarray(uv)


def make_textured(n=3, k=0, mr=True, tex=(2, 2)):
    idx, v, nn, uv = tri_data(n, k)
    if mr:
        return TexturedMesh(idx, v, nn, uv, texture(k, *tex), texture(k + 5, tex[1] + 1, tex[0]))
    return TexturedMesh(idx, v, nn, uv, texture(k, *tex), np.zeros((0, 0, 3), dtype=np.uint8))


def make_plain(n=3, k=0):
    idx, v, nn, uv = tri_data(n, k)
    return Mesh(idx, v, nn)


def make_model(name):
    m = GltfModel()
    if name == "tex":
        m.add_textured_primitive_mesh(make_textured(3, 0))
    elif name == "two":
        m.add_textured_primitive_mesh(make_textured(4, 1, tex=(3, 1)))
        m.add_textured_primitive_mesh(make_textured(5, 2, tex=(1, 1)))
    elif name == "mixed":
        m.add_primitive_mesh(make_plain(4, 3))
        m.add_textured_primitive_mesh(make_textured(3, 4))
    else:
        raise AssertionError(name)
    return m


SHAPES = {"bounding_box": BOXES, "voxels": VOXELS, "meshes": {"tex": 0, "two": 0, "mixed": 0}}

# one object: (type, id, category, pose, symmetry, score, evaluated, shape)


def make_object(spec):
    typ, id, cat, pose, sym, score, ev, shape = spec
    kw = dict(id=id, category=cat, pose=make_pose(pose), symmetry=ObjectSymmetry(*SYM[sym]), score=score, evaluated=ev)
    if typ == "bounding_box":
        a, b = BOXES[shape]
        return ProjectObject.gen_bounding_box_object(bounds=Box3d(Vector3(*a), Vector3(*b)), **kw)
    if typ == "voxels":
        vg = make_voxels(shape)
        return ProjectObject.gen_voxels_object(bounds=vg.bounds(), voxels=vg, **kw)
    return ProjectObject.gen_meshes_object(meshes=make_model(shape), **kw)


def make_scene(typ, specs, settings=None):
    d = ProjectObjectDict()
    for s in specs:
        o = make_object(s)
        d[o.id] = o
    if settings is None:
        return ProjectScene(typ, elements=d)
    return ProjectScene(typ, elements=d, settings=dict(settings))


# -- canonical states -------------------------------------------------------
def bits(a):
    a = np.asarray(a)
    return (str(a.dtype), a.shape, np.ascontiguousarray(a).tobytes())


def vals(a):
    """Exact values, regardless of dtype and memory layout (-0.0 differs from 0.0)."""
    a = np.asarray(a, dtype=np.float64)
    return (a.shape, tuple(repr(float(x)) for x in a.ravel()))


def pose_state(p):
    return (vals(p.R.matrix()), vals(p.t))


def mesh_state(m):
    s = ["plain", bits(m.indices()), bits(m.vertices()), bits(m.normals())]
    if m.is_textured():
        s[0] = "textured"
        s += [bits(m.uv_coords()), bits(m.base_color()), bits(m.metallic_roughness())]
    return tuple(s)


def model_state(m):
    return tuple(mesh_state(x) for x in m.primitive_meshes())


def voxel_state(v):
    c = np.asarray(v.voxel_centers(), dtype=np.float64)
    mc = np.asarray(v.min_corner, dtype=np.float64)
    idx = np.rint((c - mc) / v.voxel_size - 0.5).astype(int).reshape(-1, 3)
    return (repr(float(v.voxel_size)), vals(mc), tuple(sorted(map(tuple, idx.tolist()))), len(idx))


def box_state(b):
    return None if b is None else (vals(b.min_corner), vals(b.max_corner))


def shape_state(po):
    if po.project_type == "bounding_box":
        if po.voxels is not None or po.meshes is not None:
            fail("a bounding box object has voxels or meshes")
        return ("bounding_box", box_state(po.bounds))
    if po.project_type == "voxels":
        if po.meshes is not None:
            fail("a voxels object has meshes")
        return ("voxels", None if po.voxels is None else voxel_state(po.voxels))
    if po.voxels is not None:
        fail("a meshes object has voxels")
    return ("meshes", None if po.meshes is None else model_state(po.meshes))


def object_state(po, pose=True, shape=True):
    if type(po.evaluated) not in (bool, np.bool_):
        fail("evaluated is %r" % (po.evaluated,))
    s = po.symmetry
    return (po.project_type, po.id, type(po.id).__name__, po.category,
            (s.x_symmetry.name, s.y_symmetry.name, s.z_symmetry.name),
            repr(float(po.score)), bool(po.evaluated),
            pose_state(po.pose) if pose else None, shape_state(po) if shape else None)


def scene_state(sc, pose=True, shape=True):
    return (sc.project_type, tuple(sorted((k, v if isinstance(v, str) else repr(v)) for k, v in sc.settings.items())),
            tuple(sorted((k, object_state(v, pose, shape)) for k, v in sc.elements.items())))


def diff(a, b):
    """Short description of where two canonical states differ."""
    if a == b:
        return "equal"
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return "[%d]%s" % (i, diff(x, y))
    return ": %s  versus  %s" % (repr(a)[:300], repr(b)[:300])


def same(a, b, what):
    if a != b:
        fail("%s: differs at %s" % (what, diff(a, b)))
