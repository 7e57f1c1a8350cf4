"""C23: point-set overlap, nearest neighbours, surface and colour distances, box IoU against their
definitions (brute force over points; half-space intersection for boxes)."""
import itertools
import math

import numpy as np

from mc.core import fail
from mc import evalref as R
from mc import scenes as S
from mc import stubs
from mc.props.c15 import settings
from sumo.base.vector import Vector3, Vector3f
from sumo.geometry.pose3 import Pose3
from sumo.geometry.rot3 import Rot3
from sumo.metrics.bb_evaluator import BBEvaluator
from sumo.metrics.mesh_evaluator import MeshEvaluator
from sumo.metrics.voxel_evaluator import VoxelEvaluator
from sumo.semantic.project_object import ProjectObject
from sumo.threedee.box_3d import Box3d
from sumo.threedee.gltf_model import GltfModel
from sumo.threedee.textured_mesh import TexturedMesh
from sumo.threedee.voxel_grid import VoxelGrid
import sumo.metrics.utils as U

LATTICE = ((0, 0, 0), (1, 0, 0), (2, 0, 0), (0, 1, 0), (1, 1, 0), (0, 0, 2))
UP, DOWN = np.nextafter(1.0, 2), np.nextafter(1.0, 0)
THRESH = (0.0, 0.5, DOWN, 1.0, UP, 1.5, 2.0, 2.3)
CUBE = S.cube_rotations()
GENERIC = np.array([[0.36, 0.48, -0.8], [-0.8, 0.6, 0.0], [0.48, 0.64, 0.6]])


def dists(a, b):
    """For every point of a the distance to its nearest point of b."""
    return [min(math.sqrt(sum((x - y) ** 2 for x, y in zip(p, q))) for q in b) for p in a] if len(b) else []


def iou(a, b, t):
    n = len(a) + len(b)
    return sum(d <= t for d in dists(a, b) + dists(b, a)) / n if n else 0.0


def bbox(points, margin=0.0):
    if not len(points):
        return Box3d(Vector3(0, 0, 0), Vector3(0, 0, 0))
    p = np.array(points, dtype=float)
    return Box3d(Vector3(*(p.min(axis=0) - margin)), Vector3(*(p.max(axis=0) + margin)))


def array(points, cols=3, dtype=float, order="C"):
    a = np.zeros((len(points), cols), dtype=dtype, order=order)
    if len(points):
        a[:, :3] = points
    a[:, 3:] = 1000
    return a


TEX = (np.arange(12).reshape(2, 2, 3) * 17 + 5).astype(np.uint8)
TEX[1, 1] = (255, 0, 128)


def point_model(points, texels):
    """A model whose samples are the given points with the given texels (one triangle without
    extent for each point)."""
    m = GltfModel()
    if len(points):
        v = np.ascontiguousarray(np.array(points, dtype=np.float32).reshape(-1, 3).T)
        uv = np.ascontiguousarray(np.array([[(t % 2 + 0.5) / 2, (t // 2 + 0.5) / 2] for t in texels], dtype=np.float32).T)
        idx = np.repeat(np.arange(len(points), dtype=np.uint32), 3)
        m.add_textured_primitive_mesh(TexturedMesh(idx, v, np.zeros_like(v), uv, TEX, np.zeros((0, 0, 3), np.uint8)))
    return m


def pose(Rm=None, t=(0, 0, 0)):
    return Pose3(Rot3(np.eye(3) if Rm is None else np.array(Rm)), np.array(t, dtype=float))


def mesh_object(id, points, texels, p=None, **k):
    return ProjectObject.gen_meshes_object(id=id, meshes=point_model(points, texels), pose=p or pose(), category="chair", **k)


def subsets(items, n=99):
    return [c for k in range(min(n, len(items)) + 1) for c in itertools.combinations(range(len(items)), k)]


def explore(ctx):
    def num(x, what):
        x = float(x)
        if not x == x:
            fail("%s is not a number" % what)
        return x

    def call(a, b, t, margin=(0.0, 0.0)):
        ctx.step()
        ba, bb = bbox(a[:, :3], margin[0]), bbox(b[:, :3], margin[1])
        a0, b0 = a.copy(), b.copy()
        r = num(U.points_iou(a, ba, b, bb, t), "points_iou")
        if (a != a0).any() or (b != b0).any():
            fail("points_iou changes the points")
        return r

    sub = subsets(LATTICE)

    def pair(case):
        i, j, t = case
        pa, pb = [LATTICE[k] for k in sub[i]], [LATTICE[k] for k in sub[j]]
        x = iou(pa, pb, THRESH[t])
        a, b = array(pa), array(pb, 6 if (i + j) % 2 else 3)
        for r, what in ((call(a, b, THRESH[t]), ""), (call(b, a, THRESH[t], (0.0, 3.0)), " (interchanged, looser box)")):
            if not abs(r - x) <= 1e-12:
                fail("overlap of %r and %r at %r%s: %r, expected %r" % (pa, pb, THRESH[t], what, r, x))
        if i == j and pa and x != 1:
            fail("the reference is wrong")
        return x, len(pa), len(pb), t
    T = range(len(THRESH))
    ctx.enum("overlap of lattice sets", ((i, j, t) for i in range(len(sub)) for j in (range(i, len(sub)) if not ctx.thorough else range(len(sub))) for t in T), pair)

    # boxes apart on one axis only, at distances around the threshold
    def apart(case):
        axis, sign, d, t, n = case
        pa = [(0.0, 0.0, 0.0), (-1.0, -2.0, -0.5)][:n]
        off = [0.0, 0.0, 0.0]
        off[axis] = sign * (d + (0 if sign > 0 or n == 1 else (1.0, 2.0, 0.5)[axis]))
        pb = [tuple(p + o for p, o in zip(q, off)) for q in pa]
        x = iou(pa, pb, t)
        r = call(array(pa), array(pb), t)
        if not abs(r - x) <= 1e-12:
            fail("overlap of %r and %r at %r: %r, expected %r" % (pa, pb, t, r, x))
        return case
    ctx.enum("sets apart on one axis", itertools.product(
        range(3), (1, -1), (0.0, 0.25, np.nextafter(0.5, 0), 0.5, np.nextafter(0.5, 1), 0.75, 5.0), (0.0, 0.25, 0.5, 0.75), (1, 2)), apart)

    # points that are far from one another within overlapping boxes
    def inside(case):
        n, t = case
        pa = [(x, y, 0.0) for x in (0.0, 4.0) for y in (0.0, 4.0)][:n + 1]
        pb = [(1.0 + 2 * k, 2.0 - k, 0.5) for k in range(n + 1)]
        x = iou(pa, pb, t)
        r = call(array(pa, order="F"), array(pb, dtype=np.float32), t)
        if not abs(r - x) <= 1e-12:
            fail("overlap of %r and %r at %r: %r, expected %r" % (pa, pb, t, r, x))
        return case
    ctx.enum("crossing sets", itertools.product(range(4), (0.1, 1.0, 2.0, 2.2, 2.5, 3.0, 10.0)), inside)

    # order of the points and rigid motions
    def motion(case):
        i, j, r, s, perm = case
        pa, pb = [LATTICE[k] for k in sub[i]], [LATTICE[k] for k in sub[j]]
        Rm = CUBE[r] if r < 24 else GENERIC
        move = lambda ps: (np.array(ps, dtype=float) @ Rm.T + np.array(((0, 0, 0), (10, -3, 5), (-1000, 0.5, 7))[s]))
        a, b = array(move(pa)), array(move(pb))
        if perm:
            a, b = a[::-1], np.roll(b, 1, axis=0)
        for t in ((0.5, 1.2, 2.1) if r == 24 else (0.5, 1.0, 2.0)):
            x = iou(pa, pb, t)
            v = call(a, b, t)
            if not abs(v - x) <= 1e-12:
                fail("overlap after a rigid motion: %r, expected %r" % (v, x))
        return case
    full = [k for k, c in enumerate(sub) if len(c) == 3]
    ctx.enum("rigid motions and point orders", itertools.product(full[::3], full[1::3], range(25), range(3), (0, 1)), motion)

    # nearest neighbours
    def nn(case):
        i, j, kind = case
        pts = {"lattice": LATTICE, "generic": ((0, 0, 0), (0.3, 0.1, 0.9), (0.31, 0.1, 0.9), (-2, 5, 0.25), (7, 7, 7), (1e-3, 0, 0))}[kind]
        pa, pb = [pts[k] for k in sub[i]], [tuple(0.5 * x for x in pts[k]) if kind == "generic" else pts[k] for k in sub[j]]
        a, b = array(pa), array(pb)
        ctx.step()
        i12, i21, d12, d21 = U.nearest_neighbors(a, b)
        for what, p, q, ii, dd in (("first to second", pa, pb, i12, d12), ("second to first", pb, pa, i21, d21)):
            ii, dd = np.asarray(ii), np.asarray(dd)
            x = dists(p, q) if p and q else []
            if ii.shape != (len(x),) or dd.shape != (len(x),):
                fail("nearest neighbours of %d and %d points: %r indices, %r distances" % (len(p), len(q), ii.shape, dd.shape))
            for k, d in enumerate(x):
                if not abs(dd[k] - d) <= 1e-12:
                    fail("distance %s of point %d of %r to %r: %r, expected %r" % (what, k, p, q, dd[k], d))
                if not 0 <= ii[k] < len(q) or not abs(math.dist(p[k], q[ii[k]]) - d) <= 1e-12:
                    fail("nearest neighbour %s of point %d of %r in %r: %r" % (what, k, p, q, ii[k]))
        return case
    ctx.enum("nearest neighbours", ((i, j, k) for i in range(len(sub)) for j in range(len(sub))
                                    for k in (("lattice", "generic") if ctx.thorough or (i + j) % 2 else ("generic",))), nn)

    def big(case):
        n, m, seed = case
        f = lambda k, s: ((k * 37 + s * 11) % 101 / 10.0, (k * 53 + s * 7) % 97 / 10.0, (k * k * 29 + s) % 89 / 10.0)
        pa, pb = [f(k, seed) for k in range(n)], [f(k, seed + 5) for k in range(m)]
        a, b = array(pa), array(pb)
        for t in (0.15, 1.03, 2.51):
            x = iou(pa, pb, t)
            if not abs(call(a, b, t) - x) <= 1e-12:
                fail("overlap of %d and %d points" % (n, m))
        return case
    ctx.enum("larger sets", itertools.product((1, 39, 40, 41, 81, 200), (1, 40, 85), range(2)), big)

    # voxel track
    CELLS = ((0, 0, 0), (1, 0, 0), (0, 1, 0), (2, 1, 1))
    csub = subsets(CELLS)

    def vox(cells, vs=0.5, mc=(0.25, -1.0, 2.0)):
        vg = VoxelGrid(vs, Vector3f(*mc))
        if cells:
            vg.add_points(np.array([[m + vs * (c + 0.5) for m, c in zip(mc, CELLS[k])] for k in cells]))
        return vg, [tuple(m + vs * (c + 0.5) for m, c in zip(mc, CELLS[k])) for k in cells]

    def evaluator(cls, a, b, thresh, typ, more=None):
        s = settings(np.array([0.5]))
        s["voxel_overlap_thresh"] = thresh if typ == "voxels" else 77.0
        s["mesh_overlap_thresh"] = thresh if typ == "meshes" else 77.0
        s.update(more or {})
        return cls(R.scene(a, typ), R.scene(b, typ), s)

    def place(ps, Rm, t):
        return [tuple(np.array(Rm) @ np.array(p) + np.array(t)) for p in ps]

    def voxels(case):
        i, j, r, t = case[:4]
        (va, pa), (vb, pb) = vox(csub[i]), vox(csub[j], mc=(0.25, -1.5, 2.0))
        tr = (0.5, 0.0, -1.0)
        mk = lambda id, v, p: ProjectObject.gen_voxels_object(id=id, bounds=STORED[case[4 + (id == "y")]](v), voxels=v, pose=p, category="chair", score=.5)
        # the second object is posed so that the two are close whatever its rotation is
        c = np.array([0.5, -1.0, 2.25])
        tb = c - CUBE[r] @ c
        a, b = mk("x", va, pose(t=tr)), mk("y", vb, pose(CUBE[r], tb + np.array(tr)))
        qa, qb = place(pa, np.eye(3), tr), place(pb, CUBE[r], tb + np.array(tr))
        ctx.step()
        ev = evaluator(VoxelEvaluator, [a], [b], t, "voxels")
        x = iou(qa, qb, t)
        v = num(ev._shape_similarity(a, b), "similarity")
        if not abs(v - x) <= 1e-9:
            fail("similarity of voxels %r and %r at %r: %r, expected %r" % (qa, qb, t, v, x))
        d = dists(qa, qb) + dists(qb, qa) if qa and qb else []
        p = num(ev.rms_points_error(), "rms_points_error")
        xp = math.inf if x < 0.5 else math.sqrt(sum(z * z for z in d) / len(d))
        if not (p == xp or abs(p - xp) < 1e-9):
            fail("rms distance of voxels %r and %r: %r, expected %r" % (qa, qb, p, xp))
        return case
    # the overlap is that of the shapes, whatever box the objects carry
    STORED = (lambda v: v.bounds(), lambda v: Box3d(v.bounds().min_corner, v.bounds().center()),
              lambda v: Box3d(v.bounds().min_corner + 50, v.bounds().max_corner + 50), lambda v: Box3d())
    ctx.enum("voxel grids", ((i, j, r, t, (i + j + r) % 4 if (i * j) % 3 == 0 else 0, (2 * i + j) % 4 if (i * j) % 3 != 1 else 0) for i in range(1, len(csub)) for j in range(1, len(csub)) for r in (range(24) if ctx.thorough else ((i + j) % 24, 0))
                             for t in (0.1, 0.55, 0.8)), voxels)

    # mesh track: points with colours
    def rms(pa, ca, pb, cb):
        """Distance and colour distance of two coloured point sets whose nearest neighbours are unique."""
        d = dists(pa, pb) + dists(pb, pa)
        near = lambda p, q: [min(range(len(q)), key=lambda k: math.dist(x, q[k])) for x in p]
        tex = TEX.reshape(4, 3).astype(float)
        c = [np.sum((tex[ca[i]] - tex[cb[k]]) ** 2) for i, k in enumerate(near(pa, pb))]
        c += [np.sum((tex[cb[i]] - tex[ca[k]]) ** 2) for i, k in enumerate(near(pb, pa))]
        return math.sqrt(sum(z * z for z in d) / len(d)), math.sqrt(sum(c) / len(c))

    def check_mesh(pa, ca, pb, cb, thresh, Rm, t):
        ctx.step()
        # whatever box the objects carry
        far = Box3d(Vector3(70, 70, 70), Vector3(71, 71, 71))
        a = mesh_object("x", pa, ca, pose(Rm, t), score=0.5, **({"bounds": far} if sum(cb) % 3 == 0 else {}))
        b = mesh_object("y", pb, cb, pose(Rm, t), **({"bounds": far} if sum(ca) % 3 == 1 else {}))
        ev = evaluator(MeshEvaluator, [a], [b], thresh, "meshes", {"thresholds": np.array([0.01])})
        x = iou(pa, pb, thresh)
        v = num(ev._shape_similarity(a, b), "similarity")
        if not abs(v - x) <= 1e-12:
            fail("similarity of points %r and %r at %r: %r, expected %r" % (pa, pb, thresh, v, x))
        xp, xc = rms(pa, ca, pb, cb) if x >= 0.01 else (math.inf, math.inf)
        p, c = num(ev.rms_points_error(), "rms_points_error"), num(ev.rms_color_error(), "rms_color_error")
        if not (p == xp or abs(p - xp) < 1e-5):
            fail("rms distance of %r and %r: %r, expected %r" % (pa, pb, p, xp))
        if not (c == xc or abs(c - xc) < 1e-5):
            fail("rms colour distance of %r with %r and %r with %r: %r, expected %r" % (pa, ca, pb, cb, c, xc))
    MA = ((0, 0, 0), (2, 0, 0), (0, 3, 0))
    MB = ((0.25, 0, 0), (2, 0.5, 0), (0, 3, 0.75))

    def mesh(case):
        i, j, cs, t, r = case
        sa, sb = msub[i], msub[j]
        check_mesh([MA[k] for k in sa], [cs[k] for k in sa], [MB[k] for k in sb], [cs[k + 3] for k in sb],
                   t, CUBE[r], ((0, 0, 0), (4, -2, 8))[r % 2])
        return case
    msub = subsets(MA)[1:]
    ctx.enum("coloured points", (
        (i, j, cs, t, (i * 5 + j * 3 + sum(cs)) % 24) for i in range(len(msub)) for j in range(len(msub))
        for cs in (itertools.product(range(4), repeat=6) if ctx.thorough else
                   [c for c in itertools.product((0, 1, 3), repeat=6) if c[0] <= c[1] or c[4] == 3][::7]) for t in (0.6, 10.0)), mesh)

    # means over matches: all of them, one per match and threshold, evaluated objects only
    def means(case):
        n, shifts, ges, thresholds = case
        ctx.step()
        dets, gts = [], []
        per = {}
        for k in range(n):
            o = 100.0 * k
            pg = [(o, 0, 0), (o + 20, 0, 0), (o + 40, 0, 0)]
            # similarity 1, 2/3 or 1/3 by the number of points beyond the distance of 4
            far = shifts[k] % 3
            pd = [(p[0], 0.5 * (shifts[k] + 1) if q >= far else 6.0, 0) for q, p in enumerate(pg)]
            cd = [(shifts[k] + q) % 4 for q in range(3)]
            dets.append(mesh_object("d%d" % k, pd, cd, score=0.5))
            gts.append(mesh_object("g%d" % k, pg, [0, 1, 2], evaluated=bool(ges[k])))
            per[k] = (iou(pd, pg, 4.0), rms(pd, cd, pg, [0, 1, 2]))
        ev = evaluator(MeshEvaluator, dets, gts, 4.0, "meshes", {"thresholds": np.array(thresholds)})
        rs = [r for t in thresholds for k, (s, r) in per.items() if s >= t and ges[k]]
        xp, xc = ([sum(r[i] for r in rs) / len(rs) for i in (0, 1)]) if rs else (math.inf, math.inf)
        for what, v, x in (("rms distance", ev.rms_points_error(), xp), ("rms colour distance", ev.rms_color_error(), xc)):
            if not (v == x or abs(v - x) < 1e-5):
                fail("mean %s: %r, expected %r" % (what, v, x))
        return case
    ctx.enum("means over matches", (
        (n, sh, ge, t) for n in (0, 1, 2, 3) for sh in itertools.product(range(6) if ctx.thorough else (0, 1, 2, 5), repeat=n)
        for ge in itertools.product((0, 1), repeat=n) for t in ((0.5,), (0.2, 0.5), (0.2, 0.6, 0.9))), means)

    # box track
    IV = ((0, 1), (1, 2), (0, 2))
    BOX = list(itertools.product(IV, repeat=3))
    INTERVALS = ((0, 1), (0.25, 0.75), (1, 3), (-1, 0.5))
    BOX2 = list(itertools.product(INTERVALS, repeat=3))
    YAW = lambda d: R.axis_rot(1, math.radians(d))
    POSES = [(np.eye(3), (0, 0, 0)), (np.eye(3), (0.5, 0.25, -0.5)), (CUBE[5], (0, 0, 0)), (CUBE[17], (1, 0, 0.5)),
             (YAW(45), (0, 0, 0)), (YAW(30), (0.25, 0.5, 0)), (GENERIC, (0.5, 0.5, 0.5)), (np.eye(3), (2, 0, 0)), (np.eye(3), (2.5, 0, 0)),
             (YAW(45), (2.25, 0, 0))]
    FACES = ((0, 1, 2), (0, 2, 3), (3, 2, 7), (3, 7, 4), (4, 7, 6), (4, 6, 5), (5, 6, 1), (5, 1, 0), (0, 3, 4), (0, 4, 5),
             (1, 6, 7), (1, 7, 2))

    def corners(iv, Rm, t):
        (x0, x1), (y0, y1), (z0, z1) = iv
        c = np.array([(x0, y0, z1), (x1, y0, z1), (x1, y1, z1), (x0, y1, z1), (x0, y0, z0), (x1, y0, z0), (x1, y1, z0), (x0, y1, z0)], dtype=float)
        return c @ np.array(Rm).T + np.array(t, dtype=float)

    def halfspaces(iv, Rm, t):
        Rm, t = np.array(Rm), np.array(t, dtype=float)
        out = []
        for k in range(3):
            for s, v in ((1, iv[k][1]), (-1, -iv[k][0])):
                n = s * Rm[:, k]
                out.append((tuple(float(x) for x in n), float(v + n @ t)))
        return out

    def box(case):
        i, j, p, q = case
        bi, bj = BOX[i], (BOX if j < 27 else BOX2)[j % 27 if j < 27 else j - 27]
        A, B = POSES[p], POSES[q]
        ctx.step()
        mk = lambda id, iv, P: ProjectObject.gen_bounding_box_object(
            id=id, bounds=Box3d(Vector3(*(x[0] for x in iv)), Vector3(*(x[1] for x in iv))), pose=pose(*P), category="chair", score=.5)
        a, b = mk("a", bi, A), mk("b", bj, B)
        ev = BBEvaluator(R.scene([a]), R.scene([b]), settings(np.array([0.5])))
        v = num(ev._shape_similarity(a, b), "similarity")
        vol = lambda iv: float(np.prod([x[1] - x[0] for x in iv]))
        if p == q:     # the boxes have the same axes: exact
            inter = float(np.prod([max(0.0, min(x[1], y[1]) - max(x[0], y[0])) for x, y in zip(bi, bj)]))
        else:
            inter = stubs.convex_volume(halfspaces(bi, *A), halfspaces(bj, *B), 20.0)
        true = inter / (vol(bi) + vol(bj) - inter)
        if not abs(v - true) <= 1e-6:
            tup = lambda c: tuple(map(tuple, c.tolist()))
            n = stubs.common_volume(tup(corners(bi, *A)), FACES, tup(corners(bj, *B)), FACES)
            notch = n / (5 / 6.0 * (vol(bi) + vol(bj)) - n)
            fail("overlap of box %r at %r and box %r at %r: %r, expected %r" % (bi, A[1], bj, B[1], v, true),
                 key="bb-notch" if abs(v - notch) < 1e-6 else None)
        if v < -1e-12 or v > 1 + 1e-9:
            fail("box similarity %r" % v)
        return case
    ctx.enum("boxes", itertools.chain(
        ((i, j, p, p) for i in range(27) for j in (range(27) if not ctx.thorough else range(27 + 64)) for p in ((0,) if not ctx.thorough else (0, 6))),
        ((i, j, p, p) for i in (0, 13, 26) for j in range(27, 27 + 64, 1 if ctx.thorough else 4) for p in (0, 4, 6)),
        ((i, j, p, q) for i in ((0, 11, 26) if not ctx.thorough else range(27)) for j in (0, 5, 14, 26, 40)
         for p in (0, 3) for q in range(len(POSES)) if p != q)), box)
