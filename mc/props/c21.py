"""C21: axis-aligned boxes and bounding boxes."""
import itertools

import numpy as np

from mc.core import fail, eq
from mc import scenes as S
from sumo.base.vector import Vector3, Vector3f
from sumo.threedee.box_3d import Box3d
from sumo.threedee.compute_bbox import ComputeBbox
from sumo.threedee.gltf_model import GltfModel
from sumo.threedee.mesh import Mesh
from sumo.threedee.textured_mesh import TexturedMesh

F32 = np.float32
V64 = (-1.0, 0.0, 2.0)
ODD = (-1.0 / 3, 0.1, -0.0, 1e-30, 16777217.0, 5e-324)


def box_is(b, lo, hi, what):
    if list(map(float, b.min_corner)) != list(map(float, lo)) or list(map(float, b.max_corner)) != list(map(float, hi)):
        fail("%s: %s, expected %r %r" % (what, b, lo, hi))


def make(kind, p):
    if kind == "Vector3":
        return Vector3(*p)
    if kind == "Vector3f":
        return Vector3f(*p)
    if kind == "list":
        return list(p)
    if kind == "tuple":
        return tuple(p)
    return np.array(p)


KINDS = ("Vector3", "Vector3f", "list", "tuple", "array")
# CCW around the front (max z) from bottom left, then around the back, as documented
CORNERS = [(0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1), (0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0)]


def mesh_checks(b, lo, hi, m, out):
    """m is the surface of the box [lo, hi], facing outwards (or inwards)."""
    v = np.asarray(m.vertices(), dtype=np.float64)
    n = np.asarray(m.normals(), dtype=np.float64)
    ix = np.asarray(m.indices())
    eq((v.shape, n.shape, ix.shape), ((3, 24), (3, 24), (36,)), "size of the box mesh")
    if ix.max() >= 24 or len(set(ix.tolist())) != 24:
        fail("indices of the box mesh: %r" % ix)
    lo32, hi32 = np.asarray(lo, dtype=F32).astype(np.float64), np.asarray(hi, dtype=F32).astype(np.float64)
    area = {}
    vol = 0.0
    cen = (lo32 + hi32) / 2
    flat = bool((hi32 - lo32 == 0).any())
    for t in ix.reshape(-1, 3):
        a, b2, c = v[:, t[0]], v[:, t[1]], v[:, t[2]]
        cr = np.cross(b2 - a, c - a)
        vol += np.dot(a - cen, np.cross(b2 - cen, c - cen)) / 6
        nn = [tuple(n[:, i]) for i in t]
        if len(set(nn)) != 1 or sorted(map(abs, nn[0])) != [0, 0, 1]:
            fail("normals of a side of the box are %r" % (nn,))
        ax = int(np.argmax(np.abs(nn[0])))
        s = nn[0][ax] if out else -nn[0][ax]
        side = hi32[ax] if s > 0 else lo32[ax]
        if any(p[ax] != side for p in (a, b2, c)):
            fail("a triangle of side %d %+d is not in that side" % (ax, s))
        d = float(np.dot(cr, nn[0]))
        if d < 0 or not abs(d - np.linalg.norm(cr)) <= 1e-6 * abs(d):
            fail("normal %r against the winding of its triangle" % (nn[0],))
        area[ax, s] = area.get((ax, s), 0) + d / 2
    ext = hi32 - lo32
    for ax in range(3):
        for s in (1.0, -1.0):
            want = ext[(ax + 1) % 3] * ext[(ax + 2) % 3]
            if not abs(area.get((ax, s), -1) - want) <= 1e-6 * want:
                fail("area of side %d %+d is %r, expected %r" % (ax, s, area.get((ax, s)), want))
    want = ext.prod() * (1 if out else -1)
    if not flat and not abs(vol - want) <= 1e-6 * abs(want):
        fail("the box mesh encloses %r, expected %r" % (vol, want))
    box_is(ComputeBbox().from_mesh(m), lo32, hi32, "bounds of the box mesh")


def explore(ctx):
    lat = list(itertools.product(V64, repeat=3))
    pairs1 = [(a, b) for a in V64 for b in V64 if a <= b]
    boxes = [tuple(zip(*c)) for c in itertools.product(pairs1, repeat=3)]     # (lo, hi), 216

    def construct(case):
        c1, c2, k1, k2 = case
        a, b = make(k1, c1), make(k2, c2)
        box = Box3d(a, b)
        lo, hi = [min(x, y) for x, y in zip(c1, c2)], [max(x, y) for x, y in zip(c1, c2)]
        box_is(box, lo, hi, "box of two corners")
        if list(a) != list(c1) or list(b) != list(c2):
            fail("the corners passed in were changed")
        for x in (a, b):
            if isinstance(x, np.ndarray):
                x[...] = 99
        box_is(box, lo, hi, "box after its source corners changed")
        eq(float(box.volume()), float((hi[0] - lo[0]) * (hi[1] - lo[1]) * (hi[2] - lo[2])), "volume")
        eq([float(x) for x in box.center()], [(x + y) / 2 for x, y in zip(lo, hi)], "center")
        c = np.asarray(box.corners())
        eq(c.shape, (3, 8), "shape of corners")
        for j, sel in enumerate(CORNERS):
            eq([float(x) for x in c[:, j]], [(hi if s else lo)[i] for i, s in enumerate(sel)], "corner %d" % j)
        for p in itertools.product((-2.0, -1.0, -0.5, 0.0, 1.0, 2.0, 3.0), repeat=3):
            want = all(l < x < h for l, x, h in zip(lo, p, hi))
            if bool(box.point_in_box(np.array(p))) != want:
                fail("point_in_box%r is %r in %s" % (p, not want, box))
        for out in (True, False):
            for m in (box.to_mesh(out), box.to_textured_mesh(out)):
                mesh_checks(box, lo, hi, m, out)
        box_is(box, lo, hi, "box after its operations")
        box_is(Box3d.from_xml(box.to_xml()), lo, hi, "box from its xml")
        ctx.step(360)
        return (tuple(lo), tuple(hi))
    ctx.enum("boxes of all corner pairs", [(a, b, k1, k2) for i, (a, b) in enumerate(itertools.product(lat, lat))
                                           for k1, k2 in ([(KINDS[i % 5], KINDS[i // 5 % 5])] if not ctx.thorough or (i % 27) else
                                                          itertools.product(KINDS, KINDS))], construct)

    def kinds(case):
        return construct(case)
    ctx.enum("corner types", [(a, b, k1, k2) for a, b in (((-1.0, 2.0, 0.0), (2.0, 0.0, 0.0)), ((0.0, 0.0, 0.0), (0.0, 0.0, 0.0)))
                              for k1 in KINDS for k2 in KINDS], kinds)

    def odd(case):
        c1, c2 = case
        box = Box3d(np.array(c1), np.array(c2))
        lo, hi = [min(x, y) for x, y in zip(c1, c2)], [max(x, y) for x, y in zip(c1, c2)]
        box_is(box, lo, hi, "box")
        b2 = Box3d.from_xml(box.to_xml())
        box_is(b2, lo, hi, "box from its xml")
        if not (b2 == box):
            fail("a box differs from the one read from its xml: %s %s" % (box, b2))
        b3 = Box3d(np.array(c2), np.array(c1))
        if not (b3 == box) or (b3 != box):
            fail("the order of the corners matters: %s %s" % (box, b3))
        ctx.step(4)
        return (tuple(map(repr, lo)), tuple(map(repr, hi)))
    ctx.enum("unusual values", [(a, b) for a in itertools.product(ODD, repeat=3) for b in (a, (0.5, 0.5, 0.5), a[::-1], (1e300, -1e300, 0.0))], odd)

    # points on, next to, far from and unlike any place of the box
    def inside(case):
        lo, hi, kind = case
        box = Box3d(np.array(lo), np.array(hi))
        near = [sorted({v for x in (l, h) for v in (x, np.nextafter(x, -np.inf), np.nextafter(x, np.inf))} |
                       {(l + h) / 2, float("-inf"), float("inf"), 1e300}) + [float("nan")] for l, h in zip(lo, hi)]
        for p in itertools.product(*near):
            q = np.array(p) if kind == "array" else Vector3(*p)
            want = all(l < x < h for l, x, h in zip(lo, p, hi))
            if bool(box.point_in_box(q)) != want:
                fail("point_in_box%r is %r in %s" % (p, not want, box))
            ctx.step()
        return case
    ctx.enum("points near and far", [(lo, hi, k) for lo, hi in (
        ((0.0, 0.0, 0.0), (1.0, 1.0, 1.0)), ((-1.5, 2.0, -3.0), (0.1, 1e6, 7.0)), ((1e-300, -1e-5, 5.0), (1e300, 1e-5, 5.0)),
        ((-0.1, 1e15, 0.3), (0.1, 1e15 + 2, 0.3 + 1e-12))) for k in ("array", "vector")], inside)

    mk = {}

    def B(lo, hi):
        return Box3d(np.array(lo), np.array(hi))

    def pair(case):
        i = case[0]
        la, ha = boxes[i]
        a = B(la, ha)
        for lb, hb in boxes:
            b = B(lb, hb)
            same = (la, ha) == (lb, hb)
            if bool(a == b) != same or bool(a != b) == same or bool(a.almost_equal(b)) != same:
                fail("equality of %s and %s" % (a, b))
            m = Box3d.merge([a, b])
            lo, hi = list(map(min, la, lb)), list(map(max, ha, hb))
            box_is(m, lo, hi, "merged box")
            for tol in (0.0, 0.99, 1.0, 1.5, 3.0):
                want = all(abs(x - y) <= tol for x, y in zip(la + ha, lb + hb))
                if bool(a.almost_equal(b, rtol=0, atol=tol)) != want:
                    fail("almost_equal(atol=%r) of %s and %s is %r" % (tol, a, b, not want))
            m.min_corner[...] = 5
            box_is(a, la, ha, "first box after merging")
            box_is(b, lb, hb, "second box after merging")
            ctx.step(9)
        return case
    ctx.enum("all pairs of boxes", [(i,) for i in range(len(boxes))], pair)

    # boxes that differ in one number only, by however little
    def near(case):
        base, k, side, d = case
        lo, hi = np.array(base[:3]), np.array(base[3:])
        a = Box3d(lo, hi)
        lo2, hi2 = lo.copy(), hi.copy()
        x = (lo2, hi2)[side]
        x[k] = np.nextafter(x[k], -9e9 if side == 0 else 9e9) if d == 0 else x[k] + (-d if side == 0 else d)
        other = (lo[k], hi[k])[side] != x[k]
        b = Box3d(lo2, hi2)
        for p, q in ((a, b), (b, a)):
            if bool(p == q) == other or bool(p != q) != other:
                fail("equality of boxes that differ by %r: %s and %s" % (d, lo.tolist() + hi.tolist(), lo2.tolist() + hi2.tolist()))
            for atol in (0.0, 1e-12, 1e-7, 1e-4, 0.01):
                gap = abs((lo, hi)[side][k] - x[k])
                if abs(gap - atol) < 1e-3 * atol:
                    continue
                if bool(p.almost_equal(q, rtol=0, atol=atol)) != (gap <= atol):
                    fail("almost_equal(atol=%r) of boxes that differ by %r" % (atol, gap))
            if bool(p.almost_equal(q)) != (d < 1e-4):        # the default tolerance
                fail("almost_equal of boxes that differ by %r" % d)
        box_is(Box3d.merge([a, b]), lo2, hi2, "merge of nearly equal boxes")
        ctx.step(12)
        return case
    ctx.enum("nearly equal boxes", itertools.product(
        ((0.0, 0.0, 0.0, 1.0, 1.0, 1.0), (1.0, -1.0, 0.5, 1.0, 2.0, 0.5), (1e-3, 0.1, -1e-9, 1.1, 0.3, 1e-9)), range(3), (0, 1),
        (0, 1e-15, 1e-13, 1e-11, 1e-9, 1e-3, 1.0)), near)

    sp = [(0.0, 0.0), (0.0, 1.0), (1.0, 1.0)]
    small = [tuple(zip(*c)) for c in itertools.product(sp, repeat=3)]

    def lists(case):
        bs = [small[i] for i in case]
        objs = [B(*x) for x in bs]
        m = Box3d.merge(objs)
        if bs:
            box_is(m, [min(x) for x in zip(*[b[0] for b in bs])], [max(x) for x in zip(*[b[1] for b in bs])], "merge of %r" % (bs,))
        else:
            box_is(m, (0, 0, 0), (0, 0, 0), "merge of no boxes")
        for o, x in zip(objs, bs):
            box_is(o, x[0], x[1], "box after merging")
        eq(len(objs), len(bs), "the list of boxes")
        ctx.step()
        return tuple(map(float, m.min_corner)) + tuple(map(float, m.max_corner))
    ctx.enum("merging lists", itertools.chain.from_iterable(itertools.product(range(27), repeat=n) for n in (0, 1, 2, 3)), lists)
    if ctx.thorough:
        sel = [0, 1, 3, 9, 13, 26, 12]
        ctx.enum("merging longer lists", itertools.chain.from_iterable(itertools.product(sel, repeat=n) for n in (4, 5, 6)), lists)

    cb = ComputeBbox()

    def check_points(pts, arr, what):
        keep = arr.copy()
        b = cb.from_point_cloud(arr)
        if pts:
            box_is(b, [min(c) for c in zip(*pts)], [max(c) for c in zip(*pts)], what)
        else:
            box_is(b, (0, 0, 0), (0, 0, 0), what)
        if (arr != keep).any():
            fail("the points were changed")
        arr2 = np.array(arr)
        b2 = cb.from_point_cloud(arr2)
        lo = [float(x) for x in b2.min_corner]
        arr2[...] = 7
        eq([float(x) for x in b2.min_corner], lo, "bounds after the points changed")
        ctx.step(2)
        return b

    def points(case):
        pts = [tuple(p) for p in case]
        a = np.array(pts, dtype=np.float64).reshape(-1, 3)
        for dt in (np.float64, np.float32, np.int64):
            x = a.astype(dt).T
            b = check_points(pts, x, "bounds of %s points" % dt.__name__)
            check_points(pts, np.ascontiguousarray(x), "bounds of contiguous points")
        big = np.full((3, 2 * len(pts)), 50.0)
        big[:, ::2] = a.T
        check_points(pts, big[:, ::2], "bounds of strided points")
        return tuple(map(float, b.min_corner)) + tuple(map(float, b.max_corner))
    l2 = list(itertools.product((-1.0, 0.0, 3.0), repeat=3))
    ctx.enum("bounds of points", itertools.chain.from_iterable(itertools.product(l2, repeat=n) for n in ((0, 1, 2, 3) if ctx.thorough else (0, 1, 2))), points)
    l3 = list(itertools.product((1.0, 2.0), repeat=3))
    ctx.enum("bounds of points away from 0", itertools.chain.from_iterable(
        itertools.product(l, repeat=n) for l in (l3, [tuple(-c for c in p) for p in l3]) for n in (3, 4)), points)

    # meshes: every set of vertices of a list of meshes, referenced or not
    def mesh_of(pts, tex):
        v = np.array(pts, dtype=F32).reshape(-1, 3).T
        n = len(pts)
        nn = np.zeros((3, n), dtype=F32)
        ix = np.array([0, n - 1, 0] if n >= 3 else [], dtype=np.uint32)          # the others belong to no triangle
        v = np.ascontiguousarray(v)
        if tex:
            return TexturedMesh(ix, v, nn, np.zeros((2, n), dtype=F32), np.full((1, 1, 3), 9, dtype=np.uint8))
        return Mesh(ix, v, nn)

    l4 = [(1.0, 1.0, 2.0), (-1.0, 5.0, 2.0), (3.0, -2.0, -4.0), (0.5, 0.5, 0.5)]
    sets = [s for n in range(5) for s in itertools.combinations(range(4), n)]

    def meshes(case):
        lst, tex = case
        ps = [[l4[i] for i in s] for s in lst]
        ms = [mesh_of(p, t) for p, t in zip(ps, tex)]
        states = [S.mesh_state(m) for m in ms]
        allp = [p for x in ps for p in x]
        lo, hi = ([min(c) for c in zip(*allp)], [max(c) for c in zip(*allp)]) if allp else ((0, 0, 0), (0, 0, 0))
        box_is(cb.from_meshes(ms), lo, hi, "bounds of meshes")
        for m, p in zip(ms, ps):
            box_is(cb.from_mesh(m), *(([min(c) for c in zip(*p)], [max(c) for c in zip(*p)]) if p else ((0, 0, 0), (0, 0, 0))),
                   what="bounds of a mesh")
        if states != [S.mesh_state(m) for m in ms]:
            fail("computing bounds changed a mesh")
        if all(len(p) >= 3 for p in ps):
            g = GltfModel()
            for m, t in zip(ms, tex):
                (g.add_textured_primitive_mesh if t else g.add_primitive_mesh)(m)
            st = S.model_state(g)
            box_is(cb.from_gltf_object(g), lo, hi, "bounds of a model")
            eq(S.model_state(g), st, "the model")
        ctx.step(2 + len(ms))
        return tuple(lo) + tuple(hi)
    ctx.enum("bounds of meshes and models", [(l, t) for n in ((0, 1, 2, 3) if ctx.thorough else (0, 1, 2)) for l in itertools.product(sets, repeat=n)
                                            for t in itertools.product((0, 1), repeat=n)], meshes)

    def colors(case):
        lo, hi, c, out = case
        b = B(lo, hi)
        m = b.to_textured_mesh(out, np.array(c, dtype=np.uint8).reshape(3, 1)) if c else b.to_textured_mesh(out)
        mesh_checks(b, lo, hi, m, out)
        t = np.asarray(m.base_color())
        if t.ndim != 3 or t.shape[2] != 3 or not t.size or (t.reshape(-1, 3) != np.array(c or (255, 255, 255))).any():
            fail("base color of the box mesh is %r" % (t,))
        eq(np.asarray(m.uv_coords()).shape, (2, 24), "texture coordinates")
        ctx.step()
        return case
    ctx.enum("coloured box meshes", [(lo, hi, c, o) for lo, hi in boxes[::5] for o in (True, False)
                                     for c in (None, (1, 2, 3), (0, 255, 7), (255, 0, 0))], colors)

    def default(case):
        a = Box3d()
        box_is(a, (0, 0, 0), (0, 0, 0), "default box")
        a.min_corner[...] = 4
        a.max_corner[...] = 5
        box_is(Box3d(), (0, 0, 0), (0, 0, 0), "default box after an earlier one changed")
        m = Box3d().to_textured_mesh()
        box_is(Box3d.merge([]), (0, 0, 0), (0, 0, 0), "merge of nothing")
        ctx.step(4)
        return 1
    ctx.enum("default boxes", [0], default)
