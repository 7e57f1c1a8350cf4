"""C12: unprojection of cube-map images to point clouds."""
import itertools

import numpy as np

from mc.core import fail, eq, raises
from sumo.images.rgbdci_360 import Rgbdci360

F32 = np.float32


def ray(side, row, col):
    """Ray of the centre of a pixel (not normalised), from the documented layout."""
    face, x = divmod(col, side)
    s, t = (2 * x + 1 - side) / side, (2 * row + 1 - side) / side
    return [(-s, t, -1.0), (-1.0, t, s), (s, t, 1.0), (1.0, t, -s), (s, -1.0, t), (s, 1.0, -t)][face]


def direction_to_pixel(side, d):
    """The inverse, by the dominant axis (each direction belongs to one face)."""
    ax = int(np.argmax(np.abs(d)))
    d = d / abs(d[ax])
    face, s, t = {(2, -1): (0, -d[0], d[1]), (0, -1): (1, d[2], d[1]), (2, 1): (2, d[0], d[1]),
                  (0, 1): (3, -d[2], d[1]), (1, -1): (4, d[0], d[2]), (1, 1): (5, d[0], -d[2])}[ax, int(d[ax])]
    return face * side + int(np.floor((s + 1) / 2 * side)), int(np.floor((t + 1) / 2 * side))


def rgb_image(h, w, k=0):
    n = np.arange(h * w * 3).reshape(h, w, 3)
    return ((n * 37 + n // 256 * 11 + k) % 255 + 1).astype(np.uint8)


def image(rgb, rng):
    z = np.zeros(rng.shape, dtype=np.uint16)
    return Rgbdci360(rgb, rng, z, z)


def expected(rgb, rng, all_points):
    h, w = rng.shape
    pts, cols = [], []
    for r in range(h):
        for c in range(w):
            v = float(rng[r, c])
            if v > 0 and v != np.inf:
                d = np.array(ray(h, r, c))
                pts.append(d * (v / np.sqrt(np.dot(d, d))))
                cols.append(rgb[r, c])
            elif all_points:
                pts.append(np.zeros(3))
                cols.append(np.zeros(3, dtype=np.uint8))
    return np.array(pts).reshape(-1, 3).T, np.array(cols, dtype=np.uint8).reshape(-1, 3).T


def explore(ctx):
    def check(rgb, rng, all_points, img=None, call=True):
        keep = rgb.copy(), rng.copy()
        img = img or image(rgb, rng)
        pc = img.create_point_cloud(all_points) if call else img.create_point_cloud()
        p, c = expected(rgb, rng, all_points)
        gp, gc = np.asarray(pc.points()), np.asarray(pc.colors())
        eq(int(pc.num_points()), p.shape[1], "number of points")
        if p.shape[1]:
            eq(gp.shape, p.shape, "shape of the points")
            eq(bool(pc.colored()), True, "colored")
            tol = 1e-12 * np.maximum(np.linalg.norm(p, axis=0), 1e-300)
            bad = ~(np.linalg.norm(gp - p, axis=0) <= tol)
            if bad.any():
                i = int(np.argmax(bad))
                fail("point %d is %r, expected %r (all_points=%r)" % (i, gp[:, i], p[:, i], all_points))
            bad = (gc != c).any(axis=0)
            if bad.any():
                i = int(np.argmax(bad))
                fail("color of point %d is %r, expected %r" % (i, gc[:, i], c[:, i]))
        if rgb.tobytes() != keep[0].tobytes() or rng.tobytes() != keep[1].tobytes():
            fail("the image was changed")
        ctx.step(max(1, p.shape[1]))
        return gp

    def full(case):
        side, w = case
        rgb = rgb_image(side, w)
        rng = (0.25 + np.arange(side * w) * 0.37).astype(F32).reshape(side, w)
        gp = check(rgb, rng, False)
        check(rgb, rng, True)
        dirs = set()
        for i in range(side * w):
            r, c = divmod(i, w)
            got = direction_to_pixel(side, gp[:, i])
            eq(got, (c, r), "pixel in the direction of point %d" % i)
            n = float(np.linalg.norm(gp[:, i]))
            if not abs(n - float(rng[r, c])) <= 1e-12 * n:
                fail("the point of pixel %r is at distance %r, range %r" % ((r, c), n, rng[r, c]))
            dirs.add(tuple(np.rint(gp[:, i] / n * 1e9).astype(np.int64)))
        eq(len(dirs), side * w, "number of directions")
        return case
    sides = (1, 2, 3, 4, 5, 6, 7, 8) + ((12, 16, 33) if ctx.thorough else (16,))
    def large(case):
        side, w, missing, all_points = case
        rgb = rgb_image(side, w)
        rng = (0.25 + np.arange(side * w) * 0.37).astype(F32).reshape(side, w)
        if missing:
            rng[::missing, ::3] = 0
        face, x = np.divmod(np.arange(w)[None, :].repeat(side, 0), side)
        row = np.arange(side)[:, None].repeat(w, 1)
        s, t, e = (2 * x + 1 - side) / side, (2 * row + 1 - side) / side, np.ones((side, w))
        d = np.choose(face[:, :, None], [np.stack(q, axis=2) for q in (
            (-s, t, -e), (-e, t, s), (s, t, e), (e, t, -s), (s, -e, t), (s, e, -t))])
        d = d / np.linalg.norm(d, axis=2)[:, :, None] * rng[:, :, None]
        col = np.where(rng[:, :, None] > 0, rgb, 0)
        keep = (rng > 0).ravel() | bool(all_points)
        p, c = d.reshape(-1, 3)[keep].T, col.reshape(-1, 3)[keep].T
        pc = image(rgb, rng).create_point_cloud(bool(all_points))
        gp, gc = np.asarray(pc.points()), np.asarray(pc.colors())
        if gp.shape != p.shape or not (np.linalg.norm(gp - p, axis=0) <= 1e-12 * np.linalg.norm(p, axis=0)).all():
            fail("the points of an image of %d x %d are wrong (%r, expected %r)" % (side, w, gp.shape, p.shape))
        if not np.array_equal(gc, c):
            fail("the colors of an image of %d x %d are wrong" % (side, w))
        ctx.step(side * w)
        return case
    ctx.enum("large images", [(s, 6 * s, m, a) for s in (64, 105, 120) + ((257, 512) if ctx.thorough else ())
                              for m in (0, 2, 7) for a in (0, 1)], large)

    ctx.enum("every pixel of every size", [(s, w) for s in sides for w in (range(1, 6 * s + 1) if s < 8 else (s, 6 * s - 1, 6 * s))], full)

    def edges(case):
        """Neighbouring pixels of different faces are no farther apart than those within a face."""
        side, = case
        rgb, rng = rgb_image(side, 6 * side), np.ones((side, 6 * side), dtype=F32)
        p = check(rgb, rng, False).T.reshape(side, 6, side, 3)
        f = [p[:, i] for i in range(6)]           # BACK LEFT FRONT RIGHT UP DOWN, [row, col]
        e = lambda i, s: {"l": f[i][:, 0], "r": f[i][:, -1], "t": f[i][0], "b": f[i][-1]}[s]
        joins = [(0, "r", 1, "l", 1), (1, "r", 2, "l", 1), (2, "r", 3, "l", 1), (3, "r", 0, "l", 1),
                 (4, "b", 2, "t", 1), (4, "t", 0, "t", -1), (4, "l", 1, "t", 1), (4, "r", 3, "t", -1),
                 (5, "t", 2, "b", 1), (5, "b", 0, "b", -1), (5, "l", 1, "b", -1), (5, "r", 3, "b", 1)]
        for a, sa, b, sb, d in joins:
            gap = np.linalg.norm(e(a, sa) - e(b, sb)[::d], axis=1).max()
            if gap > (2.2 / side if side > 1 else 1.5):
                fail("faces %d and %d do not meet: gap %r" % (a, b, gap))
        return case
    ctx.enum("faces meet", [(s,) for s in (1, 2, 3, 8, 16)], edges)

    VALUES = (1.5, 0.0, -1.0, np.inf, np.nan, -np.inf, 1e-38, 3e38, -0.0)

    def subsets(case):
        h, w, ix = case
        rng = np.array([VALUES[i] for i in ix], dtype=F32).reshape(h, w)
        rgb = rgb_image(h, w, 3)
        for ap in (False, True):
            check(rgb, rng, ap)
        return case
    shapes = [(1, 6, 4), (2, 2, 5), (2, 3, 4), (1, 4, 6), (1, 3, 9), (3, 1, 9)] + ([(1, 6, 6), (2, 3, 6), (2, 4, 4)] if ctx.thorough else [])
    ctx.enum("all patterns of valid, missing and odd ranges", [(h, w, ix) for h, w, k in shapes
                                                               for ix in itertools.product(range(k), repeat=h * w)], subsets)

    def single(case):
        side, i, v = case
        rng = np.zeros((side, 6 * side), dtype=F32)
        rng.ravel()[i] = v
        check(rgb_image(side, 6 * side), rng, False)
        check(rgb_image(side, 6 * side), rng, True)
        return case
    ctx.enum("one valid pixel", [(s, i, v) for s in (2, 3, 4) for i in range(6 * s * s) for v in (1e-38, 0.5, 65535.25, 3e38)], single)

    def layouts(case):
        h, w, lr, lg = case
        def lay(a, k):
            if k == "c":
                return a
            if k == "f":
                return np.asfortranarray(a)
            big = np.full((2 * h + 1, 3 * w + 2) + a.shape[2:], 3, dtype=a.dtype)
            if k == "view":
                big[1:1 + h, 1:1 + w] = a
                return big[1:1 + h, 1:1 + w]
            if k == "step":
                big[:2 * h:2, :3 * w:3] = a
                return big[:2 * h:2, :3 * w:3]
            if k == "flip":
                return np.ascontiguousarray(a[::-1, ::-1])[::-1, ::-1]
            b = a.copy()
            b.flags.writeable = False
            return b
        rng = (1.0 + np.arange(h * w)).astype(F32).reshape(h, w)
        rng[0, 0] = 0
        for ap in (False, True):
            check(lay(rgb_image(h, w), lg), lay(rng, lr), ap)
        return case
    L = ("c", "f", "view", "step", "flip", "ro")
    ctx.enum("memory layouts", [(h, w, a, b) for h, w in ((1, 6), (2, 12), (3, 5)) for a in L for b in L], layouts)

    def shapes_bad(case):
        (h1, w1), (h2, w2) = case
        rgb, rng = rgb_image(h1, w1), np.ones((h2, w2), dtype=F32)
        for ap in (False, True):
            img = image(rgb, rng)
            if (h1, w1) != (h2, w2):
                raises(ValueError, img.create_point_cloud, ap)
            elif w1 > 6 * h1 and h1 > 0:
                raises(Exception, img.create_point_cloud, ap)
            elif h1 and w1:
                check(rgb, rng, ap)
        ctx.step(2)
        return case
    dims = [(h, w) for h in (1, 2, 3) for w in (1, 2, 5, 6, 7, 8, 12, 13, 18, 19, 25)]
    ctx.enum("sizes that do not fit", [(a, b) for a in dims for b in dims], shapes_bad)

    def types(case):
        bad, = case
        good = {"rgb": rgb_image(2, 12), "range": np.ones((2, 12), dtype=F32),
                "category": np.zeros((2, 12), dtype=np.uint16), "instance": np.zeros((2, 12), dtype=np.uint16)}
        Rgbdci360(**good)
        for dt in ("uint8", "int8", "uint16", "int16", "int32", "float16", "float32", "float64"):
            for shape in ((), (4,), (2, 12), (2, 12, 1), (2, 12, 3), (2, 12, 4), (1, 2, 12, 3)):
                ok = (dt == "uint8" and len(shape) == 3 and shape[2] == 3 if bad == "rgb" else
                      len(shape) == 2 and dt == ("float32" if bad == "range" else "uint16"))
                if not ok:
                    raises(TypeError, Rgbdci360, **dict(good, **{bad: np.zeros(shape, dtype=dt)}))
                ctx.step()
        return bad
    ctx.enum("component types", [(k,) for k in ("rgb", "range", "category", "instance")], types)

    # several images and clouds at a time, images changed between calls
    OPS = ("cloud0", "all0", "cloud1", "all1", "edit0", "edit1", "default0", "keep0")

    def run(hist):
        ims = []
        for k, (h, w) in enumerate(((1, 6), (2, 5))):
            rgb, rng = rgb_image(h, w, k), (k + 1.0 + np.arange(h * w)).astype(F32).reshape(h, w)
            ims.append((rgb, rng, image(rgb, rng)))
        kept = []
        for j, op in enumerate(hist[1:]):
            rgb, rng, img = ims[int(op[-1])]
            if op[:-1] == "cloud":
                check(rgb, rng, False, img)
            elif op[:-1] == "default":
                check(rgb, rng, False, img, call=False)
            elif op[:-1] == "all":
                check(rgb, rng, True, img)
            elif op[:-1] == "keep":
                pc = img.create_point_cloud(True)
                kept.append((pc, expected(rgb, rng, True)))
            else:
                rgb[0, j] = 200 + j
                rng[0, (j + 1) % 5] = 0.0 if j % 2 else 40.0 + j
            for pc, (p, c) in kept:
                if not np.allclose(pc.points(), p, rtol=1e-12) or (np.asarray(pc.colors()) != c).any():
                    fail("a cloud changed when its image was changed")
        return hist, None
    ctx.bfs("histories of images and clouds", ["start"], OPS, run, 4 if not ctx.thorough else 5)
