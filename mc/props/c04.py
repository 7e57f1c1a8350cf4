"""C04: VoxelGrid versus a set of cells."""
import itertools
import os

import numpy as np

from mc.core import fail, raises, eq
from sumo.base.vector import Vector3f, Vector3
from sumo.threedee.voxel_grid import VoxelGrid

CONFIGS = {   # name: (voxel size, min corner or None, constructor kind)
    "unit": (1.0, None),
    "half": (0.5, (-1.0, -2.0, -3.0)),
    "quarter64": (0.25, (0.5, -0.25, 8.0)),
    "two": (2.0, (-4.0, 0.0, 3.0)),
    "tenth": (0.1, (-5.1, 6.2, -7.5)),
}
# batches are lists of cells with a position inside the cell (numerators of 1/8 of a cell)
LO, MID, HI = 0, 4, 7
BATCH = {
    "o": (((0, 0, 0), MID),),
    "x": (((3, 0, 0), MID), ((1, 0, 0), HI)),
    "y": (((0, 3, 0), MID),),
    "z": (((0, 0, 3), HI),),
    "xy": (((2, 1, 1), MID), ((2, 1, 1), HI), ((0, 0, 0), LO)),
    "yx": (((1, 2, 0), LO),),
    "xl": (((9, 1, 0), MID), ((0, 1, 2), MID)),
    "yl": (((1, 9, 1), LO), ((4, 0, 2), MID)),
}
OPS = tuple(BATCH) + ("empty", "bad", "saveload")


def coords(cfg, cells):
    vs, mc = CONFIGS[cfg]
    mc = np.asarray(mc if mc is not None else (0, 0, 0), dtype=np.float64)
    if cfg == "tenth":
        mc = mc.astype(np.float32).astype(np.float64)
    out = []
    for c, f in cells:
        if cfg == "tenth" and f == LO:      # stay off the boundary where it is not exact
            f = 1
        out.append(mc + vs * (np.array(c, dtype=np.float64) + f / 8.0))
    return np.array(out, dtype=np.float64).reshape(-1, 3)


def fresh(cfg, points=None):
    vs, mc = CONFIGS[cfg]
    return VoxelGrid(vs, None if mc is None else Vector3f(*mc), points)


def cells_of(vg, cfg):
    vs, mc = CONFIGS[cfg]
    if not abs(vg.voxel_size - vs) <= 1e-12:
        fail("voxel_size is %r, expected %r" % (vg.voxel_size, vs))
    mc = np.asarray(mc if mc is not None else (0, 0, 0), dtype=np.float32)
    if not np.array_equal(np.asarray(vg.min_corner), mc):
        fail("min_corner is %r, expected %r" % (vg.min_corner, mc))
    c = np.asarray(vg.voxel_centers())
    if c.ndim != 2 or c.shape[1] != 3:
        fail("voxel_centers has shape %r" % (c.shape,))
    idx = (c - mc) / vs - 0.5
    r = np.rint(idx)
    if c.size and not np.abs(idx - r).max() <= 1e-3:
        fail("a voxel centre is not in the middle of a cell: %r" % (c[np.abs(idx - r).max(axis=1).argmax()],))
    out = [tuple(int(v) for v in row) for row in r]
    if len(set(out)) != len(out):
        fail("a cell is reported more than once: %r" % (out,))
    return set(out)


def check(vg, cfg, model):
    got = cells_of(vg, cfg)
    if got != model:
        fail("occupied cells differ: missing %r, extra %r" % (sorted(model - got), sorted(got - model)))
    if model:
        vs, mc = CONFIGS[cfg]
        mc = np.asarray(mc if mc is not None else (0, 0, 0), dtype=np.float32).astype(np.float64)
        a = np.array(sorted(model))
        b = vg.bounds()
        for g, w, n in ((b.min_corner, mc + a.min(0) * vs, "min"), (b.max_corner, mc + (a.max(0) + 1) * vs, "max")):
            if not np.abs(np.asarray(g, dtype=np.float64) - w).max() <= 1e-4 * max(1.0, np.abs(w).max()):
                fail("bounds %s corner %r, expected %r" % (n, g, w))


def explore(ctx):
    path = os.path.join(ctx.tmp, "g.h5")

    def step(vg, cfg, model, op):
        ctx.step()
        if op in BATCH:
            pts = coords(cfg, BATCH[op])
            keep = pts.copy()
            vg.add_points(pts)
            if not np.array_equal(keep, pts):
                fail("add_points changed its argument")
            model |= {c for c, _ in BATCH[op]}
        elif op == "empty":
            vg.add_points(np.zeros((0, 3)))
        elif op == "bad":
            pts = coords(cfg, (((0, 0, 0), MID), ((5, 5, 5), MID), ((0, -1, 0), HI)))
            raises(ValueError, vg.add_points, pts)
        elif op == "saveload":
            vg.save(path)
            check(vg, cfg, model)
            vg = VoxelGrid.from_file(path)
            check(vg, cfg, model)
            # loading over a grid with other contents and parameters replaces it
            other = VoxelGrid(3.0, Vector3f(7, 7, 7), np.array([[8.0, 8, 8], [30, 9, 9]]))
            other.load(path)
            check(other, cfg, model)
            os.unlink(path)
        else:
            raise AssertionError(op)
        return vg

    def history(h):
        cfg = h[0]
        vg, model = fresh(cfg), set()
        for op in h[1:]:
            vg = step(vg, cfg, model, op)
        check(vg, cfg, model)
        return (cfg, tuple(sorted(model)), h[1:]), None   # never merged: hidden extents matter
    ctx.bfs("histories", tuple(CONFIGS), OPS, history, 4 if ctx.thorough else 3)
    ctx.bfs("histories-deep", ("half",), OPS, history, 5 if ctx.thorough else 4)

    # every single point of a lattice including all cell boundaries
    def boundary(case):
        cfg, p = case
        vs, mc = CONFIGS[cfg]
        m0 = np.asarray(mc if mc is not None else (0, 0, 0), dtype=np.float64)
        pt = m0 + vs * np.array(p) / 4.0
        cell = tuple(int(v // 4) for v in p)
        ctx.step(2)
        vg = fresh(cfg, np.array([pt]))
        check(vg, cfg, {cell})
        vg2 = fresh(cfg)
        vg2.add_points(np.array([pt, m0]))
        check(vg2, cfg, {cell, (0, 0, 0)})
        vg3 = fresh(cfg, np.array([pt, m0, m0 + vs]).astype(np.float32))
        check(vg3, cfg, {cell, (0, 0, 0), (1, 1, 1)})
        vg4 = fresh(cfg, np.asfortranarray(np.array([pt, m0])))
        check(vg4, cfg, {cell, (0, 0, 0)})
        return (cfg, cell)
    ctx.enum("boundaries", ((c, p) for c in ("unit", "half", "quarter64", "two")
                            for p in itertools.product(range(0, 13), repeat=3)), boundary)

    def rejected(case):
        cfg, p, how = case
        vs, mc = CONFIGS[cfg]
        m0 = np.asarray(mc if mc is not None else (0, 0, 0), dtype=np.float64)
        pts = m0 + vs * (np.array(p) / 4.0)
        good = m0 + vs * np.array([[0.5, 0.5, 0.5], [2.5, 0.5, 1.5]])
        allp = np.vstack([good, pts[None, :]] if how else [pts[None, :], good])
        ctx.step(3)
        raises(ValueError, fresh, cfg, allp)
        vg = fresh(cfg, good)
        raises(ValueError, vg.add_points, allp * 1.0)
        check(vg, cfg, {(0, 0, 0), (2, 0, 1)})
        vg.add_points(m0 + vs * np.array([[1.5, 3.5, 0.5]]))
        check(vg, cfg, {(0, 0, 0), (2, 0, 1), (1, 3, 0)})
        return (cfg, how)
    neg = [p for p in itertools.product((-5, -4, -1, 0, 3, 5), repeat=3) if min(p) < 0]
    ctx.enum("rejected", ((c, p, how) for c in ("unit", "half", "two") for p in neg for how in (0, 1)), rejected)

    def badsize(case):
        raises(ValueError, VoxelGrid, case)
        return case
    ctx.enum("bad_voxel_size", (0, -1, -0.5, 0.0, -1e-9), badsize)

    # grouping and order: all ordered set partitions of five points
    PTS = (((0, 0, 0), MID), ((2, 0, 1), MID), ((0, 4, 0), HI), ((1, 1, 1), LO), ((2, 0, 1), HI))

    def partitions(items):
        if not items:
            yield ()
            return
        n = len(items)
        for r in range(1, n + 1):
            for part in itertools.combinations(items, r):
                rest = tuple(i for i in items if i not in part)
                for tail in partitions(rest):
                    yield (part,) + tail

    def grouping(case):
        cfg, groups = case
        vg, model = fresh(cfg), set()
        for g in groups:
            vg.add_points(coords(cfg, [PTS[i] for i in g]))
            model |= {PTS[i][0] for i in g}
            ctx.step()
            check(vg, cfg, model)
        return (cfg, tuple(sorted(model)), len(groups))
    ctx.enum("grouping", ((c, g) for c in CONFIGS for g in partitions(tuple(range(5)))), grouping)

    # far-apart cells: indices beyond 16 and (linearised) beyond 32 bits
    FAR = ((0, 0, 0), (70000, 0, 3), (2, 50000, 0), (1, 1, 99999), (65535, 65536, 1), (99999, 99999, 2), (255, 256, 257))

    def far(case):
        cfg, groups = case
        vg, model = fresh(cfg), set()
        for g in groups:
            vg.add_points(coords(cfg, [(FAR[i], MID) for i in g]))
            model |= {FAR[i] for i in g}
            ctx.step()
        check(vg, cfg, model)
        vg = step(vg, cfg, model, "saveload")
        check(vg, cfg, model)
        vg.add_points(coords(cfg, [((1, 2, 3), MID)]))
        check(vg, cfg, model | {(1, 2, 3)})
        return (cfg, groups)

    def farcases():
        idx = range(len(FAR))
        for c in ("unit", "half"):
            for a in itertools.chain.from_iterable(itertools.combinations(idx, r) for r in (1, 2)):
                yield (c, (a,))
            for a, b in itertools.permutations(idx, 2):
                yield (c, ((a,), (b,)))
                for d in idx:
                    if d not in (a, b):
                        yield (c, ((a, b), (d,)))
    ctx.enum("far", farcases(), far)

    # cells so far apart that their numbers in a row would need more than 53 or 64 bits
    M = 2 ** 31 - 1
    VERY = ((0, 0, 0), (M, 0, 1), (0, M, 2), (3, 1, M), (M, M, M), (M - 1, M, M - 2), (208063, 208064, 208065), (2097151, 2097152, 2097151), (1, 0, 2000000))

    def very(case):
        cfg, groups = case
        FARV = [VERY[i] for g in groups for i in g]
        vg, model = fresh(cfg), set()
        for g in groups:
            vg.add_points(coords(cfg, [(VERY[i], MID) for i in g]))
            model |= {VERY[i] for i in g}
            ctx.step()
            check(vg, cfg, model)
        vg = step(vg, cfg, model, "saveload")
        vg.add_points(coords(cfg, [((1, 2, 3), MID), (FARV[0], MID)]))
        check(vg, cfg, model | {(1, 2, 3)})
        return (cfg, groups)
    ctx.enum("very far", ((c, g) for c in ("unit", "half", "two") for n in (1, 2, 3) for p in itertools.permutations(range(len(VERY)), n)
                          for g in sorted({(p,), tuple((i,) for i in p), (p[:1], p[1:]) if n > 1 else (p,)})
                          if ctx.thorough or n < 3 or sum(p) % 3 == 0), very)

    # origins in double precision
    ORIGIN = (0.0, 0.1, 0.3, 0.7, -1.1, 1e-3, 1 / 3, -2 / 3, 1e6 + 0.1, -1e8 - 0.3, 1e-9)

    def double(case):
        o, vs, how = case
        o = np.array(o)
        mk = {"array": lambda p=None: VoxelGrid(vs, o.copy(), p), "Vector3": lambda p=None: VoxelGrid(vs, Vector3(*o), p)}[how]
        cells = [(0, 0, 0), (1, 0, 2), (0, 3, 1)]
        mid = o + vs * (np.array(cells) + 0.5)
        ctx.step(3)

        def same(vg, want, what):
            if np.asarray(vg.min_corner, dtype=float).tolist() != o.tolist() or not abs(vg.voxel_size - vs) <= 1e-15:
                fail("%s: origin %r and size %r, given %r and %r" % (what, vg.min_corner, vg.voxel_size, o, vs))
            c = np.asarray(vg.voxel_centers())
            w = o + vs * (np.array(sorted(want)) + 0.5)
            tol = 4e-16 * (np.abs(o).max() + 4 * vs)
            if c.shape != w.shape or not np.abs(c[np.lexsort(np.rint((c - o) / vs - 0.5).T[::-1])] - w).max() <= tol:
                fail("%s: centres %r, expected %r" % (what, c.tolist(), w.tolist()))
            b = vg.bounds()
            a = np.array(sorted(want))
            for g, x in ((b.min_corner, o + vs * a.min(0)), (b.max_corner, o + vs * (a.max(0) + 1))):
                if not np.abs(np.asarray(g) - x).max() <= 2 * tol:
                    fail("%s: bounds %s" % (what, b))
        vg = mk(mid)
        same(vg, set(cells), "centres of cells")
        vg.add_points(o.reshape(1, 3).copy())                  # the origin is in the first cell
        same(vg, set(cells), "the origin itself")
        vg2 = mk()
        vg2.add_points(np.vstack([o, o + [vs / 3, vs / 4, vs * 2.5], mid[1]]))
        w2 = {(0, 0, 0), (0, 0, 2), (1, 0, 2)}
        same(vg2, w2, "grid filled later")
        vg2.save(path)
        vg3 = VoxelGrid.from_file(path)
        same(vg3, w2, "grid from a file")
        vg3.add_points(np.vstack([o, mid[2]]))
        same(vg3, w2 | {cells[2]}, "grid from a file, filled further")
        os.unlink(path)
        return case
    ctx.enum("origins in double precision", itertools.product(
        itertools.product(ORIGIN, repeat=3) if ctx.thorough else [(a, b, a) for a in ORIGIN for b in ORIGIN] + [(a, a, b) for a in ORIGIN for b in ORIGIN if a != b],
        (1.0, 0.5, 0.125, 3.0), ("array", "Vector3")), double)

    # two grids never share state
    def independent(case):
        a, b = case
        g1, g2 = VoxelGrid(), VoxelGrid()
        g1.add_points(coords("unit", BATCH[a]))
        check(g2, "unit", set())
        g2.add_points(coords("unit", BATCH[b]))
        ctx.step(2)
        check(g1, "unit", {c for c, _ in BATCH[a]})
        check(g2, "unit", {c for c, _ in BATCH[b]})
        mcn = g1.min_corner
        check(VoxelGrid(), "unit", set())
        return (a, b)
    ctx.enum("independent", itertools.product(BATCH, repeat=2), independent)
