"""C17: rotation error under symmetry, and the rotation conversions, against independent formulas."""
import itertools
import math

import numpy as np

from mc.core import fail
from mc import evalref as R
from mc import scenes as S
from mc.props.c15 import settings
from sumo.geometry.pose3 import Pose3
from sumo.geometry.rot3 import Rot3
from sumo.semantic.object_symmetry import ObjectSymmetry, SymmetryType
from sumo.semantic.project_object import ProjectObject
import sumo.metrics.utils as U

NAMES = ("none", "twoFold", "fourFold", "cylindrical", "spherical")
SYMS = [s for s in itertools.product(NAMES, repeat=3) if ObjectSymmetry.is_valid(*(SymmetryType[n] for n in s))]
CUBE = S.cube_rotations()
TOL = 1e-6


def rodrigues(axis, t):
    a = np.array(axis, dtype=float)
    a /= np.linalg.norm(a)
    K = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
    return np.eye(3) + math.sin(t) * K + (1 - math.cos(t)) * (K @ K)


AXES = ((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, 2, 3), (-3, 1, 2), (0.01, 1, -0.02))
ANGLES = (1e-8, 1e-3, 0.3, math.pi / 4, math.pi / 2 - 1e-4, 2.0, math.pi - 1e-2, math.pi - 1e-5, math.pi)
GEN = [rodrigues(a, t) for a in AXES for t in ANGLES]


def explore(ctx):
    def error(Rd, Rg, sym, sw=False):
        """Rotation error as reported for a scene with one object and a perfect match."""
        ctx.step()
        d, g = np.array(Rd), np.array(Rg)
        mk = lambda id, M, s: ProjectObject.gen_bounding_box_object(
            id=id, bounds=R.cube_of(1), pose=Pose3(Rot3(M), np.zeros(3)), category="chair", symmetry=s, score=0.5)
        det = mk("a", d, ObjectSymmetry(SymmetryType.spherical, SymmetryType.spherical, SymmetryType.spherical)
                 if sw else ObjectSymmetry())
        gt = mk("b", g, ObjectSymmetry(*(SymmetryType[n] for n in sym)))
        ev = R.TableEvaluator(R.scene([det]), R.scene([gt]), settings(np.array([0.5])), {("a", "b"): 1.0})
        e = ev.pose_error()[0]
        if (d != Rd).any() or (g != Rg).any():
            fail("the rotation error changes a rotation")
        if not isinstance(e, (int, float, np.floating)) or not 0 <= e <= math.pi + 1e-9:
            fail("rotation error %r" % (e,))
        return float(e)

    def check(Rd, Rg, sym, sw=False):
        e, x = error(Rd, Rg, sym, sw), R.rotation_error(Rd, Rg, sym)
        if not abs(e - x) <= TOL:
            fail("rotation error %r, expected %r, for symmetry %s, detected rotation %s, object rotation %s" % (
                e, x, sym, np.round(Rd, 4).tolist(), np.round(Rg, 4).tolist()))
        return round(x, 4)

    # the rotations of the cube are closed under every finite symmetry, so all relations occur
    quick = not ctx.thorough
    ctx.enum("cube rotations", ((i, j, k) for k in range(len(SYMS)) for i in range(24) for j in range(24)
                                if not quick or SYMS[k] != ("fourFold",) * 3 or (i + j) % 6 == 0),
             lambda c: (check(CUBE[c[0]], CUBE[c[1]], SYMS[c[2]], (c[0] + c[1]) % 2 == 1), SYMS[c[2]]))

    # equal and equivalent generic orientations, which differ by rounding only
    def equal(case):
        i, r, k, e = case
        g = GEN[i] @ CUBE[r]
        d = (GEN[i] @ CUBE[r] @ CUBE[e] if e else g.copy()) if r % 2 else R.axis_rot(2, 0.7) @ (R.axis_rot(2, -0.7) @ g @ CUBE[e])
        return check(d, g, SYMS[k]), case
    ctx.enum("equivalent generic orientations", (
        (i, r, k, e) for i in range(len(GEN)) for k in range(len(SYMS)) for e in ((0,) if SYMS[k] == ("none",) * 3 else (0, 3, 7, 12, 18))
        for r in (range(24) if ctx.thorough or SYMS[k] == ("none",) * 3 else (0, 5, 15))
        if not quick or (i + e) % 3 == 0 or e == 0 and SYMS[k] != ("fourFold",) * 3), equal)

    # offsets of an equivalent orientation: error is the offset (smaller than half the symmetry step)
    def offset(case):
        k, i, n, r = case
        return check(rodrigues(AXES[3 + n % 4], 0.1) @ CUBE[r] @ GEN[i] if n > 3 else CUBE[r] @ GEN[i],
                     CUBE[(r * 5 + n) % 24], SYMS[k]), case
    ctx.enum("generic offsets", (
        (k, i, n, r) for k in range(len(SYMS)) for i in range(len(GEN))
        for n in (range(8) if ctx.thorough else (0, 5)) for r in (range(24) if ctx.thorough else (0, 7, 13))
        if SYMS[k] != ("fourFold",) * 3 or ctx.thorough or (n == 0 and r == 7)), offset)

    # cylinders: all angles about the axis are equivalent, and tilts are measured between the axes
    def cyl(case):
        k, a, tilt, spin, flip = case
        base = GEN[20]
        axis = a
        T = R.axis_rot((axis + 1) % 3, tilt)
        F = R.axis_rot((axis + 1) % 3, math.pi) if flip else np.eye(3)
        return check(base @ T @ F @ R.axis_rot(axis, spin), base, SYMS[k]), case
    ctx.enum("cylinders", (
        (k, a, t, s, f) for k, sy in enumerate(SYMS) if "cylindrical" in sy for a in (sy.index("cylindrical"),)
        for t in (0.0, 1e-4, 0.25, math.pi / 2, 1.7, 3.0, math.pi)
        for s in (i * math.pi / 8 for i in range(16)) for f in (0, 1)), cyl)

    # mean over objects and thresholds
    def mean(case):
        rots, ges, sims, thresholds = case
        ctx.step()
        dets, gts, table = [], [], {}
        for i, r in enumerate(rots):
            mk = lambda id, M, ev: ProjectObject.gen_bounding_box_object(
                id=id, bounds=R.cube_of(1), pose=Pose3(Rot3(M), np.zeros(3)), category="chair", evaluated=ev)
            dets.append(mk("d%d" % i, GEN[r], True))
            gts.append(mk("g%d" % i, np.eye(3), bool(ges[i])))
            for j in range(len(rots)):
                table["d%d" % i, "g%d" % j] = sims[i] if i == j else 0.0
        ev = R.TableEvaluator(R.scene(dets), R.scene(gts), settings(np.array(thresholds)), table)
        e, _ = ev.pose_error()
        per = []
        for t in thresholds:
            a = [R.angle(GEN[r]) for r, g, s in zip(rots, ges, sims) if g and s >= t]
            if a:
                per.append(sum(a) / len(a))
        x = sum(per) / len(per) if per else math.inf
        if not (e == x or abs(e - x) < TOL):
            fail("mean rotation error %r, expected %r" % (e, x))
        return case
    ctx.enum("means", (
        (r, g, s, t) for n in (0, 1, 2, 3) for r in ((2, 14, 5)[:n], (12, 12, 3)[:n]) for g in itertools.product((0, 1), repeat=n)
        for s in itertools.product((0.3, 0.5, 0.9), repeat=n) for t in ((0.4,), (0.4, 0.6), (0.2, 0.4, 0.6, 0.95))), mean)

    # -- conversions ------------------------------------------------------------------
    def q_matrix(q):
        w, x, y, z = (float(v) for v in q)
        return np.array([[w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)],
                         [2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)],
                         [2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z]])

    def e_matrix(e):
        return R.axis_rot(2, e[0]) @ R.axis_rot(1, e[1]) @ R.axis_rot(0, e[2])

    def near(a, b, what, tol):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if a.shape != b.shape or not np.max(np.abs(a - b)) <= tol:
            fail("%s: got %s, expected %s" % (what, a.tolist(), b.tolist()))

    def rotation(M):
        """All conversions of one rotation matrix."""
        ctx.step(6)
        M0 = M.copy()
        q = U.matrix_to_quat(M)
        q0 = np.array(q)
        if q.shape != (4,) or not abs(np.linalg.norm(q) - 1) < 1e-9:
            fail("quaternion %s of %s" % (q, M.tolist()))
        near(q_matrix(q), M, "rotation of the quaternion of a matrix", 1e-11)
        near(U.quat_to_matrix(q), M, "matrix of the quaternion of a matrix", 1e-11)
        for s in (1, -1):
            e = U.quat_to_euler(s * q)
            if e.shape != (3,) or not abs(e[1]) <= math.pi / 2 + 1e-9:
                fail("Euler angles %s" % (e,))
            near(e_matrix(e), M, "rotation of the Euler angles of a quaternion", TOL)
        e = U.matrix_to_euler(M)
        near(e_matrix(e), M, "rotation of the Euler angles of a matrix", TOL)
        near(U.euler_to_matrix(e), M, "matrix of the Euler angles of a matrix", TOL)
        q2 = U.euler_to_quat(e)
        near(q_matrix(q2), M, "rotation of the quaternion of Euler angles", TOL)
        if (M != M0).any() or (q != q0).any():
            fail("a conversion changes its argument")
        return M.tobytes()

    ctx.enum("conversions of rotations", ((i, j) for i in range(24) for j in range(-1, len(GEN))),
             lambda c: rotation(CUBE[c[0]] + 0.0 if c[1] < 0 else CUBE[c[0]] @ GEN[c[1]]))

    # almost none, a quarter, a third and a half of a turn, about axes of every kind
    DIRS = [d for d in itertools.product((-1, 0, 1), repeat=3) if any(d)] + [(1, 2, 3), (-3, 1, 2), (2, -3, 1), (1, 1e-3, 0), (1e-6, 1, 1e-3), (0, 1e-9, -1), (1, -1e-5, 1)]
    TURN = [s * (b - x) for s in (1, -1) for b in (0.0, math.pi / 2, 2 * math.pi / 3, math.pi) for x in
            [k * 10.0 ** -i for i in range(1, 13) for k in ((1, 3) if ctx.thorough else (1,))] + [0.0]]
    ctx.enum("nearly special turns", itertools.product(range(len(DIRS)), range(len(TURN))), lambda c: rotation(rodrigues(DIRS[c[0]], TURN[c[1]])))

    def euler(case):
        e = np.array(case)
        M = e_matrix(case)
        e0 = e.copy()
        near(U.euler_to_matrix(e), M, "matrix of Euler angles", 1e-9)
        q = U.euler_to_quat(e)
        if not abs(np.linalg.norm(q) - 1) <= 1e-9:
            fail("quaternion %s of Euler angles" % (q,))
        near(q_matrix(q), M, "quaternion of Euler angles", 1e-9)
        near(U.quat_to_matrix(q), M, "matrix of a quaternion", 1e-9)
        if (e != e0).any():
            fail("a conversion changes its argument")
        if abs(case[1]) < 1.5:        # the angles are unique
            for what, r in (("quaternion", U.quat_to_euler(q)), ("matrix", U.matrix_to_euler(M))):
                d = np.array(r) - e
                d[0] -= 2 * math.pi * round(d[0] / (2 * math.pi))
                d[2] -= 2 * math.pi * round(d[2] / (2 * math.pi))
                near(d, np.zeros(3), "Euler angles of the %s of Euler angles %s" % (what, case), TOL)
        return rotation(M)
    g = [i * math.pi / 12 for i in range(-11, 13)]
    gy = [i * math.pi / 12 for i in range(-6, 7)]
    locks = [s * (math.pi / 2 - x) for s in (1, -1) for x in (0.0, 1e-15, 1e-12, 1e-9, 1e-8, 3e-8, 1e-7, 1.4e-7, 2e-7, 1e-6, 1e-5, 1e-4, 1e-3, 0.01)]
    step = 1 if ctx.thorough else 2
    ctx.enum("Euler angles", itertools.chain(itertools.product(g[::step], gy, g[::step]),
                                             itertools.product(g[1::step * 2], locks, g[::step])), euler)

    # quaternions with every pattern of zero, equal and tiny components
    def quat(case):
        q = np.array(case, dtype=float)
        q /= np.linalg.norm(q)
        M = q_matrix(q)
        near(U.quat_to_matrix(q), M, "matrix of a quaternion", 1e-9)
        p = U.matrix_to_quat(M)
        if not min(np.abs(p - q).max(), np.abs(p + q).max()) <= 1e-6:
            fail("quaternion %s became %s" % (q.tolist(), p.tolist()))
        return rotation(M)
    comp = (-1.0, 0.0, 1e-9, 0.5, 1.0) if not ctx.thorough else (-2.0, -1.0, -1e-5, 0.0, 1e-9, 1e-4, 0.5, 1.0, 1.0000001)
    ctx.enum("quaternions", (c for c in itertools.product(comp, repeat=4) if any(abs(x) > 0.4 for x in c)), quat)
