"""C13: poses and rotations."""
import itertools
import math

import numpy as np

from mc.core import fail, eq
from mc import scenes as S
from sumo.base.vector import Vector3
from sumo.geometry.pose3 import Pose3
from sumo.geometry.quaternion import Quaternion
from sumo.geometry.rot3 import Rot3

CUBE = S.cube_rotations()


def rodrigues(axis, a):
    """Rotation matrix of an axis and an angle, from its definition applied to the basis."""
    k = np.asarray(axis, dtype=float)
    out = np.zeros((3, 3))
    for i in range(3):
        v = np.eye(3)[i]
        out[:, i] = v * math.cos(a) + np.cross(k, v) * math.sin(a) + k * k.dot(v) * (1 - math.cos(a))
    return out


U = 1 / math.sqrt(3)
AXES = ((1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0), (-1.0, 0.0, 0.0), (0.6, 0.0, -0.8), (0.0, 0.8, 0.6), (U, U, U),
        (-U, U, -U))
ANGLES = (0.0, 1e-9, 1e-6, 5e-4, 0.02, 0.1, math.pi / 3, math.pi / 2, 2.0, math.pi - 1e-7, math.pi, -0.7, -math.pi / 2, 3 * math.pi / 2,
          2 * math.pi, 7.0)
GENERIC = [rodrigues(AXES[6], 0.3), rodrigues(AXES[4], 2.9), rodrigues(AXES[5], -1.1), rodrigues(AXES[7], math.pi)]
ROT = CUBE + GENERIC
TR = ((0.0, 0.0, 0.0), (1.0, -2.0, 3.5), (-0.1, 1e-3, 7e4))
PTS = np.array([[0.0, 0, 0], [1, 0, 0], [0.25, -3, 7], [-1e3, 2e-3, 0.1]]).T


def M(r, t):
    m = np.eye(4)
    m[:3, :3] = ROT[r]
    m[:3, 3] = TR[t]
    return m


def P(r, t):
    return Pose3(Rot3(ROT[r].copy()), np.array(TR[t]))


def close(a, b, what, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        fail("%s: shape %r, expected %r" % (what, a.shape, b.shape))
    if not (np.abs(a - b) <= tol * (1 + np.abs(b).max(initial=0))).all():
        fail("%s: got\n%r\nexpected\n%r" % (what, a, b))


def act(m, p):
    return m[:3, :3].dot(p) + (m[:3, 3] if p.ndim == 1 else m[:3, 3:])


def explore(ctx):
    sel = list(itertools.product(range(len(ROT)), range(len(TR))))
    KIND = ("near",)

    def one(case):
        r, t = case
        m, p = M(r, t), P(r, t)
        inv = np.eye(4)
        inv[:3, :3] = m[:3, :3].T
        inv[:3, 3] = -m[:3, :3].T.dot(m[:3, 3])
        close(p.matrix(), m, "matrix", 0)
        close(p.matrix34(), m[:3], "matrix34", 0)
        close(p.rotation().matrix(), m[:3, :3], "rotation", 0)
        close(p.translation(), m[:3, 3], "translation", 0)
        for j in range(3):
            close(p.R(j), m[:3, j], "column", 0)
        i = p.inverse()
        close(i.matrix(), inv, "inverse")
        close((p * i).matrix(), np.eye(4), "pose times inverse")
        close((i * p).matrix(), np.eye(4), "inverse times pose")
        close(i.inverse().matrix(), m, "inverse of inverse")
        close((p * Pose3()).matrix(), m, "pose times identity", 0)
        close((Pose3() * p).matrix(), m, "identity times pose", 0)
        R = p.R
        close(R.inverse().matrix(), m[:3, :3].T, "inverse rotation", 0)
        close((R * R.inverse()).matrix(), np.eye(3), "rotation times inverse")
        for n in range(5):
            for dt in (np.float64, np.float32):
                pts = np.ascontiguousarray(PTS[:, :n]).astype(dt)
                keep = pts.copy()
                tol = 1e-9 if dt == np.float64 else 1e-5
                pd = pts.astype(float)
                w = act(m, pd)
                b = act(inv, pd)
                close(p.transform_all_from(pts), w, "transform_all_from", tol)
                close(p * pts, w, "pose * points", tol)
                close(p.transform_all_to(pts), b, "transform_all_to", tol)
                close(R * pts, m[:3, :3].dot(pd), "rotation * points", tol)
                close(R.rotate(pts), m[:3, :3].dot(pd), "rotate", tol)
                close(R.unrotate(pts), m[:3, :3].T.dot(pd), "unrotate", tol)
                if dt == np.float64:
                    close(p.transform_all_to(p.transform_all_from(pts)), pd, "forth and back", 1e-7)
                    close(p.transform_all_from(p.transform_all_to(pts)), pd, "back and forth", 1e-7)
                f = np.asfortranarray(pts)
                close(p.transform_all_from(f), w, "transform_all_from (other layout)", tol)
                for c in range(n):
                    q = pts[:, c]
                    close(p.transform_from(q), w[:, c], "transform_from", tol)
                    close(p * q, w[:, c], "pose * point", tol)
                    close(p.transform_to(q), b[:, c], "transform_to", tol)
                    close(i.transform_from(q), b[:, c], "inverse applied to a point", tol)
                    close(R * q, m[:3, :3].dot(q.astype(float)), "rotation * point", tol)
                if not (pts == keep).all():
                    fail("the points were changed")
                ctx.step(12)
        # codecs
        x = Pose3.from_xml(p.to_xml())
        close(x.matrix(), m, "xml", 0)
        j = Pose3.from_json(p.to_json())
        close(j.matrix(), m, "json", 0)
        s = p.to_surreal()
        close(Pose3.from_surreal(s).matrix(), m, "surreal")
        q = Quaternion(ROT[r].copy())
        v = q.as_vector()
        close(np.linalg.norm(v), 1.0, "norm of quaternion")
        close(s["QuaternionXYZW"], [v[1], v[2], v[3], v[0]], "component order")
        close(s["Translation"], TR[t], "translation", 0)
        close(q.to_rotation_matrix(), m[:3, :3], "quaternion to matrix")
        close(Quaternion(v).to_rotation_matrix(), m[:3, :3], "vector to matrix")
        close(Quaternion(-2.5 * v).to_rotation_matrix(), m[:3, :3], "unnormalized quaternion")
        w_, x_, y_, z_ = v
        ref = np.array([[1 - 2 * (y_ * y_ + z_ * z_), 2 * (x_ * y_ - w_ * z_), 2 * (x_ * z_ + w_ * y_)],
                        [2 * (x_ * y_ + w_ * z_), 1 - 2 * (x_ * x_ + z_ * z_), 2 * (y_ * z_ - w_ * x_)],
                        [2 * (x_ * z_ - w_ * y_), 2 * (y_ * z_ + w_ * x_), 1 - 2 * (x_ * x_ + y_ * y_)]])
        close(ref, m[:3, :3], "quaternion by its definition")
        close(Quaternion(np.asfortranarray(ROT[r])).as_vector(), v, "column-major matrix", 0)
        close(Quaternion(ROT[r].T.copy().T).as_vector(), v, "transposed view", 0)
        close(Pose3.FromMatrix34(m[:3]).matrix(), m, "FromMatrix34", 0)
        close(Rot3.FromColumns(*m[:3, :3].T).matrix(), m[:3, :3], "FromColumns", 0)
        close(Rot3.FromScalars(*m[:3, :3].ravel()).matrix(), m[:3, :3], "FromScalars", 0)
        close(Rot3.from_xml(R.to_xml()).matrix(), m[:3, :3], "rotation xml", 0)
        close(Rot3.from_json(R.to_json()).matrix(), m[:3, :3], "rotation json", 0)
        close(Pose3(ROT[r].copy(), np.array(TR[t])).matrix(), m, "pose from a plain matrix", 0)
        close(p.matrix(), m, "the pose after all operations", 0)
        ctx.step(20)
        return case
    ctx.enum("single", sel, one)

    def pair(case):
        (r1, t1), (r2, t2) = case
        a, b, ma, mb = P(r1, t1), P(r2, t2), M(r1, t1), M(r2, t2)
        mab = ma.dot(mb)
        c = a.compose(b)
        if type(c) is not Pose3 or type(c.R) is not Rot3:
            fail("compose returned %r" % c)
        close(c.matrix(), mab, "composition")
        close((a * b).matrix(), mab, "product")
        close((a.R * b.R).matrix(), mab[:3, :3], "product of rotations")
        close(c * PTS, a * (b * PTS), "composition acts as one after the other", 1e-8)
        close(c.transform_all_to(PTS), b.transform_all_to(a.transform_all_to(PTS)), "composition backwards", 1e-8)
        close(c.transform_to(PTS[:, 2]), b.transform_to(a.transform_to(PTS[:, 2])), "composition backwards, a point", 1e-8)
        close(c.inverse().matrix(), (b.inverse() * a.inverse()).matrix(), "inverse of composition", 1e-8)
        same = np.allclose(ma[:3], mb[:3])
        eq(bool(a.almost_equal(b)), same, "almost_equal")
        eq(bool(b.almost_equal(a)) or not same, True, "almost_equal symmetric")
        eq(bool(a.R.almost_equal(b.R)), bool(np.allclose(ma[:3, :3], mb[:3, :3])), "almost_equal of rotations")
        for x, y, s in ((a, b, (ma[:3] == mb[:3]).all()), (a.R, b.R, (ma[:3, :3] == mb[:3, :3]).all())):
            try:
                x.assert_equal(y)
                ok = True
            except AssertionError:
                ok = False
            eq(ok, bool(s), "assert_equal")
        close(a.matrix(), ma, "left operand", 0)
        close(b.matrix(), mb, "right operand", 0)
        ctx.step(14)
        return case
    ctx.enum("pairs", itertools.product(sel, sel), pair)

    small = [(r, r % 3) for r in range(len(ROT))]

    def triple(case):
        a, b, c = (P(*x) for x in case)
        want = M(*case[0]).dot(M(*case[1])).dot(M(*case[2]))
        close(((a * b) * c).matrix(), want, "(ab)c", 1e-8)
        close((a * (b * c)).matrix(), want, "a(bc)", 1e-8)
        ctx.step(4)
        return case
    ctx.enum("triples", itertools.product(small if not ctx.thorough else sel, repeat=3), triple)

    def axisangle(case):
        ax, an = case
        want = rodrigues(AXES[ax], ANGLES[an])
        d = np.array(AXES[ax])
        keep = d.copy()
        R = Rot3.AxisAngle(d, ANGLES[an])
        close(R.matrix(), want, "AxisAngle")
        eq(d.tolist(), keep.tolist(), "axis after the call")
        close(Rot3.AxisAngle(-d, -ANGLES[an]).matrix(), want, "opposite axis and angle")
        if ax < 3:
            close((Rot3.Rx, Rot3.Ry, Rot3.Rz)[ax](ANGLES[an]).matrix(), want, "Rx, Ry, Rz")
        close(np.linalg.det(R.matrix()), 1.0, "determinant")
        close((R * R.inverse()).matrix(), np.eye(3), "orthonormal")
        q = Quaternion(R.matrix())
        close(q.to_rotation_matrix(), want, "through a quaternion")
        h = ANGLES[an] / 2
        qv = np.concatenate([[math.cos(h)], math.sin(h) * d])
        close(Quaternion(qv).to_rotation_matrix(), want, "from the definition of the quaternion")
        close(Quaternion(qv).as_vector(), qv, "quaternion components", 0)
        ctx.step(7)
        return case
    ctx.enum("axis-angle", itertools.product(range(len(AXES)), range(len(ANGLES))), axisangle)

    # axes whose length is not quite 1
    def axiskept(case):
        k, e, ulps, an, what = case
        d = np.array(AXES[k], dtype=np.float64)
        for _ in range(abs(ulps)):
            d[e] = np.nextafter(d[e], math.copysign(math.inf, ulps))
        keep = d.copy()
        R = {"AxisAngle": lambda: Rot3.AxisAngle(d, ANGLES[an]),
             "twice": lambda: (Rot3.AxisAngle(d, ANGLES[an]), Rot3.AxisAngle(d, ANGLES[an]))[1]}[what]()
        if d.tobytes() != keep.tobytes():
            fail("the axis %r was changed to %r" % (keep, d))
        if not np.abs(R.matrix() - rodrigues(AXES[k], ANGLES[an])).max() <= 1e-9:
            fail("rotation about an axis that is off by %d ulps" % ulps)
        ctx.step()
        return case
    ctx.enum("axes of nearly unit length", itertools.product(range(len(AXES)), range(3), (-300, -8, -2, -1, 0, 1, 2, 3, 8, 300),
                                                             range(len(ANGLES)), ("AxisAngle", "twice")), axiskept)

    AN = (0.0, 0.25, -0.5, math.pi / 2, 2.5)
    ENU0 = np.array([[1.0, 0, 0], [0, 0, 1], [0, -1, 0]])        # right=east, down=-up, depth=north
    MAYA0 = np.array([[1.0, 0, 0], [0, -1, 0], [0, 0, -1]])

    def camera(case):
        roll, pitch, yaw = (AN[i] for i in case)
        want = rodrigues(AXES[1], yaw).dot(rodrigues(AXES[0], pitch)).dot(rodrigues(AXES[2], roll))
        pos = np.array([1.0, -2, 3])
        for base, rot, pose in ((ENU0, Rot3.ENU_camera, Pose3.ENU_camera), (MAYA0, Rot3.Maya_camera, Pose3.Maya_camera)):
            w = base.dot(want)
            close(rot(roll, pitch, yaw).matrix(), w, "camera rotation")
            close(rot(roll=roll, pitch=pitch, yaw=yaw).matrix(), w, "camera rotation by name")
            g = pose(roll, pitch, yaw, pos)
            close(g.R.matrix(), w, "camera pose", 1e-6)
            close(g.t, pos, "camera position", 0)
            g = pose(roll, pitch, yaw)
            close(g.t, np.zeros(3), "default camera position", 0)
            g.t += 1.0
            g.R.matrix()[0, 0] += 5
            close(pose(roll, pitch, yaw).matrix34(), np.hstack([w, np.zeros((3, 1))]), "camera pose made later", 1e-6)
            close(pose().R.matrix(), base, "default camera", 0)
        ctx.step(12)
        return case
    ctx.enum("cameras", itertools.product(range(len(AN)), repeat=3), camera)

    # histories: values made earlier are never changed by what is done later
    OPS = ("pose()", "pose(R)", "pose(t)", "rot()", "quat()", "compose", "inverse", "apply", "xml", "json", "surreal",
           "from34", "poke-t", "poke-R", "poke-rot", "FromScalars", "Rz", "set-t", "set-R", "set-rot", "inverse-rot")

    def history(h):
        pool = [(P(5, 1), M(5, 1)), (P(25, 2), M(25, 2))]      # (real, reference)
        fresh = None                                           # index of a value that may be changed in place
        rots = []                                              # (real rotation, reference)
        for op in h[1:]:
            n = len(pool)
            a, ma = pool[-1]
            b, mb = pool[-2]
            if op == "pose()":
                pool.append((Pose3(), np.eye(4)))
                fresh = n
            elif op == "pose(R)":
                m = np.eye(4)
                m[:3, :3] = ROT[7]
                pool.append((Pose3(R=Rot3(ROT[7].copy())), m))
                fresh = n
            elif op == "pose(t)":
                m = np.eye(4)
                m[:3, 3] = TR[1]
                pool.append((Pose3(t=Vector3(*TR[1])), m))
                fresh = n
            elif op == "rot()":
                rots.append((Rot3(), np.eye(3)))
            elif op == "quat()":
                close(Quaternion().as_vector(), [1, 0, 0, 0], "default quaternion", 0)
                rots.append((Rot3(Quaternion().to_rotation_matrix()), np.eye(3)))
            elif op == "compose":
                pool.append((a * b, ma.dot(mb)))
            elif op == "inverse":
                m = np.eye(4)
                m[:3, :3] = ma[:3, :3].T
                m[:3, 3] = -ma[:3, :3].T.dot(ma[:3, 3])
                # an inverse may share the array of its operand: work on a copy of it
                pool.append((Pose3(Rot3(a.inverse().R.matrix().copy()), a.inverse().t), m))
            elif op == "apply":
                close(a * PTS, act(ma, PTS), "apply", 1e-8)
                a.transform_all_to(PTS), a.matrix()[0, 0], a.matrix34()
                a.matrix()[:] = 9
                a.matrix34()[:] = 9
            elif op == "xml":
                pool.append((Pose3.from_xml(a.to_xml()), ma.copy()))
                fresh = n
            elif op == "json":
                d = a.to_json()
                pool.append((Pose3.from_json(d), ma.copy()))
                d["Translation"][0] = 77.0
                d["Rotation"]["X"][0] = 77.0
                fresh = n
            elif op == "surreal":
                d = a.to_surreal()
                pool.append((Pose3.from_surreal(d), ma.copy()))
                d["Translation"][0] = 77.0
                fresh = n
            elif op == "from34":
                pool.append((Pose3.FromMatrix34(a.matrix34()), ma.copy()))
                fresh = n
            elif op == "poke-t" and fresh is not None:
                pool[fresh][0].t += 1.0
                pool[fresh][1][:3, 3] += 1.0
            elif op == "poke-R" and fresh is not None:
                pool[fresh][0].rotation().matrix()[:, :2] *= -1
                pool[fresh][1][:3, :2] *= -1
            elif op == "poke-rot" and rots:
                rots[-1][0].matrix()[1, 2] += 4.0
                rots[-1] = (rots[-1][0], rots[-1][1].copy())
                rots[-1][1][1, 2] += 4.0
            elif op == "set-t" and fresh is not None:
                pool[fresh][0].t = Vector3(*TR[2])
                pool[fresh][1][:3, 3] = TR[2]
            elif op == "set-R" and fresh is not None:
                pool[fresh][0].R = Rot3(ROT[11].copy())
                pool[fresh][1][:3, :3] = ROT[11]
            elif op == "set-rot" and rots:
                rots[-1][0].R = ROT[9].copy()
                rots[-1] = (rots[-1][0], ROT[9].copy())
            elif op == "inverse-rot" and rots and np.allclose(rots[-1][1].dot(rots[-1][1].T), np.eye(3)):
                # an inverse may share the array of its operand: replace its array, then change that
                q = rots[-1][0].inverse()
                q.R = q.matrix().copy()
                rots.append((q, rots[-1][1].T.copy()))
            elif op == "FromScalars":
                rots.append((Rot3.FromScalars(*range(9)), np.arange(9.0).reshape(3, 3)))
            elif op == "Rz":
                rots.append((Rot3.Rz(0.0), np.eye(3)))
            ctx.step()
            for i, (p, m) in enumerate(pool):
                close(p.matrix(), m, "pose %d after %r" % (i, h[1:]), 1e-8)
                if np.allclose(m[:3, :3].dot(m[:3, :3].T), np.eye(3)):
                    close((p.inverse() * p).matrix(), np.eye(4), "pose %d and its inverse after %r" % (i, h[1:]), 1e-7)
            for i, (p, m) in enumerate(rots):
                close(p.matrix(), m, "rotation %d after %r" % (i, h[1:]), 1e-8)
                if np.allclose(m.dot(m.T), np.eye(3)):
                    close(p.inverse().matrix(), m.T, "inverse of rotation %d after %r" % (i, h[1:]), 1e-8)
            close(Pose3().matrix(), np.eye(4), "a new default pose", 0)
            close(Rot3().matrix(), np.eye(3), "a new default rotation", 0)
            close(Quaternion().as_vector(), [1, 0, 0, 0], "a new default quaternion", 0)
        return h, None
    ctx.bfs("histories", ("-",), OPS, history, 3 if not ctx.thorough else 4, split=1)
