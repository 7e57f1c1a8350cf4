"""C14: transforming scenes and objects is a group action that only touches poses."""
import itertools
import os
import shutil

import numpy as np

from mc.core import fail, eq
from mc import scenes as S
from sumo.geometry.pose3 import Pose3
from sumo.geometry.rot3 import Rot3
from sumo.base.vector import Vector3
from sumo.semantic.project_object import ProjectObject
from sumo.semantic.project_object_dict import ProjectObjectDict
from sumo.semantic.project_scene import ProjectScene

POSES = ("id", "t", "rz", "rx", "gen2")
SETTINGS = {"default": None, "custom": {"version": "9.9", "categories_id": "cid", "categories_url": "u"},
            "extra": {"version": "1", "categories_id": "", "categories_url": "x", "note": "y"}}
DEFAULT = (("categories_id", "fb_categories_v1_0"),
           ("categories_url", "https://sumochallenge.org/en/categories-1_0.json"), ("version", "2.0"))
POINTS = np.array([[0.0, 1, -2, 0.5], [0, 0, 3, -0.25], [0, -1, 1, 7]])


_A = 2e-7
TINY = {      # motions too small to show in a rough comparison of poses
    "tiny-t": (np.eye(3), (1e-7, 0.0, -1e-6)),
    "tiny-r": (np.array([[np.cos(_A), -np.sin(_A), 0], [np.sin(_A), np.cos(_A), 0], [0, 0, 1]]), (0.0, 0.0, 0.0)),
}


def pose_named(name):
    if name in TINY:
        R, t = TINY[name]
        return Pose3(Rot3(np.array(R)), np.array(t, dtype=np.float64))
    return S.make_pose(name)


def H(name):
    R, t = TINY[name] if name in TINY else S.POSES[name]
    m = np.eye(4)
    m[:3, :3] = R
    m[:3, 3] = t
    return m


def Hinv(m):
    r = np.eye(4)
    r[:3, :3] = m[:3, :3].T
    r[:3, 3] = -m[:3, :3].T.dot(m[:3, 3])
    return r


def close(a, b, scale=1.0):
    return np.abs(np.asarray(a) - np.asarray(b)).max() <= 1e-9 * max(1.0, scale)


def specs(typ, n):
    sh = {"bounding_box": ("odd", "unit"), "voxels": ("line", "one"), "meshes": ("mixed", "tex")}[typ]
    return ((typ, "1", "chair", "rz", "box", 0.75, False, sh[0]),
            (typ, "b-2", "\u00e9t\u00e9", "gen2", "none", -1, True, sh[1]))[:n]


def make(typ, n, st):
    return S.make_scene(typ, specs(typ, n), SETTINGS[st])


def act(pose):      # an operation name -> the pose given to the code and its reference matrix
    if pose.endswith("^-1"):
        return pose_named(pose[:-3]).inverse(), Hinv(H(pose[:-3]))
    return pose_named(pose), H(pose)


OPS = POSES + tuple(TINY) + tuple(p + "^-1" for p in ("rz", "gen2"))


def explore(ctx):
    def check_moved(sc, base, base_poses, M, what):
        """sc is base (state without poses) with every pose premultiplied by M."""
        S.same(S.scene_state(sc, pose=False), base, what)
        if type(sc) is not ProjectScene or type(sc.elements) is not ProjectObjectDict:
            fail("%s: not an ordinary scene (%s, %s)" % (what, type(sc), type(sc.elements)))
        for k, o in sc.elements.items():
            want = M.dot(base_poses[k])
            scale = np.abs(want).max() * max(1.0, np.abs(M).max())
            if not isinstance(o.pose, Pose3) or not isinstance(o.pose.R, Rot3):
                fail("%s: pose of %s is a %s" % (what, k, type(o.pose)))
            if not close(o.pose.matrix(), want, scale):
                fail("%s: pose of %s is\n%r\nexpected\n%r" % (what, k, o.pose.matrix(), want))
            pts = o.pose.transform_all_from(POINTS)
            exp = M.dot(base_poses[k].dot(np.vstack([POINTS, np.ones(POINTS.shape[1])])))[:3]
            if not close(pts, exp, 100 * scale):
                fail("%s: points of %s" % (what, k))

    def history(h):
        typ, n, st = h[0]
        sc = make(typ, n, st)
        if st == "default":
            eq(tuple(sorted(sc.settings.items())), DEFAULT, "settings of a scene made without settings")
        base = S.scene_state(sc, pose=False)
        bp = {k: o.pose.matrix() for k, o in sc.elements.items()}
        M = np.eye(4)
        cur = sc
        for op in h[1:]:
            ctx.step(2)
            nTo, m = act(op)
            before, nb = S.scene_state(cur), S.pose_state(nTo)
            new = cur.transform_pose(nTo)
            S.same(S.scene_state(cur), before, "the transformed scene's original")
            S.same(S.pose_state(nTo), nb, "the pose given")
            if new is cur or new.elements is cur.elements or new.settings is cur.settings:
                fail("the new scene shares its %s with the original" %
                     ("settings" if new.settings is cur.settings else "objects"))
            for k, o in cur.elements.items():
                one = o.transform_pose(nTo)
                if one is o:
                    fail("ProjectObject.transform_pose returned the object itself")
                S.same(S.object_state(one), S.object_state(new.elements[k]), "object and scene transform")
            M = m.dot(M)
            cur = new
            check_moved(cur, base, bp, M, "after %r" % (h[1:],))
        if len(h) > 1:
            # one transform by the composition
            P = Pose3()
            for op in h[1:]:
                P = act(op)[0].compose(P)
            check_moved(sc.transform_pose(P), base, bp, M, "composition of %r" % (h[1:],))
            # and back
            check_moved(cur.transform_pose(P.inverse()), base, bp, Hinv(M).dot(M), "inverse of %r" % (h[1:],))
        S.same(S.scene_state(sc, pose=False), base, "the first scene")
        for k, o in sc.elements.items():
            if not np.array_equal(o.pose.matrix(), bp[k]):
                fail("the pose of the first scene's object changed")
        return (h[0], h[1:]), None
    roots = [(t, n, st) for t in S.TYPES for n in (0, 1, 2) for st in SETTINGS]
    ctx.bfs("transforms", roots, OPS, history, 4 if ctx.thorough else 2)
    ctx.bfs("transforms-deep", [("bounding_box", 2, "custom")], OPS, history, 5 if ctx.thorough else 3)

    # -- the result is an ordinary scene, independent of the original --------
    CHANGES = ("set-version", "new-setting", "rooms", "clear-settings", "del-object", "add-object", "replace-object",
               "set-pose", "set-category", "save")

    def change(sc, op):
        ctx.step()
        if op == "set-version":
            sc.settings["version"] = "changed"
        elif op == "new-setting":
            sc.settings["more"] = "1"
        elif op == "rooms":
            if "rooms" in sc.settings:
                sc.settings["rooms"].append("bath")
                sc.settings["rooms"][1]["floor"] = "2"
        elif op == "clear-settings":
            sc.settings.clear()
        elif op == "del-object":
            if sc.elements:
                del sc.elements[sorted(sc.elements)[0]]
        elif op == "add-object":
            sc.elements["new"] = S.make_object((sc.project_type, "new", "c", "t", "none", 1.0, True,
                                                sorted(S.SHAPES[sc.project_type])[0]))
        elif op == "replace-object":
            if sc.elements:
                k = sorted(sc.elements)[0]
                sc.elements[k] = S.make_object((sc.project_type, k, "c", "t", "none", 1.0, True,
                                                sorted(S.SHAPES[sc.project_type])[0]))
        elif op == "set-pose":
            for o in sc.elements.values():
                o.pose = S.make_pose("rx")
        elif op == "set-category":
            for o in sc.elements.values():
                o.category = "other"
                o.score = 99
                o.evaluated = not o.evaluated
        elif op == "save":
            d = os.path.join(ctx.tmp, "save")
            shutil.rmtree(d, ignore_errors=True)
            os.mkdir(d)
            before = S.scene_state(sc)
            if not all(k in sc.settings for k in ("version", "categories_id", "categories_url")):
                return
            sc.save(d, "s")
            S.same(S.scene_state(sc), before, "saved scene")
            back = ProjectScene.load(d, "s")
            shutil.rmtree(d)
            want = dict(sc.settings)
            for k in list(want):
                if k not in ("version", "categories_id", "categories_url"):
                    del want[k]
            eq(back.settings, want, "settings after load")
            a, b = S.scene_state(back), S.scene_state(sc)
            S.same((a[0], a[2]), (b[0], b[2]), "scene after save and load")

    def independent(case):
        typ, n, st, first, by, ops = case
        a = make(typ, n, st)
        if st == "extra":
            a.settings["rooms"] = ["kitchen", {"floor": "1"}]
        b = a.transform_pose(pose_named(by))
        other = make(typ, n, "default")                 # a scene that has nothing to do with the two
        objs = [o.transform_pose(pose_named("t" if by == "gen2" else by)) for o in a.elements.values()]
        sa, sb, so, sobj = (S.scene_state(a), S.scene_state(b), S.scene_state(other),
                            [S.object_state(o) for o in objs])
        changed = a if first == "original" else b
        for op in ops:
            change(changed, op)
        kept, was = (b, sb) if changed is a else (a, sa)
        S.same(S.scene_state(kept), was, "the scene that was not changed")
        S.same(S.scene_state(other), so, "a scene unrelated to the changed one")
        S.same([S.object_state(o) for o in objs], sobj, "a transformed object")
        eq(tuple(sorted(ProjectScene(typ).settings.items())), DEFAULT, "settings of a new scene")
        eq(len(ProjectScene(typ).elements), 0, "objects of a new scene")
        return (typ, n, st, first, by, ops)
    depth = 3 if ctx.thorough else 2
    ctx.enum("independence", ((t, n, st, w, by, ops) for t in S.TYPES for n in (0, 1, 2) for st in SETTINGS
                              for w in ("original", "result") for by in ("gen2", "id", "tiny-t")
                              for d in range(1, (depth if by == "gen2" else depth - 1) + 1)
                              for ops in itertools.product(CHANGES, repeat=d)), independent)

    # -- every field of an object stays as it is, whatever its value ----------
    SCORES = (-1, -1.0, 0, 0.0, -0.0, 1e-300, 1e-9, 0.5, 1, 1.0, -2.5, 1e300, True, np.float32(0.25), np.int64(0))
    CATS = ("", "chair", " chair ", "0", "None", "\u00e9t\u00e9", "a" * 300)
    IDS = ("1", "", "0", "None", " 7 ", "\u00e9")

    def fields(case):
        typ, by, pose, sym, ev, what, k = case
        o = S.make_object((typ, IDS[k] if what == "id" else "1", CATS[k] if what == "category" else "chair", pose, sym,
                           SCORES[k] if what == "score" else 0.5, ev, sorted(S.SHAPES[typ])[0]))
        before = S.object_state(o)
        nTo = pose_named(by)
        one = o.transform_pose(nTo)
        sc = ProjectScene(typ, elements=ProjectObjectDict({o.id: o})).transform_pose(nTo)
        ctx.step(2)
        for r, w in ((one, "the object"), (sc.elements[o.id], "the object of the scene")):
            S.same(S.object_state(r, pose=False), S.object_state(o, pose=False), w + " after the transform")
            want = H(by).dot(H(pose))
            if not close(r.pose.matrix(), want, np.abs(want).max()):
                fail("pose of %s is %r, expected %r" % (w, r.pose.matrix(), want))
        S.same(S.object_state(o), before, "the original")
        return case
    NF = {"score": len(SCORES), "category": len(CATS), "id": len(IDS)}
    ctx.enum("fields of objects", ((t, by, "gen2", sy, ev, w, k) for t in S.TYPES for by in POSES + tuple(TINY)
                                   for sy in S.SYM for ev in (False, True) for w in NF for k in range(NF[w])), fields)

    # -- all pairs of the 24 cube rotations with a translation lattice --------
    ROT = S.cube_rotations()
    TR = ((0.0, 0.0, 0.0), (1.0, -2.0, 0.5))

    def rot_pair(case):
        i, j, ti, tj = case
        ctx.step(2)
        A = Pose3(Rot3(ROT[i].copy()), Vector3(*TR[ti]))
        B = Pose3(Rot3(ROT[j].copy()), Vector3(*TR[tj]))
        o = S.make_object(("bounding_box", "1", "c", "t", "none", 1, True, "unit"))
        two = o.transform_pose(A).transform_pose(B)
        m = lambda R, t: np.vstack([np.hstack([R, np.reshape(t, (3, 1))]), [0, 0, 0, 1]])
        want = m(ROT[j], TR[tj]).dot(m(ROT[i], TR[ti])).dot(H("t"))
        if not np.array_equal(two.pose.matrix(), want):
            fail("two transforms give\n%r\nexpected\n%r" % (two.pose.matrix(), want))
        one = o.transform_pose(B.compose(A))
        if not np.array_equal(one.pose.matrix(), want):
            fail("transform by the composition")
        return tuple(np.rint(4 * want).astype(int).ravel().tolist())
    ctx.enum("rotation-pairs", itertools.product(range(24), range(24), range(2), range(2)), rot_pair)
