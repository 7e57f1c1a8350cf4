S = "sumo-api/sumo/"
BUGS = [
dict(id="c01-score-digits", property="C01",
  edits=[(S + "semantic/project_object.py",
          "score_elem.text = str(self.score)", "score_elem.text = \"{:.9g}\".format(self.score)")],
  needs="a detection score with more than nine significant digits, e.g. 1/3",
  breaks="saved and loaded scenes lose the last digits of detection scores",
  demo='''
from sumo.semantic.project_object import ProjectObject
from sumo.semantic.project_object_dict import ProjectObjectDict
from sumo.semantic.project_scene import ProjectScene
from sumo.threedee.box_3d import Box3d
import numpy as np
scores = [0.25, 1e-7, 1 / 3.0, -1, 123456.789012345]
d = ProjectObjectDict()
for i, s in enumerate(scores):
    d[str(i)] = ProjectObject.gen_bounding_box_object(str(i), bounds=Box3d(np.zeros(3), np.ones(3)), score=s)
ProjectScene("bounding_box", elements=d).save(".", "scene")
back = ProjectScene.load(".", "scene")
for i, s in enumerate(scores):
    assert back.elements[str(i)].score == s, (s, back.elements[str(i)].score)
'''),
dict(id="c02-reuse-folder", property="C02",
  edits=[(S + "semantic/project_scene.py",
          "        os.makedirs(project_dir)\n",
          "        if not os.path.isdir(project_dir) or os.listdir(project_dir):\n            os.makedirs(project_dir)\n")],
  needs="a save to a name for which an empty folder already exists (e.g. left by an earlier save that failed at once)",
  breaks="saving to an existing name succeeds instead of failing without changing anything",
  demo='''
import os
from sumo.semantic.project_scene import ProjectScene
os.mkdir("there")
try:
    ProjectScene("bounding_box").save(".", "there")
except Exception:
    pass
else:
    raise SystemExit("saved over an existing name")
assert os.listdir("there") == []
'''),
dict(id="c03-eq-sorted", property="C03",
  edits=[(S + "semantic/object_symmetry.py",
          """        return (
            self.x_symmetry == other.x_symmetry
            and self.y_symmetry == other.y_symmetry
            and self.z_symmetry == other.z_symmetry
        )
""",
          """        return (
            self.x_symmetry == other.x_symmetry
            and {self.y_symmetry, self.z_symmetry}
            == {other.y_symmetry, other.z_symmetry}
        )
""")],
  needs="two symmetries that differ only by exchanging y and z, or (equal sets) none else",
  breaks="symmetries with y and z exchanged compare equal",
  demo='''
from itertools import product
from sumo.semantic.object_symmetry import ObjectSymmetry, SymmetryType
alls = [t for t in product(SymmetryType, repeat=3) if ObjectSymmetry.is_valid(*t)]
for a in alls:
    for b in alls:
        assert (ObjectSymmetry(*a) == ObjectSymmetry(*b)) == (a == b), (a, b)
        assert (ObjectSymmetry(*a) != ObjectSymmetry(*b)) == (a != b), (a, b)
'''),
dict(id="c03-missing-axis", property="C03",
  edits=[(S + "semantic/object_symmetry.py",
          "        x_symmetry = y_symmetry = z_symmetry = None\n",
          "        x_symmetry = y_symmetry = None\n        z_symmetry = SymmetryType.none\n")],
  needs="a <symmetry> element without a z axis whose x and y form an allowed combination",
  breaks="a symmetry document without a z axis is accepted",
  demo='''
import xml.etree.ElementTree as ET
from sumo.semantic.object_symmetry import ObjectSymmetry
for t in ["none", "twoFold", "fourFold", "cylindrical", "spherical"]:
    for miss in "xyz":
        e = ET.Element("symmetry")
        for i, a in enumerate("xyz"):
            if a != miss:
                ET.SubElement(e, a).text = t if a == "x" else "none"
        try:
            s = ObjectSymmetry.from_xml(e)
        except RuntimeError:
            continue
        raise SystemExit("accepted %s" % s)
'''),
dict(id="c04-int16", property="C04",
  edits=[(S + "threedee/voxel_grid.py",
          ".astype('int32')  # Nx3", ".astype('int16')  # Nx3")],
  needs="a point more than 32767 cells away from the origin of the grid",
  breaks="far cells wrap around (rejected as below the origin or placed in a wrong cell)",
  demo='''
import numpy as np
from sumo.threedee.voxel_grid import VoxelGrid
g = VoxelGrid(0.01)
g.add_points(np.array([[0.005, 0.005, 0.005], [400.005, 700.005, 1.005]]))
c = g.voxel_centers()
assert np.allclose(sorted(map(tuple, c)), [(0.005, 0.005, 0.005), (400.005, 700.005, 1.005)]), c
'''),
dict(id="c04-merge-order", property="C04",
  edits=[(S + "threedee/voxel_grid.py",
"""        old_voxels_1d = _linearize_voxels(self._voxels_3d, self._size_x, self._size_y)
        new_voxels_1d = _linearize_voxels(new_voxels_3d, self._size_x, self._size_y)
        merged_voxels_1d = np.union1d(old_voxels_1d, new_voxels_1d)
""",
"""        new_voxels_1d = _linearize_voxels(new_voxels_3d, self._size_x, self._size_y)
        merged_voxels_1d = np.unique(new_voxels_1d)
        if len(self._voxels_3d) > 1:
            old_voxels_1d = _linearize_voxels(self._voxels_3d, self._size_x, self._size_y)
            merged_voxels_1d = np.union1d(old_voxels_1d, merged_voxels_1d)
""")],
  needs="a second call of add_points on a grid with exactly one occupied cell",
  breaks="the cell of a one-cell grid is lost when more points are added",
  demo='''
import numpy as np
from sumo.threedee.voxel_grid import VoxelGrid
pts = np.array([[0.5, 0.5, 0.5], [3.5, 1.5, 2.5], [0.2, 4.1, 0.3]])
a = VoxelGrid(1); a.add_points(pts)
b = VoxelGrid(1)
for p in pts:
    b.add_points(p[None])
assert sorted(map(tuple, a.voxel_centers())) == sorted(map(tuple, b.voxel_centers()))
'''),
dict(id="c05-stored-bounds", property="C05",
  edits=[(S + "semantic/project_converter.py",
          "                bounds = element.voxels.bounds()\n",
          "                bounds = element.bounds or element.voxels.bounds()\n")],
  needs="a voxel object whose stored bounds differ from the bounds of its voxels (e.g. it was made from a tighter mesh box, or points were added later)",
  breaks="the box of a converted voxel object is the stored one, not the exact bounds of its voxels",
  demo='''
import numpy as np
from sumo.semantic.project_converter import ProjectConverter
from sumo.semantic.project_object import ProjectObject
from sumo.semantic.project_object_dict import ProjectObjectDict
from sumo.semantic.project_scene import ProjectScene
from sumo.threedee.voxel_grid import VoxelGrid
from sumo.threedee.box_3d import Box3d
g = VoxelGrid(0.5, points=np.array([[0.1, 0.1, 0.1], [1.2, 0.3, 2.2]]))
o = ProjectObject.gen_voxels_object("a", bounds=g.bounds(), voxels=g)
g.add_points(np.array([[4.2, 4.2, 4.2]]))
s = ProjectScene("voxels", elements=ProjectObjectDict({"a": o}))
b = ProjectConverter().run(s, "bounding_box").elements["a"].bounds
assert b == g.bounds(), (b.max_corner, g.bounds().max_corner)
'''),
dict(id="c05-shared-pose", property="C05",
  edits=[(S + "semantic/project_converter.py",
"""                voxels=voxels,
                pose=deepcopy(element.pose),
""",
"""                voxels=voxels,
                pose=element.pose,
""")],
  needs="changing the pose of an object in place (pose.t[...] = ...) after converting meshes to voxels",
  breaks="moving an object of one scene also moves its counterpart in the other",
  demo='''
import numpy as np
from sumo.semantic.project_converter import ProjectConverter
from sumo.semantic.project_object import ProjectObject
from sumo.semantic.project_object_dict import ProjectObjectDict
from sumo.semantic.project_scene import ProjectScene
np.random.seed(0)
o = ProjectObject.example()
s = ProjectScene("meshes", elements=ProjectObjectDict({"1": o}))
for target in ["voxels", "bounding_box"]:
    n = ProjectConverter().run(s, target).elements["1"]
    before = np.array(o.pose.t)
    n.pose.t[0] += 7
    n.pose.R.R[0, 0] = 0.5
    assert np.array_equal(o.pose.t, before)
    assert o.pose.R.R[0, 0] == 1
'''),
dict(id="c14-identity", property="C14",
  edits=[(S + "semantic/project_object.py",
"""        return ProjectObject(self.id, self.project_type,
            self.bounds, self.voxels, self.meshes,
            nTo.compose(self.pose),""",
"""        return self if nTo.almost_equal(Pose3()) else ProjectObject(
            self.id, self.project_type,
            self.bounds, self.voxels, self.meshes,
            nTo.compose(self.pose),""")],
  needs="re-posing by (nearly) the identity and then changing the result, or accumulating many tiny motions",
  breaks="the re-posed object is the original object, so changes show in both; tiny motions are dropped",
  demo='''
import numpy as np
from sumo.semantic.project_object import ProjectObject
from sumo.geometry.pose3 import Pose3
from sumo.base.vector import Vector3
o = ProjectObject.example()
n = o.transform_pose(Pose3())
n.category = "other"
assert o.category == "chair"
n = o.transform_pose(Pose3(t=Vector3(1e-7, 0, 0)))
assert abs(n.pose.t[0] - 1 - 1e-7) < 1e-12, n.pose.t
'''),
dict(id="c14-compose-order", property="C14",
  edits=[(S + "semantic/project_object.py",
"""            nTo.compose(self.pose), self.category, self.symmetry, self.score,
""",
"""            Pose3(nTo.R * self.pose.R, self.pose.t + nTo.t), self.category, self.symmetry, self.score,
""")],
  needs="a rotation together with an object that is not at the origin",
  breaks="re-posing rotates objects in place instead of about the origin",
  demo='''
import numpy as np
from sumo.semantic.project_object import ProjectObject
from sumo.geometry.pose3 import Pose3
from sumo.geometry.rot3 import Rot3
from sumo.base.vector import Vector3
o = ProjectObject.example()
p = Pose3(Rot3.Rz(0.5), Vector3(1, -2, 3))
n = o.transform_pose(p)
assert np.allclose(n.pose.t, p.transform_from(o.pose.t)), n.pose.t
'''),
dict(id="c15-shallow-cache", property="C15",
  edits=[(S + "metrics/evaluator.py",
          "        sim_cache2 = deepcopy(sim_cache)\n", "        sim_cache2 = dict(sim_cache)\n")],
  needs="a same-category pair whose similarity lies between the lowest and the highest threshold (the category association runs after the agnostic one on the same cache)",
  breaks="pairs below the highest threshold are missing from the category association (and the similarity cache) at every threshold",
  demo='''
import stubs; stubs.install()
import numpy as np
from sumo.metrics.evaluator import Evaluator
from sumo.semantic.project_object import ProjectObject
from sumo.semantic.project_object_dict import ProjectObjectDict
from sumo.semantic.project_scene import ProjectScene
from sumo.threedee.box_3d import Box3d
class E(Evaluator):
    def _shape_similarity(self, a, b):
        return 0.5
def scene(id):
    o = ProjectObject.gen_bounding_box_object(id, bounds=Box3d(np.zeros(3), np.ones(3)), category="chair", score=0.5)
    return ProjectScene("bounding_box", elements=ProjectObjectDict({id: o}))
st = Evaluator.default_settings()
e = E(scene("d"), scene("g"), st)
for t in st["thresholds"]:
    want = {"d"} if t <= 0.5 else set()
    assert set(e._agnostic_data_assoc[t]) == want, t
    assert set(e._category_data_assoc["chair"][t]) == want, t
'''),
dict(id="c15-thresh-tie", property="C15",
  edits=[(S + "metrics/evaluator.py",
          "                    if sim_cache2[det_id][gt_id].similarity < thresh:\n",
          "                    if sim_cache2[det_id][gt_id].similarity <= thresh:\n")],
  needs="a similarity that equals a threshold exactly (0.25, 0.5, 0.75 with the default thresholds)",
  breaks="pairs whose similarity just reaches the threshold are not matched",
  demo='''
import stubs; stubs.install()
import numpy as np
from sumo.metrics.evaluator import Evaluator
from sumo.semantic.project_object import ProjectObject
from sumo.semantic.project_object_dict import ProjectObjectDict
from sumo.semantic.project_scene import ProjectScene
from sumo.threedee.box_3d import Box3d
class E(Evaluator):
    def _shape_similarity(self, a, b):
        return 0.75
def scene(id):
    o = ProjectObject.gen_bounding_box_object(id, bounds=Box3d(np.zeros(3), np.ones(3)), category="chair", score=0.5)
    return ProjectScene("bounding_box", elements=ProjectObjectDict({id: o}))
st = Evaluator.default_settings()
e = E(scene("d"), scene("g"), st)
for t in st["thresholds"]:
    assert set(e._agnostic_data_assoc[t]) == ({"d"} if t <= 0.75 else set()), t
'''),
dict(id="c16-envelope-first", property="C16",
  edits=[(S + "metrics/utils.py",
"""    # compute interpolated PR curve
    if (interp):
        for i in range(len(precision) - 1, 0, -1):
            if precision[i] > precision[i - 1]:
                precision[i - 1] = precision[i]
""",
"""    # compute interpolated PR curve
    if (interp):
        for i in range(len(precision) - 1, 1, -1):
            precision[i - 1] = max(precision[i - 1], precision[i])
""")],
  needs="interpolated curve whose best-scored detection is a false positive or, with few detections, whose first precision is below a later one",
  breaks="the first point of the interpolated precision-recall curve is not raised to the best precision at higher recall",
  demo='''
import stubs; stubs.install()
import numpy as np
from sumo.metrics import utils
p, r = utils.compute_pr(np.array([0, 1, 1, 1]), np.array([.9, .8, .7, .6]), 3, interp=True)
assert np.allclose(p, [.75] * 4), p
p, r = utils.compute_pr(np.array([0, 1]), np.array([.9, .8]), 1, np.array([0, .5, 1]), interp=True)
assert np.allclose(p, [.5] * 3), p
'''),
dict(id="c16-float32-sort", property="C16",
  edits=[(S + "metrics/utils.py",
"""    # sort input based on score
    indices = np.argsort(-det_scores)
    sorted_matches = det_matches[indices]

    # split out true positives and false positives
    tps = np.not_equal(sorted_matches, 0)
    fps = np.equal(sorted_matches, 0)

    # compute basic PR curve
    tp_sum = np.cumsum(tps)
    fp_sum = np.cumsum(fps)

    # use epsilon to prevent divide by 0 special case
    epsilon = np.spacing(1)

    precision = tp_sum / (tp_sum + fp_sum + epsilon)
    recall = tp_sum / n_gt

    ap = 0
""",
"""    # sort input based on score
    indices = np.argsort(-det_scores.astype(np.float32))
    sorted_matches = det_matches[indices]

    # split out true positives and false positives
    tps = np.not_equal(sorted_matches, 0)
    fps = np.equal(sorted_matches, 0)

    # compute basic PR curve
    tp_sum = np.cumsum(tps)
    fp_sum = np.cumsum(fps)

    # use epsilon to prevent divide by 0 special case
    epsilon = np.spacing(1)

    precision = tp_sum / (tp_sum + fp_sum + epsilon)
    recall = tp_sum / n_gt

    ap = 0
""")],
  needs="detection scores that differ by less than single precision resolves (e.g. 1 - 1e-9 and 1 - 2e-9) listed in increasing order",
  breaks="average precision depends on the order in which detections with close scores are listed",
  demo='''
import stubs; stubs.install()
import numpy as np
from sumo.metrics import utils
s = np.array([1 - 2e-9, 1 - 1e-9]); m = np.array([0, 1])
a = utils.compute_ap(m, s, 1)[0]
b = utils.compute_ap(m[::-1], s[::-1], 1)[0]
assert a == b, (a, b)
assert abs(a - 1) < 1e-12
'''),
dict(id="c17-fourfold-first", property="C17",
  edits=[(S + "metrics/evaluator.py",
"""                new_rots.extend([self.symmetric_rot(rot, axis, 1.5 * math.pi)
                    for rot in rots_to_check])
""",
"""                new_rots.extend([self.symmetric_rot(rot, axis, 1.5 * math.pi)
                    for rot in rots_to_check[:1]])
""")],
  needs="an object with another symmetry on a lower axis besides the four-fold one, and a detection equivalent only through their combination",
  breaks="combined symmetries miss equivalent orientations, so an equivalent orientation gets a positive error",
  demo='''
import stubs; stubs.install()
import math
import numpy as np
from itertools import product
from sumo.metrics.evaluator import Evaluator
from sumo.geometry.rot3 import Rot3
from sumo.geometry.pose3 import Pose3
from sumo.semantic.object_symmetry import ObjectSymmetry, SymmetryType as T
from sumo.semantic.project_object import ProjectObject
ev = Evaluator.__new__(Evaluator)
def obj(R, sym):
    return ProjectObject.gen_bounding_box_object("a", pose=Pose3(R=R), symmetry=sym)
for sym, steps in [((T.twoFold, T.twoFold, T.fourFold), (2, 2, 4)), ((T.twoFold, T.fourFold, T.twoFold), (2, 4, 2)),
                   ((T.fourFold, T.fourFold, T.fourFold), (4, 4, 4))]:
    s = ObjectSymmetry(*sym)
    base = Rot3.Rx(0.3) * Rot3.Ry(0.4)
    for i, j, k in product(*[range(n) for n in steps]):
        R = base * Rot3.Rx(2 * math.pi * i / steps[0]) * Rot3.Ry(2 * math.pi * j / steps[1]) * Rot3.Rz(2 * math.pi * k / steps[2])
        err = ev.rotation_error_1(obj(R, s), obj(base, s))
        assert abs(err) < 1e-6, (sym, i, j, k, err)
'''),
dict(id="c17-quat-branch", property="C17",
  edits=[(S + "metrics/utils.py",
"""        S = np.sqrt(1.0 + m11 - m00 - m22) * 2
        qw = (m02 - m20) / S
        qx = (m01 + m10) / S
        qy = 0.25 * S
        qz = (m12 + m21) / S
""",
"""        S = np.sqrt(1.0 + m11 - m00 - m22) * 2
        qw = (m20 - m02) / S
        qx = (m01 + m10) / S
        qy = 0.25 * S
        qz = (m12 + m21) / S
""")],
  needs="a rotation by more than 120 degrees, but not a half turn, about an axis closest to y",
  breaks="the quaternion (and Euler angles) of such a rotation belong to another rotation",
  demo='''
import stubs; stubs.install()
import numpy as np
from sumo.geometry.rot3 import Rot3
from sumo.metrics import utils
for f in [Rot3.Rx, Rot3.Ry, Rot3.Rz]:
    for a in np.linspace(-np.pi, np.pi, 33):
        for g in [Rot3(), Rot3.Rx(0.2) * Rot3.Rz(0.1)]:
            M = (f(a) * g).R
            assert np.allclose(utils.quat_to_matrix(utils.matrix_to_quat(M)), M), (f, a)
            assert np.allclose(utils.euler_to_matrix(utils.matrix_to_euler(M)), M, atol=1e-6), (f, a)
'''),
dict(id="c18-scale-max", property="C18",
  edits=[(S + "metrics/evaluator.py",
"""                perceptual_score += g_true_obj_scale(det_volume / gt_volume)
                max_score += params['true_obj_scale']['weight']
""",
"""                perceptual_score += g_true_obj_scale(det_volume / gt_volume)
            max_score += params['true_obj_scale']['weight']
""")],
  needs="a matched ground-truth object with a flat (zero volume) bounding box, e.g. a floor mesh",
  breaks="a perfect submission of a scene with flat objects does not get the perfect perceptual score",
  demo='''
import stubs; stubs.install()
import numpy as np
from sumo.metrics.evaluator import Evaluator
from sumo.semantic.project_object import ProjectObject
from sumo.semantic.project_object_dict import ProjectObjectDict
from sumo.semantic.project_scene import ProjectScene
from sumo.threedee.box_3d import Box3d
class E(Evaluator):
    def _shape_similarity(self, a, b):
        return 1.0 if a.id == b.id else 0.0
def scene():
    d = ProjectObjectDict()
    d["f"] = ProjectObject.gen_bounding_box_object("f", bounds=Box3d(np.zeros(3), np.array([4., 0, 5.])), category="floor", score=0.5)
    d["c"] = ProjectObject.gen_bounding_box_object("c", bounds=Box3d(np.zeros(3), np.ones(3)), category="chair", score=0.5)
    return ProjectScene("bounding_box", elements=d)
p = E(scene(), scene()).perceptual_score()
assert abs(p - 1) < 1e-9, p
'''),
dict(id="c18-missed-unevaluated", property="C18",
  edits=[(S + "metrics/evaluator.py",
"""            if gt_element.evaluated:
                perceptual_score -= missed_weight * gt_element.bounds.volume()
""",
"""            if gt_element.evaluated or gt_element.category == "floor":
                perceptual_score -= missed_weight * gt_element.bounds.volume()
""")],
  needs="a ground-truth floor with positive volume that is marked as not evaluated and not detected",
  breaks="an unevaluated ground-truth object lowers the perceptual score as a miss",
  demo='''
import stubs; stubs.install()
import numpy as np
from sumo.metrics.evaluator import Evaluator
from sumo.semantic.project_object import ProjectObject
from sumo.semantic.project_object_dict import ProjectObjectDict
from sumo.semantic.project_scene import ProjectScene
from sumo.threedee.box_3d import Box3d
class E(Evaluator):
    def _shape_similarity(self, a, b):
        return 1.0 if a.id == b.id else 0.0
def box(id, size, cat, **k):
    return ProjectObject.gen_bounding_box_object(id, bounds=Box3d(np.zeros(3), np.array(size, float)), category=cat, score=0.5, **k)
def scene(extra):
    d = ProjectObjectDict()
    d["f"] = box("f", (4, .1, 5), "floor")
    d["c"] = box("c", (1, 1, 1), "chair")
    if extra:
        d["g"] = box("g", (2, .2, 2), "floor", evaluated=False)
    return ProjectScene("bounding_box", elements=d)
a = E(scene(False), scene(False)).perceptual_score()
b = E(scene(False), scene(True)).perceptual_score()
assert abs(a - b) < 1e-9, (a, b)
'''),
dict(id="c23-one-sided-thresh", property="C23",
  edits=[(S + "metrics/utils.py",
          "           (bbox2.min_corner[axis] > bbox1.max_corner[axis] + thresh):\n",
          "           (bbox2.min_corner[axis] - bbox1.max_corner[axis] >= thresh):\n")],
  needs="second set beyond the first by exactly the overlap threshold",
  breaks="point sets whose gap equals the threshold overlap in one order and not in the other",
  demo='''
import stubs; stubs.install()
import numpy as np
from sumo.metrics import utils
from sumo.threedee.box_3d import Box3d
a = np.array([[0., 0, 0], [0., 1, 0]]); b = a + [0.25, 0, 0]
ba, bb = Box3d(a.min(0), a.max(0)), Box3d(b.min(0), b.max(0))
assert utils.points_iou(a, ba, b, bb, 0.25) == 1.0
assert utils.points_iou(b, bb, a, ba, 0.25) == 1.0
'''),
dict(id="c23-rms-mean", property="C23",
  edits=[(S + "metrics/utils.py",
"""                color_diff2to1 = gt_points[:, 3:6] - sub_points[idx2to1, 3:6]
""",
"""                color_diff2to1 = gt_points[idx1to2, 3:6] - sub_points[:, 3:6]
""")],
  needs="point sets with a many-to-one nearest-neighbour relation and different colours",
  breaks="the colour distance only uses the matches from submission to ground truth",
  demo='''
import stubs; stubs.install()
import numpy as np
from types import SimpleNamespace as N
from sumo.metrics import utils
sub = np.array([[0., 0, 0, 10, 0, 0], [1., 0, 0, 0, 0, 0]])
gt = np.array([[0., 0, 0, 10, 0, 0], [1., 0, 0, 0, 0, 0], [1.1, 0, 0, 90, 0, 0]])
def f(a, b):
    ev = N(_settings={"thresholds": [0.5]},
           _agnostic_data_assoc={0.5: {"d": N(evaluated=True, gt_id="g", det_id="d")}},
           _submission=N(elements={"d": N(posed_points=a)}), _ground_truth=N(elements={"g": N(posed_points=b)}))
    return utils.color_rmsssd(ev, ev._submission, ev._ground_truth)
assert abs(f(sub, gt) - np.sqrt(8100 / 5.)) < 1e-9, f(sub, gt)
assert abs(f(gt, sub) - f(sub, gt)) < 1e-9
'''),
dict(id="c24-set-first", property="C24",
  edits=[(S + "semantic/project_object_dict.py",
"""        assert isinstance(value, ProjectObject)
        dict.__setitem__(self, key, value)
""",
"""        dict.__setitem__(self, key, value)
        if not isinstance(value, ProjectObject):
            raise AssertionError("expected a ProjectObject")
""")],
  needs="a rejected assignment whose error is caught, after which the dictionary is used",
  breaks="a rejected value is in the dictionary (and an existing object is lost)",
  demo='''
from sumo.semantic.project_object import ProjectObject
from sumo.semantic.project_object_dict import ProjectObjectDict
o = ProjectObject.gen_bounding_box_object("a")
d = ProjectObjectDict(a=o)
for key in "ab":
    try:
        d[key] = "nonsense"
    except AssertionError:
        pass
    else:
        raise SystemExit("accepted")
assert list(d.items()) == [("a", o)]
'''),
dict(id="c24-score-close", property="C24",
  edits=[(S + "semantic/project_object.py",
"""            and np.isclose(self.score, other.score)
""",
"""            and (not self.evaluated or np.isclose(self.score, other.score))
""")],
  needs="two objects that are not evaluated and differ only in score",
  breaks="approximate comparison overlooks a difference in scores",
  demo='''
from sumo.semantic.project_object import ProjectObject
for ev in [True, False]:
    a = ProjectObject.gen_bounding_box_object("a", score=0.1, evaluated=ev)
    b = ProjectObject.gen_bounding_box_object("a", score=0.9, evaluated=ev)
    assert a.almost_equal(a)
    assert not a.almost_equal(b), ev
    assert not b.almost_equal(a), ev
'''),
]
