S = "sumo-api/sumo/"
MESH = '''
import numpy as np
from sumo.threedee.mesh import Mesh
from sumo.threedee.textured_mesh import TexturedMesh
from sumo.threedee.gltf_model import GltfModel
def tri(x=0.0, tex=None, uv=((0.1, 0.9, 0.1), (0.1, 0.1, 0.9)), scale=1.0):
    v = np.array([[x, x + scale, x], [0, 0, scale], [0, 0, 0]], np.float32)
    n = np.array([[0, 0, 0], [0, 0, 0], [1, 1, 1]], np.float32)
    i = np.array([0, 1, 2], np.uint32)
    if tex is None:
        return Mesh(i, v, n)
    return TexturedMesh(i, v, n, np.array(uv, np.float32), np.ascontiguousarray(tex, np.uint8))
'''
EVAL = '''
import stubs; stubs.install()
import numpy as np
from sumo.base.vector import Vector3
from sumo.geometry.pose3 import Pose3
from sumo.geometry.rot3 import Rot3
from sumo.metrics.evaluator import Evaluator
from sumo.semantic.project_object import ProjectObject
from sumo.semantic.project_object_dict import ProjectObjectDict
from sumo.semantic.project_scene import ProjectScene
from sumo.semantic.object_symmetry import ObjectSymmetry, SymmetryType
from sumo.threedee.box_3d import Box3d
def box(id, category="chair", size=1.0, **k):
    return ProjectObject.gen_bounding_box_object(
        id, bounds=Box3d(np.zeros(3), np.array([size, 1, 1])), category=category, **k)
def scene(*objects):
    return ProjectScene("bounding_box", elements=ProjectObjectDict({o.id: o for o in objects}))
'''
BUGS = [
dict(id="c03-empty-axis", property="C03",
  edits=[(S + "semantic/object_symmetry.py",
          'z_symmetry = cls._symmetry_text_to_type.get(elem.text, None)\n',
          'z_symmetry = cls._symmetry_text_to_type.get(elem.text or "none", None)\n')],
  needs="a document with an empty <z/> tag",
  breaks="a symmetry whose z axis has no value is accepted as none",
  demo='''
import xml.etree.ElementTree as ET
from sumo.semantic.object_symmetry import ObjectSymmetry
for bad in ("", "nonsense"):
    for axis in "xyz":
        text = {a: "none" for a in "xyz"}; text[axis] = bad
        e = ET.fromstring("<symmetry>" + "".join("<%s>%s</%s>" % (a, text[a], a) for a in "xyz") + "</symmetry>")
        try:
            ObjectSymmetry.from_xml(e)
        except RuntimeError:
            continue
        raise SystemExit("accepted %r for %s" % (bad, axis))
'''),
dict(id="c04-int-index", property="C04",
  edits=[(S + "threedee/voxel_grid.py",
          "    return np.matmul(voxels_3d, linearizer).squeeze()  # Nx3 * 3x1 => Nx1\n",
          "    return np.matmul(voxels_3d.astype('int32'), linearizer.astype('int32')).squeeze()  # Nx3 * 3x1 => Nx1\n")],
  needs="a grid of more than 2^31 cells",
  breaks="cells of large grids move, as their linear index overflows",
  demo='''
import numpy as np
from sumo.threedee.voxel_grid import VoxelGrid
pts = np.array([[0.5, 0.5, 0.5], [5001.5, 4000.5, 300.5]])
g = VoxelGrid(1.0, np.zeros(3), pts)
g.add_points(np.array([[0.5, 3003.5, 299.5]]))
got = {tuple(c) for c in np.asarray(g.voxel_centers())}
assert got == {tuple(p) for p in pts} | {(0.5, 3003.5, 299.5)}, got
'''),
dict(id="c04-skip-known", property="C04",
  edits=[(S + "threedee/voxel_grid.py",
          "        merged_voxels_1d = np.union1d(old_voxels_1d, new_voxels_1d)\n        self._voxels_3d = _vectorize_voxels(merged_voxels_1d, self._size_x, self._size_y)\n",
          "        merged_voxels_1d = np.union1d(old_voxels_1d, new_voxels_1d)\n        if len(merged_voxels_1d) != max(len(self._voxels_3d), n_points):  # else nothing is new\n            self._voxels_3d = _vectorize_voxels(merged_voxels_1d, self._size_x, self._size_y)\n        elif len(self._voxels_3d) == 0:\n            self._voxels_3d = new_voxels_3d\n")],
  needs="additions whose cells overlap so that the union has as many cells as the call has points",
  breaks="a later addition can be dropped",
  demo='''
import numpy as np
from sumo.threedee.voxel_grid import VoxelGrid
for first, second in [([0], [0, 1]), ([0, 1], [1, 2, 0]), ([0], [1, 0, 2]), ([1], [0, 1])]:
    g = VoxelGrid(1.0, np.zeros(3))
    for part in (first, second):
        g.add_points(np.array([[i + 0.5, 0.5, 0.5] for i in part]))
    got = sorted(c[0] for c in np.asarray(g.voxel_centers()))
    assert got == sorted({i + 0.5 for i in first + second}), (first, second, got)
'''),
dict(id="c06-voxel-round", property="C06",
  edits=[(S + "threedee/voxelizer.pyx",
          "        return VoxelGrid(self._voxel_size, bbox.min_corner, points[:,0:3])\n",
          "        scale = 4 / self._voxel_size\n        cells = np.unique(np.round((points[:,0:3] - bbox.min_corner) * scale), axis=0)\n        return VoxelGrid(self._voxel_size, bbox.min_corner, cells / scale + bbox.min_corner)\n"),
         (S + "threedee/voxelizer.pyx",
          "from sumo.threedee.model_sampler import ModelSampler\n",
          "import numpy as np\n\nfrom sumo.threedee.model_sampler import ModelSampler\n")],
  needs="surface points within an eighth of a voxel of the next cell",
  breaks="a cell next to the surface is marked although no surface point is in it",
  demo=MESH + '''
from sumo.threedee.voxelizer import Voxelizer
v = np.array([[0, 0.99, 0], [0, 0, 0.99], [0, 0, 0]], np.float32)
n = np.array([[0, 0, 0], [0, 0, 0], [1, 1, 1]], np.float32)
m = GltfModel(); m.add_mesh(Mesh(np.array([0, 1, 2], np.uint32), v, n))
np.random.seed(1)
g = Voxelizer(sampling_density=20000, voxel_size=0.25).run(m)
c = np.asarray(g.voxel_centers())
lo = c - 0.125
assert (lo[:, 0] + lo[:, 1] <= 0.99).all() and (lo <= 0.99).all(), c
'''),
dict(id="c10-near-digits", property="C10",
  edits=[(S + "images/RgbdTiff.cpp",
          "      picojson::value(static_cast<double>(meta.depthNearPlane));\n",
          "      picojson::value(std::round(meta.depthNearPlane * 1e4) / 1e4);\n")],
  needs="a near plane with more than four decimals",
  breaks="the file records another near plane than its depths are coded with",
  demo='''
import numpy as np
from sumo.images.rgbd_360 import Rgbd360
for near in (0.3, 0.12345, 2e-5):
    d = np.array([[near * 2, near * 10]], np.float32)
    Rgbd360(np.zeros((1, 2, 3), np.uint8), d).save("x.tif", near=near)
    try:
        back = Rgbd360.load("x.tif").range
    except RuntimeError as e:
        raise SystemExit("%s for near %r" % (e, near))
    # half a step of inverse depth
    assert (np.abs(1 / back - 1 / d) <= 0.51 / 65535 / near).all(), (near, back, d)
'''),
dict(id="c11-cached-table", property="C11",
  edits=[(S + "geometry/inverse_depth.pyx",
          "    cdef int h = inverse_depth_map.shape[0]\n    cdef int w = inverse_depth_map.shape[1]\n    cdef np.ndarray inverse_depth = np.empty((h,w), np.uint16)\n    for v in range(h):\n        for u in range(w):\n            inverse_depth[v,u] = inverse_depth_from_uint8(\n                inverse_depth_map[v,u], near)\n    return inverse_depth\n",
          "    global _table\n    if _table is None:  # only 256 codes\n        _table = np.array([inverse_depth_from_uint8(code, near)\n                           for code in range(256)], np.uint16)\n    return _table[np.asarray(inverse_depth_map)]\n\n_table = None\n")],
  needs="conversions with two near planes in one process",
  breaks="the second conversion uses the codes of the first near plane",
  demo='''
import numpy as np
from sumo.geometry import inverse_depth as idp
m = np.arange(256, dtype=np.uint8).reshape(16, 16)
for near in (0.3, 1.0, 2.0, 0.3):
    got = idp.uint16_of_uint8_inverse_depth_map(m, near=near)
    want = np.array([[idp.inverse_depth_from_uint8(int(c), near) for c in row] for row in m])
    assert (got == want).all(), near
'''),
dict(id="c12-narrow", property="C12",
  edits=[(S + "images/Rgbdci360.cpp",
          "  CubeMap cube_map = CubeMap(height);\n",
          "  CubeMap cube_map = CubeMap(width % 6 == 0 && width < 6 * height ? width / 6 : height);\n")],
  needs="an image narrower than six faces whose width divides by six",
  breaks="points of such an image lie on wrong rays",
  demo='''
import numpy as np
from sumo.images.rgbdci_360 import Rgbdci360
def cloud(h, w):
    z = np.zeros((h, w), np.uint16)
    return np.asarray(Rgbdci360(np.zeros((h, w, 3), np.uint8), np.ones((h, w), np.float32), z, z).create_point_cloud().points())
full = cloud(6, 36).reshape(3, 6, 36)
for w in (6, 12, 18, 30, 35):
    assert np.allclose(cloud(6, w).reshape(3, 6, w), full[:, :, :w]), w
'''),
dict(id="c13-cached-inverse", property="C13",
  edits=[(S + "geometry/rot3.pyx",
          '        """Return R^t."""\n        return Rot3(np.transpose(self.R))\n',
          '        """Return R^t."""\n        if getattr(self, "_inverse", None) is None:\n            self._inverse = Rot3(np.transpose(self.R))\n        return self._inverse\n')],
  needs="an inverse that is changed in place, or a rotation replaced after its inverse was taken",
  breaks="changing a returned inverse (or the rotation) makes later inverses wrong",
  demo='''
import numpy as np
from sumo.geometry.rot3 import Rot3
r = Rot3.Rz(0.3)
first = r.inverse()
first.R = Rot3.Rx(1.0).R
assert np.allclose((r * r.inverse()).R, np.eye(3))
'''),
dict(id="c13-pose-cache", property="C13",
  edits=[(S + "geometry/pose3.pyx",
          "    def matrix34(self):\n        return np.hstack((self.R.matrix(), np.reshape(self.t, (3, 1))))\n",
          "    def matrix34(self):\n        if not hasattr(self, '_matrix34'):\n            self._matrix34 = np.hstack((self.R.matrix(), np.reshape(self.t, (3, 1))))\n        return self._matrix34\n")],
  needs="a pose whose translation or rotation is replaced after its matrix was read, or a caller who edits the matrix",
  breaks="the matrix (and with it comparisons) stays that of the old pose",
  demo='''
import numpy as np
from sumo.base.vector import Vector3
from sumo.geometry.pose3 import Pose3
p, q = Pose3(), Pose3()
assert p.almost_equal(q)
p.t = Vector3(1, 2, 3)
assert (p.matrix()[:3, 3] == [1, 2, 3]).all()
assert not p.almost_equal(q)
'''),
dict(id="c15-prefer-evaluated", property="C15",
  edits=[(S + "metrics/evaluator.py",
          "    corrs.sort(key=lambda corr: corr.similarity)\n",
          "    corrs.sort(key=lambda corr: (corr.evaluated, corr.similarity))\n")],
  needs="a detection between an evaluated and a more similar unevaluated ground-truth object",
  breaks="the detection takes the less similar, evaluated object",
  demo=EVAL + '''
class E(Evaluator):
    def _shape_similarity(self, a, b):
        return {"g1": 0.6, "g2": 0.9}[b.id]
e = E(scene(box("d", score=1.0)), scene(box("g1"), box("g2", evaluated=False)))
for t, assoc in e._agnostic_data_assoc.items():
    if t <= 0.6:
        assert assoc["d"].gt_id == "g2", t
'''),
dict(id="c16-nonzero", property="C16",
  edits=[(S + "metrics/utils.py",
          "    tps = np.not_equal(sorted_matches, 0)\n    fps = np.equal(sorted_matches, 0)\n\n    # compute basic PR curve\n    tp_sum = np.cumsum(tps)\n    fp_sum = np.cumsum(fps)\n\n    # use epsilon to prevent divide by 0 special case\n    epsilon = np.spacing(1)\n\n    precision = tp_sum / (tp_sum + fp_sum + epsilon)\n    recall = tp_sum / n_gt\n\n    ap = 0\n",
          "    tps = sorted_matches\n    fps = np.equal(sorted_matches, 0)\n\n    # compute basic PR curve\n    tp_sum = np.cumsum(tps)\n    fp_sum = np.cumsum(fps)\n\n    # use epsilon to prevent divide by 0 special case\n    epsilon = np.spacing(1)\n\n    precision = tp_sum / (tp_sum + fp_sum + epsilon)\n    recall = tp_sum / n_gt\n\n    ap = 0\n")],
  needs="correct detections marked by another number than 1 (documented: each non-zero entry)",
  breaks="the marks are summed, so that recall and precision are wrong",
  demo='''
import stubs; stubs.install()
import numpy as np
from sumo.metrics import utils
s = np.array([0.9, 0.8, 0.7])
a = utils.compute_auc_ap(np.array([1, 0, 1]), s, 3)
b = utils.compute_auc_ap(np.array([2, 0, -1]), s, 3)
assert a[0] == b[0] and (a[1] == b[1]).all() and (a[2] == b[2]).all(), (a, b)
'''),
dict(id="c16-sample-end", property="C16",
  edits=[(S + "metrics/utils.py",
          "            if (precision_index < n_precision):\n                precision2[recall_index] = precision[precision_index]\n",
          "            if n_precision > 0 and recall_samples[recall_index] <= np.round(recall[-1], 2):\n                precision2[recall_index] = precision[min(precision_index, n_precision - 1)]\n")],
  needs="a largest recall that is not a multiple of a hundredth",
  breaks="a recall sample just above the largest recall gets a precision other than zero",
  demo='''
import stubs; stubs.install()
import numpy as np
from sumo.metrics import utils
p, r = utils.compute_pr(np.array([1, 1]), np.array([0.9, 0.8]), 3, recall_samples=np.array([0, 0.5, 0.666, 0.67, 1]))
assert (p[3:] == 0).all() and (p[:3] > 0).all(), p
'''),
dict(id="c18-rms-extra", property="C18",
  edits=[(S + "metrics/utils.py",
          "    rmsssd_cache = {}\n\n    settings = evaluator._settings\n",
          "    rmsssd_cache = evaluator.__dict__.setdefault(\"_rms_cache\", {})\n\n    settings = evaluator._settings\n"),
         (S + "metrics/utils.py",
          "    rmssscd_cache = {}\n\n    settings = evaluator._settings\n",
          "    rmssscd_cache = evaluator.__dict__.setdefault(\"_rms_cache\", {})\n\n    settings = evaluator._settings\n")],
  needs="both errors asked of one evaluator (as evaluate_all does)",
  breaks="the color error repeats the points error",
  demo=EVAL + '''
from sumo.metrics import utils
class Fake: pass
def obj(points):
    o = Fake(); o.posed_points = np.array(points, float); return o
def evaluator():
    e = Fake()
    e._settings = {"thresholds": [0.5]}
    c = Fake(); c.gt_id, c.evaluated = "g", True
    e._agnostic_data_assoc = {0.5: {"d": c}}
    e._submission, e._ground_truth = Fake(), Fake()
    e._submission.elements = {"d": obj([[0, 0, 0, 10, 0, 0]])}
    e._ground_truth.elements = {"g": obj([[0, 0, 1, 30, 0, 0]])}
    return e
e = evaluator()
assert utils.points_rmsssd(e, None, None) == 1
assert utils.color_rmsssd(e, None, None) == 20
'''),
dict(id="c18-extra-same-id", property="C18",
  edits=[(S + "metrics/evaluator.py",
          "            extra = all_det_ids.difference(matched_det_ids)\n",
          "            extra = all_det_ids.difference(matched_det_ids, matched_gt_ids)\n")],
  needs="a false alarm that has the id of a matched ground-truth object",
  breaks="such a false alarm costs nothing in the perceptual score",
  demo=EVAL + '''
class E(Evaluator):
    def _shape_similarity(self, a, b):
        return 0.9 if a.id + b.id in ("ab", "gf") else 0.0
def score(extra):
    gt = scene(box("b"), box("f", "floor"))
    return E(scene(box("a", score=1.0), box("g", "floor", score=0.9), box(extra, size=0.5, score=0.5)), gt).perceptual_score()
assert 0 < score("b") == score("z") < 1, (score("b"), score("z"))
'''),
dict(id="c18-shared-gauss", property="C18",
  edits=[(S + "metrics/evaluator.py",
          "        g_true_obj_scale = _gaussian_function(params['true_obj_scale'])\n        g_relative_obj_scale = _gaussian_function(params['relative_obj_scale'])\n",
          "        g_true_obj_scale = _gaussian_function(params['true_obj_scale'])\n        g_relative_obj_scale = g_true_obj_scale  # the settings are the same\n")],
  needs="settings in which the true and the relative object scale have other parameters",
  breaks="the relative scale is scored with the parameters of the true scale",
  demo=EVAL + '''
import copy
class E(Evaluator):
    def _shape_similarity(self, a, b):
        return 0.9
s = copy.deepcopy(Evaluator.default_settings())
s["perceptual"]["missed_weight"] = s["perceptual"]["extra_weight"] = 0
s["perceptual"]["relative_obj_scale"] = {"weight": 50, "mean": 1.0, "std_dev": 0.18}
sub = scene(box("d", "floor", size=2.0, score=1.0))
gt = scene(box("g", "floor", size=1.0))
got = E(sub, gt, s)._perceptual_score_1(E(sub, gt, s)._agnostic_data_assoc[0.25], set(), set(), False)
# room scale 2, object twice as large: true scale 2, relative scale 1
import math
g = lambda w, x, sd: w * math.exp(-0.5 * (x - 1) ** 2 / sd ** 2)
want = g(100, 2, 0.15) + g(5, 2, 0.18) + g(50, 1, 0.18) + 5 + 5
assert abs(got - want) < 1e-9, (got, want)
'''),
dict(id="c18-posed-stale", property="C18",
  edits=[(S + "metrics/voxel_evaluator.py",
          "        for e in ground_truth.elements.values():\n",
          "        for e in [e for e in ground_truth.elements.values() if not hasattr(e, \"posed_points\")]:\n")],
  needs="ground truth that is evaluated, moved, and evaluated again",
  breaks="the second evaluation compares with the ground truth at its old place",
  demo=EVAL + '''
from sumo.metrics.voxel_evaluator import VoxelEvaluator
from sumo.threedee.voxel_grid import VoxelGrid
def vscene(pose):
    o = ProjectObject.gen_voxels_object("a", voxels=VoxelGrid(1.0, np.zeros(3), np.array([[0.5, 0.5, 0.5], [1.5, 0.5, 0.5]])), pose=pose, score=1.0)
    return ProjectScene("voxels", elements=ProjectObjectDict({"a": o}))
gt = vscene(Pose3())
def close(pose, want):
    got = VoxelEvaluator(vscene(pose), gt).shape_score()
    assert abs(got - want) < 1e-6, (got, want)
close(Pose3(), 1)
gt.elements["a"].pose = Pose3(t=Vector3(5, 0, 0))
close(Pose3(), 0)
close(Pose3(t=Vector3(5, 0, 0)), 1)
'''),
dict(id="c19-skip-bad", property="C19",
  edits=[(S + "semantic/project_object_dict.py",
          "                po = ProjectObject.load(project_type, elem, path)\n                project_object_dict[po.id] = po\n",
          "                try:\n                    po = ProjectObject.load(project_type, elem, path)\n                except ValueError:\n                    if len(project_object_dict) == 0:\n                        raise\n                    continue  # tolerate a bad element\n                project_object_dict[po.id] = po\n")],
  needs="a malformed element after a good one",
  breaks="the scene loads without the malformed object instead of failing",
  demo='''
import numpy as np
from sumo.semantic.project_object import ProjectObject
from sumo.semantic.project_object_dict import ProjectObjectDict
from sumo.semantic.project_scene import ProjectScene
from sumo.threedee.box_3d import Box3d
els = ProjectObjectDict((i, ProjectObject.gen_bounding_box_object(i, bounds=Box3d(np.zeros(3), np.ones(3)))) for i in "ab")
ProjectScene("bounding_box", elements=els).save(".", "room")
text = open("room/room.xml").read()
open("room/room.xml", "w").write(text.replace("<id>b</id>", ""))
try:
    got = ProjectScene.load(".", "room")
except ValueError:
    raise SystemExit(0)
raise SystemExit("loaded %s" % list(got.elements))
'''),
dict(id="c19-two-columns", property="C19",
  edits=[(S + "geometry/rot3.pyx",
          "        if (len(found) != 3):\n",
          "        if found.keys() == {'c1', 'c2'}:\n            R[:,2] = np.cross(R[:,0], R[:,1])\n        elif (len(found) != 3):\n")],
  needs="a document whose rotation lacks its third column",
  breaks="a truncated rotation is completed instead of rejected",
  demo='''
import xml.etree.ElementTree as ET
from sumo.geometry.rot3 import Rot3
for missing in ("c1", "c2", "c3"):
    e = Rot3.Rz(0.3).to_xml()
    e.remove(e.find(missing))
    try:
        Rot3.from_xml(e)
    except ValueError:
        continue
    raise SystemExit("accepted without " + missing)
'''),
dict(id="c19-unknown-page", property="C19",
  edits=[(S + "images/RgbdTiff.cpp",
          "  return kStrToPageType.at(key);\n",
          "  auto entry = kStrToPageType.find(key);\n  return entry != kStrToPageType.end() ? entry->second : TiffPageType::Instance;\n")],
  needs="a file with a page of an unknown kind",
  breaks="the unknown page is returned as instance labels",
  demo='''
import numpy as np
from sumo.images.multi_image_tiff import MultiImageTiff, MultiImagePageType as P
z = np.zeros((2, 3), np.uint16)
MultiImageTiff({P.RGB: np.zeros((2, 3, 3), np.uint8), P.Depth: np.ones((2, 3), np.float32), P.Instance: z}).save("x.tif")
data = open("x.tif", "rb").read()
assert data.count(b"instance") == 1
open("x.tif", "wb").write(data.replace(b"instance", b"xnstance"))
try:
    MultiImageTiff.load("x.tif")
except Exception:
    raise SystemExit(0)
raise SystemExit("an unknown page was read")
'''),
dict(id="c20-clip", property="C20",
  edits=[(S + "base/colored_category.pyx",
          "        return self.LUT[indexed_im]\n",
          "        return np.take(self.LUT, indexed_im, axis=0, mode=\"clip\")\n")],
  needs="an image with an id beyond the table",
  breaks="such pixels get the colour of the last category instead of an IndexError",
  demo='''
import numpy as np
from sumo.base.colored_category import ColoredCategory
open("t.csv", "w").write("id,category,is_evaluated,color\\n0,a,True,1;2;3\\n1,b,True,4;5;6\\n")
c = ColoredCategory("t.csv")
try:
    c.convert_to_rgb_im(np.array([[0, 1], [2, 0]], np.uint16))
except IndexError:
    raise SystemExit(0)
raise SystemExit("an unknown id got a colour")
'''),
dict(id="c20-fold-name", property="C20",
  edits=[(S + "base/colored_category.pyx",
          '            self._data[id]["category"]: self._data[id]["color"] for id, x in enumerate(self._data)\n',
          '            self._data[id]["category"].strip(): self._data[id]["color"] for id, x in enumerate(self._data)\n')],
  needs="a category name with surrounding blanks",
  breaks="the name as it is in the table is rejected",
  demo='''
from sumo.base.colored_category import ColoredCategory
open("t.csv", "w").write("id,category,is_evaluated,color\\n0,a,True,1;2;3\\n1, b,True,4;5;6\\n")
c = ColoredCategory("t.csv")
assert c.category_name_to_rgb(" b") == (4, 5, 6)
'''),
dict(id="c21-referenced", property="C21",
  edits=[(S + "threedee/compute_bbox.pyx",
          "        return self.from_point_cloud(mesh.vertices())\n",
          "        vertices = mesh.vertices()\n        used = np.unique(mesh.indices())\n        return self.from_point_cloud(vertices[:, used] if len(used) else vertices)\n")],
  needs="a mesh with a vertex that no triangle uses",
  breaks="the box of the mesh does not contain that vertex",
  demo=MESH + '''
from sumo.threedee.compute_bbox import ComputeBbox
v = np.array([[0, 1, 0, 5], [0, 0, 1, 5], [0, 0, 0, 5]], np.float32)
m = Mesh(np.array([0, 1, 2], np.uint32), v, np.zeros_like(v))
assert (ComputeBbox().from_mesh(m).max_corner == 5).all()
'''),
dict(id="c21-eq-close", property="C21",
  edits=[(S + "threedee/box_3d.pyx",
          "        return (np.array_equal(self._min_corner, other._min_corner, *args, **kwargs) and\n                np.array_equal(self._max_corner, other._max_corner, *args, **kwargs))\n",
          "        return self.almost_equal(other, rtol=0, atol=1e-12)\n")],
  needs="boxes that differ by less than 1e-12",
  breaks="different boxes compare equal",
  demo='''
import numpy as np
from sumo.threedee.box_3d import Box3d
a = Box3d(np.zeros(3), np.ones(3))
assert a == Box3d(np.ones(3), np.zeros(3))
assert not a == Box3d(np.zeros(3), np.array([1, 1, np.nextafter(1, 2)]))
tiny = Box3d(np.zeros(3), np.full(3, 1e-14))
assert not tiny == Box3d(np.zeros(3), np.full(3, 2e-14))
'''),
dict(id="c23-float32", property="C23",
  edits=[(S + "metrics/utils.py",
          "        tree1 = BallTree(points1)\n        tree2 = BallTree(points2)\n",
          "        origin = np.round(points1[0])  # for precision\n        points1, points2 = points1 - origin, points2 - origin\n        tree1 = BallTree(points1.astype(np.float32))\n        tree2 = BallTree(points2.astype(np.float32))\n")],
  needs="distances near the threshold",
  breaks="identical points get a distance that is not zero",
  demo='''
import stubs; stubs.install()
import numpy as np
from sumo.metrics import utils
p = np.array([[0.1, 0.2, 0.3], [1.7, 0.7, 3.1]])
i12, i21, d12, d21 = utils.nearest_neighbors(p, p)
assert (d12 == 0).all() and (d21 == 0).all(), d12
'''),
dict(id="c24-category-case", property="C24",
  edits=[(S + "semantic/project_object.py",
          "            and self.category == other.category\n",
          "            and self.category.lower() == other.category.lower()\n")],
  needs="objects whose categories differ in case only",
  breaks="they compare almost equal",
  demo='''
from sumo.semantic.project_object import ProjectObject
assert ProjectObject("a", category="ATM").almost_equal(ProjectObject("a", category="ATM"))
assert not ProjectObject("a", category="ATM").almost_equal(ProjectObject("a", category="atm"))
'''),
dict(id="c25-substring", property="C25",
  edits=[("tools/download_sumo_datasets.py",
          "    return [zip_file for zip_file in zip_files if zip_file not in existing_zip_files]\n",
          "    existing = \" \".join(existing_zip_files)\n    return [zip_file for zip_file in zip_files if zip_file not in existing]\n")],
  needs="an archive whose name ends the name of another archive that is present",
  breaks="such an archive is never fetched",
  demo='''
import os, sys, types
sys.modules["requests"] = types.ModuleType("requests")
sys.path.insert(0, os.path.join(os.environ["REPO"], "tools"))
import download_sumo_datasets as d
assert d.remove_existing_files(["1.zip", "11.zip", "2.zip"], ["11.zip"]) == ["1.zip", "2.zip"]
'''),
]
