from bugs_4 import S, MESH, EVAL

import os
_u = open(os.path.join("/repo", S, "metrics/utils.py")).read()
COUNTS = _u[_u.index("    # split out", _u.index("def compute_auc_ap")):_u.index("    ap = 0\n") + 11]

BUGS = [
dict(id="c01-tiny-score", property="C01",
  edits=[(S + "semantic/project_object.py",
          "        score_elem.text = str(self.score)\n",
          "        score_elem.text = str(round(self.score, 12))\n")],
  needs="a score with significant digits beyond the twelfth decimal",
  breaks="such scores come back rounded, very small ones as zero",
  demo=EVAL + '''
import tempfile
for score in (-1, 0.57, 3, 1e-20, 0.1 + 0.2, 1 / 3e8):
    with tempfile.TemporaryDirectory() as d:
        scene(box("a", score=score)).save(d, "s")
        got = ProjectScene.load(d, "s").elements["a"].score
        assert got == score, (score, got)
'''),
dict(id="c01-category-strip", property="C01",
  edits=[(S + "semantic/project_object.py",
          "        category_elem.text = self.category\n",
          "        category_elem.text = self.category.strip()\n")],
  needs="a category with a space at its start or end",
  breaks="the space is lost by saving and loading",
  demo=EVAL + '''
import tempfile
for category in ("chair", "", " chair", "chair ", " ", "a\\tb", "\\t"):
    with tempfile.TemporaryDirectory() as d:
        scene(box("a", category=category)).save(d, "s")
        got = ProjectScene.load(d, "s").elements["a"].category
        assert got == category, (category, got)
'''),
dict(id="c02-empty-folder", property="C02",
  edits=[(S + "semantic/project_scene.py",
          "        os.makedirs(project_dir)\n",
          "        if not os.path.isdir(project_dir) or os.listdir(project_dir):\n            os.makedirs(project_dir)\n")],
  needs="saving to the name of an empty folder",
  breaks="the save does not fail although the name is already taken",
  demo=EVAL + '''
import os, tempfile
for kind in ("folder", "file", "full"):
    with tempfile.TemporaryDirectory() as d:
        if kind == "file":
            open(os.path.join(d, "s"), "w").close()
        else:
            os.mkdir(os.path.join(d, "s"))
            if kind == "full":
                open(os.path.join(d, "s", "x"), "w").close()
        try:
            scene(box("a")).save(d, "s")
        except OSError:
            pass
        else:
            raise AssertionError(kind)
'''),
dict(id="c04-file-cache", property="C04",
  edits=[(S + "threedee/voxel_grid.py",
          "        vg = cls()\n        vg.load(filename)\n        return vg\n",
          "        stat = os.stat(filename) if os.path.exists(filename) else None\n"
          "        key = stat and (os.path.abspath(filename), stat.st_size, int(stat.st_mtime))\n"
          "        if key is None or key not in _recent_files:\n"
          "            vg = cls()\n"
          "            vg.load(filename)\n"
          "            _recent_files.clear()\n"
          "            _recent_files[key] = vg\n"
          "        return copy.deepcopy(_recent_files[key])\n"),
         (S + "threedee/voxel_grid.py",
          "import h5py\n",
          "import copy\nimport os\n\nimport h5py\n"),
         (S + "threedee/voxel_grid.py",
          "class VoxelGrid(object):\n",
          "_recent_files = {}  # the last file read, see VoxelGrid.from_file\n\n\nclass VoxelGrid(object):\n")],
  needs="reading a file, writing another grid of the same size to it within a second, reading it again",
  breaks="the grid of the file's earlier content is returned",
  demo='''
import os, tempfile
import numpy as np
from sumo.threedee.voxel_grid import VoxelGrid
with tempfile.TemporaryDirectory() as d:
    name = os.path.join(d, "a.h5")
    for k in range(4):
        points = np.array([[0.5, 0.5, 0.5], [3.5, 3.5, 3.5], [k + 0.5, 0.5, 0.5 + 2 * (k == 0)]])
        g = VoxelGrid(1.0, None, points)
        g.save(name)
        os.utime(name, (1e9, 1e9))
        got = VoxelGrid.from_file(name).voxel_centers()
        assert np.array_equal(got, g.voxel_centers()), (k, got, g.voxel_centers())
'''),
dict(id="c05-shallow-settings", property="C05",
  edits=[(S + "semantic/project_converter.py",
          "        new_settings = deepcopy(project.settings)\n",
          "        new_settings = dict(project.settings)\n")],
  needs="settings with a list in them that is changed after the conversion",
  breaks="the change shows in the other scene",
  demo=EVAL + '''
from sumo.semantic.project_converter import ProjectConverter
from sumo.threedee.voxel_grid import VoxelGrid
o = ProjectObject.gen_voxels_object("a", bounds=Box3d(np.zeros(3), np.ones(3)),
                                    voxels=VoxelGrid(1.0, None, np.array([[0.5, 0.5, 0.5]])))
s = ProjectScene("voxels", elements=ProjectObjectDict({"a": o}),
                 settings={"version": "2.0", "categories_id": "", "categories_url": "", "rooms": ["kitchen"]})
c = ProjectConverter().run(s, "bounding_box")
assert c.settings == s.settings
c.settings["rooms"].append("bath")
assert s.settings["rooms"] == ["kitchen"], s.settings
'''),
dict(id="c06-face-ids", property="C06",
  edits=[(S + "threedee/model_sampler.pyx",
          "    face_ids = np.zeros((N,), dtype=int)  # reserve space for result\n",
          "    face_ids = np.zeros((N,), dtype=np.int16 if N < 2**15 else np.uint16)  # reserve space for result\n")],
  needs="a model with more than 65536 triangles",
  breaks="the triangles beyond are not sampled, others are sampled instead",
  demo=MESH + '''
from sumo.threedee.model_sampler import ModelSampler
n = 66000
v = np.zeros((3, 3 * n), np.float32)
v[0] = np.repeat(np.arange(n), 3)
v[1, 1::3] = 0.001
v[2, 2::3] = 0.001
model = GltfModel()
model.add_mesh(Mesh(np.arange(3 * n, dtype=np.uint32), v, np.ones_like(v)))
got = ModelSampler(1.0).run(model)
assert got.shape[0] == n
assert np.allclose(np.sort(got[:, 0]), np.arange(n), rtol=0, atol=0.01)
'''),
dict(id="c08-small-normal", property="C08",
  edits=[(S + "threedee/Mesh.cpp",
          "    Normal n = a.cross(b).normalized();\n    faceNormals.push_back(n);\n",
          "    Normal n = a.cross(b);\n    faceNormals.push_back(n.norm() > 1e-9 ? Normal(n.normalized()) : Normal(Normal::Zero()));\n")],
  needs="triangles with sides of less than about a twentieth of a millimetre",
  breaks="their estimated normals are zero",
  demo=MESH + '''
i = np.array([0, 1, 2], np.uint32)
for size in (1.0, 1e-3, 1e-5, 1e-8):
    v = np.array([[0, size, 0], [0, 0, size], [0, 0, 0]], np.float32)
    n = Mesh.estimate_normals(i, v)
    assert np.allclose(n, np.array([[0, 0, 0], [0, 0, 0], [1, 1, 1]])), (size, n)
'''),
dict(id="c09-identity-alias", property="C09",
  edits=[(S + "threedee/point_cloud.pyx",
          "      if self.colored():\n          return PointCloud(aTb.transform_all_to(self.points()), self.colors())\n      else:\n          return PointCloud(aTb.transform_all_to(self.points()))\n",
          "      if np.array_equal(aTb.matrix(), np.eye(4)):\n          return self\n      colors = self.colors() if self.colored() else None\n      return PointCloud(aTb.transform_all_to(self.points()), colors)\n")],
  needs="a cloud transformed by the identity and then appended to",
  breaks="the original cloud gets the appended points as well",
  demo='''
import numpy as np
from sumo.geometry.pose3 import Pose3
from sumo.threedee.point_cloud import PointCloud
for t in (np.zeros(3), np.ones(3)):
    a = PointCloud(np.zeros((3, 2)))
    b = a.transform_to(Pose3(t=t))
    b.append(PointCloud(np.ones((3, 1))))
    assert a.num_points() == 2 and b.num_points() == 3
    c = a.transform_from(Pose3(t=t))
    c.append(PointCloud(np.ones((3, 1))))
    assert a.num_points() == 2 and c.num_points() == 3
'''),
dict(id="c12-index16", property="C12",
  edits=[(S + "images/Rgbdci360.cpp",
          "  vector<Vector3> points;\n  points.reserve(height * width);\n",
          "  vector<Vector3> points(height * width);\n  uint16_t n = 0;\n"),
         (S + "images/Rgbdci360.cpp",
          "        points.push_back(point);\n", "        points[n++] = point;\n"),
         (S + "images/Rgbdci360.cpp",
          "        points.push_back(Vector3(0, 0, 0));\n", "        points[n++] = Vector3(0, 0, 0);\n"),
         (S + "images/Rgbdci360.cpp",
          "  return new PointCloud(points, colors);\n", "  points.resize(colors.size());\n  return new PointCloud(points, colors);\n")],
  needs="an image with more than 65536 pixels",
  breaks="the points of the first pixels are overwritten with later ones, the last points are zero",
  demo='''
import numpy as np
from sumo.images.rgbdci_360 import Rgbdci360
for side in (4, 104, 105, 120):
    h, w = side, 6 * side
    range = (1 + np.arange(h * w, dtype=np.float32) % 977).reshape(h, w)
    rgb = np.zeros((h, w, 3), np.uint8)
    ids = np.zeros((h, w), np.uint16)
    for everything in (False, True):
        cloud = Rgbdci360(rgb, range, ids, ids).create_point_cloud(everything)
        got = np.linalg.norm(cloud.points(), axis=0)
        assert got.shape == (h * w,) and np.allclose(got, range.ravel(), rtol=1e-6), side
'''),
dict(id="c13-axis-normalise", property="C13",
  edits=[(S + "geometry/rot3.pyx",
          "        ddt = np.outer(d, d)\n",
          "        out = d if d.dtype == np.float64 and d.flags.writeable else None\n        d = np.divide(d, np.linalg.norm(d), out=out)\n        ddt = np.outer(d, d)\n".replace("        d = np.divide(d, np.linalg.norm(d), out=out)\n        ddt = np.outer(d, d)\n", "        ddt = np.outer(np.divide(d, np.linalg.norm(d), out=out), d)\n"))],
  needs="an axis whose length differs from one by rounding",
  breaks="the caller's axis vector is changed",
  demo='''
import numpy as np
from sumo.geometry.rot3 import Rot3
for k in range(50):
    d = np.array([np.sin(k), np.cos(k), k / 7.0])
    d = d / np.sqrt(d[0] ** 2 + d[1] ** 2 + d[2] ** 2) * (1 + 1e-15)
    before = d.copy()
    Rot3.AxisAngle(d, 0.7)
    assert np.array_equal(d, before), (d, before)
'''),
dict(id="c14-zero-score", property="C14",
  edits=[(S + "semantic/project_object.py",
          "            nTo.compose(self.pose), self.category, self.symmetry, self.score,\n",
          "            nTo.compose(self.pose), self.category, self.symmetry, self.score or -1,\n")],
  needs="an object with a score of zero",
  breaks="the re-posed object has score -1 (not used)",
  demo=EVAL + '''
for score in (-1, 0, 0.0, 0.5):
    got = scene(box("a", score=score)).transform_pose(Pose3(t=np.ones(3))).elements["a"].score
    assert got == score, (score, got)
'''),
dict(id="c15-sort-ends", property="C15",
  edits=[(S + "metrics/evaluator.py",
          '        self._settings["thresholds"] = np.sort(self._settings["thresholds"])\n',
          '        thresholds = np.asarray(self._settings["thresholds"])\n'
          '        if len(thresholds) > 1 and thresholds[0] > thresholds[-1]:\n'
          '            thresholds = np.sort(thresholds)\n'
          '        self._settings["thresholds"] = thresholds\n')],
  needs="thresholds that are out of order only in the middle",
  breaks="pairs dropped at the higher threshold are missing at the lower one after it",
  demo=EVAL + '''
from sumo.metrics.bb_evaluator import BBEvaluator
from itertools import permutations
results = []
for order in permutations((0.3, 0.5, 0.9)):
    s = scene(box("a", size=1.0, score=0.5), )
    g = scene(box("g", size=2.0))
    settings = dict(BBEvaluator.default_settings(), thresholds=np.array(order))
    e = BBEvaluator(s, g, settings)
    results.append([sorted(e._agnostic_data_assoc[t]) for t in (0.3, 0.5, 0.9)])
assert all(r == results[0] for r in results), results
assert results[0] == [["a"], ["a"], []]
'''),
dict(id="c16-uint8-cumsum", property="C16",
  edits=[(S + "metrics/utils.py", COUNTS, COUNTS
          .replace("not_equal(sorted_matches, 0)", "not_equal(sorted_matches, 0).astype(np.uint8)")
          .replace("cumsum(tps)", "cumsum(tps, dtype=tps.dtype)")
          .replace("tp_sum / (tp_sum +", "tp_sum / (tp_sum.astype(int) +"))],
  needs="more than 255 correct or incorrect detections",
  breaks="the counts overflow, a perfect detector does not score 1",
  demo=EVAL + '''
from sumo.metrics import utils
for n in (1, 10, 255, 256, 300, 1000):
    ap, precision, recall = utils.compute_ap(np.ones(n), np.arange(n) / 10.0, n)
    assert abs(ap - 1) < 1e-9, (n, ap)
'''),
dict(id="c18-missed-category", property="C18",
  edits=[(S + "metrics/evaluator.py",
          "                if n_gt[cat] > 0:  # only consider categories in the actual scene\n",
          "                if n_gt[cat] > 0 and len(det_scores[cat]) > 0:  # only consider categories in the scenes\n")],
  needs="a category of the ground truth without any detection",
  breaks="it does not count as missed in the semantics score",
  demo=EVAL + '''
from sumo.metrics.bb_evaluator import BBEvaluator
g = scene(box("a", "chair"), box("b", "sofa", pose=Pose3(t=np.array([9.0, 0, 0]))))
s = scene(box("a", "chair", score=0.5))
assert abs(BBEvaluator(s, g).semantics_score() - 0.5) < 1e-9
'''),
dict(id="c20-int16", property="C20",
  edits=[(S + "base/colored_category.pyx",
          "        return self.LUT[indexed_im]\n",
          "        return self.LUT[indexed_im.astype(np.int16)]\n")],
  needs="an id such as 65535 in a 16-bit image",
  breaks="it gets the colour of the last category instead of an index error",
  demo='''
import numpy as np
from sumo.base.colored_category import ColoredCategory
with open("t.csv", "w") as f:
    f.write("id,category,is_evaluated,color\\n0,a,True,1;2;3\\n1,b,True,4;5;6\\n")
c = ColoredCategory("t.csv")
for bad in (2, 255, 256, 32768, 65535):
    try:
        c.convert_to_rgb_im(np.array([[0, bad]], np.uint16))
    except IndexError:
        continue
    raise AssertionError(bad)
'''),
dict(id="c21-nan-inside", property="C21",
  edits=[(S + "threedee/box_3d.pyx",
          "        return np.all(point > self.min_corner) and \\\n            np.all(point < self.max_corner)\n",
          "        return not (np.any(point <= self.min_corner) or\n                    np.any(point >= self.max_corner))\n")],
  needs="a point with an undefined coordinate",
  breaks="it counts as inside the box",
  demo='''
import numpy as np
from sumo.threedee.box_3d import Box3d
b = Box3d(np.zeros(3), np.ones(3))
assert b.point_in_box(np.full(3, 0.5))
for i in range(3):
    for bad in (np.nan, np.inf, -np.inf, 0.0, 1.0):
        p = np.full(3, 0.5); p[i] = bad
        assert not b.point_in_box(p), p
'''),
dict(id="c23-touching", property="C23",
  edits=[(S + "metrics/utils.py",
          "        if (bbox1.min_corner[axis] > bbox2.max_corner[axis] + thresh) or \\\n",
          "        if (bbox1.min_corner[axis] >= bbox2.max_corner[axis] + thresh) or \\\n")],
  needs="two sets at a distance of exactly the threshold",
  breaks="their overlap is 0 although points at the threshold count",
  demo=EVAL + '''
from sumo.metrics import utils
from sumo.threedee.compute_bbox import ComputeBbox
for order in (1, -1):
    p, q = [np.array([[0.0, 0, 0]]), np.array([[0.5, 0, 0]])][::order]
    bp, bq = [ComputeBbox().from_point_cloud(x.T) for x in (p, q)]
    assert utils.points_iou(p, bp, q, bq, 0.5) == 1
    assert utils.points_iou(p, bp, q, bq, 0.25) == 0
'''),
dict(id="c25-batch", property="C25",
  edits=[("tools/download_sumo_datasets.py",
          "            pool.map_async(partial(download_one, args), remaining_zips)\n",
          "            batch = remaining_zips[:8 * MAX_CORES]  # limits the memory for queued downloads\n"
          "            pool.map_async(partial(download_one, args), batch)\n")],
  needs="more than 72 archives to download",
  breaks="a run without any failure does not complete the dataset",
  demo='''
import io, os, sys, types, zipfile
from types import SimpleNamespace as N
b = io.BytesIO()
with zipfile.ZipFile(b, "w") as z:
    z.writestr("x.txt", "x")
data = b.getvalue()
rq = types.ModuleType("requests")
class R:
    ok = True; status_code = 200; headers = {"content-length": str(len(data))}; content = data
    def iter_content(self, chunk_size=1, **k): return iter([data])
    def raise_for_status(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): pass
    def close(self): pass
rq.get = lambda *a, **k: R()
sys.modules["requests"] = rq
sys.path.insert(0, os.path.join(os.environ["REPO"], "tools"))
import download_sumo_datasets as d
names = ["a%d.zip" % i for i in range(100)]
args = N(destination_dir="dest", server_name="http://x", training_input=names[:50], training_ground_truth=names[50:])
d.create_target_folder(args)
d.download_zips_in_parallel(args)
assert sorted(f for f in os.listdir("dest") if f.endswith(".zip")) == sorted(names)
'''),
]
