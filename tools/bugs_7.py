from bugs_4 import S, MESH, EVAL
from bugs_5 import GLTF

BUGS = [
dict(id="c04-float-centre", property="C04",
  edits=[(S + "threedee/voxel_grid.py",
          "        min_corner_with_offset = self._min_corner + 0.5 * voxel_size\n",
          "        min_corner_with_offset = np.asarray(self._min_corner + 0.5 * voxel_size, dtype='float32')\n")],
  needs="a grid whose origin is not representable in single precision",
  breaks="the centres of the voxels are off, by whole voxels for large origins",
  demo='''
import numpy as np
from sumo.threedee.voxel_grid import VoxelGrid
for c in (0.0, 0.5, 0.1, -1.1, 1e6 + 0.1, 1e8 + 0.3):
    corner = np.array([c, c, c])
    g = VoxelGrid(0.5, corner, np.array([[c + 0.25, c + 0.3, c + 0.2]]))
    assert np.allclose(g.voxel_centers(), c + 0.25, rtol=1e-15, atol=1e-15), (c, g.voxel_centers())
'''),
dict(id="c05-empty-category", property="C05",
  edits=[(S + "semantic/project_converter.py",
          "                category=element.category,\n                symmetry=element.symmetry,\n                score=element.score,\n                evaluated=element.evaluated\n            )\n\n        elif",
          "                category=element.category or \"unknown\",\n                symmetry=element.symmetry,\n                score=element.score,\n                evaluated=element.evaluated\n            )\n\n        elif")],
  needs="an object with an empty category",
  breaks="the converted object has category unknown",
  demo=EVAL + '''
from sumo.semantic.project_converter import ProjectConverter
from sumo.threedee.voxel_grid import VoxelGrid
for category in ("chair", "", " ", "unknown"):
    o = ProjectObject.gen_voxels_object("a", bounds=Box3d(np.zeros(3), np.ones(3)), category=category,
                                        voxels=VoxelGrid(1.0, None, np.array([[0.5, 0.5, 0.5]])))
    s = ProjectScene("voxels", elements=ProjectObjectDict({"a": o}))
    got = ProjectConverter().run(s, "bounding_box").elements["a"].category
    assert got == category, (category, got)
'''),
dict(id="c05-negative-score", property="C05",
  edits=[(S + "semantic/project_converter.py",
          "                score=element.score,\n                evaluated=element.evaluated\n            )\n\n        else",
          "                score=element.score if element.score >= 0 else -1,\n                evaluated=element.evaluated\n            )\n\n        else")],
  needs="a mesh object with a negative score other than -1 (a log-likelihood), converted to voxels",
  breaks="all negative scores become -1",
  demo=MESH + '''
from sumo.semantic.project_converter import ProjectConverter
from sumo.semantic.project_object import ProjectObject
for score in (0.5, 0.0, -1, -0.5, -7.25):
    m = GltfModel(); m.add_mesh(tri())
    o = ProjectObject.gen_meshes_object("a", meshes=m, score=score)
    got = ProjectConverter().convert_element(o, "voxels").score
    assert got == score, (score, got)
'''),
dict(id="c06-heron", property="C06",
  edits=[(S + "threedee/model_sampler.pyx",
          "    areas = 0.5 * (np.sqrt(np.sum(cross**2, axis=1)))\n",
          "    a, b, c = [np.sqrt(np.sum((p - q)[:, 0:3]**2, axis=1)) for p, q in ((A, B), (B, C), (C, A))]\n"
          "    s = 0.5 * (a + b + c)\n"
          "    areas = np.sqrt(np.maximum(0, s * (s - a) * (s - b) * (s - c)))\n")],
  needs="a long and very thin triangle",
  breaks="its area is lost to rounding, so it gets a wrong number of samples",
  demo=MESH + '''
from sumo.threedee.model_sampler import ModelSampler
from fractions import Fraction
for length, width in ((1, 1), (2 ** 10, 2.0 ** -10), (2 ** 16, 2.0 ** -16), (2 ** 20, 2.0 ** -20)):
    v = np.array([[0, length, length], [0, 0, width], [0, 0, 0]], np.float32)
    n = np.zeros((3, 3), np.float32); n[2] = 1
    m = GltfModel(); m.add_mesh(Mesh(np.array([0, 1, 2], np.uint32), v, n))
    got = len(ModelSampler(1000).run(m))
    assert got == 500, (length, got)
'''),
dict(id="c11-contiguous", property="C11",
  edits=[(S + "geometry/inverse_depth.pyx",
          "ctypedef Uint16[:,:] InvDepth16\n", "ctypedef Uint16[:,::1] InvDepth16\n")],
  needs="a 16-bit image that is a crop or a transpose of another image",
  breaks="it cannot be decoded",
  demo='''
import numpy as np
import sumo.geometry.inverse_depth as inv
codes = np.arange(64, dtype=np.uint16).reshape(8, 8) * 1000
for part in (codes, codes[:, 1:5], codes[::2], codes.T):
    got = inv.depth_image_of_inverse_depth_map(part)
    want = [[inv.depth_of_inverse_depth(int(c)) for c in row] for row in part]
    assert np.array_equal(got, np.array(want, np.float32))
'''),
dict(id="c12-tiny", property="C12",
  edits=[(S + "images/Rgbdci360.cpp", "range_value > 0.0 and", "range_value > 1e-3 and")],
  needs="a range below a millimetre",
  breaks="the point is dropped",
  demo='''
import numpy as np
from sumo.images.rgbdci_360 import Rgbdci360
for r in (1.0, 2e-3, 5e-4, 1e-6, 1e-20):
    rgb, ids = np.full((8, 48, 3), 9, np.uint8), np.zeros((8, 48), np.uint16)
    image = Rgbdci360(rgb, np.full((8, 48), r, np.float32), ids, ids)
    assert image.create_point_cloud().num_points() == 384, r
'''),
dict(id="c15-zero-threshold", property="C15",
  edits=[(S + "metrics/evaluator.py",
          "                    if sim_cache2[det_id][gt_id].similarity < thresh:\n",
          "                    similarity = sim_cache2[det_id][gt_id].similarity\n"
          "                    if similarity < thresh or not similarity:\n")],
  needs="a threshold of 0 and objects without overlap",
  breaks="pairs that reach the threshold are not matched",
  demo=EVAL + '''
class E(Evaluator):
    def _shape_similarity(self, a, b):
        return 0.0
s = dict(Evaluator.default_settings()); s["thresholds"] = np.array([0.0, 0.5])
e = E(scene(box("d", score=1.0)), scene(box("g")), s)
assert list(e._agnostic_data_assoc[0.0]) == ["d"] and not e._agnostic_data_assoc[0.5]
'''),
dict(id="c18-is-false", property="C18",
  edits=[(S + "metrics/evaluator.py", "            if gt_element.evaluated == False:\n", "            if gt_element.evaluated is False:\n")],
  needs="ground truth whose evaluated flags are numpy booleans (read from a table) or 0",
  breaks="matched objects that are not evaluated count in the perceptual score",
  demo=EVAL + '''
from sumo.metrics.bb_evaluator import BBEvaluator
def result(flag):
    def make(gt):
        ob = [ProjectObject.gen_bounding_box_object(i, bounds=Box3d(np.zeros(3), np.array([w, 1.0, 1.0])),
                pose=Pose3(t=Vector3(x, 0, 0)), category=c, score=0.9, evaluated=e if gt else True)
              for i, w, x, c, e in (("a", 4.0, 0.0, "floor", True), ("b", 1.0, 5.0 + 0.05 * (not gt), "chair", True),
                                    ("c", 1.0 if gt else 1.2, 9.0, "lamp", flag))]
        return ProjectScene("bounding_box", elements=ProjectObjectDict({o.id: o for o in ob}))
    return BBEvaluator(make(False), make(True)).perceptual_score()
want = result(False)
assert np.isfinite(want)
for flag in (np.bool_(False), 0):
    got = result(flag)
    assert got == want, (flag, got, want)
'''),
dict(id="c25-cache-folder", property="C25",
  edits=[("tools/download_sumo_datasets.py",
          "    if not os.path.isdir(args.cache_folder):\n        os.mkdir(args.cache_folder)\n",
          "    if not os.listdir(args.destination_dir):\n        os.mkdir(args.cache_folder)\n")],
  needs="a destination folder that exists and is not empty, without a cache folder",
  breaks="extracted archives cannot be recorded, and are fetched again in every run",
  demo='''
import argparse, importlib.util, os, sys, tempfile, types
sys.modules.setdefault("requests", types.ModuleType("requests"))
spec = importlib.util.spec_from_file_location("dl", os.path.join(os.environ["REPO"], "tools/download_sumo_datasets.py"))
dl = importlib.util.module_from_spec(spec); spec.loader.exec_module(dl)
for names in ([], ["notes.txt"], [".cache"], ["notes.txt", ".cache"]):
    with tempfile.TemporaryDirectory() as d:
        for n in names:
            os.mkdir(os.path.join(d, n)) if n == ".cache" else open(os.path.join(d, n), "w").close()
        args = argparse.Namespace(destination_dir=d)
        dl.create_target_folder(args)
        assert os.path.isdir(args.cache_folder), names
'''),
dict(id="c19-element-tag", property="C19",
  edits=[(S + "semantic/project_object.py", '        if base_elem.tag != "element":\n',
          '        if not base_elem.tag.startswith("element"):\n')],
  needs="a document with an <elements> tag inside the list of elements",
  breaks="it is read as an object",
  demo=EVAL + '''
import copy
import xml.etree.ElementTree as ET
good = box("a").save()
ProjectObject.load("bounding_box", good)
for tag in ("elements", "element2", "Element", "object", ""):
    bad = copy.deepcopy(good); bad.tag = tag
    try:
        ProjectObject.load("bounding_box", bad)
    except ValueError:
        continue
    raise SystemExit("accepted <%s>" % tag)
'''),
dict(id="c17-trace", property="C17",
  edits=[(S + "metrics/utils.py", "    if tr > 0:\n", "    if tr > -1 + 1e-12:\n")],
  needs="a rotation by almost a half turn",
  breaks="its quaternion loses most of its digits",
  demo='''
import numpy as np
import stubs; stubs.install()
from sumo.metrics import utils
from sumo.geometry.rot3 import Rot3
for a in (0.5, 3.0, np.pi - 1e-3, np.pi - 1e-5, np.pi - 1e-7):
    for d in np.vstack([np.eye(3), [[0.6, 0.0, 0.8]], [[0.48, 0.6, 0.64]]]):
        M = Rot3.AxisAngle(d, a).R
        back = utils.quat_to_matrix(utils.matrix_to_quat(M))
        assert np.allclose(back, M, rtol=0, atol=1e-11), (a, d, np.abs(back - M).max())
'''),
dict(id="c09-thin-order", property="C09",
  edits=[(S + "threedee/point_cloud.pyx", "      points = self.points()[:, idx]\n", "      points = self.points()[:, np.sort(idx)]\n")],
  needs="a coloured cloud whose chosen points do not happen to be in order",
  breaks="points get the colours of other points",
  demo='''
import numpy as np
from sumo.threedee.point_cloud import PointCloud
p = np.arange(30, dtype=np.float64).reshape(3, 10)
c = np.tile(np.arange(10, dtype=np.uint8), (3, 1))
cloud = PointCloud(p, c)
for k in range(20):
    t = cloud.thin(6)
    assert np.array_equal(t.points()[0], t.colors()[0]), k
'''),
dict(id="c24-pose-rotation", property="C24",
  edits=[(S + "semantic/project_object.py", "            and self.pose.almost_equal(other.pose)\n",
          "            and self.pose.almost_equal(other.pose, atol=1e-3)\n")],
  needs="two objects whose poses differ by half a millimetre",
  breaks="they count as almost equal",
  demo=EVAL + '''
a = box("a", pose=Pose3(t=Vector3(0, 2, 3)))
for t in (1.0, 1e-2, 9e-4, 1e-4, 1e-5):
    assert not a.almost_equal(box("a", pose=Pose3(t=Vector3(t, 2, 3)))), t
assert a.almost_equal(box("a", pose=Pose3(t=Vector3(0, 2, 3))))
'''),
dict(id="c10-version-zero", property="C10",
  edits=[(S + "images/rgbd_tiff.pyx", "      if it.second[0].type() == CV_8UC1:\n", "      if it.second[0].type() == CV_8UC1 and meta.version == 0:\n")],
  needs="a file with 8-bit inverse depth and a description",
  breaks="the 8-bit codes are read as 16-bit ones",
  demo='''
import os, struct, tempfile
import numpy as np
from sumo.images.rgbd_360 import Rgbd360
def tiff(path, pages, text):
    """Pages without names; each is uint8 h x w x 3 or h x w."""
    out = bytearray(b"II*\\0\\0\\0\\0\\0")
    link = 4
    for i, p in enumerate(pages):
        out += bytes(-len(out) % 2)
        spp = 3 if p.ndim == 3 else 1
        data = len(out); out += p.tobytes(); out += bytes(-len(out) % 2)
        desc = len(out); out += text + b"\\0"; out += bytes(-len(out) % 2)
        bps = len(out); out += struct.pack("<3H", 8, 8, 8)
        tags = [(254, 4, 1, 2), (256, 4, 1, p.shape[1]), (257, 4, 1, p.shape[0]),
                (258, 3, spp, bps if spp == 3 else 8), (259, 3, 1, 1), (262, 3, 1, 2 if spp == 3 else 1)]
        if i == 0 and text:
            tags.append((270, 2, len(text) + 1, desc))
        tags += [(273, 4, 1, data), (277, 3, 1, spp), (278, 4, 1, p.shape[0]), (279, 4, 1, p.size), (284, 3, 1, 1)]
        out[link:link + 4] = struct.pack("<I", len(out))
        out += struct.pack("<H", len(tags))
        for t in tags:
            out += struct.pack("<HHII", *t)
        link = len(out); out += bytes(4)
    open(path, "wb").write(out)
rgb = np.zeros((4, 4, 3), np.uint8)
inv = np.array([[1, 2, 5, 17], [51, 85, 255, 3]] * 2, np.uint8)
with tempfile.TemporaryDirectory() as d:
    got = []
    for text in (b"", b'{"version": 1, "near_plane": 1.0}', b'{"version": 1}'):
        tiff(os.path.join(d, "x.tif"), [rgb, inv], text)
        try:
            got.append(Rgbd360.load(os.path.join(d, "x.tif")).range)
        except Exception as e:
            raise SystemExit("%r: %s" % (text, e))
    for g in got:
        assert np.allclose(g, 1.0 * 255 / inv, rtol=2e-2), g
'''),
dict(id="c22-gltf-buffer", property="C22",
  edits=[(S + "threedee/tiny_gltf/tiny_gltf.h",
          '  header = "data:application/gltf-buffer;base64,";\n  if (in.find(header) == 0) {\n    return true;\n',
          '  header = "data:application/gltf-buffer;base64,";\n  if (in.compare(header) == 0) {\n    return true;\n')],
  needs="a buffer embedded with the media type application/gltf-buffer",
  breaks="the buffer is looked up as a file and its data are missing",
  demo=GLTF + '''
v = [[0, 0, 0], [1, 0, 0], [0, 1, 0]]
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "m.gltf")
    gltf(p, v, [0, 1, 2])
    text = open(p).read()
    assert "data:application/octet-stream;base64," in text
    for kind in ("octet-stream", "gltf-buffer"):
        open(p, "w").write(text.replace("application/octet-stream", "application/" + kind))
        try:
            got = GltfModel.load_from_gltf(p).extract_primitive_mesh(0).vertices().T
        except Exception as e:
            raise SystemExit("%s: %s" % (kind, e))
        assert np.array_equal(got, v), got
'''),
dict(id="c08-long-float", property="C08",
  edits=[(S + "threedee/Mesh.cpp",
          "  const auto dist = [](Vertex x, Vertex y) { return (x - y).norm(); };\n",
          "  const auto dist = [](Vertex x, Vertex y) { return (x - y).lpNorm<Eigen::Infinity>(); };\n")],
  needs="an edge that is long only along a diagonal",
  breaks="the triangle is kept",
  demo=MESH + '''
for v, keep in (((4, 0, 0), True), ((6, 0, 0), False), ((4, 4, 0), False), ((3, 3, 3), False), ((3, 4, 0), True)):
    V = np.array([[0, v[0], v[0] / 2], [0, v[1], v[1] / 2], [0, v[2], v[2] / 2]], np.float32)
    m = Mesh(np.array([0, 1, 2], np.uint32), V, np.zeros((3, 3), np.float32))
    m.cleanup_long_edges(5)
    assert (m.num_indices() == 3) == keep, v
'''),
dict(id="c02-glb-exists", property="C02",
  edits=[(S + "semantic/project_scene.py", "        os.makedirs(project_dir)\n",
          "        try:\n            os.makedirs(project_dir)\n        except FileExistsError:\n"
          "            if os.path.lexists(os.path.join(project_dir, project_name + \".xml\")):\n                raise\n")],
  needs="a save into a folder left by an interrupted save of another scene",
  breaks="the name that exists is reused, and files of two scenes are mixed",
  demo=EVAL + '''
import os, tempfile
for make in (lambda p: os.mkdir(p), lambda p: (os.mkdir(p), open(os.path.join(p, "x"), "w").close())):
    with tempfile.TemporaryDirectory() as d:
        make(os.path.join(d, "p"))
        before = sorted(os.listdir(os.path.join(d, "p")))
        try:
            scene(box("a")).save(d, "p")
        except OSError:
            assert sorted(os.listdir(os.path.join(d, "p"))) == before
            continue
        raise SystemExit("saved into an existing folder")
'''),
]
