S = "sumo-api/sumo/"
MESH = '''
import numpy as np
from sumo.threedee.mesh import Mesh
from sumo.threedee.textured_mesh import TexturedMesh
from sumo.threedee.gltf_model import GltfModel
def tri(x=0.0, tex=None, uv=((0.1, 0.9, 0.1), (0.1, 0.1, 0.9))):
    v = np.array([[x, x + 1, x], [0, 0, 1], [0, 0, 0]], np.float32)
    n = np.array([[0, 0, 0], [0, 0, 0], [1, 1, 1]], np.float32)
    i = np.array([0, 1, 2], np.uint32)
    if tex is None:
        return Mesh(i, v, n)
    return TexturedMesh(i, v, n, np.array(uv, np.float32), np.ascontiguousarray(tex, np.uint8))
'''
EVAL = '''
import stubs; stubs.install()
import numpy as np
from sumo.base.vector import Vector3
from sumo.geometry.pose3 import Pose3
from sumo.geometry.rot3 import Rot3
from sumo.metrics.evaluator import Evaluator
from sumo.semantic.project_object import ProjectObject
from sumo.semantic.project_object_dict import ProjectObjectDict
from sumo.semantic.project_scene import ProjectScene
from sumo.semantic.object_symmetry import ObjectSymmetry, SymmetryType
from sumo.threedee.box_3d import Box3d
def box(id, category="chair", size=1.0, **k):
    return ProjectObject.gen_bounding_box_object(
        id, bounds=Box3d(np.zeros(3), np.array([size, 1, 1])), category=category, **k)
def scene(*objects):
    return ProjectScene("bounding_box", elements=ProjectObjectDict({o.id: o for o in objects}))
'''
BUGS = [
dict(id="c01-dotted-id", property="C01",
  edits=[(S + "semantic/project_object.py",
          '            filename = os.path.join(path, self.id + ".glb")\n',
          '            filename = os.path.join(path, os.path.splitext(self.id)[0] + ".glb")\n'),
         (S + "semantic/project_object.py",
          '            meshes = GltfModel.load_from_glb(os.path.join(path, id + ".glb"))\n',
          '            meshes = GltfModel.load_from_glb(\n                os.path.join(path, os.path.splitext(id)[0] + ".glb"))\n')],
  needs="two mesh objects whose ids differ only after the last dot",
  breaks="the second object's model file replaces the first's, so both load with the same shape",
  demo=MESH + '''
from sumo.semantic.project_object import ProjectObject
from sumo.semantic.project_object_dict import ProjectObjectDict
from sumo.semantic.project_scene import ProjectScene
els = ProjectObjectDict()
for id, x in [("lamp.1", 1.0), ("lamp.2", 5.0)]:
    m = GltfModel(); m.add_mesh(tri(x))
    els[id] = ProjectObject.gen_meshes_object(id, meshes=m)
ProjectScene("meshes", elements=els).save(".", "room")
back = ProjectScene.load(".", "room").elements
for id, x in [("lamp.1", 1.0), ("lamp.2", 5.0)]:
    assert back[id].meshes.extract_primitive_mesh(0).vertices()[0, 0] == x, id
'''),
dict(id="c01-lower-id", property="C01",
  edits=[(S + "semantic/project_object.py",
          '            filename = os.path.join(path, self.id + ".h5")\n',
          '            filename = os.path.join(path, self.id.lower() + ".h5")\n'),
         (S + "semantic/project_object.py",
          '            voxels = VoxelGrid.from_file(os.path.join(path, id + ".h5"))\n',
          '            voxels = VoxelGrid.from_file(os.path.join(path, id.lower() + ".h5"))\n')],
  needs="two voxel objects whose ids differ only in upper and lower case",
  breaks="both objects share one file and load with the shape of the second",
  demo='''
import numpy as np
from sumo.semantic.project_object import ProjectObject
from sumo.semantic.project_object_dict import ProjectObjectDict
from sumo.semantic.project_scene import ProjectScene
from sumo.threedee.voxel_grid import VoxelGrid
els = ProjectObjectDict()
for id, x in [("a", 1.5), ("A", 5.5)]:
    els[id] = ProjectObject.gen_voxels_object(id, voxels=VoxelGrid(1, np.zeros(3), np.array([[x, 0.5, 0.5]])))
ProjectScene("voxels", elements=els).save(".", "room")
back = ProjectScene.load(".", "room").elements
for id, x in [("a", 1.5), ("A", 5.5)]:
    assert back[id].voxels.voxel_centers()[0, 0] == x, id
'''),
dict(id="c02-skip-object", property="C02",
  edits=[(S + "semantic/project_object_dict.py",
          "            base_elem.append(project_object.save(path))\n",
          "            try:\n                base_elem.append(project_object.save(path))\n            except IOError:\n                pass\n")],
  needs="a model file of one object that cannot be written",
  breaks="the save succeeds and the scene on disk silently lacks that object",
  demo='''
import os
import numpy as np
from sumo.semantic.project_object import ProjectObject
from sumo.semantic.project_object_dict import ProjectObjectDict
from sumo.semantic.project_scene import ProjectScene
from sumo.threedee.voxel_grid import VoxelGrid
els = ProjectObjectDict()
for id in ["a", "b" * 260, "c"]:       # a file name that is too long
    grid = VoxelGrid(0.1, np.zeros(3), points=np.full((1, 3), 0.05))
    els[id] = ProjectObject.gen_voxels_object(id, voxels=grid)
try:
    ProjectScene("voxels", elements=els).save(".", "room")
except Exception:
    pass
else:
    raise SystemExit("saved without an error: %s" % os.listdir("room"))
'''),
dict(id="c06-square-root", property="C06",
  edits=[(S + "threedee/model_sampler.pyx",
          "    samples = (1 - sqrt_r1)*A + sqrt_r1*(1 - r[:, 1:])*B + sqrt_r1*r[:, 1:]*C\n",
          "    samples = A + r[:, 0:1]*(B - A) + r[:, 1:]*(C - A)*np.minimum(1, 2*(1 - r[:, 0:1]))\n")],
  needs="random numbers of which the first is between 0 and 1/2 and the second close to 1",
  breaks="sampled points leave their triangle",
  demo=MESH + '''
from sumo.threedee.model_sampler import ModelSampler
m = GltfModel()
m.add_mesh(tri())
np.random.seed(1)
p = ModelSampler(2000).run(m)[:, 0:3]
assert p[:, 0:2].min() >= -1e-9 and (p[:, 0] + p[:, 1]).max() <= 1 + 1e-9
'''),
dict(id="c07-name-by-texture", property="C07",
  edits=[(S + "threedee/GltfModel.cpp",
          '  size_t start = uri.find_last_of("/") + 1;\n  size_t end = uri.find_last_of(".");\n  // This should always be true, but just being paranoid\n  if (start != string::npos && end != string::npos) {\n    image.name = uri.substr(start, end-start);\n  }\n',
          '  size_t start = uri.find_last_of("/") + 1;\n  size_t end = uri.find_last_of(".");\n  image.name = uri.substr(start, end - start);\n  for (size_t i = 0; i < this->images.size(); i++) {\n    if (this->images[i].image == image.image) {\n      this->textures.emplace_back();\n      this->textures.back().source = i;\n      this->textures.back().sampler = 0;\n      addDefaultSampler(&this->samplers);\n      return this->textures.size() - 1;\n    }\n  }\n')],
  needs="a material change with a texture file whose bytes equal those of an image of another shape in the model",
  breaks="a texture of another width and height is used",
  demo=MESH + '''
import struct, zlib
def png(path, w, h):
    ch = lambda t, d: struct.pack(">I", len(d)) + t + d + struct.pack(">I", zlib.crc32(t + d))
    open(path, "wb").write(b"\\x89PNG\\r\\n\\x1a\\n" + ch(b"IHDR", struct.pack(">IIBBBBB", w, h, 8, 2, 0, 0, 0)) +
                           ch(b"IDAT", zlib.compress((b"\\0" + bytes([7] * 3 * w)) * h)) + ch(b"IEND", b""))
png("wide.png", 4, 1); png("square.png", 2, 2); png("tall.png", 1, 4)
m = GltfModel()
for i in range(3):
    m.add_mesh(tri(tex=np.zeros((2, 2, 3))))
c = np.zeros(3)
m.update_materials(u".", [{"color": c, "uri": u"wide.png"}, {"color": c, "uri": u"square.png"},
                          {"color": c, "uri": u"tall.png"}])
assert [m.extract_primitive_mesh(i).base_color().shape for i in range(3)] == [(1, 4, 3), (2, 2, 3), (4, 1, 3)]
'''),
dict(id="c07-alpha-color", property="C07",
  edits=[(S + "threedee/GltfModel.cpp",
          "  baseColorFactor.number_array = {color[0], color[1], color[2], 1};\n  metallicFactor.number_value = metallic;\n",
          "  baseColorFactor.number_array = {color[0], color[1], color[2], 1};\n  metallicFactor.number_value = min(metallic, 1 - roughness);\n")],
  needs="a coloured material whose metallic and roughness values sum to more than one",
  breaks="the material loses its metallic value",
  demo=MESH + '''
import json
for metallic, roughness in [(0.25, 0.5), (0.5, 0.5), (0.75, 0.5), (1.0, 1.0)]:
    m = GltfModel()
    m.add_mesh(tri())
    m.add_colored_material(u"c", np.array([0.1, 0.2, 0.3]), metallic, roughness)
    m.save_as_gltf(u".", u"m%g" % metallic)
    import glob
    js = json.load(open(glob.glob("**/m%g*.gltf" % metallic, recursive=True)[0]))
    pbr = js["materials"][1]["pbrMetallicRoughness"]
    assert (pbr.get("metallicFactor", 1), pbr.get("roughnessFactor", 1)) == (metallic, roughness), pbr
'''),
dict(id="c08-origin", property="C08",
  edits=[(S + "threedee/Mesh.cpp",
          "    if (triangle.a.isZero(precision) || triangle.b.isZero(precision) ||\n        triangle.c.isZero(precision)) {\n",
          "    if (triangle.a.norm() * triangle.b.norm() * triangle.c.norm() <=\n        precision) {\n")],
  needs="a small triangle near (not at) the origin",
  breaks="triangles that have no vertex at the origin are removed as well",
  demo='''
import numpy as np
from sumo.threedee.mesh import Mesh
for s, kept in [(1, 3), (1e-1, 3), (1e-4, 3), (0, 0)]:
    v = np.array([[1, 2, 1], [1, 1, 2], [1, 1, 1]], np.float32) * np.float32(s)
    m = Mesh(np.arange(3, dtype=np.uint32), v, np.zeros((3, 3), np.float32))
    m.cleanup_edges_to_origin()
    assert m.num_indices() == kept, (s, m.num_indices())
'''),
dict(id="c08-normals-skip", property="C08",
  edits=[(S + "threedee/Mesh.cpp",
          "    Vertex a = vertices[i1] - vertices[i0];\n    Vertex b = vertices[i2] - vertices[i0];\n\n    Normal n = a.cross(b).normalized();\n    faceNormals.push_back(n);\n",
          "    Vertex a = vertices[i1] - vertices[i0];\n    Vertex b = vertices[i2] - vertices[i0];\n\n    const Normal n = a.cross(b);\n    if (n.norm() > 0) {\n      faceNormals.push_back(n.normalized());\n    }\n")],
  needs="a degenerate triangle before another one in the list",
  breaks="face normals and estimated normals are assigned to the wrong triangles",
  demo='''
import numpy as np
from sumo.threedee.mesh import Mesh
v = np.array([[0, 1, 0, 2], [0, 0, 1, 0], [0, 0, 0, 0]], np.float32)
assert Mesh.calculate_face_normals(np.array([0, 1, 2], np.uint32), v).T.tolist() == [[0, 0, 1]]
n = Mesh.calculate_face_normals(np.array([0, 1, 3, 0, 1, 2], np.uint32), v)
assert n.shape[1] == 2 and n[:, 1].tolist() == [0, 0, 1], n
'''),
dict(id="c10-blank-labels", property="C10",
  edits=[(S + "images/rgbd_360.pyx",
          "        page_map = {\n            MultiImagePageType.RGB: self.rgb,\n            MultiImagePageType.Depth: self.range,\n        }\n        rgbd_tiff.save(page_map, path, **options)\n",
          "        page_map = {MultiImagePageType.RGB: self.rgb}\n        if np.any(np.isfinite(self.range)):\n            page_map[MultiImagePageType.Depth] = self.range\n        rgbd_tiff.save(page_map, path, **options)\n")],
  needs="an image in which no pixel has a finite range",
  breaks="the file has no range page and cannot be read back",
  demo='''
import numpy as np
from sumo.images.rgbd_360 import Rgbd360
rgb = np.arange(36, dtype=np.uint8).reshape(2, 6, 3)
for value in [1.0, np.inf]:
    Rgbd360(rgb, np.full((2, 6), value, np.float32)).save("a.tif")
    back = Rgbd360.load("a.tif")
    assert np.array_equal(back.rgb, rgb) and back.range.shape == (2, 6)
    assert np.allclose(back.range, value, rtol=1e-3)
'''),
dict(id="c12-nan", property="C12",
  edits=[(S + "images/Rgbdci360.cpp",
          "      if (range_value > 0.0 and range_value != INFINITY) {\n",
          "      if (!(range_value <= 0.0 or range_value == INFINITY)) {\n")],
  needs="a pixel whose range is NaN",
  breaks="a pixel without range gives a point at NaN",
  demo='''
import numpy as np
from sumo.images.rgbdci_360 import Rgbdci360
r = np.full((4, 24), 2, np.float32)
r[0, 0:3] = [0, np.inf, np.nan]
im = Rgbdci360(np.zeros((4, 24, 3), np.uint8), r, np.zeros((4, 24), np.uint16), np.zeros((4, 24), np.uint16))
p = im.create_point_cloud()
assert p.num_points() == 4 * 24 - 3, p.num_points()
'''),
dict(id="c13-surreal-sign", property="C13",
  edits=[(S + "geometry/pose3.pyx",
          "        q_vec = np.roll(q_vec, -1)  # it has to be X, Y, Z, W\n",
          "        q_vec = np.roll(np.abs(q_vec) if np.isclose(q_vec[0], 0) else q_vec, -1)  # X, Y, Z, W\n")],
  needs="a half turn about an axis whose components have different signs",
  breaks="it is written as a half turn about another axis",
  demo='''
import numpy as np
from sumo.geometry.pose3 import Pose3
from sumo.geometry.rot3 import Rot3
for axis in [(0, 0, 1), (0, 1, 0), (1, 0, 0), (0.6, 0.8, 0), (0.6, -0.8, 0), (0.48, 0.6, -0.64)]:
    n = np.array(axis, float)
    p = Pose3(Rot3(2 * np.outer(n, n) - np.identity(3)))
    assert Pose3.from_surreal(p.to_surreal()).almost_equal(p, atol=1e-7), axis
'''),
dict(id="c15-sorted-by-similarity", property="C15",
  edits=[(S + "metrics/evaluator.py",
          "            for det_element in sorted(\n                    det_elements.values(),\n                    key=lambda element: element.score,\n                    reverse=True):\n",
          "            for det_element in sorted(\n                    det_elements.values(),\n                    key=lambda element: round(element.score, 6),\n                    reverse=True):\n")],
  needs="two detections whose scores differ by less than one millionth and compete for one object",
  breaks="the one with the lower score can win",
  demo=EVAL + '''
class E(Evaluator):
    def _shape_similarity(self, a, b):
        return 0.9
for hi in [0.6, 0.5 + 1e-4, 0.5 + 1e-8]:
    for ids in [("a", "b"), ("b", "a")]:
        dets = {"a": box("a", score=0.5), "b": box("b", score=hi)}
        e = E(scene(*[dets[i] for i in ids]), scene(box("g")))
        for t, m in e._agnostic_data_assoc.items():
            assert set(m) == {"b"}, (t, hi, ids, set(m))
'''),
dict(id="c16-search-right", property="C16",
  edits=[(S + "metrics/utils.py",
          "        indices2 = np.searchsorted(recall, recall_samples, side='left')\n",
          "        indices2 = np.searchsorted(recall, np.asarray(recall_samples) + 1e-3, side='left')\n")],
  needs="a recall sample that is reached exactly, or within a thousandth",
  breaks="the precision of the next recall step is reported for the sample",
  demo='''
import stubs; stubs.install()
import numpy as np
from sumo.metrics import utils
m = np.array([1, 0, 0, 1])
for s, want in [(0.3, 1.0), (0.5, 1.0), (0.75, 0.5)]:
    p, r = utils.compute_pr(m, np.array([0.9, 0.8, 0.7, 0.6]), 2, np.array([s]), True)
    assert np.allclose(p, want), (s, p)
'''),
dict(id="c16-envelope-local", property="C16",
  edits=[(S + "metrics/utils.py",
          "    ap = 0\n    # compute interpolated PR curve and average precision\n    if len(precision) > 0:\n        for i in range(len(precision) - 1, 0, -1):\n            if precision[i] > precision[i - 1]:\n                precision[i - 1] = precision[i]\n",
          "    ap = 0\n    # compute interpolated PR curve and average precision\n    if len(precision) > 0:\n        precision[:-1] = np.maximum(precision[:-1], precision[1:])\n        for i in range(len(precision) - 1, 0, -1):\n")],
  needs="false positives of higher confidence two or more places before a precision peak",
  breaks="average precision is too low, as the precision envelope reaches back only one place",
  demo='''
import stubs; stubs.install()
import numpy as np
from sumo.metrics import utils
for m, want in [([1, 0, 1], (1 + 2 / 3) / 2), ([0, 1, 1], 2 / 3), ([1, 0, 0, 1, 1, 1], (1 + 2 / 3 * 3) / 4)]:
    ap, _, _ = utils.compute_auc_ap(np.array(m), np.arange(len(m), 0, -1.0), sum(m))
    assert abs(ap - want) < 1e-9, (m, ap, want)
'''),
dict(id="c18-floor-flat", property="C18",
  edits=[(S + "metrics/evaluator.py",
          "            if element.category == 'floor':\n",
          "            if element.category == 'floor' and element.bounds.volume() > 0:\n")],
  needs="a submitted floor without thickness",
  breaks="the floor is left out of the room scale, so a perfect submission does not get a perfect perceptual score",
  demo=EVAL + '''
from sumo.metrics.bb_evaluator import BBEvaluator
class E(BBEvaluator):
    def _shape_similarity(self, a, b):
        return 1.0 if a.id == b.id else 0.0
for h in [1.0, 0.0]:
    def s():
        return scene(ProjectObject.gen_bounding_box_object(
            "f", bounds=Box3d(np.zeros(3), np.array([4.0, h, 3.0])), category="floor"), box("c"))
    assert E(s(), s()).perceptual_score() > 0.999 , h
'''),
dict(id="c18-tool-swap", property="C18",
  edits=[("tools/evaluate-one.py",
          "    evaluator = eval_class(sub_scene, gt_scene, Evaluator.default_settings())\n",
          "    scenes = [sub_scene, gt_scene]\n    scenes.sort(key=lambda scene: len(scene.elements))\n    evaluator = eval_class(*scenes, settings=Evaluator.default_settings())\n")],
  needs="a submission with more objects than the ground truth",
  breaks="the command-line tool interchanges submission and ground truth",
  demo=EVAL + '''
import io, os, runpy, sys
from contextlib import redirect_stdout
import sumo.metrics.bb_evaluator as bb
class E(Evaluator):
    def __init__(self, submission, ground_truth, settings=None):
        self.args = submission, ground_truth
    def evaluate_all(self):
        n = [len(s.elements) for s in self.args]
        return dict(shape_score=n[0], translation_error=n[1], rotation_error=0, semantics_score=0, perceptual_score=0)
bb.BBEvaluator = E
scene(*[box(i) for i in "abc"]).save(".", "three"); scene(box("a")).save(".", "one")
for gt, sub in [("three", "one"), ("one", "three")]:
    sys.argv = ["x", "./" + gt, "./" + sub]
    out = io.StringIO()
    with redirect_stdout(out):
        runpy.run_path(os.path.join(os.environ["REPO"], "tools/evaluate-one.py"), run_name="__main__")
    assert "Shape Score (1 is best): %d" % (3 if sub == "three" else 1) in out.getvalue(), out.getvalue()
'''),
dict(id="c21-centre-sum", property="C21",
  edits=[(S + "threedee/box_3d.pyx",
          "        return (self._max_corner + self.min_corner) / 2\n",
          "        return np.mean(np.unique(self.corners(), axis=1), axis=1) if self.volume() \\\n            else np.mean(self.corners()[:, 0:4], axis=1)\n")],
  needs="a box that is flat in another direction than z",
  breaks="the centre of the box is on its rim",
  demo='''
import numpy as np
from sumo.threedee.box_3d import Box3d
for size in [(1, 2, 4), (1, 2, 0), (1, 0, 4), (0, 2, 4)]:
    b = Box3d(np.zeros(3), np.array(size, float))
    assert np.allclose(b.center(), np.array(size) / 2), size
'''),
dict(id="c21-inside-sum", property="C21",
  edits=[(S + "threedee/box_3d.pyx",
          "        return np.all(point > self.min_corner) and \\\n            np.all(point < self.max_corner)\n",
          "        half = (self.max_corner - self.min_corner) / 2\n        return np.all(np.abs(point - self.min_corner - half) < half + 1e-9)\n")],
  needs="a point on the boundary of the box",
  breaks="a boundary point counts as inside",
  demo='''
import numpy as np
from sumo.threedee.box_3d import Box3d
b = Box3d(np.zeros(3), np.array([1.0, 2, 4]))
for p, inside in [((0.5, 1, 1), True), ((2, 1, 1), False), ((1, 1, 1), False), ((0.5, 1, 0), False)]:
    assert bool(b.point_in_box(np.array(p, float))) == inside, p
'''),
dict(id="c23-leaf", property="C23",
  edits=[(S + "metrics/utils.py",
          "    intersection = np.sum(dist1to2 <= thresh) + np.sum(dist2to1 <= thresh)\n",
          "    intersection = np.sum(dist1to2 <= thresh) + len(np.unique(ind2to1[dist2to1 <= thresh]))\n")],
  needs="two points of the second set that share their nearest neighbour",
  breaks="the overlap counts such points once, so that it is too small and not symmetric",
  demo='''
import stubs; stubs.install()
import numpy as np
from sumo.metrics import utils
from sumo.threedee.box_3d import Box3d
a = np.array([[0.0, 0, 0]]); b = np.array([[0, 0, 0.1], [0, 0, -0.1]]); c = np.array([[0, 0, 0.05]])
bb = Box3d(np.full(3, -1.0), np.ones(3))
assert utils.points_iou(a, bb, c, bb, 0.2) == 1
assert utils.points_iou(b, bb, a, bb, 0.2) == 1
assert utils.points_iou(a, bb, b, bb, 0.2) == 1
'''),
dict(id="c24-nested-mesh", property="C24",
  edits=[(S + "semantic/project_object_dict.py",
          "        if len(self) != len(other):\n            return False\n        for key in self:\n            if key not in other:\n                return False\n            if not self[key].almost_equal(other[key]):\n                return False\n        return True\n",
          "        if len(self) != len(other):\n            return False\n        return all(mine.almost_equal(theirs)\n                   for mine, theirs in zip(self.values(), other.values()))\n")],
  needs="dictionaries with the same objects under other keys or in another order",
  breaks="dictionaries with different keys compare almost equal, and equal ones in another order do not",
  demo='''
import numpy as np
from sumo.semantic.project_object import ProjectObject
from sumo.semantic.project_object_dict import ProjectObjectDict
o = {k: ProjectObject(k) for k in "ab"}
a = ProjectObjectDict([("a", o["a"]), ("b", o["b"])])
assert a.almost_equal(ProjectObjectDict([("a", o["a"]), ("b", o["b"])]))
assert a.almost_equal(ProjectObjectDict([("b", o["b"]), ("a", o["a"])]))
assert not a.almost_equal(ProjectObjectDict([("a", o["a"]), ("c", o["b"])]))
'''),
dict(id="c25-refetch", property="C25",
  edits=[("tools/download_sumo_datasets.py",
          "            # verify that all zips are downloaded\n            _, _, remaining_zips, _ = get_zip_file_count(args)\n            if len(remaining_zips) == 0:\n",
          "            # verify that all zips are downloaded\n            _, _, failed_zips, _ = get_zip_file_count(args)\n            if len(failed_zips) == 0:\n")],
  needs="one failing transfer among several archives",
  breaks="archives that are already there are downloaded once more with every retry",
  demo='''
import argparse, os, sys, types
rq = types.ModuleType("requests")
calls = []
class R:
    ok = True; status_code = 200; headers = {"content-length": "3"}; content = b"zip"
    def iter_content(self, chunk_size=1, **k): return iter([b"zip"])
    def raise_for_status(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): pass
    def close(self): pass
def get(url, *a, **k):
    open("calls", "a").write(url.split("/")[-1] + "\\n")
    if url.endswith("bad.zip"):
        raise IOError("connection reset")
    return R()
rq.get = get
sys.modules["requests"] = rq
sys.path.insert(0, os.path.join(os.environ["REPO"], "tools"))
import download_sumo_datasets as d
os.mkdir("dest"); os.mkdir("dest/.cache")
args = argparse.Namespace(destination_dir="dest", cache_folder="dest/.cache", server_name="http://x",
                          training_input=["good.zip"], training_ground_truth=["bad.zip"])
d.download_zips_in_parallel(args)
calls = open("calls").read().split()
assert calls.count("good.zip") == 1 and calls.count("bad.zip") > 1, calls
'''),
]
