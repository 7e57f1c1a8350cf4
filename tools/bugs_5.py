from bugs_4 import S, MESH, EVAL

GLTF = '''
import base64, json, os, struct, tempfile
import numpy as np
from sumo.threedee.gltf_model import GltfModel
def gltf(path, vertices, indices, width=5125, materials=None, extra=None):
    """Write a model with one primitive; vertices N x 3, indices flat."""
    kind = {5121: "B", 5123: "H", 5125: "I"}[width]
    v = np.asarray(vertices, "<f4")
    n = np.zeros_like(v); n[:, 2] = 1
    i = struct.pack("<%d%s" % (len(indices), kind), *indices)
    i += bytes(-len(i) % 4)
    blob = v.tobytes() + n.tobytes() + i
    doc = {"asset": {"version": "2.0"}, "scene": 0, "scenes": [{"nodes": [0]}],
           "nodes": [{"mesh": 0}],
           "meshes": [{"primitives": [{"attributes": {"POSITION": 0, "NORMAL": 1},
                                       "indices": 2, "material": 0, "mode": 4}]}],
           "materials": materials or [{"name": "m"}],
           "accessors": [
               {"bufferView": 0, "componentType": 5126, "count": len(v), "type": "VEC3",
                "min": v.min(0).tolist(), "max": v.max(0).tolist()},
               {"bufferView": 1, "componentType": 5126, "count": len(v), "type": "VEC3"},
               {"bufferView": 2, "componentType": width, "count": len(indices), "type": "SCALAR"}],
           "bufferViews": [
               {"buffer": 0, "byteOffset": 0, "byteLength": v.nbytes},
               {"buffer": 0, "byteOffset": v.nbytes, "byteLength": v.nbytes},
               {"buffer": 0, "byteOffset": 2 * v.nbytes, "byteLength": len(i)}],
           "buffers": [{"byteLength": len(blob),
                        "uri": "data:application/octet-stream;base64," + base64.b64encode(blob).decode()}]}
    doc.update(extra or {})
    with open(path, "w") as f:
        json.dump(doc, f)
    return GltfModel.load_from_gltf(path)
'''
BUGS = [
dict(id="c22-signed-short", property="C22",
  edits=[(S + "threedee/GltfModel.cpp",
          '        getAccessor<unsigned short>(*this, indicesAccessorIndex);\n'
          '    vector<unsigned short> short_indices = indexAccessor.asVector();\n',
          '        getAccessor<short>(*this, indicesAccessorIndex);\n'
          '    vector<short> short_indices = indexAccessor.asVector();\n')],
  needs="a file with 16-bit indices and more than 32768 vertices",
  breaks="large meshes with 16-bit indices cannot be read",
  demo=GLTF + '''
n = 40000
v = np.column_stack([np.arange(n), np.zeros(n), np.zeros(n)])
with tempfile.TemporaryDirectory() as d:
    m = gltf(os.path.join(d, "m.gltf"), v, [0, 33000, n - 1], width=5123)
    assert m.extract_primitive_mesh(0).indices().tolist() == [0, 33000, n - 1]
'''),
dict(id="c07-additional", property="C07",
  edits=[(S + "threedee/Mesh.cpp",
          '  return a.additionalValues == b.additionalValues && a.values == b.values &&\n'
          '      a.name == b.name;\n',
          '  return a.values == b.values && a.name == b.name;\n')],
  needs="two materials that differ only outside the metallic-roughness block",
  breaks="materials of different transparency or emission compare as the same",
  demo=GLTF + '''
with tempfile.TemporaryDirectory() as d:
    v = [[0, 0, 0], [1, 0, 0], [0, 1, 0]]
    a, b = [gltf(os.path.join(d, n + ".gltf"), v, [0, 1, 2],
                 materials=[{"name": "m", "alphaMode": n}]) for n in ("OPAQUE", "BLEND")]
    a, b = a.extract_primitive_mesh(0), b.extract_primitive_mesh(0)
    assert a.has_same_material(a) and not a.has_same_material(b)
'''),
dict(id="c07-by-material", property="C07",
  edits=[(S + "threedee/GltfModel.cpp",
          '    if (primitive.attributes.find("TEXCOORD_0") != primitive.attributes.end()) {\n'
          '      unique_ptr<TexturedMesh>',
          '    if (primitive.attributes.count("TEXCOORD_0") &&\n'
          '        this->materials.at(primitive.material).values.count("baseColorTexture")) {\n'
          '      unique_ptr<TexturedMesh>')],
  needs="a primitive with texture coordinates whose material has no base-colour image",
  breaks="such primitives lose their texture coordinates and metallic-roughness image",
  demo=MESH + '''
m = TexturedMesh(np.array([0, 1, 2], np.uint32), np.eye(3, dtype=np.float32), np.eye(3, dtype=np.float32),
                 np.array([[0.1, 0.9, 0.1], [0.1, 0.1, 0.9]], np.float32),
                 np.zeros((0, 0, 3), np.uint8), np.full((2, 2, 3), 7, np.uint8))
model = GltfModel()
model.add_mesh(m)
got = model.primitive_meshes()[0]
assert got.is_textured() and got.uv_coords().shape == (2, 3)
'''),
dict(id="c08-third-edge", property="C08",
  edits=[(S + "threedee/Mesh.cpp",
          '        dist(triangle.c, triangle.a) <= threshold) {\n',
          '        dist(triangle.c, triangle.a) < threshold) {\n')],
  needs="a triangle whose closing edge is exactly as long as the threshold",
  breaks="triangles with no edge longer than the threshold are removed",
  demo=MESH + '''
m = Mesh(np.array([0, 1, 2], np.uint32), np.array([[0, 1, 0], [0, 0, 2], [0, 0, 0]], np.float32),
         np.zeros((3, 3), np.float32))
m.cleanup_long_edges(2.5)
assert m.num_indices() == 3
for order in ([0, 1, 2], [1, 2, 0], [2, 0, 1]):
    v = np.array([[0, 2, 0], [0, 0, 1], [0, 0, 0]], np.float32)[:, [0, 1, 2]]
    m = Mesh(np.array(order, np.uint32), np.array([[0, 3, 0], [0, 4, 4], [0, 0, 0]], np.float32),
             np.zeros((3, 3), np.float32))
    m.cleanup_long_edges(5)
    assert m.num_indices() == 3, order
'''),
dict(id="c01-first-bounds", property="C01",
  edits=[(S + "semantic/project_object.py",
          '            bounds = compute_bbox_alg.from_meshes(self.meshes.primitive_meshes())\n',
          '            bounds = compute_bbox_alg.from_mesh(self.meshes.primitive_meshes()[0])\n')],
  needs="a mesh object made of several primitives",
  breaks="the stored bounds of such an object cover its first primitive only",
  demo=MESH + '''
import tempfile
from sumo.semantic.project_object import ProjectObject
from sumo.semantic.project_object_dict import ProjectObjectDict
from sumo.semantic.project_scene import ProjectScene
from sumo.threedee.compute_bbox import ComputeBbox
model = GltfModel()
model.add_mesh(tri(0.0)); model.add_mesh(tri(5.0))
bounds = ComputeBbox().from_gltf_object(model)
o = ProjectObject.gen_meshes_object("a", bounds=bounds, meshes=model)
with tempfile.TemporaryDirectory() as d:
    ProjectScene("meshes", elements=ProjectObjectDict({"a": o})).save(d, "s")
    assert ProjectScene.load(d, "s").elements["a"].bounds.almost_equal(bounds)
'''),
dict(id="c01-numpy-bool", property="C01",
  edits=[(S + "semantic/project_object.py",
          '        evaluated_elem.text = str(self.evaluated)\n',
          '        evaluated_elem.text = "True" if self.evaluated is True else "False"\n')],
  needs="an evaluated flag that was computed with numpy",
  breaks="evaluated objects are stored as not evaluated",
  demo='''
import tempfile
import numpy as np
from sumo.semantic.project_object import ProjectObject
from sumo.semantic.project_object_dict import ProjectObjectDict
from sumo.semantic.project_scene import ProjectScene
from sumo.threedee.box_3d import Box3d
flags = np.array([3, 1]) > 2
o = {str(i): ProjectObject.gen_bounding_box_object(str(i), bounds=Box3d(np.zeros(3), np.ones(3)), evaluated=f)
     for i, f in enumerate(flags)}
with tempfile.TemporaryDirectory() as d:
    ProjectScene("bounding_box", elements=ProjectObjectDict(o)).save(d, "s")
    back = ProjectScene.load(d, "s").elements
    assert back["0"].evaluated == True and back["1"].evaluated == False
'''),
dict(id="c05-grid-origin", property="C05",
  edits=[(S + "semantic/project_converter.py",
          '                bounds = element.voxels.bounds()\n',
          '                bounds = Box3d(element.voxels.min_corner, element.voxels.bounds().max_corner)\n'),
         (S + "semantic/project_converter.py",
          'from sumo.threedee.compute_bbox import ComputeBbox\n',
          'from sumo.threedee.box_3d import Box3d\nfrom sumo.threedee.compute_bbox import ComputeBbox\n')],
  needs="a voxel object whose first occupied cell is not at the origin of its grid",
  breaks="the box of such an object reaches out to the origin of the grid",
  demo='''
import numpy as np
from sumo.semantic.project_converter import ProjectConverter
from sumo.semantic.project_object import ProjectObject
from sumo.threedee.voxel_grid import VoxelGrid
g = VoxelGrid(0.5, np.zeros(3), np.array([[2.1, 1.1, 3.1], [4.1, 1.1, 3.6]]))
o = ProjectObject.gen_voxels_object("a", bounds=g.bounds(), voxels=g)
b = ProjectConverter().convert_element(o, "bounding_box")
assert b.bounds.almost_equal(g.bounds()), b.bounds
'''),
dict(id="c06-short-count", property="C06",
  edits=[(S + "threedee/model_sampler.pyx",
          '    Nsamples_per_face = np.maximum(1, (density*areas)).astype(int)\n',
          '    Nsamples_per_face = np.maximum(1, (density*areas)).astype(np.uint16)\n')],
  needs="a triangle that gets more than 65535 samples",
  breaks="large triangles get far too few samples",
  demo=MESH + '''
from sumo.threedee.model_sampler import ModelSampler
model = GltfModel()
model.add_mesh(tri(0.0, scale=20.0))
points = ModelSampler(400).run(model)
assert points.shape[0] == 80000, points.shape
'''),
dict(id="c16-flat-noise", property="C16",
  edits=[(S + "metrics/utils.py",
          '            if precision[i] > precision[i - 1]:\n'
          '                precision[i - 1] = precision[i]\n'
          '            ap +=',
          '            if precision[i] > precision[i - 1] + 1e-3:\n'
          '                precision[i - 1] = precision[i]\n'
          '            ap +=')],
  needs="neighbouring precisions that differ by less than a thousandth",
  breaks="the area under the curve comes out too small",
  demo='''
import stubs; stubs.install()
import numpy as np
from sumo.metrics import utils
matches = np.array([0] + [1] * 200)
ap, p, r = utils.compute_ap(matches, np.arange(201, 0, -1.0), 200)
want = np.maximum.accumulate((np.cumsum(matches) / np.arange(1, 202))[::-1])[::-1][1:].sum() / 200
assert abs(ap - want) < 1e-9, (ap, want)
'''),
dict(id="c17-acos", property="C17",
  edits=[(S + "metrics/evaluator.py",
          '        errors = [np.sqrt(0.5) *\n'
          '                  np.linalg.norm(logm(np.matmul(det_element.pose.R.R.T, gt_rot.R)))\n'
          '                  for gt_rot in rots_to_check]\n',
          '        errors = [np.arccos(\n'
          '                  (np.trace(np.matmul(det_element.pose.R.R.T, gt_rot.R)) - 1) / 2)\n'
          '                  for gt_rot in rots_to_check]\n')],
  needs="orientations whose trace exceeds three by a rounding error",
  breaks="the rotation error of equal orientations is not a number",
  demo=EVAL + '''
from sumo.metrics.bb_evaluator import BBEvaluator
import math
for k in range(200):
    pose = Pose3(Rot3.Rx(0.1 * k) * Rot3.Ry(0.37 * k) * Rot3.Rz(1.1 * k), np.zeros(3))
    a = box("a", pose=pose)
    e = Evaluator.rotation_error_1(Evaluator.__new__(Evaluator), a, a)
    assert e >= 0 and e < 1e-6, (k, e)
'''),
dict(id="c18-rms-cache", property="C18",
  edits=[(S + "metrics/utils.py",
          '            if gt_id in rmsssd_cache[det_id]:\n'
          '                # get from cache\n'
          '                rmsssd1.append(rmsssd_cache[det_id][gt_id])\n',
          '            if rmsssd_cache[det_id]:\n'
          '                # get from cache\n'
          '                rmsssd1.extend(rmsssd_cache[det_id].values())\n')],
  needs="a detection matched to different objects at different thresholds",
  breaks="the distance of its first match is counted for every threshold",
  demo=EVAL + '''
from types import SimpleNamespace as N
from sumo.metrics import utils
def element(points):
    return N(posed_points=np.array(points, float))
def run():
    sub = N(elements={"d": element([[0, 0, 0]])})
    gt = N(elements={"g": element([[1, 0, 0]]), "h": element([[3, 0, 0]])})
    c = lambda g: {"d": N(gt_id=g, evaluated=True, det_id="d")}
    ev = N(_settings={"thresholds": [0.5, 0.6]}, _agnostic_data_assoc={0.5: c("g"), 0.6: c("h")},
           _submission=sub, _ground_truth=gt)
    return utils.points_rmsssd(ev, sub, gt)
assert abs(run() - 2) < 1e-9, run()
'''),
dict(id="c18-flat-weight", property="C18",
  edits=[(S + "metrics/evaluator.py",
          '                perceptual_score += g_true_obj_scale(det_volume / gt_volume)\n'
          '                max_score += params[\'true_obj_scale\'][\'weight\']\n',
          '                perceptual_score += g_true_obj_scale(det_volume / gt_volume)\n'
          '            max_score += params[\'true_obj_scale\'][\'weight\']\n')],
  needs="a flat evaluated object (no volume) that is detected",
  breaks="a perfect submission does not get the perfect perceptual score",
  demo=EVAL + '''
from sumo.metrics.voxel_evaluator import VoxelEvaluator
def flat(id):
    return ProjectObject.gen_bounding_box_object(
        id, bounds=Box3d(np.zeros(3), np.array([2, 0, 2])), category="floor")
class E(Evaluator):
    def _shape_similarity(self, a, b):
        return 1.0 if a.id == b.id else 0.0
e = E(scene(flat("f")), scene(flat("f")))
assert abs(e.perceptual_score() - 1) < 1e-9, e.perceptual_score()
'''),
dict(id="c19-repeated-column", property="C19",
  edits=[(S + "geometry/rot3.pyx",
          '        if (len(found) != 3):\n',
          '        if (len(base_elem) != 3):\n')],
  needs="a document that gives one column of a rotation twice and another not at all",
  breaks="the missing column is read as zeros",
  demo='''
import xml.etree.ElementTree as ET
from sumo.geometry.rot3 import Rot3
e = ET.fromstring("<rotation><c1>1, 0, 0</c1><c2>0, 1, 0</c2><c2>0, 1, 0</c2></rotation>")
try:
    Rot3.from_xml(e)
except ValueError:
    raise SystemExit(0)
raise SystemExit("accepted")
'''),
dict(id="c23-stored-bounds", property="C23",
  edits=[(S + "metrics/voxel_evaluator.py",
          '        for e in ground_truth.elements.values():\n'
          '            centers = e.voxels.voxel_centers()\n'
          '            e.posed_points = e.pose.transform_all_from(centers.T).T\n'
          '            bbox_corners = e.voxels.bounds().corners()\n',
          '        for e in ground_truth.elements.values():\n'
          '            centers = e.voxels.voxel_centers()\n'
          '            e.posed_points = e.pose.transform_all_from(centers.T).T\n'
          '            bbox_corners = e.bounds.corners()\n')],
  needs="a voxel object to which points were added after it got its bounds",
  breaks="overlapping objects get similarity zero",
  demo=EVAL + '''
from sumo.metrics.voxel_evaluator import VoxelEvaluator
from sumo.threedee.voxel_grid import VoxelGrid
def grid(points):
    return VoxelGrid(0.5, np.zeros(3), np.array(points, float))
def scene1(g, bounds):
    o = ProjectObject.gen_voxels_object("a", bounds=bounds, voxels=g, category="chair")
    return ProjectScene("voxels", elements=ProjectObjectDict({"a": o}))
g = grid([[0.1, 0.1, 0.1]])
old = g.bounds()
g.add_points(np.array([[9.1, 9.1, 9.1]]))
h = grid([[9.1, 9.1, 9.1]])
e = VoxelEvaluator(scene1(h, h.bounds()), scene1(g, old))
a = e._submission.elements["a"]; b = e._ground_truth.elements["a"]
assert abs(e._shape_similarity(a, b) - 2 / 3) < 1e-9, e._shape_similarity(a, b)
'''),
dict(id="c25-space-all", property="C25",
  edits=[("tools/download_sumo_datasets.py",
          '    _, _, remaining_zips, _ = get_zip_file_count(args)\n'
          '\n'
          '    usage =',
          '    remaining_zips, _, _, _ = get_zip_file_count(args)\n'
          '\n'
          '    usage =')],
  needs="a re-run when most of the dataset is already extracted and takes up the disk",
  breaks="the run that would complete the dataset stops for lack of space it does not need",
  demo='''
import importlib.util, os, tempfile
from types import SimpleNamespace as N
import sys, types
sys.modules.setdefault("requests", types.ModuleType("requests"))
spec = importlib.util.spec_from_file_location("dl", os.path.join(os.environ["REPO"], "tools/download_sumo_datasets.py"))
dl = importlib.util.module_from_spec(spec); spec.loader.exec_module(dl)
with tempfile.TemporaryDirectory() as d:
    args = N(destination_dir=d, training_input=["a%d.zip" % i for i in range(20)], training_ground_truth=["b.zip"])
    dl.create_target_folder(args)
    for z in args.training_input:
        with open(os.path.join(args.cache_folder, z[:-4] + ".cache"), "w") as f:
            f.write("complete")
    dl.shutil.disk_usage = lambda p: (0, 0, 20 * 1024 ** 3)
    dl.calculate_disk_space_needed(args)
'''),
dict(id="c13-unnormalized", property="C13",
  edits=[(S + "geometry/quaternion.pyx",
          '    return array_from_matrix3(self.c_ptr_.normalized().matrix())\n',
          '    return array_from_matrix3(self.c_ptr_.toRotationMatrix())\n')],
  needs="a quaternion that is not of unit length",
  breaks="the matrix of such a quaternion is no rotation",
  demo='''
import numpy as np
from sumo.geometry.quaternion import Quaternion
for q in ([2.0, 0, 0, 0], [0.5, 0.5, 0.5, 1.0]):
    R = Quaternion(np.array(q)).to_rotation_matrix()
    assert np.allclose(R.dot(R.T), np.eye(3)), R
'''),
]
