from bugs_4 import S, MESH, EVAL
from bugs_5 import GLTF

BUGS = [
dict(id="c10-wide", property="C10",
  edits=[(S + "images/RgbdTiff.cpp", "  TIFFSetField(tiff, TIFFTAG_IMAGEWIDTH, img.cols);\n",
          "  TIFFSetField(tiff, TIFFTAG_IMAGEWIDTH, static_cast<uint16>(img.cols));\n")],
  needs="an image wider than 65535 pixels",
  breaks="only the first columns (modulo 65536) of a wide image are kept, or it cannot be saved",
  demo='''
import os, tempfile
import numpy as np
from sumo.images.rgbd_360 import Rgbd360
for w in (100, 65535, 65537):
    rgb = np.zeros((2, w, 3), np.uint8); rgb[:, :, 0] = np.arange(w) % 251
    rng = np.ones((2, w), np.float32)
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "a.tif")
        Rgbd360(rgb, rng).save(p)
        back = Rgbd360.load(p)
        assert back.rgb.shape == rgb.shape and np.array_equal(back.rgb, rgb), (w, back.rgb.shape)
'''),
dict(id="c22-stride-max", property="C22",
  edits=[(S + "threedee/tiny_gltf/tiny_gltf.h", "  if ((byteStride > 252) || ((byteStride % 4) != 0)) {\n",
          "  if ((byteStride >= 252) || ((byteStride % 4) != 0)) {\n")],
  needs="a vertex buffer with the largest legal stride, 252 bytes",
  breaks="the legal file is rejected",
  demo=GLTF + '''
v = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0]], np.float32)
for stride in (24, 28, 248, 252):
    blob = bytearray(3 * stride)
    for k in range(3):
        blob[k * stride:k * stride + 12] = v[k].tobytes()
        blob[k * stride + 12:k * stride + 24] = np.array([0, 0, 1], "<f4").tobytes()
    at = len(blob); blob += struct.pack("<3I", 0, 1, 2)
    extra = {"bufferViews": [{"buffer": 0, "byteOffset": 0, "byteLength": at, "byteStride": stride},
                             {"buffer": 0, "byteOffset": 12, "byteLength": at - 12, "byteStride": stride},
                             {"buffer": 0, "byteOffset": at, "byteLength": 12}],
             "buffers": [{"byteLength": len(blob), "uri": "data:application/octet-stream;base64,"
                          + base64.b64encode(bytes(blob)).decode()}]}
    with tempfile.TemporaryDirectory() as d:
        try:
            got = gltf(os.path.join(d, "m.gltf"), v, [0, 1, 2], extra=extra).extract_primitive_mesh(0).vertices().T
        except Exception as e:
            raise SystemExit("stride %d: %s" % (stride, e))
        assert np.array_equal(got, v), (stride, got)
'''),
dict(id="c08-short-index", property="C08",
  edits=[(S + "threedee/Mesh.cpp", "  for (const size_t& index2 : mesh2.indices()) {\n",
          "  for (const unsigned short& index2 : mesh2.indices()) {\n")],
  needs="merging a mesh of more than 65536 vertices",
  breaks="the triangles of the merged mesh refer to other vertices",
  demo=MESH + '''
n = 70000
v = np.zeros((3, n), np.float32); v[0] = np.arange(n)
a = Mesh(np.array([0, 66000, n - 1], np.uint32), v, np.zeros_like(v))
b = tri(5.0)
b.merge(a)
assert b.vertices()[0][b.indices()[3:]].tolist() == [0, 66000, n - 1], b.indices()
'''),
dict(id="c18-elev-sign", property="C18",
  edits=[(S + "metrics/evaluator.py",
          "            elevation_diff = det_element.pose.t[1] - gt_element.pose.t[1]\n",
          "            elevation_diff = gt_element.pose.t[1] - det_element.pose.t[1]\n")],
  needs="settings whose elevation score is not centred at 0",
  breaks="raised objects are scored as lowered ones",
  demo=EVAL + '''
import copy
from sumo.metrics.bb_evaluator import BBEvaluator
def score(dy):
    def make(gt):
        ob = [ProjectObject.gen_bounding_box_object(i, bounds=Box3d(np.zeros(3), np.array([w, 1.0, 1.0])),
                pose=Pose3(t=Vector3(x, 0 if gt or i == "a" else dy, 0)), category=c, score=0.9)
              for i, w, x, c in (("a", 4.0, 0.0, "floor"), ("b", 1.0, 5.0, "chair"))]
        return scene(*ob)
    s = copy.deepcopy(BBEvaluator.default_settings())
    s["thresholds"] = np.array([0.5]); s["categories"] = ["floor", "chair"]
    for k in list(s):
        if "perceptual" in k and isinstance(s[k], dict):
            s[k]["elevation"] = dict(s[k]["elevation"], mean=0.1)
    return BBEvaluator(make(False), make(True), s).perceptual_score()
up, down = score(0.1), score(-0.1)
assert up > down, (up, down)
'''),
dict(id="c15-float32-sim", property="C15",
  edits=[(S + "metrics/evaluator.py",
          "                            similarity=self._shape_similarity(det_element, gt_element),\n",
          "                            similarity=np.float32(self._shape_similarity(det_element, gt_element)),\n")],
  needs="a similarity that lies within single precision of the threshold",
  breaks="pairs below the threshold are matched, pairs at the threshold are not",
  demo=EVAL + '''
class E(Evaluator):
    def _shape_similarity(self, a, b):
        return self.value
def matched(value, thresh):
    E.value = value
    s = dict(Evaluator.default_settings()); s["thresholds"] = np.array([thresh])
    return bool(E(scene(box("d", score=1.0)), scene(box("g")), s)._agnostic_data_assoc[thresh])
for t in (0.5, 0.55, 0.6, 0.7, 0.9, 0.95):
    assert matched(t, t), t
    assert not matched(np.nextafter(t, 0), t), t
'''),
dict(id="c07-material-by-name", property="C07",
  edits=[(S + "threedee/GltfModel.cpp",
          "  this->materials.push_back(material);\n  // Return material id\n  return this->materials.size() - 1;\n}\n\nint getAccessorType",
          "  size_t id = 0; // named materials are shared\n"
          "  while (id < this->materials.size() &&\n"
          "         (name.empty() || this->materials[id].name != name)) {\n"
          "    id++;\n  }\n"
          "  if (id == this->materials.size()) {\n    this->materials.push_back(material);\n  }\n"
          "  // Return material id\n  return id;\n}\n\nint getAccessorType")],
  needs="two coloured materials of the same name",
  breaks="the second primitive shows the colour of the first material",
  demo=MESH + '''
g = GltfModel()
ids = [g.add_colored_material("paint", np.array(c, float), 0.0, 1.0) for c in ((1, 0, 0), (0, 1, 0))]
assert len(set(ids)) == 2, ids
'''),
dict(id="c26-on-line", property="C26",
  edits=[(S + "base/vector.pyx", "    return np.dot(N, np.cross(b-a, p-a)) >= 0\n", "    return np.dot(N, np.cross(b-a, p-a)) > 0\n")],
  needs="a point exactly on the line, or a degenerate line",
  breaks="points on the line are no longer on its left side",
  demo="""
from sumo.base.vector import Vector3, on_left
O = Vector3(0, 0, 0)
for N in (Vector3(0, 0, 1), Vector3(0, 0, -1)):
    for x in (-1.0, 0.0, 0.5, 3.0):
        assert on_left(N, Vector3(x, 0, 0), O, Vector3(1, 0, 0)), x
"""),
dict(id="c26-tiny-unit", property="C26",
  edits=[(S + "base/vector.pyx", "    if (norm != 0):\n", "    if (norm > 1e-12):\n")],
  needs="a very short vector",
  breaks="short vectors keep their length instead of getting length one",
  demo="""
import numpy as np
from sumo.base.vector import Vector3, unitize
for k in (0, -6, -10, -13, -30):
    assert abs(np.linalg.norm(unitize(Vector3(3, -1, 2) * 10.0 ** k)) - 1) < 1e-9, k
"""),
]
