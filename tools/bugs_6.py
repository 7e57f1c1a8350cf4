from bugs_4 import S, MESH, EVAL
from bugs_5 import GLTF

BUGS = [
dict(id="c03-four-strings", property="C03",
  edits=[(S + "semantic/object_symmetry.py", "        if len(strings) != 3:\n", "        if len(strings) < 3:\n")],
  needs="a list of four symmetry texts",
  breaks="the fourth text is silently dropped",
  demo='''
from sumo.semantic.object_symmetry import ObjectSymmetry
for strings in (["none"] * 4, ["none"] * 2, ["none", "twoFold", "none", "bogus"], []):
    try:
        ObjectSymmetry.from_strings(strings)
    except ValueError:
        continue
    raise SystemExit("accepted %r" % (strings,))
'''),
dict(id="c03-y-unknown", property="C03",
  edits=[(S + "semantic/object_symmetry.py",
          'y_symmetry = cls._symmetry_text_to_type.get(elem.text, None)\n',
          'y_symmetry = cls._symmetry_text_to_type.get(elem.text, SymmetryType.none)\n')],
  needs="a document whose y symmetry has an unknown text",
  breaks="an unknown y symmetry is read as none",
  demo='''
import xml.etree.ElementTree as ET
from sumo.semantic.object_symmetry import ObjectSymmetry
for axis in "xyz":
    text = {a: "none" for a in "xyz"}; text[axis] = "eightFold"
    e = ET.fromstring("<symmetry>" + "".join("<%s>%s</%s>" % (a, text[a], a) for a in "xyz") + "</symmetry>")
    try:
        ObjectSymmetry.from_xml(e)
    except RuntimeError:
        continue
    raise SystemExit("accepted for %s" % axis)
'''),
dict(id="c24-zip-order", property="C24",
  edits=[(S + "semantic/project_object_dict.py",
          "        for key in self:\n            if key not in other:\n                return False\n            if not self[key].almost_equal(other[key]):\n                return False\n",
          "        for mine, theirs in zip(self.values(), other.values()):\n            if not mine.almost_equal(theirs):\n                return False\n")],
  needs="two dictionaries with the same objects inserted in another order",
  breaks="they are not almost equal",
  demo=EVAL + '''
a, b = box("a"), box("b", size=3.0)
one = ProjectObjectDict([("a", a), ("b", b)])
two = ProjectObjectDict([("b", b), ("a", a)])
assert one.almost_equal(two) and two.almost_equal(one)
'''),
dict(id="c14-small-move", property="C14",
  edits=[(S + "semantic/project_object.py",
          "            nTo.compose(self.pose), self.category, self.symmetry, self.score,\n",
          "            self.pose if nTo.almost_equal(Pose3(), atol=1e-3) else nTo.compose(self.pose),\n            self.category, self.symmetry, self.score,\n")],
  needs="a move of less than a millimetre and a milliradian",
  breaks="the object does not move",
  demo=EVAL + '''
for t in (1.0, 1e-2, 5e-4, 1e-5):
    moved = box("a", pose=Pose3(t=Vector3(1, 2, 3))).transform_pose(Pose3(t=Vector3(t, 0, 0)))
    assert abs(moved.pose.t[0] - (1 + t)) < 1e-9, (t, moved.pose.t)
'''),
dict(id="c13-small-angle", property="C13",
  edits=[(S + "geometry/rot3.pyx",
          "        return cls(ddt + np.cos(a) * (eye - ddt) + np.sin(a) * skew)\n",
          "        return cls(eye + a * skew if abs(a) < 1e-3 else ddt + np.cos(a) * (eye - ddt) + np.sin(a) * skew)\n")],
  needs="an angle below one milliradian",
  breaks="the result is not a rotation to working precision",
  demo='''
import numpy as np
from sumo.geometry.rot3 import Rot3
for a in (1.0, 1e-2, 9e-4, -5e-4, 1e-5, 0.0):
    for d in np.vstack([np.eye(3), [[0.6, 0.0, 0.8]]]):
        R = Rot3.AxisAngle(d, a).R
        assert np.allclose(R @ R.T, np.eye(3), rtol=0, atol=1e-12), (a, d)
'''),
dict(id="c09-add-empty-alias", property="C09",
  edits=[(S + "threedee/point_cloud.pyx",
          "          return PointCloud.merge(self, other)\n",
          "          return PointCloud.merge(self, other) if other.num_points() > 0 else self\n")],
  needs="a sum with an empty cloud that is changed afterwards",
  breaks="the sum is the first operand itself: appending to it changes the operand",
  demo='''
import numpy as np
from sumo.threedee.point_cloud import PointCloud
a = PointCloud(np.ones((3, 2), np.float64)); e = PointCloud(np.zeros((3, 0), np.float64))
s = a + e
s.append(PointCloud(np.zeros((3, 1), np.float64)))
assert a.num_points() == 2, a.num_points()
'''),
dict(id="c21-grey", property="C21",
  edits=[(S + "threedee/box_3d.pyx",
          "np.reshape(np.resize(color, (4, 3)), (2, 2, 3))\n",
          "np.reshape(np.full((4, 3), color[0], dtype=np.uint8), (2, 2, 3))\n")],
  needs="a colour that is not grey",
  breaks="the textured box is grey",
  demo='''
import numpy as np
from sumo.threedee.box_3d import Box3d
for color in ([71, 57, 8], [0, 0, 255], [255, 255, 255]):
    t = Box3d(np.zeros(3), np.ones(3)).to_textured_mesh(color=np.array(color, np.uint8))
    got = t.base_color()
    assert got.shape == (2, 2, 3) and (got == color).all(), (color, got)
'''),
dict(id="c01-id-strip", property="C01",
  edits=[(S + "semantic/project_object.py", "                id = elem.text\n", "                id = elem.text.strip() if elem.text else None\n")],
  needs="an id that starts or ends with a blank",
  breaks="the id comes back without the blank",
  demo=EVAL + '''
import tempfile
for id in ("a", " a", "a ", " a b ", "\\u00a0"):
    with tempfile.TemporaryDirectory() as d:
        scene(box(id)).save(d, "p")
        got = list(ProjectScene.load(d, "p").elements)
        assert got == [id], (id, got)
'''),
dict(id="c17-close-zero", property="C17",
  edits=[(S + "metrics/evaluator.py",
          "        return min(errors)\n",
          "        return min(errors) if min(errors) > 1e-3 else 0.0\n")],
  needs="a rotation error below a milliradian",
  breaks="a small rotation error is reported as 0",
  demo=EVAL + '''
class E(Evaluator):
    def _shape_similarity(self, a, b):
        return 0.9
e = E(scene(box("a", score=1.0)), scene(box("b")))
for axis in (Rot3.Rx, Rot3.Ry, Rot3.Rz):
    for angle in (0.1, 9e-4, 1e-4):
        got = e.rotation_error_1(box("d", pose=Pose3(R=axis(angle))), box("g"))
        assert abs(got - angle) < 1e-7, (angle, got)
'''),
dict(id="c18-missed-floor", property="C18",
  edits=[(S + "metrics/evaluator.py",
          "            if gt_element.evaluated:\n                perceptual_score -= missed_weight * gt_element.bounds.volume()\n",
          "            if gt_element.evaluated and gt_element.category != 'floor':\n                perceptual_score -= missed_weight * gt_element.bounds.volume()\n")],
  needs="a missed object of category floor",
  breaks="it costs nothing",
  demo=EVAL + '''
class E(Evaluator):
    def _shape_similarity(self, a, b):
        return 0.9 if (a.id, b.id) in (("d", "g"), ("f", "f")) else 0.0
def penalty(category):
    gt = scene(box("g"), box("f", "floor"), box("m", category, size=0.5))
    e = E(scene(box("d", score=1.0), box("f", "floor", score=1.0)), gt)
    c = {"d": type("C", (), dict(det_id="d", gt_id="g"))}
    return e._perceptual_score_1(c, set(), set(), False) - e._perceptual_score_1(c, {"m"}, set(), False)
assert penalty("chair") > 0 and abs(penalty("chair") - penalty("floor")) < 1e-9, (penalty("chair"), penalty("floor"))
'''),
dict(id="c15-close-sim", property="C15",
  edits=[(S + "metrics/evaluator.py",
          "    corrs.sort(key=lambda corr: corr.similarity)\n",
          "    corrs.sort(key=lambda corr: round(corr.similarity, 3))\n")],
  needs="two candidates whose similarities differ in the fourth place",
  breaks="the detection is matched with the less similar object",
  demo=EVAL + '''
def match(sims):
    class E(Evaluator):
        def _shape_similarity(self, a, b):
            return sims[b.id]
    e = E(scene(box("d", score=1.0)), scene(*[box(g) for g in sims]))
    return e._agnostic_data_assoc[0.5]["d"].gt_id
assert match({"a": 0.80004, "b": 0.80001}) == "a"
assert match({"a": 0.80001, "b": 0.80004}) == "b"
assert match({"a": 0.9, "b": 0.8}) == "a"
'''),
dict(id="c20-strip-name", property="C20",
  edits=[(S + "base/colored_category.pyx",
          "        return self._reverse_data[category_name]\n",
          "        return self._reverse_data[category_name.strip()]\n"),
         (S + "base/colored_category.pyx",
          "        if category_name not in self._reverse_data:\n",
          "        if category_name.strip() not in self._reverse_data:\n")],
  needs="a name that differs from a category by blanks around it",
  breaks="an unknown name gets a colour instead of KeyError",
  demo='''
import os, tempfile
from sumo.base.colored_category import ColoredCategory
c = ColoredCategory(os.path.join(os.environ["REPO"], "sumo-api/sumo/base/test_data/categories.csv"))
assert tuple(c.category_name_to_rgb("shoes")) == (205, 145, 158)
for bad in (" shoes", "shoes ", "\\tshoes"):
    try:
        c.category_name_to_rgb(bad)
    except KeyError:
        continue
    raise SystemExit("accepted %r" % bad)
'''),
dict(id="c19-default-translation", property="C19",
  edits=[(S + "geometry/pose3.pyx",
          "        translation = rotation = None\n\n        # Parse the child tags\n        for elem in node:\n            if (elem.tag == 'translation'):\n",
          "        rotation = None\n        translation = Vector3(0, 0, 0)\n\n        # Parse the child tags\n        for elem in node:\n            if (elem.tag == 'translation'):\n")],
  needs="a document in which a pose has no translation",
  breaks="the object is loaded at the origin instead of rejected",
  demo=EVAL + '''
import os, re, tempfile
with tempfile.TemporaryDirectory() as d:
    scene(box("a", pose=Pose3(t=Vector3(1, 2, 3)))).save(d, "p")
    f = os.path.join(d, "p", "p.xml")
    s = open(f).read()
    t = re.sub("<translation>.*?</translation>", "", s, flags=re.S)
    assert s != t
    open(f, "w").write(t)
    try:
        ProjectScene.load(d, "p")
    except (ValueError, RuntimeError):
        pass
    else:
        raise SystemExit("accepted")
'''),
dict(id="c22-base64-slash", property="C22",
  edits=[(S + "threedee/tiny_gltf/tiny_gltf.h",
          "  return (isalnum(c) || (c == '+') || (c == '/'));\n",
          "  return (isalnum(c) || (c == '+') || (c == '-') || (c == '_'));\n")],
  needs="embedded data whose base64 text contains a slash",
  breaks="the data ends at the first slash",
  demo=GLTF + '''
v = np.frombuffer(b"\\xff\\xff\\x7f\\x3f" * 9, "<f4").reshape(3, 3).copy()
v[1] *= 2; v[2] *= -3
assert "/" in base64.b64encode(v.tobytes()).decode()
with tempfile.TemporaryDirectory() as d:
    m = gltf(os.path.join(d, "m.gltf"), v, [0, 1, 2])
    got = m.extract_primitive_mesh(0).vertices().T
    assert np.array_equal(got, v), got
'''),
dict(id="c07-accessor-offset", property="C07",
  edits=[(S + "threedee/tiny_gltf/tiny_gltf.h",
          "  if (accessor.byteOffset != 0.0)\n",
          "  if (accessor.byteOffset != 0.0 && accessor.bufferView < 0)\n")],
  needs="a model from elsewhere with interleaved vertices that is loaded and saved again",
  breaks="all attributes of the saved file start at the same byte",
  demo=GLTF + '''
pos = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0]], "<f4")
nor = np.array([[0, 0, 1]] * 3, "<f4")
inter = np.hstack([pos, nor]).astype("<f4").tobytes()
idx = struct.pack("<3I", 0, 1, 2)
blob = inter + idx
doc = {"asset": {"version": "2.0"}, "scene": 0, "scenes": [{"nodes": [0]}], "nodes": [{"mesh": 0}],
  "meshes": [{"primitives": [{"attributes": {"POSITION": 0, "NORMAL": 1}, "indices": 2, "material": 0, "mode": 4}]}],
  "materials": [{"name": "m"}],
  "accessors": [{"bufferView": 0, "byteOffset": 0, "componentType": 5126, "count": 3, "type": "VEC3", "min": [0, 0, 0], "max": [1, 1, 0]},
                {"bufferView": 0, "byteOffset": 12, "componentType": 5126, "count": 3, "type": "VEC3"},
                {"bufferView": 1, "componentType": 5125, "count": 3, "type": "SCALAR"}],
  "bufferViews": [{"buffer": 0, "byteOffset": 0, "byteLength": len(inter), "byteStride": 24},
                  {"buffer": 0, "byteOffset": len(inter), "byteLength": 12}],
  "buffers": [{"byteLength": len(blob), "uri": "data:application/octet-stream;base64," + base64.b64encode(blob).decode()}]}
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "in.gltf")
    json.dump(doc, open(f, "w"))
    m = GltfModel.load_from_gltf(f)
    assert np.array_equal(m.extract_primitive_mesh(0).normals().T, nor)
    for ext in ("gltf", "glb"):
        g = os.path.join(d, "out." + ext)
        m.save_as_glb(g) if ext == "glb" else m.save_as_gltf(d, "out")
        again = getattr(GltfModel, "load_from_" + ext)(g).extract_primitive_mesh(0)
        assert np.array_equal(again.vertices().T, pos) and np.array_equal(again.normals().T, nor), ext
'''),
]
